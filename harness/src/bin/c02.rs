//! C02: the command line does what it is asked, or refuses and leaves nothing behind.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{load_game, save_game, Agent, Game};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use tch::Tensor;
use vh::cli::{self, Ran};
use vh::net::{vars, Conf};
use vh::work::Source;
use vh::*;

fn files(d: &Path) -> BTreeMap<PathBuf, u64> {
    let mut m = BTreeMap::new();
    if let Ok(it) = std::fs::read_dir(d) {
        for e in it.flatten() {
            if e.path().is_dir() {
                m.extend(files(&e.path()));
            } else {
                m.insert(e.path(), hash_of(&std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    m
}

fn flag<G: LearnableGame>() -> &'static str {
    if G::name() == TicTacToe::name() { "tic-tac-toe" } else { "backgammon" }
}

/// A network that plays the squares in a fixed order of preference.
fn prefers(r: &mut Rng, order: &[usize]) -> ResNet {
    let n = net::net::<TicTacToe>(r, 1.0);
    let _g = tch::no_grad_guard();
    for (_, mut t) in n.vs.variables() {
        let s = t.size();
        if s.len() == 2 && s[0] == 9 {
            let _ = t.zero_();
        } else if s == [9] {
            let mut b = [-12f32; 9];
            for (k, &i) in order.iter().enumerate() {
                b[i] = 3.0 - 3.0 * k as f32;
            }
            t.copy_(&Tensor::from_slice(&b));
        }
    }
    n
}

fn number(out: &str, label: &str) -> Option<f64> {
    out.lines().rev().find_map(|l| l.trim().strip_prefix(label)?.trim_start_matches(':').trim().trim_end_matches('%').parse().ok())
}

struct Side {
    kind: &'static str,
    model: Option<PathBuf>,
}
fn side(kind: &'static str, model: Option<&Path>) -> Side {
    Side { kind, model: model.map(|p| p.to_path_buf()) }
}

fn play_args<G: LearnableGame>(r: &mut Rng, a: &Side, b: &Side, out: &str) -> Vec<String> {
    let mut v: Vec<Vec<String>> = vec![
        vec![if r.chance(0.5) { "--agent-one" } else { "-a" }.into(), a.kind.into()],
        vec!["--agent-two".into(), b.kind.into()],
        vec![if r.chance(0.5) { "--output-path" } else { "-o" }.into(), out.into()],
    ];
    if let Some(m) = &a.model {
        v.push(vec![if r.chance(0.5) { "--model-path-one" } else { "-m" }.into(), m.to_string_lossy().to_string()]);
    }
    if let Some(m) = &b.model {
        v.push(vec!["--model-path-two".into(), m.to_string_lossy().to_string()]);
    }
    r.shuffle(&mut v);
    let head = ["-c", "conf.toml", "-g", flag::<G>(), "play"];
    head.iter().map(|s| s.to_string()).chain(v.into_iter().flatten()).collect()
}

fn call(d: &Path, args: &[String], stdin: &str) -> Ran {
    cli::run(d, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), stdin, 300)
}

fn agent(k: &str) -> &'static str {
    match k.to_lowercase().as_str() {
        "random" => "Random",
        "mcts" => "Mcts",
        _ => "Model",
    }
}

/// `wins`: (games won by player one, by player two) where they are certain
fn play<G: LearnableGame>(c: &mut Check, r: &mut Rng, a: Side, b: Side, cfg: &Conf, certain: Option<(usize, usize)>) {
    if c.out_of_time() || c.full() {
        return;
    }
    let s = Scratch::new("c02");
    let d = s.path();
    std::fs::write(d.join("conf.toml"), cfg.toml()).unwrap();
    let out = *r.pick(&["games", "deep/er/games", "with space"]);
    std::fs::create_dir_all(d.join(out)).unwrap();
    std::fs::write(d.join(out).join("keep.json"), "{}").unwrap();
    let args = play_args::<G>(r, &a, &b, out);
    let before = files(d);
    let ran = call(d, &args, "");
    let wit = json!({"args": args, "conf": cfg.toml(), "output": ran.tail()});
    c.eval();
    c.count("matches", 1);
    c.nontrivial(hash_of(&args));
    if !ran.ok {
        c.violation("play", &format!("play fails: {}", ran.tail()), wit);
        return;
    }
    let mut after = files(d);
    let fresh: Vec<PathBuf> = after.keys().filter(|p| !before.contains_key(*p)).cloned().collect();
    let odd: Vec<String> = fresh.iter().filter(|p| p.parent() != Some(&d.join(out)) || p.extension().is_none_or(|e| e != "json")).map(|p| p.display().to_string()).collect();
    for p in &fresh {
        after.remove(p);
    }
    if after != before || !odd.is_empty() {
        c.violation("play-files", "play changes files other than the saved games", json!({"files": odd, "run": wit}));
    }
    if fresh.len() != 400 {
        c.violation("play-saved", &format!("of a match of 400 games {} are saved", fresh.len()), wit.clone());
    }
    let mut winners: BTreeMap<String, usize> = BTreeMap::new();
    let mut ids = BTreeSet::new();
    let mut begins = 0;
    for p in &fresh {
        let v: Value = match guarded(|| load_game::<G>(p.clone()).map(|g| serde_json::to_value(&g).unwrap()).map_err(|e| e.to_string())) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => {
                c.violation("play-load", &format!("a saved game does not load: {e}"), wit.clone());
                continue;
            }
            Err(e) => {
                c.violation("play-load", &e.text(), wit.clone());
                continue;
            }
        };
        c.count("games", 1);
        *winners.entry(v["winner"].as_str().unwrap_or("?").into()).or_default() += 1;
        ids.insert(v["id"].to_string());
        if v["player1"] != json!(agent(a.kind)) || v["player2"] != json!(agent(b.kind)) {
            c.violation("play-names", "a saved game names other players than asked for", json!({"game": v, "run": wit}));
        }
        if let Ok(g) = serde_json::from_value::<G>(v["initial_state"].clone()) {
            begins += (g.get_player() == -1) as usize;
        }
    }
    if fresh.len() == 400 && begins != 200 {
        c.violation("play-begin", &format!("player one begins {begins} of 400 games"), wit.clone());
    }
    if ids.len() != fresh.len() {
        c.violation("play-ids", "saved games share an id", wit.clone());
    }
    let said = ["Wins Player 1", "Wins Player 2", "Draws", "Number of Games", "Winrate"].map(|l| number(&ran.out, l).unwrap_or(-1.0));
    if said[0] + said[1] + said[2] != 400.0 || said[3] != 400.0 || (said[4] - said[0] / 4.0).abs() > 0.01 {
        c.violation("play-tally", &format!("the printed tallies {said:?} do not add up to 400 games"), wit.clone());
    }
    if agent(a.kind) != agent(b.kind) {
        let kept = [agent(a.kind), agent(b.kind), "None"].map(|k| winners.get(k).copied().unwrap_or(0) as f64);
        if kept[..] != said[..3] {
            c.violation("play-told", &format!("printed {said:?}, saved games say {kept:?}"), wit.clone());
        }
        c.count("tallies_compared", 1);
    }
    if let Some((x, y)) = certain {
        c.count("certain_matches", 1);
        if (said[0], said[1]) != (x as f64, y as f64) {
            c.violation("play-models", &format!("player one's model wins {x} and loses {y} games against player two's, printed is {} and {}", said[0], said[1]), wit);
        }
    }
}

/// Matches through the program against the same matches played directly: at a low temperature
/// the result is the same one each time, at a high one it is spread.
fn temperature(c: &mut Check, r: &mut Rng, n: usize) {
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let s = Scratch::new("c02t");
        let d = s.path();
        let path = |i: usize| d.join(format!("{i}.ot"));
        let load = |i: usize| Some(ResNet::from_path::<TicTacToe>(&path(i)));
        let direct = |cfg: &Conf, t: f64| {
            let res = guarded(|| die_e::versus::play::<TicTacToe>(die_e::versus::Player { player_type: Agent::Model, model: load(0) }, die_e::versus::Player { player_type: Agent::Model, model: load(1) }, &cfg.mcts(), t));
            res.ok().map(|x| [x.wins_p1, x.wins_p2, x.draws])
        };
        let temp = [0.02, 40.0, 0.4, 0.01][k % 4];
        let mut found = None;
        // at the low temperatures: networks whose match ends differently at a five times higher one
        for _ in 0..if temp < 0.1 { 6 } else { 1 } {
            for i in 0..2 {
                net::net::<TicTacToe>(r, 2.0).vs.save(path(i)).unwrap();
            }
            let cfg = Conf { iterations: 11, dirichlet_epsilon: 0.0, temperature: temp, ..Conf::default() };
            let (Some(a), Some(b)) = (direct(&cfg, temp), direct(&cfg, temp)) else { continue };
            let told = temp < 0.1 && direct(&cfg, 5.0 * temp).is_some_and(|x| (0..3).any(|i| x[i].abs_diff(a[i]) > 25)) && a == b;
            c.count("temperature_told", told as u64);
            found = Some((cfg, a, b));
            if told {
                break;
            }
        }
        let Some((cfg, a, b)) = found else { continue };
        std::fs::write(d.join("conf.toml"), cfg.toml()).unwrap();
        std::fs::create_dir_all(d.join("games")).unwrap();
        let args = play_args::<TicTacToe>(r, &side("model", Some(&path(0))), &side("model", Some(&path(1))), "games");
        let ran = call(d, &args, "");
        let said = ["Wins Player 1", "Wins Player 2", "Draws"].map(|l| number(&ran.out, l).unwrap_or(-1.0));
        let wit = json!({"args": args, "conf": cfg.toml(), "direct": [a, b], "output": ran.tail()});
        c.eval();
        c.count("temperature_matches", 1);
        c.nontrivial(hash_of(&("temperature", k, a)));
        if !ran.ok {
            c.violation("play", &format!("play fails: {}", ran.tail()), wit);
            return;
        }
        // always the same game, or shares of 400 games within six standard deviations of 800
        let certain = a == b && a.iter().all(|x| x % 200 == 0);
        c.count(if certain { "temperature_certain" } else { "temperature_spread" }, 1);
        for i in 0..3 {
            let p = (a[i] + b[i]) as f64 / 800.0;
            let sd = (400.0 * p * (1.0 - p) * 1.5).sqrt();
            let far = (said[i] - 400.0 * p).abs();
            if far > 6.0 * sd + 12.0 {
                c.violation("play-temperature", &format!("with temperature {} a match printed {said:?}; the same match played directly: {a:?}, {b:?}", cfg.temperature), wit.clone());
                break;
            }
        }
    }
}

/// the number of processors: as many as there are, or fewer
fn processors(c: &mut Check) {
    let n = std::thread::available_parallelism().map_or(1, |n| n.get());
    for k in [1, n, n.div_ceil(2)] {
        if c.full() {
            return;
        }
        let s = Scratch::new("c02n");
        let d = s.path();
        std::fs::write(d.join("conf.toml"), Conf::default().toml()).unwrap();
        std::fs::create_dir_all(d.join("out")).unwrap();
        let k = k.to_string();
        let ran = cli::run(d, &["-c", "conf.toml", if k == "1" { "--n-cpus" } else { "-n" }, &k, "-g", "tic-tac-toe", "play", "-a", "random", "--agent-two", "random", "-o", "out"], "", 120);
        c.eval();
        c.count("processors", 1);
        if !ran.ok || files(&d.join("out")).len() != 400 {
            c.violation("processors", &format!("a match on {k} of {n} processors fails: {}", ran.tail()), json!({"n": k}));
        }
    }
}

/// files that can only be written in part, or not at all
fn cramped(c: &mut Check, r: &mut Rng) {
    let s = Scratch::new("c02f");
    let d = s.path();
    let cfg = Conf { iterations: 2, simulate_round_limit: 20, num_self_play_batches: 2, ..Conf::default() };
    std::fs::write(d.join("conf.toml"), cfg.toml()).unwrap();
    std::fs::create_dir_all(d.join("out")).unwrap();
    let model = net::net::<TicTacToe>(r, 1.0);
    model.vs.save(d.join("given.ot")).unwrap();
    let size = std::fs::metadata(d.join("given.ot")).unwrap().len() / 1024;
    let head = |rest: &[&'static str]| -> Vec<&'static str> { ["-c", "conf.toml", "-g", "tic-tac-toe"].into_iter().chain(rest.iter().copied()).collect() };
    // first without a limit, so that there is something to train on
    let plain = cli::run(d, &head(&["learn", "-m", "given.ot"]), "", 200);
    if !plain.ok {
        c.violation("learn", &format!("learn fails: {}", plain.tail()), json!({"conf": cfg.toml()}));
        return;
    }
    for (what, args, room) in [
        ("play", head(&["play", "-a", "random", "--agent-two", "random", "-o", "out"]), 0),
        ("train", head(&["train", "-m", "given.ot", "-o", "t.ot"]), 8),
        ("train", head(&["train", "-m", "given.ot", "-o", "t.ot"]), size as u32 - 4),
        ("learn", head(&["learn", "-m", "given.ot"]), 1),
        ("learn", head(&["learn", "-m", "given.ot"]), size as u32 / 2),
    ] {
        let Some(ok) = cli::run_cramped(d, &args, room, 200) else {
            c.count("cramped_not_judged", 1);
            continue;
        };
        c.eval();
        c.count("cramped", 1);
        c.nontrivial(hash_of(&(what, room)));
        if ok {
            c.violation(&format!("cramped-{what}"), &format!("{what} ends without an error although its files cannot be written (at most {room} kB each)"), json!({"args": args, "room": room}));
        }
    }
}

/// a request that must be refused without a trace
fn refuse(c: &mut Check, what: &str, d: &Path, args: &[&str]) {
    if c.full() {
        return;
    }
    let before = files(d);
    let ran = cli::run(d, args, "\n\n\n", 120);
    c.eval();
    c.count("refused", 1);
    c.nontrivial(hash_of(&(what, args)));
    let wit = json!({"args": args, "output": ran.tail()});
    if ran.ok {
        c.violation(&format!("refuse-{what}"), &format!("{what}: the request is carried out (exit 0)"), wit.clone());
    } else if !ran.ended {
        c.violation(&format!("refuse-{what}"), &format!("{what}: the program goes on"), wit.clone());
    }
    if files(d) != before {
        c.violation(&format!("refuse-{what}-files"), &format!("{what}: files appear or change"), wit);
    }
}

fn refusals(c: &mut Check, r: &mut Rng) {
    let s = Scratch::new("c02");
    let d = s.path();
    let cfg = Conf { iterations: 2, simulate_round_limit: 20, num_self_play_batches: 2, ..Conf::default() };
    std::fs::write(d.join("conf.toml"), cfg.toml()).unwrap();
    std::fs::create_dir_all(d.join("out")).unwrap();
    std::fs::write(d.join("file"), "x").unwrap();
    std::fs::write(d.join("bad.toml"), "temperature = = 1").unwrap();
    net::net::<TicTacToe>(r, 1.0).vs.save(d.join("ttt.ot")).unwrap();
    net::net::<Backgammon>(r, 1.0).vs.save(d.join("bg.ot")).unwrap();
    let whole = std::fs::read(d.join("ttt.ot")).unwrap();
    std::fs::write(d.join("cut.ot"), &whole[..whole.len() / 2]).unwrap();
    for g in ["tic-tac-toe", "backgammon"] {
        let p = |rest: &[&'static str]| -> Vec<&'static str> { ["-c", "conf.toml", "-g", g, "play"].into_iter().map(|s| if s == g { if g == "backgammon" { "backgammon" } else { "tic-tac-toe" } } else { s }).chain(rest.iter().copied()).collect() };
        refuse(c, "no agents", d, &p(&["-o", "out"]));
        refuse(c, "no agent two", d, &p(&["-a", "random", "-o", "out"]));
        refuse(c, "no agent one", d, &p(&["--agent-two", "random", "-o", "out"]));
        refuse(c, "unknown agent", d, &p(&["-a", "human", "--agent-two", "random", "-o", "out"]));
        refuse(c, "unknown agent two", d, &p(&["-a", "random", "--agent-two", "modell", "-o", "out"]));
        refuse(c, "empty agent", d, &p(&["-a", "", "--agent-two", "random", "-o", "out"]));
        refuse(c, "no output", d, &p(&["-a", "random", "--agent-two", "random"]));
        refuse(c, "output missing", d, &p(&["-a", "random", "--agent-two", "random", "-o", "nowhere"]));
        refuse(c, "output is a file", d, &p(&["-a", "random", "--agent-two", "random", "-o", "file"]));
        refuse(c, "output takes no files", d, &p(&["-a", "random", "--agent-two", "random", "-o", "/proc"]));
        refuse(c, "model agent without model", d, &p(&["-a", "model", "--agent-two", "random", "-o", "out"]));
        let own: &'static str = if g == "backgammon" { "bg.ot" } else { "ttt.ot" };
        refuse(c, "two models, only the first given", d, &p(&["-a", "model", "-m", own, "--agent-two", "model", "-o", "out"]));
        refuse(c, "two models, only the second given", d, &p(&["-a", "model", "--agent-two", "model", "--model-path-two", own, "-o", "out"]));
        refuse(c, "the model given to the other side", d, &p(&["-a", "model", "--agent-two", "random", "--model-path-two", own, "-o", "out"]));
        refuse(c, "the model given to side one", d, &p(&["-a", "mcts", "-m", own, "--agent-two", "model", "-o", "out"]));
        refuse(c, "model agent two without model", d, &p(&["-a", "random", "--agent-two", "model", "-o", "out"]));
        refuse(c, "model missing", d, &p(&["-a", "model", "-m", "no.ot", "--agent-two", "random", "-o", "out"]));
        refuse(c, "model cut off", d, &p(&["-a", "random", "--agent-two", "model", "--model-path-two", "cut.ot", "-o", "out"]));
        refuse(c, "model of another game", d, &p(&["-a", "model", "-m", if g == "backgammon" { "ttt.ot" } else { "bg.ot" }, "--agent-two", "random", "-o", "out"]));
        refuse(c, "too many cpus", d, &["-c", "conf.toml", "-n", "1000000", "-g", g, "play", "-a", "random", "--agent-two", "random", "-o", "out"]);
        refuse(c, "no configuration", d, &["-c", "none.toml", "-g", g, "play", "-a", "random", "--agent-two", "random", "-o", "out"]);
        refuse(c, "unreadable configuration", d, &["-c", "bad.toml", "-g", g, "play", "-a", "random", "--agent-two", "random", "-o", "out"]);
        refuse(c, "default configuration missing", d, &["-g", g, "play", "-a", "random", "--agent-two", "random", "-o", "out"]);
        refuse(c, "replay nothing", d, &["-c", "conf.toml", "-g", g, "replay", "-g", "none.json"]);
        refuse(c, "replay no game", d, &["-c", "conf.toml", "-g", g, "replay", "-g", "conf.toml"]);
        refuse(c, "learn from a missing model", d, &["-c", "conf.toml", "-g", g, "learn", "-m", "no.ot"]);
        refuse(c, "learn from a damaged model", d, &["-c", "conf.toml", "-g", g, "learn", "-m", "cut.ot"]);
    }
    refuse(c, "no game", d, &["-c", "conf.toml", "play", "-a", "random", "--agent-two", "random", "-o", "out"]);
    refuse(c, "unknown game", d, &["-c", "conf.toml", "-g", "chess", "play", "-a", "random", "--agent-two", "random", "-o", "out"]);
    refuse(c, "no command", d, &["-c", "conf.toml", "-g", "backgammon"]);
    refuse(c, "unknown command", d, &["-c", "conf.toml", "-g", "backgammon", "watch"]);
    refuse(c, "replay without a game", d, &["-c", "conf.toml", "-g", "backgammon", "replay"]);
    // settings a command needs
    for key in ["temperature", "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon"] {
        let t: String = cfg.toml().lines().filter(|l| !l.starts_with(key)).map(|l| format!("{l}\n")).collect();
        std::fs::write(d.join("conf.toml"), t).unwrap();
        refuse(c, &format!("play without {key}"), d, &["-c", "conf.toml", "-g", "tic-tac-toe", "play", "-a", "random", "--agent-two", "random", "-o", "out"]);
        refuse(c, &format!("learn without {key}"), d, &["-c", "conf.toml", "-g", "tic-tac-toe", "learn"]);
    }
    for key in ["learn_iterations", "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches", "lr", "wd"] {
        let t: String = cfg.toml().lines().filter(|l| !l.starts_with(key)).map(|l| format!("{l}\n")).collect();
        std::fs::write(d.join("conf.toml"), t).unwrap();
        refuse(c, &format!("learn without {key}"), d, &["-c", "conf.toml", "-g", "tic-tac-toe", "learn"]);
    }
}

fn replay<G: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    let all = [Agent::Random, Agent::Mcts, Agent::Model, Agent::None];
    for _ in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let s = Scratch::new("c02");
        let d = s.path();
        std::fs::write(d.join("conf.toml"), Conf::default().toml()).unwrap();
        std::fs::create_dir_all(d.join("g")).unwrap();
        let start = G::random(r);
        let mut g = Game::new(r.pick(&all).clone(), r.pick(&all).clone(), start);
        g.winner = r.pick(&all).clone();
        let v = serde_json::to_value(&g).unwrap();
        if save_game(&g, d.join("g").to_str().unwrap()).is_err() {
            c.violation("save", "a game cannot be saved", v);
            return;
        }
        let before = files(d);
        let path = before.keys().find(|p| p.starts_with(d.join("g"))).unwrap().to_string_lossy().to_string();
        let ran = cli::run(d, &["-c", "conf.toml", "-g", flag::<G>(), "replay", if r.chance(0.5) { "--game-path" } else { "-g" }, &path], "\n\n\n\n", 60);
        c.eval();
        c.count("replays", 1);
        let wit = json!({"game": v, "output": ran.out, "error": ran.err});
        let t = |k: &str| v[k].as_str().unwrap_or("?").to_string();
        let squeeze = |s: &str| s.lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n");
        let board = squeeze(start.to_pretty_str().trim_end());
        let lines: Vec<&str> = ran.out.lines().collect();
        let has = |f: &dyn Fn(&str) -> bool| lines.iter().any(|l| f(l));
        let ok = ran.ok
            && ran.out.contains(&t("id"))
            && has(&|l| {
                let (a, b) = (l.find("Player 1"), l.find("Player 2"));
                matches!((a, b), (Some(a), Some(b)) if a < b && l[a..b].contains(&t("player1")) && l[b..].contains(&t("player2")))
            })
            && has(&|l| l.to_lowercase().contains("winner") && l.contains(&t("winner")))
            && squeeze(&ran.out).contains(&board);
        if !ok {
            c.violation("replay", "replay does not show the saved game (id, players, winner, first position)", wit.clone());
        }
        if files(d) != before {
            c.violation("replay-files", "replay changes files", wit);
        }
    }
}

fn weights(p: &Path) -> Option<BTreeMap<String, Vec<f32>>> {
    guarded(|| vars(&ResNet::from_path::<TicTacToe>(&p.to_path_buf()).vs)).ok().map(|m| m.into_iter().filter(|(k, _)| !k.contains("running")).collect())
}

fn learn(c: &mut Check, r: &mut Rng, n: usize) {
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let s = Scratch::new("c02");
        let d = s.path();
        // nothing is learned at rate 0, so what comes out is what it started from
        let cfg = Conf { learn_iterations: 1 + k % 2, self_play_iterations: 1 + k / 2 % 2, iterations: 2, num_self_play_batches: 2 + k % 3, lr: 0.0, wd: 0.0, ..Conf::default() };
        std::fs::write(d.join("conf.toml"), cfg.toml()).unwrap();
        let (given, best) = (net::net::<TicTacToe>(r, 1.0), net::net::<TicTacToe>(r, 1.0));
        given.vs.save(d.join("given.ot")).unwrap();
        let models = d.join("models").join(TicTacToe::name());
        let with_best = k % 2 == 0;
        if with_best {
            std::fs::create_dir_all(&models).unwrap();
            best.vs.save(models.join("best_model.ot")).unwrap();
        }
        let pass = k % 3 != 0;
        let mut args: Vec<String> = ["-c", "conf.toml", "-g", "tic-tac-toe", "-n", "2", "learn"].iter().map(|s| s.to_string()).collect();
        if pass {
            args.extend([if r.chance(0.5) { "--model-path" } else { "-m" }.to_string(), "given.ot".into()]);
        }
        let ran = call(d, &args, "");
        let wit = json!({"args": args, "conf": cfg.toml(), "best_model": with_best, "output": ran.tail()});
        c.eval();
        c.count("learnings", 1);
        if !ran.ok {
            c.violation("learn", &format!("learn fails: {}", ran.tail()), wit);
            continue;
        }
        let runs: Vec<PathBuf> = std::fs::read_dir(d.join("data").join(TicTacToe::name())).map(|i| i.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        let all = files(&d.join("data"));
        let mut want = BTreeSet::new();
        for l in 0..cfg.learn_iterations {
            for p in 0..cfg.self_play_iterations {
                for f in ["ps.ot", "states.ot", "outcomes.ot"] {
                    if let Some(run) = runs.first() {
                        want.insert(run.join(format!("lrn-{l}/sp-{p}/{f}")));
                    }
                }
            }
        }
        if runs.len() != 1 || all.keys().cloned().collect::<BTreeSet<_>>() != want {
            c.violation("learn-data", "learn does not leave one run with the data of each self-play", json!({"files": all.keys().collect::<Vec<_>>(), "run": wit}));
        }
        let base = if pass { weights(&d.join("given.ot")) } else if with_best { Some(vars(&best.vs).into_iter().filter(|(k, _)| !k.contains("running")).collect()) } else { None };
        for l in 0..cfg.learn_iterations {
            let got = weights(&models.join(format!("model_{l}.ot")));
            if got.is_none() {
                c.violation("learn-model", &format!("iteration {l} leaves no model"), wit.clone());
            } else if base.is_some() && got != base {
                c.violation("learn-from", &format!("learning does not start from the {} model", if pass { "given" } else { "best" }), wit.clone());
            } else {
                c.count("models_from_start", base.is_some() as u64);
            }
        }
        if weights(&models.join("best_model.ot")).is_none() {
            c.violation("learn-best", "there is no best model after learning", wit);
        }
    }
}

fn main() {
    let mut c = Check::new(
        "C02",
        "A case is one run of the command line program in a directory of its own: exit code, printed text and files are compared with what was asked for. \
         Non-trivial: distinct command lines.",
    );
    let mut r = c.rng(1);
    let rounds = c.n(1, 15);
    for _ in 0..rounds {
        let s = Scratch::new("c02m");
        let (a, b) = (s.path().join("a.ot"), s.path().join("b.ot"));
        prefers(&mut r, &[0, 1, 2]).vs.save(&a).unwrap();
        prefers(&mut r, &[8, 3, 5]).vs.save(&b).unwrap();
        let quick = Conf { iterations: 4, simulate_round_limit: 30, ..Conf::default() };
        let bare = Conf { iterations: 1, dirichlet_epsilon: 0.0, temperature: 0.5, ..Conf::default() };
        play::<TicTacToe>(&mut c, &mut r, side("random", None), side("Random", None), &quick, None);
        play::<TicTacToe>(&mut c, &mut r, side("MCTS", None), side("random", None), &quick, None);
        play::<TicTacToe>(&mut c, &mut r, side("Random", None), side("mcts", None), &quick, None);
        play::<TicTacToe>(&mut c, &mut r, side("model", Some(&a)), side("Mcts", None), &bare, None);
        play::<TicTacToe>(&mut c, &mut r, side("random", None), side("Model", Some(&b)), &bare, None);
        play::<TicTacToe>(&mut c, &mut r, side("model", Some(&a)), side("model", Some(&b)), &bare, Some((400, 0)));
        play::<TicTacToe>(&mut c, &mut r, side("MODEL", Some(&b)), side("model", Some(&a)), &bare, Some((0, 400)));
        play::<Backgammon>(&mut c, &mut r, side("random", None), side("random", None), &quick, None);
        let few = Conf { iterations: 2, simulate_round_limit: 4, ..Conf::default() };
        play::<Backgammon>(&mut c, &mut r, side("mcts", None), side("RANDOM", None), &few, None);
        temperature(&mut c, &mut r, 4);
        processors(&mut c);
        cramped(&mut c, &mut r);
        refusals(&mut c, &mut r);
        replay::<TicTacToe>(&mut c, &mut r, 6);
        replay::<Backgammon>(&mut c, &mut r, 8);
        learn(&mut c, &mut r, 4);
    }
    c.require("matches", 8);
    c.require("certain_matches", 2);
    c.require("temperature_certain", 1);
    c.require("temperature_spread", 1);
    c.require("processors", 3);
    c.require("tallies_compared", 4);
    c.require("refused", 60);
    c.require("replays", 10);
    c.require("learnings", 4);
    c.require("models_from_start", 3);
    c.finish()
}
