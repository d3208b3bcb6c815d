//! C01: each setting governs what it names; incomplete or unreadable settings are refused.
use die_e::alphazero::alphazero::{AlphaZero, AlphaZeroConfig, MemoryFragment, OptimizerParams};
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::mct_search;
use die_e::tictactoe::TicTacToe;
use die_e::MctsConfig;
use serde_json::{json, Value};
use vh::net::{Conf, Example, Trainer};
use vh::inuse::{self, by_result, guided, plain};
use vh::tree::observe;
use vh::rig::{steps, Endless, Fan, FAN};
use vh::*;

const LEARN: [&str; 6] = ["temperature", "learn_iterations", "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches"];
const SEARCH: [&str; 5] = ["iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon"];
const OPT: [&str; 2] = ["wd", "lr"];

/// All settings different from each other, so that none can stand in for another.
fn random(r: &mut Rng) -> Conf {
    let mut ints: Vec<usize> = (1..=60).collect();
    r.shuffle(&mut ints);
    let ints = ints;
    let mut far = vec![513usize, 700, 1024, 4097, 65_537, 1_000_000, 3_000_000_000];
    r.shuffle(&mut far);
    // now and then a value far from the usual ones (still all different)
    let int = |r: &mut Rng, i: usize| if r.chance(0.25) { far[i] } else { ints[i] };
    let ext = |r: &mut Rng, v: f64, far: &[f64]| if r.chance(0.25) { *r.pick(far) } else { v };
    let fl = |r: &mut Rng, lo: f64, hi: f64| if r.chance(0.3) { (lo + (hi - lo) * r.f64()).round().max(1.0) } else { ((lo + (hi - lo) * r.f64()) * 1e4).round() / 1e4 };
    let (t, ec, al, ep, wd, lr) = (fl(r, 0.3, 3.0), fl(r, 0.5, 9.0), fl(r, 0.05, 3.0), (r.f64() * 1e4).round() / 1e4, (r.f64() * 1e3).round() / 1e4, 0.001 + (r.f64() * 1e3).round() / 1e5);
    let it = if r.chance(0.15) { r.range(1, 9) as usize } else if r.chance(0.15) { 500 + ints[5] } else { 60 + ints[5] };
    let lim = if r.chance(0.15) { r.range(1, 4) as usize } else if r.chance(0.15) { 600 + ints[6] } else { 5 + ints[6] + ints[7] };
    Conf {
        temperature: ext(r, t, &[0.01, 0.04, 12.0, 100.0]),
        learn_iterations: int(r, 0),
        self_play_iterations: int(r, 1),
        num_epochs: int(r, 2),
        training_batch_size: int(r, 3),
        num_self_play_batches: int(r, 4),
        iterations: it,
        exploration_const: ext(r, ec, &[0.05, 0.2, 40.0, 300.0]),
        simulate_round_limit: lim,
        dirichlet_alpha: ext(r, al, &[0.03, 0.04, 12.0, 25.0]),
        dirichlet_epsilon: ext(r, ep, &[0.0, 1.0, 0.01, 0.03]),
        wd: ext(r, wd, &[0.0, 1e-6, 0.5, 3.0]),
        lr: ext(r, lr, &[1e-5, 3e-5, 0.1]),
    }
}

/// The same settings written differently: other order, comments, extra keys, whole numbers.
fn written(r: &mut Rng, cfg: &Conf) -> String {
    let mut lines: Vec<String> = cfg.toml().lines().map(|l| l.to_string()).collect();
    r.shuffle(&mut lines);
    let mut out = String::new();
    for l in lines {
        let (k, v) = l.split_once(" = ").unwrap();
        let v = if v.ends_with(".0") && r.chance(0.7) { v.trim_end_matches(".0").to_string() } else { v.to_string() };
        match r.below(5) {
            0 => out += &format!("# {k} = 77\n{k}={v}   # {k} = 3\n"),
            1 => out += &format!("{k}   =   {v}\n\n"),
            2 => out += &format!("my_{k} = 55\n{k} = {v}\nold_{k} = \"none\"\n"),
            _ => out += &format!("{k} = {v}\n"),
        }
    }
    out
}

fn without(toml: &str, key: &str) -> String {
    toml.lines().filter(|l| l.split('=').next().unwrap().trim() != key).map(|l| format!("{l}\n")).collect()
}

type Seen = (f64, Vec<f64>, Vec<f64>);
/// (root visits, visits, priors) of a search of the Fan game
fn search(how: usize, net: &die_e::alphazero::nnet::ResNet, m: &MctsConfig) -> Option<Seen> {
    let (_, ts) = tree::observe::<Fan, _>(|| match how {
        0 => drop(alpha_mcts(&Fan::new(), net, m)),
        1 => {
            let mut s = NodeStore::new();
            alpha_mcts_parallel(&mut s, &[Fan::new()], net, m, Some(indicatif::ProgressBar::hidden()));
        }
        _ => drop(mct_search(Fan::new(), -1, m)),
    });
    let t = ts.first()?;
    let (mut v, mut p) = (vec![0.0; FAN], vec![0.0; FAN]);
    for n in &t.nodes {
        if n.parent == Some(0) {
            let a = n.action? as usize;
            v[a] = n.visits;
            p[a] = n.policy;
        }
    }
    Some((t.nodes[0].visits, v, p))
}

fn effects(c: &mut Check, r: &mut Rng, quick: usize) {
    for k in 0..quick {
        if c.out_of_time() || c.full() {
            return;
        }
        let cfg = random(r);
        let text = written(r, &cfg);
        let wit = json!({"settings": text, "round": k});
        c.eval();
        c.nontrivial(hash_of(&text));
        let conf = net::parse(&text);
        let Some(az) = c.run("load", "loading complete settings", || wit.clone(), || AlphaZero::from_config::<Fan>(None, &conf)) else { return };
        let a = &az.config;
        let got = (a.learn_iterations, a.self_play_iterations, a.num_epochs, a.training_batch_size, a.num_self_play_batches);
        let want = (cfg.learn_iterations, cfg.self_play_iterations, cfg.num_epochs, cfg.training_batch_size, cfg.num_self_play_batches);
        if got != want || !close(a.temperature, cfg.temperature, 1e-9) {
            c.violation("learn", &format!("the learning settings come out as {a:?}"), wit.clone());
        }
        c.count("settings_read", 1);

        // without noise: number of iterations and exploration constant
        let quiet = Conf { dirichlet_epsilon: 0.0, ..cfg.clone() };
        let text0 = written(r, &quiet);
        let Some(m) = c.run("load", "loading search settings", || wit.clone(), || MctsConfig::from_config(&net::parse(&text0)).unwrap()) else { return };
        net::randomize(&az.model.vs, r, 1.0);
        let priors: Vec<f64> = net::eval(&az.model, &Fan::new()).0.iter().map(|x| *x as f64).collect();
        for how in 0..3 {
            let name = ["guided", "batched", "plain"][how];
            let Some(res) = c.run("search", "searching", || wit.clone(), || search(how, &az.model, &m)) else { return };
            let Some((_, v, p)) = res else {
                c.violation("search", "a search reports no tree", wit.clone());
                return;
            };
            let n: f64 = v.iter().sum();
            if n != cfg.iterations as f64 {
                c.violation(&format!("{name}-iterations"), &format!("{name}: {} iterations are configured, {n} are made", cfg.iterations), wit.clone());
            }
            let want = if how < 2 { guided(&p, cfg.exploration_const, cfg.iterations) } else { plain(cfg.exploration_const, cfg.iterations) };
            let other = if how < 2 { guided(&p, cfg.exploration_const * 1.3, cfg.iterations) } else { plain(cfg.exploration_const * 1.3, cfg.iterations) };
            let (g, w, o) = (by_result(&v), by_result(&want), by_result(&other));
            let d = |a: [f64; 3], b: [f64; 3]| (0..3).map(|i| (a[i] - b[i]).abs()).sum::<f64>();
            c.count(&format!("searches_{name}"), 1);
            if d(w, o) > 6.0 {
                c.count("exploration_told", 1);
            }
            // before every move has been tried once the order of a plain search is open
            if d(g, w) > 5.0 && (how < 2 || cfg.iterations >= FAN) {
                c.violation(&format!("{name}-exploration"), &format!("{name}: with exploration {} the visits by result are {g:?}, expected {w:?}", cfg.exploration_const), json!({"priors": p, "visits": v, "run": wit}));
            }
            if how < 2 && (0..FAN).any(|i| !close(p[i], priors[i], 1e-4)) {
                c.violation(&format!("{name}-quiet"), &format!("{name}: without noise the root's priors are not the network's"), json!({"priors": p, "network": priors, "run": wit}));
            }
        }

        // noise
        for how in 0..2 {
            let name = ["guided", "batched"][how];
            let n = if cfg.dirichlet_alpha < 0.2 { 160 } else { 60 };
            let even = Conf { dirichlet_alpha: 1e4, iterations: 1, ..cfg.clone() };
            let m = even.mcts();
            let (mut top, mut bottom) = (0.0, 0.0);
            for _ in 0..3 {
                let Some(Some((_, _, p))) = c.run("search", "searching", || wit.clone(), || search(how, &az.model, &m)) else { return };
                for i in 0..FAN {
                    let d = 1.0 / FAN as f64 - priors[i];
                    top += (p[i] - priors[i]) * d;
                    bottom += d * d;
                }
            }
            if bottom > 3e-3 {
                c.count("epsilon_told", 1);
                if (top / bottom - cfg.dirichlet_epsilon).abs() > 0.004 + 0.05 * cfg.dirichlet_epsilon {
                    c.violation(&format!("{name}-epsilon"), &format!("{name}: the share of noise is {:.3}, configured {}", top / bottom, cfg.dirichlet_epsilon), wit.clone());
                }
            }
            let all = Conf { dirichlet_epsilon: 1.0, iterations: 1, ..cfg.clone() };
            let m = all.mcts();
            let (mut s, mut s2) = (0.0, 0.0);
            for _ in 0..n {
                let Some(Some((_, _, p))) = c.run("search", "searching", || wit.clone(), || search(how, &az.model, &m)) else { return };
                let q: f64 = p.iter().map(|x| x * x).sum();
                s += q;
                s2 += q * q;
            }
            let mean = s / n as f64;
            let sd = ((s2 / n as f64 - mean * mean).max(0.0) / n as f64).sqrt();
            let al = cfg.dirichlet_alpha;
            let want = (al + 1.0) / (FAN as f64 * al + 1.0);
            c.count("alpha_told", 1);
            if (mean - want).abs() > 6.0 * sd + 0.02 * want {
                c.violation(&format!("{name}-alpha"), &format!("{name}: noise of concentration {al} has a mean square sum of {mean:.3}, expected {want:.3}"), wit.clone());
            }
        }

        // round limit of playouts and of self-play
        let mut made = vec![];
        for more in [0, 100] {
            let m = Conf { iterations: 3, simulate_round_limit: cfg.simulate_round_limit + more, ..cfg.clone() }.mcts();
            steps();
            if c.run("playout", "searching an endless game", || wit.clone(), || mct_search(Endless::new(), -1, &m)).is_none() {
                return;
            }
            made.push(steps() as f64 / 3.0);
        }
        let per = made[0];
        if (made[1] - made[0] - 100.0).abs() > 0.01 {
            c.violation("playout-limit", &format!("with limits of {} and 100 more, playouts of an endless game differ by {:.2} moves", cfg.simulate_round_limit, made[1] - made[0]), wit.clone());
        }
        c.count("playouts", 3);
        if (per - 1.0 - cfg.simulate_round_limit as f64).abs() > 2.0 {
            c.violation("playout-limit", &format!("playouts of an endless game have {per:.1} moves, the limit is {}", cfg.simulate_round_limit), wit.clone());
        }
        let small = Conf { iterations: 2, simulate_round_limit: (cfg.simulate_round_limit / 4).max(1), num_self_play_batches: 1 + k % 3, ..cfg.clone() };
        let t = written(r, &small);
        let Some(e) = c.run("load", "loading", || wit.clone(), || AlphaZero::from_config::<Endless>(None, &net::parse(&t))) else { return };
        let Some(mem) = c.run("self-play", "self-play of an endless game", || wit.clone(), || e.self_play_parallel::<Endless>()) else { return };
        c.count("self_plays", 1);
        let per = mem.len() as f64 / small.num_self_play_batches as f64;
        if (per - small.simulate_round_limit as f64).abs() > 0.5 {
            c.violation("self-play-limit", &format!("self-play of {} endless games records {} positions, the round limit is {}", small.num_self_play_batches, mem.len(), small.simulate_round_limit), json!({"settings": t}));
        }

        // learning rate and weight decay
        let single = Conf { training_batch_size: 500, ..cfg.clone() };
        let t = written(r, &single);
        let Some(mut az) = c.run("load", "loading", || wit.clone(), || AlphaZero::from_config::<TicTacToe>(None, &net::parse(&t))) else { return };
        let mut mem: Vec<MemoryFragment> = (0..6)
            .map(|_| {
                let mut p = [0f32; 9];
                p[r.below(9)] += 0.7;
                p[r.below(9)] += 0.3;
                MemoryFragment { outcome: r.range(-1, 1) as i8, ps: tch::Tensor::from_slice(&p), state: <TicTacToe as work::Source>::random(r).as_tensor() }
            })
            .collect();
        let ex: Vec<Example> = mem.iter().map(|m| Example::of(m, 3)).collect();
        let mut t2 = Trainer::new::<TicTacToe>(&az.model.vs, cfg.lr, cfg.wd);
        for _ in 0..3 {
            t2.step(&ex.iter().collect::<Vec<_>>());
        }
        if c.run("train", "training", || wit.clone(), || (0..3).for_each(|_| az.train(&mut mem))).is_none() {
            return;
        }
        c.count("trainings", 1);
        let (off, _) = t2.off(&az.model.vs);
        if off > 0.02 {
            c.violation("optimizer", &format!("a training step is not that of learning rate {} and weight decay {} ({:.1}% of the weights off)", cfg.lr, cfg.wd, off * 100.0), json!({"settings": t}));
        }
    }
}

/// ok per group of settings: learning, search, optimizer
fn loads(conf: &config::Config) -> [bool; 3] {
    let ok = |f: &dyn Fn() -> bool| guarded(f).unwrap_or(false);
    [ok(&|| AlphaZeroConfig::from_config(conf).is_ok()), ok(&|| MctsConfig::from_config(conf).is_ok()), ok(&|| OptimizerParams::from_config(conf).is_ok())]
}

fn refused(c: &mut Check, r: &mut Rng, rounds: usize) {
    let groups: [&[&str]; 3] = [&LEARN, &SEARCH, &OPT];
    for _ in 0..rounds {
        let cfg = random(r);
        let base = cfg.toml();
        for (g, keys) in groups.iter().enumerate() {
            for key in keys.iter() {
                if c.full() {
                    return;
                }
                let missing = without(&base, key);
                let mut bad: Vec<(String, Value)> = vec![("missing".into(), json!(missing))];
                for v in ["\"many\"", "[1, 2]", "{ a = 1 }", "\"\""] {
                    bad.push((v.into(), json!(format!("{key} = {v}\n{missing}"))));
                }
                bad.push(("misspelled".into(), json!(format!("{key}s = 3\n{}_ = 4\n{missing}", key))));
                bad.push(("in a section".into(), json!(format!("{missing}\n[more]\n{key} = 1\n"))));
                for (what, text) in bad {
                    let text = text.as_str().unwrap().to_string();
                    let conf = net::parse(&text);
                    c.eval();
                    c.count("unusable", 1);
                    c.nontrivial(hash_of(&(key, &what)));
                    let got = loads(&conf);
                    let wit = json!({"settings": text, "key": key, "fault": what});
                    if got[g] {
                        c.violation("accepted", &format!("settings with {key} {what} are accepted"), wit.clone());
                    }
                    if (0..3).any(|i| i != g && !got[i]) {
                        c.violation("others", &format!("{key} {what} makes settings of another group unreadable"), wit.clone());
                    }
                    if what == "missing" || r.chance(0.2) {
                        c.count("starts_refused", 1);
                        if guarded(|| AlphaZero::from_config::<Fan>(None, &conf)).is_ok() {
                            c.violation("started", &format!("learning starts with {key} {what}"), wit);
                        }
                    }
                }
            }
        }
    }
}

/// Numbers too great for two bytes.
fn great(c: &mut Check, r: &mut Rng) {
    let cfg = Conf { iterations: 65_537 + r.below(4000), simulate_round_limit: 9, ..Conf::default() };
    let wit = json!({"conf": cfg.toml()});
    if let Some((_, ts)) = c.run("great", "a long search", || wit.clone(), || observe::<TicTacToe, _>(|| mct_search(TicTacToe::new(), -1, &cfg.mcts()))) {
        c.eval();
        c.count("great_searches", 1);
        if ts.len() == 1 && ts[0].nodes[0].visits != cfg.iterations as f64 {
            c.violation("great-iterations", &format!("{} iterations are configured, {} are made", cfg.iterations, ts[0].nodes[0].visits), wit);
        }
    }
    let cfg = Conf { iterations: 1, simulate_round_limit: 65_537 + r.below(90_000), ..Conf::default() };
    let wit = json!({"conf": cfg.toml()});
    steps();
    if c.run("great", "a long playout", || wit.clone(), || mct_search(Endless::new(), -1, &cfg.mcts())).is_some() {
        c.eval();
        let made = steps() as i64;
        if (made - cfg.simulate_round_limit as i64).abs() > 3 {
            c.violation("great-limit", &format!("a playout of an endless game has {made} moves, the limit is {}", cfg.simulate_round_limit), wit);
        }
    }
}

fn main() {
    let mut c = Check::new(
        "C01",
        "A case is one complete set of settings written in some way, each setting's effect observed on searches, playouts, self-play and training; or one set with one \
         setting missing or unreadable. Non-trivial: distinct sets.",
    );
    let mut r = c.rng(1);
    let n = c.n(200, 2500);
    effects(&mut c, &mut r, n);
    for _ in 0..c.n(14, 150) {
        let cfg = random(&mut r);
        inuse::matches(&mut c, &mut r, &cfg);
        inuse::learning(&mut c, &mut r, &cfg);
    }
    great(&mut c, &mut r);
    let n = c.n(1, 10);
    refused(&mut c, &mut r, n);
    c.require("settings_read", 10);
    c.require("exploration_told", 6);
    c.require("epsilon_told", 6);
    c.require("alpha_told", 10);
    c.require("trainings", 8);
    c.require("in_match", 400);
    c.require("in_match_guided", 400);
    c.require("in_match_playouts", 3);
    c.require("in_self_play", 10);
    c.require("in_self_play_serial", 5);
    c.require("in_noise_told", 5);
    c.require("unusable", 80);
    c.finish()
}
