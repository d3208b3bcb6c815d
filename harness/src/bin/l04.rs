//! L04: a learning run keeps all its data, trains on it and saves every iteration; later training uses exactly the data asked for.
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use vh::hashgame::HashGame;
use vh::mon::{self, Kind, Mon};
use vh::net::{vars, Conf, Example, Trainer};
use vh::play::{cut, frag, played, searches, state_at, target};
use vh::tree::observe;
use vh::work::{hg, Source};
use vh::*;

type M = Mon<HashGame>;

fn names(d: &Path) -> BTreeSet<String> {
    std::fs::read_dir(d).map(|it| it.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default()
}

fn tree(d: &Path) -> BTreeMap<PathBuf, u64> {
    let mut m = BTreeMap::new();
    if let Ok(it) = std::fs::read_dir(d) {
        for e in it.flatten() {
            if e.path().is_dir() {
                m.extend(tree(&e.path()));
            } else {
                m.insert(e.path(), hash_of(&std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    m
}

fn learn(c: &mut Check, r: &mut Rng, runs: usize) {
    let cwd = std::env::current_dir().unwrap();
    let data = cwd.join("data").join(M::name());
    let models = cwd.join("models").join(M::name());
    for k in 0..runs {
        if c.out_of_time() || c.full() {
            return;
        }
        let mut h = hg(r);
        h.min_len = 2;
        h.pass = *r.pick(&[0, 30]);
        vh::hashgame::configure(h);
        if k % 3 == 0 {
            let _ = std::fs::remove_dir_all(&data);
            let _ = std::fs::remove_dir_all(&models);
        }
        // now and then many passes over very few fragments
        let few = k % 4 == 2;
        let cfg = Conf {
            learn_iterations: r.range(1, 3) as usize,
            self_play_iterations: if few { 1 } else { r.range(1, 3) as usize },
            num_epochs: if few { 9 } else { r.range(0, 3) as usize },
            num_self_play_batches: if few { 1 } else { r.range(1, 9) as usize },
            iterations: *r.pick(&[1, 3]),
            training_batch_size: 100_000,
            simulate_round_limit: *r.pick(&[3, 6, 400]),
            lr: 0.003,
            wd: *r.pick(&[0.0, 0.01]),
            ..Conf::default()
        };
        let wit = json!({"conf": cfg.toml(), "synthetic": format!("{h:?}"), "run": k});
        let Some(mut az) = c.run("new", "new", || wit.clone(), || cfg.alphazero::<M>(None)) else { continue };
        if !models.join("best_model.ot").exists() {
            net::randomize(&az.model.vs, r, 0.5);
        }
        let mut trainer = Trainer::new::<M>(&az.model.vs, cfg.lr, cfg.wd);
        let start = vars(&az.model.vs);
        let old = names(&data);
        let had_best = models.join("best_model.ot").exists();
        let old_tree = tree(&data);
        mon::judge(false);
        mon::start(12_000_000);
        let ok = c.run("learn", "learn_parallel", || wit.clone(), || az.learn_parallel::<M>());
        let log = mon::stop();
        mon::judge(true);
        if ok.is_none() {
            continue;
        }
        c.eval();
        c.count("learning_runs", 1);
        // a directory of its own
        let fresh: Vec<String> = names(&data).difference(&old).cloned().collect();
        if fresh.len() != 1 {
            c.violation("run-dir", &format!("a learning run adds {} data directories", fresh.len()), wit.clone());
            continue;
        }
        for (p, h) in &old_tree {
            if tree(&data).get(p) != Some(h) {
                c.violation("older", "a learning run changes the data of an earlier one", wit.clone());
                break;
            }
        }
        let run = data.join(&fresh[0]);
        let want: BTreeSet<String> = (0..cfg.learn_iterations).map(|i| format!("lrn-{i}")).collect();
        if names(&run) != want {
            c.violation("iterations", &format!("the run's data directories are {:?}", names(&run)), wit.clone());
            continue;
        }
        let ts: Vec<_> = played(&log).iter().map(|t| cut(t, Some(cfg.simulate_round_limit))).collect();
        let mut trunk_of: HashMap<u32, usize> = HashMap::new();
        for (i, t) in ts.iter().enumerate() {
            for (v, _) in &t.steps {
                trunk_of.insert(*v, i);
            }
        }
        // games in order: those of each self-play, then the match against the best model
        let mut order: Vec<usize> = (0..ts.len()).collect();
        order.sort_by_key(|i| ts[*i].start);
        let matches = if had_best { cfg.learn_iterations } else { cfg.learn_iterations - 1 };
        let selfs = cfg.learn_iterations * cfg.self_play_iterations * cfg.num_self_play_batches;
        let laid_out = matches == 0 && ts.len() == selfs || matches > 0 && ts.len() > selfs && (ts.len() - selfs) % matches == 0;
        let per_match = if matches > 0 && laid_out { (ts.len() - selfs) / matches } else { 0 };
        if !laid_out {
            c.count("order_of_games_unclear", 1);
        }
        let mut at = 0;
        let mut seen: HashSet<u32> = HashSet::new();
        let mut last = 0u32;
        for i in 0..cfg.learn_iterations {
            let l = run.join(format!("lrn-{i}"));
            let want: BTreeSet<String> = (0..cfg.self_play_iterations).map(|i| format!("sp-{i}")).collect();
            if names(&l) != want {
                c.violation("self-plays", &format!("the data directories of iteration {i} are {:?}", names(&l)), wit.clone());
                return;
            }
            let mut all: Vec<MemoryFragment> = vec![];
            for s in 0..cfg.self_play_iterations {
                let d = l.join(format!("sp-{s}"));
                let Some(mem) = c.run("load", "loading a learning run's data", || wit.clone(), || AlphaZero::load_training_data(&d)) else { return };
                let vs: Vec<u32> = mem.iter().map(|m| frag::<HashGame>(m).ver).collect();
                c.count("fragments", vs.len() as u64);
                c.nontrivial(hash_of(&(k, i, s, vs.len())));
                if vs.iter().any(|v| *v <= last) {
                    c.violation("order", &format!("iteration {i}.{s}: the data is not that of its own self-play"), wit.clone());
                }
                last = last.max(vs.iter().copied().max().unwrap_or(0));
                let games: HashSet<usize> = vs.iter().filter_map(|v| trunk_of.get(v).copied()).collect();
                if games.len() > cfg.num_self_play_batches {
                    c.violation("games", &format!("iteration {i}.{s}: data of {} games, {} are played at once", games.len(), cfg.num_self_play_batches), wit.clone());
                }
                let mut expected: BTreeSet<u32> = BTreeSet::new();
                let games: HashSet<usize> = if laid_out {
                    at += cfg.num_self_play_batches;
                    order[at - cfg.num_self_play_batches..at].iter().copied().collect()
                } else {
                    games
                };
                for g in &games {
                    expected.extend(ts[*g].steps.iter().filter(|x| x.1.as_ref().is_some_and(|e| e.kind == Kind::Apply)).map(|x| x.0));
                }
                let got: BTreeSet<u32> = vs.iter().copied().collect();
                if got != expected || got.len() != vs.len() {
                    c.violation("kept", &format!("iteration {i}.{s}: {} of {} played positions are in the saved data, {} entries", got.intersection(&expected).count(), expected.len(), vs.len()), wit.clone());
                }
                if vs.iter().any(|v| !seen.insert(*v)) {
                    c.violation("twice", &format!("iteration {i}.{s}: a position is saved twice"), wit.clone());
                }
                all.extend(mem);
            }
            if laid_out && (had_best || i > 0) {
                at += per_match;
            }
            // what an iteration learns is what it played
            let ex: Vec<Example> = all.iter().map(|m| Example::of(m, M::N_INPUT_CHANNELS)).collect();
            for _ in 0..cfg.num_epochs {
                trainer.step(&ex.iter().collect::<Vec<_>>());
            }
            let Some(m) = c.run("model", "loading an iteration's model", || wit.clone(), || ResNet::from_path::<M>(&models.join(format!("model_{i}.ot")))) else { return };
            c.eval();
            c.count("models", 1);
            if ex.len() < cfg.num_epochs {
                c.count("models_of_few_fragments", 1);
            }
            if cfg.num_epochs == 0 {
                if vars(&m.vs) != start {
                    c.violation("no-epochs", "without training the model changes", wit.clone());
                }
            } else {
                let (off, stats) = trainer.off(&m.vs);
                c.max("worst_off_ppm", (off * 1e6) as u64);
                if off > 0.02 || stats > 0.05 {
                    c.violation("trained", &format!("iteration {i}: the saved model is not the result of {} passes over the iteration's data ({:.1}% of the weights off)", cfg.num_epochs, off * 100.0), wit.clone());
                }
            }
            if i + 1 == cfg.learn_iterations && vars(&m.vs) != vars(&az.model.vs) {
                c.violation("last", "the last saved model is not the network learned", wit.clone());
            }
        }
        let positions: usize = ts.iter().map(|t| t.steps.len()).sum();
        c.count("positions_recorded", positions as u64);
        if !models.join("best_model.ot").exists() {
            c.violation("best", "no best model after a learning run", wit.clone());
        }
        if k == 0 {
            c.sample(wit);
        }
    }
}

/// the sequential variant: what each iteration trains on is rebuilt from the moves and searches seen
fn learn_serial(c: &mut Check, r: &mut Rng, runs: usize) {
    let models = std::env::current_dir().unwrap().join("models").join(M::name());
    for k in 0..runs {
        if c.out_of_time() || c.full() {
            return;
        }
        let mut h = hg(r);
        h.min_len = 2;
        vh::hashgame::configure(h);
        let _ = std::fs::remove_dir_all(&models);
        let few = k % 3 == 1;
        let cfg = Conf {
            learn_iterations: r.range(1, 3) as usize,
            self_play_iterations: if few { 1 } else { r.range(1, 4) as usize },
            num_epochs: if few { 12 } else { r.range(0, 3) as usize },
            iterations: *r.pick(&[2, 5]),
            training_batch_size: 100_000,
            temperature: *r.pick(&[0.5, 1.0, 1.25]),
            lr: 0.003,
            wd: *r.pick(&[0.0, 0.01]),
            ..Conf::default()
        };
        let wit = json!({"serial": true, "conf": cfg.toml(), "synthetic": format!("{h:?}")});
        let Some(mut az) = c.run("new", "new", || wit.clone(), || cfg.alphazero::<M>(None)) else { continue };
        net::randomize(&az.model.vs, r, 0.5);
        let mut trainer = Trainer::new::<M>(&az.model.vs, cfg.lr, cfg.wd);
        let start = vars(&az.model.vs);
        mon::judge(false);
        mon::with_moves(true);
        mon::start(12_000_000);
        let ok = c.run("learn-serial", "learn", || wit.clone(), || observe::<M, _>(|| az.learn::<M>()));
        let log = mon::stop();
        mon::with_moves(false);
        mon::judge(true);
        let Some((_, trees)) = ok else { continue };
        c.eval();
        c.count("serial_runs", 1);
        let s = searches(&trees);
        let mut ts = played(&log);
        ts.sort_by_key(|t| t.start);
        if ts.len() != cfg.learn_iterations * cfg.self_play_iterations {
            c.violation("serial-games", &format!("sequential learning plays {} games, {} are configured", ts.len(), cfg.learn_iterations * cfg.self_play_iterations), wit.clone());
            continue;
        }
        let mut last = start.clone();
        for i in 0..cfg.learn_iterations {
            let mut ex: Vec<Example> = vec![];
            let mut unclear = false;
            for t in &ts[i * cfg.self_play_iterations..(i + 1) * cfg.self_play_iterations] {
                let end = t.steps.last().and_then(|x| state_at::<HashGame>(&log, x.0)).and_then(|s| s.g.check_winner());
                for (v, e) in &t.steps {
                    if !e.as_ref().is_some_and(|e| e.kind == Kind::Apply) {
                        continue;
                    }
                    let (Some(p), Some((_, kids)), Some(w)) = (state_at::<HashGame>(&log, *v), s.get(v), end) else {
                        unclear = true;
                        continue;
                    };
                    let visits: Vec<(usize, f64)> = kids.iter().map(|k| (k.0, k.2)).collect();
                    let ps = target(&visits, cfg.temperature, M::ACTION_SPACE_SIZE as usize);
                    let m = MemoryFragment { outcome: w * p.g.get_player(), ps: tch::Tensor::from_slice(&ps.iter().map(|x| *x as f32).collect::<Vec<_>>()), state: p.as_tensor() };
                    ex.push(Example::of(&m, M::N_INPUT_CHANNELS));
                }
            }
            let m = guarded(|| ResNet::from_path::<M>(&models.join(format!("model_{i}.ot"))));
            let Ok(m) = m else {
                c.violation("serial-model", &format!("iteration {i} of sequential learning leaves no model"), wit.clone());
                break;
            };
            last = vars(&m.vs);
            if unclear || ex.is_empty() {
                c.count("serial_unclear", 1);
                break;
            }
            for _ in 0..cfg.num_epochs {
                trainer.step(&ex.iter().collect::<Vec<_>>());
            }
            c.eval();
            c.count("serial_models", 1);
            if cfg.num_epochs == 0 {
                if last != start {
                    c.violation("serial-no-epochs", "without training the model changes", wit.clone());
                }
                continue;
            }
            let (off, stats) = trainer.off(&m.vs);
            c.max("worst_serial_off_ppm", (off * 1e6) as u64);
            if off > 0.02 || stats > 0.05 {
                c.violation("serial-trained", &format!("sequential learning, iteration {i}: the saved model is not the result of {} passes over the iteration's {} fragments ({:.1}% of the weights off)", cfg.num_epochs, ex.len(), off * 100.0), wit.clone());
                break;
            }
        }
        if names(&models).contains(&format!("model_{}.ot", cfg.learn_iterations - 1)) && guarded(|| vars(&ResNet::from_path::<M>(&models.join(format!("model_{}.ot", cfg.learn_iterations - 1))).vs)).ok() != Some(vars(&az.model.vs)) {
            c.violation("serial-last", "the last saved model is not the network learned", wit);
        }
    }
}

fn example(r: &mut Rng) -> MemoryFragment {
    let mut p = vec![0f32; 9];
    p[r.below(9)] += 0.6;
    p[r.below(9)] += 0.4;
    MemoryFragment { outcome: r.range(-1, 1) as i8, ps: tch::Tensor::from_slice(&p), state: TicTacToe::random(r).as_tensor() }
}

/// training from saved data, through the command line
fn train(c: &mut Check, r: &mut Rng, rounds: usize) {
    for k in 0..rounds {
        if c.out_of_time() || c.full() {
            return;
        }
        let s = Scratch::new("l04");
        let d = s.path();
        let cfg = Conf { training_batch_size: 100_000, lr: *r.pick(&[0.002, 0.01]), wd: *r.pick(&[0.0, 0.03]), ..Conf::default() };
        std::fs::write(d.join("conf.toml"), cfg.toml()).unwrap();
        let az = Conf::default().alphazero::<TicTacToe>(None);
        let mut stored: BTreeMap<String, Vec<Example>> = BTreeMap::new();
        let ids = [format!("a{}", r.below(1000)), format!("b-{}_x", r.below(1000))];
        let near = "nowhere-2".to_string();
        let layout = [
            (&ids[0], 0, 0), (&ids[0], 0, 1), (&ids[0], 1, 0), (&ids[0], 10, 0), (&ids[1], 0, 0), (&ids[1], 0, 1), (&ids[1], 0, 10), (&ids[1], 2, 3),
            (&ids[0], 70, 0), (&near, 0, 0),
        ];
        // now and then very many self-plays
        let many = if k % 2 == 1 { *r.pick(&[120, 150, 300]) } else { 0 };
        c.max("self_plays_in_a_learning_iteration", many as u64);
        for (id, l, sp) in layout.into_iter().chain((0..many).map(|sp| (&ids[1], 30, sp))) {
            let n = if l == 30 { 1 + sp % 2 } else { *r.pick(&[1, 2, 5, 9, 14]) as usize };
            let p = d.join(format!("data/{}/run-{id}/lrn-{l}/sp-{sp}", TicTacToe::name()));
            std::fs::create_dir_all(&p).unwrap();
            let mem: Vec<_> = (0..n).map(|_| example(r)).collect();
            az.save_training_data(&mem, &p);
            stored.insert(format!("{id}/{l}/{sp}"), mem.iter().map(|m| Example::of(m, 3)).collect());
        }
        // another game's data lies beside it
        let p = d.join("data/othello/run-x/lrn-0/sp-0");
        std::fs::create_dir_all(&p).unwrap();
        az.save_training_data(&[example(r)], &p);
        let base = net::net::<TicTacToe>(r, 1.0);
        let base_path = d.join("base.ot");
        base.vs.save(&base_path).unwrap();
        let decoy = net::net::<TicTacToe>(r, 1.0);
        let models = d.join("models").join(TicTacToe::name());
        std::fs::create_dir_all(&models).unwrap();
        decoy.vs.save(models.join("best_model.ot")).unwrap();
        let scopes: Vec<(Vec<String>, Option<String>)> = vec![
            (vec![], Some("".into())),
            (vec!["--run-id".into(), ids[0].clone()], Some(format!("{}/", ids[0]))),
            (vec!["--run-id".into(), ids[1].clone()], Some(format!("{}/", ids[1]))),
            (vec!["--run-id".into(), ids[0].clone(), "--learn".into(), "1".into()], Some(format!("{}/1/", ids[0]))),
            (vec!["--run-id".into(), ids[1].clone(), "--learn".into(), "0".into()], Some(format!("{}/0/", ids[1]))),
            (vec!["--run-id".into(), ids[1].clone(), "--learn".into(), "0".into(), "--self-play".into(), "1".into()], Some(format!("{}/0/1", ids[1]))),
            (vec!["--run-id".into(), ids[0].clone(), "--learn".into(), "10".into(), "--self-play".into(), "0".into()], Some(format!("{}/10/0", ids[0]))),
            (vec!["--learn".into(), "0".into()], None),
            (vec!["--run-id".into(), "nowhere".into()], None),
            (vec!["--run-id".into(), ids[0].clone(), "--self-play".into(), "0".into()], None),
            (vec!["--run-id".into(), ids[0].clone(), "--learn".into(), "7".into()], None),
        ];
        for (i, (scope, prefix)) in scopes.iter().enumerate() {
            if c.out_of_time() || c.full() {
                return;
            }
            let given = r.chance(0.6);
            let named = r.chance(0.6);
            let name = match (i + k) % 6 {
                0 | 1 => format!("out{i}.ot"),
                2 => format!("result{i}"),
                3 => format!("some dir/deeper/net{i}.bin"),
                4 => format!("v1.{i}"),
                _ => format!("models/{}/other{i}.ot", TicTacToe::name()),
            };
            let out = if named { d.join(&name) } else { models.join("trained_model.ot") };
            std::fs::create_dir_all(out.parent().unwrap()).unwrap();
            let _ = std::fs::remove_file(&out);
            if r.chance(0.3) {
                std::fs::write(&out, "something older").unwrap();
            }
            let older = std::fs::read(&out).ok();
            let mut args: Vec<String> = ["-c", "conf.toml", "-g", "tic-tac-toe", "train"].iter().map(|s| s.to_string()).collect();
            args.extend(scope.clone());
            if given {
                args.extend(["--model-path".into(), base_path.to_string_lossy().to_string()]);
            }
            if named {
                args.extend([if r.chance(0.5) { "--out-path" } else { "-o" }.into(), if r.chance(0.5) { out.to_string_lossy().to_string() } else { name.clone() }]);
            }
            let before = tree(d);
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let ran = cli::run(d, &a, "", 200);
            let wit = json!({"args": args, "conf": cfg.toml(), "round": k, "sizes": stored.iter().map(|(k, v)| (k.clone(), v.len())).collect::<BTreeMap<_, _>>(), "output": ran.tail()});
            c.eval();
            let (mut before, mut after) = (before, tree(d));
            let made = after.remove(&out);
            before.remove(&out);
            if before != after {
                c.violation("files", "training changes files other than its result", wit.clone());
            }
            let Some(prefix) = prefix else {
                c.count("refused", 1);
                if ran.ok || std::fs::read(&out).ok() != older {
                    c.violation("refuse", "training on a request without data goes on", wit);
                }
                continue;
            };
            if !ran.ok || made.is_none() {
                c.violation("cli", &format!("training fails: {}", ran.tail()), wit);
                continue;
            }
            let data: Vec<&Example> = stored.iter().filter(|(k, _)| if prefix.ends_with(|c: char| c.is_ascii_digit()) { *k == prefix } else { k.starts_with(prefix.as_str()) }).flat_map(|x| x.1).collect();
            c.count("trainings", 1);
            c.nontrivial(hash_of(&(k, prefix)));
            let mut t = Trainer::new::<TicTacToe>(if given { &base.vs } else { &decoy.vs }, cfg.lr, cfg.wd);
            t.step(&data);
            let copy = d.join("copy.ot");
            std::fs::copy(&out, &copy).unwrap();
            let got = guarded(|| ResNet::from_path::<TicTacToe>(&copy));
            std::fs::remove_file(&copy).unwrap();
            c.count(if named { "result_named" } else { "result_default" }, 1);
            let got = match got {
                Ok(n) => n,
                Err(p) => {
                    c.violation("result", &format!("the trained model cannot be loaded: {}", p.text()), wit);
                    continue;
                }
            };
            let (off, stats) = t.off(&got.vs);
            c.max("worst_cli_off_ppm", (off * 1e6) as u64);
            if off > 0.01 || stats > 0.02 {
                c.violation(
                    "scope",
                    &format!("the result is not one training pass from the {} model over the {} examples asked for ({:.1}% of the weights off)", if given { "given" } else { "best" }, data.len(), off * 100.0),
                    wit,
                );
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "L04",
        "A case is one learning run (its directories, saved data against the recorded games, and every saved model against an independent training on that data), or one \
         sequential learning run (every saved model against an independent training on the moves and visits seen), or one run of the train command for a scope of the data, its result compared with an independent training on exactly that scope. Non-trivial: distinct saved sets and scopes.",
    );
    let mut r = c.rng(1);
    let n = c.n(9, 150);
    learn(&mut c, &mut r, n);
    let n = c.n(7, 60);
    learn_serial(&mut c, &mut r, n);
    let n = c.n(2, 12);
    train(&mut c, &mut r, n);
    c.assume("weights whose gradient is below 1e-5 are not compared; at most 1 to 2% of the others may differ");
    c.require("learning_runs", 4);
    c.require("models", 6);
    c.require("models_of_few_fragments", 1);
    c.require("serial_runs", 3);
    c.require("serial_models", 4);
    c.require("trainings", 7);
    c.require("refused", 4);
    c.finish()
}
