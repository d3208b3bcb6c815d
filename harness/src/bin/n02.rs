//! N02: a saved network comes back as it was, and nothing else passes for it.
use die_e::alphazero::alphazero::AlphaZero;
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::path::PathBuf;
use tch::nn::VarStore;
use vh::hashgame::HashGame;
use vh::mon::{self, Mon};
use vh::net::{vars, Conf, Example, Trainer};
use vh::work::Source;
use vh::*;

fn answers<G: Source>(c: &mut Check, what: &str, a: &ResNet, b: &ResNet, r: &mut Rng, wit: &serde_json::Value) {
    c.eval();
    c.count(what, 1);
    if vars(&a.vs) != vars(&b.vs) {
        c.violation(&format!("{what}-weights"), &format!("{what} ({}): the restored network has other weights", G::TAG), wit.clone());
        return;
    }
    for _ in 0..4 {
        let s = G::random(r);
        c.nontrivial(hash_of(&(G::TAG, serde_json::to_string(&s).unwrap())));
        if net::eval(a, &s) != net::eval(b, &s) {
            c.violation(&format!("{what}-answers"), &format!("{what} ({}): the restored network answers differently", G::TAG), json!({"position": s, "run": wit}));
        }
    }
}

fn go<G: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    let dir = Scratch::new("n02");
    let cwd = std::env::current_dir().unwrap();
    let best = cwd.join("models").join(G::name()).join("best_model.ot");
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let _ = std::fs::remove_file(&best);
        let cfg = Conf { lr: *r.pick(&[0.001, 0.01]), wd: *r.pick(&[0.0, 0.01]), training_batch_size: 32, num_self_play_batches: 2, iterations: 2, simulate_round_limit: 4, ..Conf::default() };
        let wit = json!({"game": G::TAG, "conf": cfg.toml()});
        let Some(az) = c.run("new", "a fresh start", || wit.clone(), || cfg.alphazero::<G>(None)) else { return };
        let fresh = net::vars(&az.model.vs);
        net::randomize(&az.model.vs, r, 1.0);
        let p = named(&dir, r, k);
        let mut wit = wit;
        wit["file"] = json!(p);
        let wit = wit;
        match c.run("save", "save_current_model", || wit.clone(), || az.save_current_model(&p)) {
            Some(Ok(())) => {}
            Some(Err(e)) => {
                c.violation("save", &format!("saving fails: {e}"), wit.clone());
                continue;
            }
            None => continue,
        }
        // by name, into a network
        if let Some(nn) = c.run("from_path", "from_path", || wit.clone(), || ResNet::from_path::<G>(&p)) {
            answers::<G>(c, "from_path", &az.model, &nn, r, &wit);
        }
        // given on the command line, even with a different best model around
        let other = dir.path().join(format!("o{k}.ot"));
        let decoy = net::net::<G>(r, 1.0);
        decoy.vs.save(&other).unwrap();
        if r.chance(0.5) {
            std::fs::copy(&other, &best).unwrap();
        } else if r.chance(0.3) {
            // one that cannot be used, and need not be
            std::fs::write(&best, b"PK").unwrap();
        }
        if let Some(mut re) = c.run("given", "starting from a given model", || wit.clone(), || cfg.alphazero::<G>(Some(p.clone()))) {
            answers::<G>(c, "given", &az.model, &re.model, r, &wit);
            trains::<G>(c, "given", &cfg, &mut re, r, &wit);
        }
        // none given: the best model
        std::fs::copy(&p, &best).unwrap();
        if let Some(mut re) = c.run("best", "starting from the best model", || wit.clone(), || cfg.alphazero::<G>(None)) {
            answers::<G>(c, "best", &az.model, &re.model, r, &wit);
            trains::<G>(c, "best", &cfg, &mut re, r, &wit);
        }
        if std::fs::read(&best).ok() != std::fs::read(&p).ok() {
            c.violation("best-file", "starting or training changes the best model's file", wit.clone());
        }
        let _ = std::fs::remove_file(&best);
        // none at all: something new
        if let Some(re) = c.run("scratch", "starting from scratch", || wit.clone(), || cfg.alphazero::<G>(None)) {
            c.eval();
            let v = net::vars(&re.model.vs);
            if v == net::vars(&az.model.vs) || v == fresh || v.values().flatten().any(|x| !x.is_finite()) {
                c.violation("scratch", "a network made from scratch is not new", wit.clone());
            }
        }
        // unusable files: no network may come out of them
        let bytes = std::fs::read(&p).unwrap();
        let cut = dir.path().join("cut.ot");
        let at = *r.pick(&[0usize, 10, bytes.len() / 3, bytes.len() / 2, bytes.len() - 40]);
        std::fs::write(&cut, &bytes[..at]).unwrap();
        let foreign = dir.path().join("foreign.ot");
        if G::TAG == "tictactoe" { net::net::<Backgammon>(r, 1.0).vs.save(&foreign).unwrap() } else { net::net::<TicTacToe>(r, 1.0).vs.save(&foreign).unwrap() }
        let empty = dir.path().join("empty.ot");
        let _ = VarStore::new(tch::Device::Cpu).save(&empty);
        let (partial, how) = partial(&dir, r, &az.model.vs);
        for (what, q) in [("missing", dir.path().join("nowhere.ot")), ("truncated", cut), ("foreign", foreign), ("empty", empty), ("partial", partial)] {
            c.eval();
            c.count("unusable", 1);
            if guarded(|| ResNet::from_path::<G>(&q)).is_ok() {
                c.violation(&format!("{what}-from_path"), &format!("a {what} model file is accepted"), json!({"run": wit, "cut_at": at, "partial": how}));
            }
            if guarded(|| cfg.alphazero::<G>(Some(PathBuf::from(&q)))).is_ok() {
                c.violation(&format!("{what}-given"), &format!("starting from a {what} model file goes on with some network"), json!({"run": wit, "cut_at": at, "partial": how}));
            }
        }
        // nor out of a best model that cannot be used
        let _ = std::fs::remove_file(&best);
        for what in ["truncated", "foreign", "empty", "partial", "directory"] {
            match what {
                "directory" => std::fs::create_dir(&best).unwrap(),
                w => {
                    std::fs::copy(dir.path().join(match w { "truncated" => "cut.ot", "foreign" => "foreign.ot", "partial" => "partial.ot", _ => "empty.ot" }), &best).unwrap();
                }
            }
            let bytes = std::fs::read(&best).ok();
            c.eval();
            c.count("unusable_best", 1);
            if guarded(|| cfg.alphazero::<G>(None)).is_ok() {
                c.violation(&format!("{what}-best"), &format!("starting with a {what} best model goes on with some network"), json!({"run": wit, "cut_at": at, "partial": how}));
            }
            if guarded(|| ResNet::from_path::<G>(&best)).is_ok() {
                c.violation(&format!("{what}-best-path"), &format!("a {what} best model file is accepted"), json!({"run": wit, "cut_at": at, "partial": how}));
            }
            if std::fs::read(&best).ok() != bytes {
                c.violation("best-file", "refusing a best model changes its file", wit.clone());
            }
            if what == "directory" {
                let _ = std::fs::remove_dir(&best);
            } else {
                let _ = std::fs::remove_file(&best);
            }
        }
        if k == 0 {
            c.sample(wit);
        }
    }
}

/// a place for a model: in a directory, with or without an extension, absolute or relative
fn named(dir: &Scratch, r: &mut Rng, k: usize) -> PathBuf {
    let name = *r.pick(&["m.ot", "m.ot", "model", "model.v2.ot", "a model.ot", "modell-\u{e4}\u{4e2d}.ot", "best_model.ot", "0"]);
    let sub = *r.pick(&["", "", "run-1", "with space", "a.b/c", "models"]);
    let d = dir.path().join(format!("n{k}")).join(sub);
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(name);
    match r.below(4) {
        0 => {
            // the same place seen from here
            let cwd = std::env::current_dir().unwrap();
            let up: PathBuf = cwd.components().skip(1).map(|_| "..").collect();
            up.join(p.strip_prefix("/").unwrap())
        }
        1 => d.join("..").join(d.file_name().unwrap()).join(name),
        _ => p,
    }
}

/// a file with almost all of a network: one variable missing, under another name or of another shape
fn partial(dir: &Scratch, r: &mut Rng, vs: &VarStore) -> (PathBuf, String) {
    let mut v: Vec<(String, tch::Tensor)> = vs.variables().into_iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    let i = r.below(v.len());
    let name = v[i].0.clone();
    let how = match r.below(3) {
        0 => {
            v.remove(i);
            "missing"
        }
        1 => {
            v[i].0 += "x";
            "renamed"
        }
        _ => {
            let t = v[i].1.flatten(0, -1);
            v[i].1 = tch::Tensor::cat(&[&t, &t, &t.slice(0, 0, 1, 1)], 0);
            "reshaped"
        }
    };
    let p = dir.path().join("partial.ot");
    tch::Tensor::save_multi(&v, &p).unwrap();
    (p, format!("{name} {how}"))
}

/// training goes on from the restored weights
fn trains<G: Source>(c: &mut Check, what: &str, cfg: &Conf, az: &mut AlphaZero, r: &mut Rng, wit: &serde_json::Value) {
    let mut t = Trainer::new::<G>(&az.model.vs, cfg.lr, cfg.wd);
    mon::start_silent(50_000_000);
    let mut mem: Vec<_> = (0..8)
        .map(|_| {
            let mut p = vec![0f32; G::ACTION_SPACE_SIZE as usize];
            p[r.below(G::ACTION_SPACE_SIZE as usize)] = 1.0;
            die_e::alphazero::alphazero::MemoryFragment { outcome: r.range(-1, 1) as i8, ps: tch::Tensor::from_slice(&p), state: G::random(r).as_tensor() }
        })
        .collect();
    let ex: Vec<Example> = mem.iter().map(|m| Example::of(m, G::N_INPUT_CHANNELS)).collect();
    t.step(&ex.iter().collect::<Vec<_>>());
    if c.run("train", "training a restored network", || wit.clone(), || az.train(&mut mem)).is_some() {
        c.count("trained", 1);
        let (off, stats) = t.off(&az.model.vs);
        if off > 0.01 || stats > 0.02 {
            c.violation(&format!("{what}-train"), &format!("{what}: training does not go on from the restored network ({:.1}% of the weights off)", off * 100.0), wit.clone());
        }
    }
}

fn main() {
    let mut c = Check::new(
        "N02",
        "A case is one network saved and restored (by path, as a starting point, as the best model), compared bit by bit, by its answers and by a training step; or one unusable \
         file (missing, truncated, of another game, empty) that must not be accepted. Non-trivial: distinct positions asked.",
    );
    let mut r = c.rng(1);
    for _ in 0..c.n(1, 12) {
        go::<Mon<HashGame>>(&mut c, &mut r, 8);
        go::<TicTacToe>(&mut c, &mut r, 3);
        go::<Backgammon>(&mut c, &mut r, 2);
    }
    c.require("from_path", 8);
    c.require("given", 8);
    c.require("best", 8);
    c.require("trained", 16);
    c.require("unusable", 30);
    c.require("unusable_best", 30);
    c.finish()
}
