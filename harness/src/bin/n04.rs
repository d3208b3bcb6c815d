//! N04: the best model is replaced exactly by one that wins at least 55% against it.
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use serde_json::json;
use std::path::PathBuf;
use vh::net::{vars, Conf};
use vh::rig::{outcome, ByMove, ByNumber};
use vh::*;

fn dir<T: LearnableGame>() -> PathBuf {
    std::env::current_dir().unwrap().join("models").join(T::name())
}
fn best<T: LearnableGame>() -> PathBuf {
    dir::<T>().join("best_model.ot")
}
fn listing(d: &PathBuf) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(d)
        .map(|it| it.flatten().map(|e| (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default())).collect())
        .unwrap_or_default();
    v.sort();
    v
}

/// does the first move have the greater logit, whoever is to move?
fn prefers<T: LearnableGame>(r: &mut Rng, m: u8) -> ResNet {
    loop {
        let n = net::net::<T>(r, 2.0);
        let ok = [-1, 1].iter().all(|p| {
            let mut s = T::new();
            if s.get_player() != *p {
                s.skip_turn();
            }
            let (ps, _) = net::eval(&n, &s);
            ps[m as usize] > ps[1 - m as usize] + 0.05
        });
        if ok {
            return n;
        }
    }
}

/// one comparison with the stored best model; `expect` says whether it must be replaced
fn compare<T: LearnableGame>(c: &mut Check, r: &mut Rng, mine: &ResNet, theirs: &ResNet, verdict: Option<usize>, what: &str, wit: serde_json::Value) {
    let cfg = Conf { iterations: 1, dirichlet_epsilon: 0.0, temperature: *r.pick(&[0.3, 1.0]), ..Conf::default() };
    let _ = std::fs::remove_dir_all(dir::<T>());
    let Some(mut az) = c.run("new", "new", || wit.clone(), || cfg.alphazero::<T>(None)) else { return };
    az.model.vs.copy(&mine.vs).unwrap();
    let me = vars(&az.model.vs);
    let rival = vars(&theirs.vs);
    let copy = |n: &ResNet| {
        let mut k = ResNet::new::<T>(tch::nn::VarStore::new(tch::Device::Cpu));
        k.vs.copy(&n.vs).unwrap();
        k
    };
    // the bare comparison
    c.eval();
    let other = copy(theirs);
    if let Some(v) = c.run("match", "play_vs_model", || wit.clone(), || az.play_vs_model::<T>(other)) {
        if v != verdict {
            c.violation(&format!("{what}-verdict"), &format!("{what}: the comparison ends with {v:?}, expected {verdict:?}"), wit.clone());
        }
    }
    theirs.vs.save(best::<T>()).unwrap();
    theirs.vs.save(dir::<T>().join("model_7.ot")).unwrap();
    let before = listing(&dir::<T>());
    if c.run("gate", "play_vs_best_model", || wit.clone(), || az.play_vs_best_model::<T>()).is_none() {
        return;
    }
    let after = listing(&dir::<T>());
    let better = verdict == Some(1);
    c.count(if better { "replaced" } else { "kept" }, 1);
    c.nontrivial(hash_of(&(what, wit.to_string())));
    let now = guarded(|| vars(&ResNet::from_path::<T>(&best::<T>()).vs)).unwrap_or_default();
    let want = if better { &me } else { &rival };
    if &now != want {
        let got = if now == me { "holds the new network" } else if now == rival { "holds the old network" } else { "holds something else" };
        c.violation(&format!("{what}-{}", if better { "missed" } else { "replaced" }), &format!("{what}: expected verdict {verdict:?}, the best model's file {got}"), wit.clone());
    }
    if !better && before != after {
        c.violation(&format!("{what}-files"), &format!("{what}: the files of the models change although the best stays"), wit.clone());
    }
    let others = |v: &[(String, Vec<u8>)]| v.iter().filter(|x| x.0 != "best_model.ot").cloned().collect::<Vec<_>>();
    if others(&before) != others(&after) {
        c.violation(&format!("{what}-others"), &format!("{what}: files of other models change"), wit.clone());
    }
    if vars(&az.model.vs) != me {
        c.violation(&format!("{what}-self"), &format!("{what}: the compared network changes"), wit);
    }
}

fn main() {
    let mut c = Check::new(
        "N04",
        "A case is one comparison of a network with the stored best model in a game whose 400 results are set from outside (by game number, or by the preferred move of each \
         network), with all model files compared before and after. Non-trivial: distinct result counts and settings.",
    );
    let mut r = c.rng(1);
    // by numbers of wins, losses and draws
    let mut tallies = vec![(0, 400), (150, 250), (180, 220), (181, 219), (199, 201), (200, 200), (219, 181), (219, 0), (218, 10), (220, 180), (220, 0), (221, 100), (180, 0), (181, 0), (300, 100), (400, 0), (0, 0), (100, 0), (220, 170)];
    for _ in 0..c.n(6, 60) {
        let w = r.below(401);
        tallies.push((w, r.below(401 - w)));
    }
    for (w, l) in tallies {
        if c.out_of_time() || c.full() {
            break;
        }
        outcome(w, l);
        let (a, b) = (net::net::<ByNumber>(&mut r, 1.0), net::net::<ByNumber>(&mut r, 1.0));
        let verdict = if w * 100 >= 55 * 400 { Some(1) } else if w * 100 <= 45 * 400 { Some(2) } else { None };
        compare::<ByNumber>(&mut c, &mut r, &a, &b, verdict, "tally", json!({"won": w, "lost": l, "drawn": 400 - w - l}));
    }
    // by what the networks prefer
    for k in 0..c.n(8, 40) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (m, t) = [(0, 1), (1, 0), (0, 0), (1, 1)][k % 4];
        let (a, b) = (prefers::<ByMove>(&mut r, m), prefers::<ByMove>(&mut r, t));
        let verdict = if (m, t) == (0, 1) { Some(1) } else { Some(2) };
        compare::<ByMove>(&mut c, &mut r, &a, &b, verdict, "skill", json!({"mine_plays": m, "best_plays": t, "round": k}));
    }
    // the first network becomes the best one
    for _ in 0..3 {
        let _ = std::fs::remove_dir_all(dir::<ByNumber>());
        let cfg = Conf::default();
        let Some(az) = c.run("new", "new", || json!("first"), || cfg.alphazero::<ByNumber>(None)) else { continue };
        net::randomize(&az.model.vs, &mut r, 1.0);
        let me = vars(&az.model.vs);
        outcome(0, 400);
        if c.run("first", "play_vs_best_model", || json!("first"), || az.play_vs_best_model::<ByNumber>()).is_some() {
            c.eval();
            c.count("first", 1);
            if guarded(|| vars(&ResNet::from_path::<ByNumber>(&best::<ByNumber>()).vs)).ok() != Some(me) {
                c.violation("first", "without a best model, the current one is not kept as the best", json!("first"));
            }
        }
    }
    // in a whole learning run
    for (w, expect) in [(400usize, "last"), (220, "last"), (219, "first"), (0, "first")] {
        if c.full() {
            break;
        }
        let _ = std::fs::remove_dir_all(dir::<ByNumber>());
        outcome(w, 0);
        let cfg = Conf { learn_iterations: 3, iterations: 2, ..Conf::default() };
        let wit = json!({"won": w, "conf": cfg.toml()});
        let Some(mut az) = c.run("new", "new", || wit.clone(), || cfg.alphazero::<ByNumber>(None)) else { continue };
        if c.run("learn", "learn_parallel", || wit.clone(), || az.learn_parallel::<ByNumber>()).is_none() {
            continue;
        }
        c.eval();
        c.count("learning_runs", 1);
        let at = |i: usize| guarded(|| vars(&ResNet::from_path::<ByNumber>(&dir::<ByNumber>().join(format!("model_{i}.ot"))).vs)).unwrap_or_default();
        let b = guarded(|| vars(&ResNet::from_path::<ByNumber>(&best::<ByNumber>()).vs)).unwrap_or_default();
        let want = if expect == "last" { at(2) } else { at(0) };
        if b.is_empty() || b != want {
            c.violation("learn", &format!("after three iterations each winning {w} of 400 games the best model is not that of the {expect} one"), wit);
        }
    }
    c.require("replaced", 5);
    c.require("kept", 10);
    c.require("first", 2);
    c.require("learning_runs", 3);
    c.finish()
}
