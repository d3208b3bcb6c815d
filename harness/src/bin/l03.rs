//! L03: training data survives saving and loading.
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use tch::Tensor;
use vh::entropy::with_entropy;
use vh::hashgame::HashGame;
use vh::net::{tensor_vec, Conf};
use vh::work::Source;
use vh::*;

type Flat = (i8, Vec<f32>, Vec<f32>);
fn flat(m: &MemoryFragment) -> Flat {
    (m.outcome, tensor_vec(&m.ps), tensor_vec(&m.state))
}

fn policy(r: &mut Rng, a: usize) -> Tensor {
    let kind = r.below(4);
    let mut v = vec![0f32; a];
    match kind {
        0 => v[r.below(a)] = 1.0,
        1 => v.iter_mut().for_each(|x| *x = r.f64() as f32),
        2 => {
            for _ in 0..r.range(2, 20) {
                v[r.below(a)] = (r.f64() * 1e-6) as f32;
            }
        }
        _ => {
            for _ in 0..r.range(2, 20) {
                v[r.below(a)] += 1.0;
            }
        }
    }
    let s: f32 = v.iter().sum();
    if kind != 2 && s > 0.0 {
        v.iter_mut().for_each(|x| *x /= s);
    }
    Tensor::from_slice(&v)
}

fn same(c: &mut Check, what: &str, a: &[Flat], b: &[Flat], wit: serde_json::Value) {
    if a.len() != b.len() {
        c.violation(&format!("{what}-count"), &format!("{what}: {} fragments come back as {}", a.len(), b.len()), wit);
        return;
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        for (k, ok) in [("outcome", x.0 == y.0), ("policy", x.1 == y.1), ("features", x.2 == y.2)] {
            if !ok {
                c.violation(&format!("{what}-{k}"), &format!("{what}: {k} of fragment {i} of {} changed", a.len()), json!({"fragment": i, "before": format!("{:?}", x.0), "after": format!("{:?}", y.0), "run": wit}));
                return;
            }
        }
    }
}

fn go<G: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    let cfg = Conf { training_batch_size: 16, ..Conf::default() };
    let az = cfg.alphazero::<G>(None);
    let dir = Scratch::new("l03");
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let m = match k {
            1 if G::ACTION_SPACE_SIZE < 100 => if c.thorough { 70_000 } else { 9_000 },
            2 => 1100,
            _ => *r.pick(&[1, 1, 2, 3, 7, 16, 60, 250]) as usize,
        };
        let mem: Vec<MemoryFragment> = (0..m)
            .map(|_| MemoryFragment { outcome: r.range(-1, 1) as i8, ps: policy(r, G::ACTION_SPACE_SIZE as usize), state: G::random(r).as_tensor() })
            .collect();
        let wit = json!({"game": G::TAG, "fragments": m});
        let d = dir.path().join(if r.chance(0.7) { format!("d{k}") } else { (*r.pick(&["again", "again", "v1.2", "with space", "a/b.c/d", "\u{e9}t\u{e9}", "lrn-0", "data-"])).into() });
        let wit = json!({"game": G::TAG, "fragments": m, "directory": d});
        std::fs::create_dir_all(&d).unwrap();
        let before: Vec<Flat> = mem.iter().map(flat).collect();
        if c.run("save", "save_training_data", || wit.clone(), || az.save_training_data(&mem, &d)).is_none() {
            continue;
        }
        same(c, "saving", &before, &mem.iter().map(flat).collect::<Vec<_>>(), wit.clone());
        let Some(back) = c.run("load", "load_training_data", || wit.clone(), || AlphaZero::load_training_data(&d)) else { continue };
        c.eval();
        c.count(&format!("fragments_{}", G::TAG), m as u64);
        c.max("largest_set", m as u64);
        if m == 1 {
            c.count("single", 1);
        }
        c.nontrivial(hash_of(&before.iter().map(|f| (f.0, f.2.iter().map(|x| x.to_bits()).collect::<Vec<_>>())).collect::<Vec<_>>()));
        same(c, "loading", &before, &back.iter().map(flat).collect::<Vec<_>>(), wit.clone());
        if k % 3 == 0 {
            // a set left incomplete by a crash
            let mut names: Vec<_> = std::fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).collect();
            names.sort();
            let f = r.pick(&names).clone();
            let whole = std::fs::read(&f).unwrap();
            let cut = match r.below(3) {
                0 => None,
                1 => Some(0),
                _ => Some(r.below(whole.len())),
            };
            match cut {
                None => std::fs::remove_file(&f).unwrap(),
                Some(n) => std::fs::write(&f, &whole[..n]).unwrap(),
            }
            c.eval();
            c.count("incomplete_sets", 1);
            if let Ok(v) = guarded(|| AlphaZero::load_training_data(&d)) {
                c.violation("incomplete", &format!("a set with a missing or cut off file loads as {} fragments", v.len()), json!({"file": f, "kept_bytes": cut, "run": wit}));
            }
            std::fs::write(&f, whole).unwrap();
        }
    }
}

/// data written by a run and read back trains a network exactly as the live data does
fn trains<G: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    let dir = Scratch::new("l03t");
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let cfg = Conf { num_self_play_batches: 3, iterations: 2, simulate_round_limit: 8, training_batch_size: *r.pick(&[1, 4, 1000]), ..Conf::default() };
        let wit = json!({"game": G::TAG, "conf": cfg.toml()});
        let mut az = cfg.alphazero::<G>(None);
        let Some(mem) = c.run("self_play", "self-play", || wit.clone(), || az.self_play_parallel::<G>()) else { continue };
        if mem.is_empty() {
            continue;
        }
        let d = dir.path().join(format!("t{k}"));
        std::fs::create_dir_all(&d).unwrap();
        let path = d.join("before.ot");
        if c.run("save", "save_training_data", || wit.clone(), || az.save_training_data(&mem, &d)).is_none() || az.model.vs.save(&path).is_err() {
            continue;
        }
        let Some(back) = c.run("load", "load_training_data", || wit.clone(), || AlphaZero::load_training_data(&d)) else { continue };
        let mut other = cfg.alphazero::<G>(Some(path));
        let (mut live, mut back) = (mem, back);
        struct Send_<T>(T);
        unsafe impl<T> Send for Send_<T> {}
        let mut results = vec![];
        for (what, a, m) in [("live", &mut az, &mut live), ("loaded", &mut other, &mut back)] {
            let x = Send_((a, m));
            let ok = c.run(what, &format!("training on {what} data"), || wit.clone(), || {
                let r = with_entropy(7 + k as u64, move || {
                    let x = x;
                    let Send_((a, m)) = x;
                    a.train(m)
                });
                if let Err(e) = r {
                    std::panic::resume_unwind(e)
                }
            });
            results.push(ok.is_some());
        }
        if results != [true, true] {
            continue;
        }
        c.eval();
        c.count("trained", 1);
        let (a, b) = (net::vars(&az.model.vs), net::vars(&other.model.vs));
        let worst = a.iter().flat_map(|(k, v)| v.iter().zip(&b[k]).map(|(x, y)| (x - y).abs())).fold(0f32, f32::max);
        if !(worst < 1e-6) {
            c.violation("train", &format!("training on loaded data leaves another network than on the data itself (off by {worst})"), wit);
        }
    }
}

fn main() {
    let mut c = Check::new(
        "L03",
        "A case is one set of training fragments saved and loaded back (or trained on, live and loaded, with the same random choices). Non-trivial: distinct sets.",
    );
    let mut r = c.rng(1);
    for _ in 0..c.n(1, 20) {
        go::<TicTacToe>(&mut c, &mut r, 60);
        go::<Backgammon>(&mut c, &mut r, 40);
        go::<HashGame>(&mut c, &mut r, 60);
        trains::<HashGame>(&mut c, &mut r, 12);
        trains::<TicTacToe>(&mut c, &mut r, 2);
    }
    c.require("fragments_tictactoe", 500);
    c.require("fragments_backgammon", 300);
    c.require("incomplete_sets", 30);
    c.require("single", 5);
    c.require("largest_set", 9000);
    c.require("trained", 6);
    c.finish()
}
