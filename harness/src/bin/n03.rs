//! N03: a training pass is one Adam step per batch on exactly the given examples.
use die_e::alphazero::alphazero::MemoryFragment;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::backgammon::backgammon_logic::Backgammon;
use serde_json::json;
use std::collections::HashSet;
use tch::Tensor;
use vh::hashgame::HashGame;
use vh::mon::Mon;
use vh::net::{Conf, Example, Trainer};
use vh::work::Source;
use vh::*;

/// mean difference allowed, in steps of the learning rate; what is seen is below a millionth
const DRIFT: f64 = 1e-4;

fn examples<G: Source>(r: &mut Rng, n: usize, live: bool) -> Vec<MemoryFragment> {
    let a = G::ACTION_SPACE_SIZE as usize;
    (0..n)
        .map(|_| {
            let mut p = vec![0f32; a];
            for _ in 0..r.range(1, 6) {
                p[r.below(a)] += r.f64() as f32 + 0.05;
            }
            let s: f32 = p.iter().sum();
            p.iter_mut().for_each(|x| *x /= s);
            let t = G::random(r).as_tensor();
            MemoryFragment { outcome: r.range(-1, 1) as i8, ps: Tensor::from_slice(&p), state: if live { t } else { t.squeeze_dim(0) } }
        })
        .collect()
}

fn sorted(m: &[MemoryFragment]) -> Vec<u64> {
    let mut v: Vec<u64> = m
        .iter()
        .map(|f| hash_of(&(f.outcome, net::tensor_vec(&f.ps).iter().map(|x| x.to_bits()).collect::<Vec<_>>(), net::tensor_vec(&f.state).iter().map(|x| x.to_bits()).collect::<Vec<_>>())))
        .collect();
    v.sort();
    v
}

fn go<G: Source>(c: &mut Check, r: &mut Rng, plan: &[(usize, usize, usize)], orders: &mut HashSet<u64>) {
    for (at, &(n, size, passes)) in plan.iter().enumerate() {
        if c.out_of_time() || c.full() {
            return;
        }
        let cfg = Conf { training_batch_size: size, lr: *r.pick(&[0.0005, 0.003, 0.01]), wd: *r.pick(&[0.0, 0.0001, 0.05]), ..Conf::default() };
        // a fast rate makes the gradients of successive steps differ, and with them what Adam does
        let cfg = if size >= n && at % 2 == 1 { Conf { lr: *r.pick(&[0.03, 0.1]), ..cfg } } else { cfg };
        let mut az = cfg.alphazero::<G>(None);
        net::randomize(&az.model.vs, r, 1.0);
        let live = r.chance(0.5);
        let mut mem = examples::<G>(r, n, live);
        let ex: Vec<Example> = mem.iter().map(|m| Example::of(m, G::N_INPUT_CHANNELS)).collect();
        let before = sorted(&mem);
        let wit = json!({"game": G::TAG, "examples": n, "passes": passes, "conf": cfg.toml(), "loaded_form": !live});
        let parts = net::partitions(n, size);
        let single = size >= n;
        let mut refs: Vec<(u64, Trainer)> = vec![];
        for (i, p) in (if single { &parts[..1] } else { &parts[..] }).iter().enumerate() {
            let mut t = Trainer::new::<G>(&az.model.vs, cfg.lr, cfg.wd);
            for _ in 0..passes {
                for b in p {
                    t.step(&b.iter().map(|&k| &ex[k]).collect::<Vec<_>>());
                }
            }
            refs.push((i as u64, t));
        }
        let v0 = net::vars(&az.model.vs);
        let ok = c.run("train", "train", || wit.clone(), || (0..passes).for_each(|_| az.train(&mut mem)));
        if ok.is_none() {
            continue;
        }
        c.eval();
        c.count(if single { "single_batch" } else { "several_batches" }, 1);
        c.max("candidate_orders", refs.len() as u64);
        c.nontrivial(hash_of(&(G::TAG, &before, cfg.toml())));
        if sorted(&mem) != before {
            c.violation("examples", "training changes the set of training examples", wit.clone());
        }
        let mut best = refs.iter().map(|(i, t)| (t.off(&az.model.vs), *i)).collect::<Vec<_>>();
        best.sort_by(|a, b| (a.0 .0 + a.0 .1).total_cmp(&(b.0 .0 + b.0 .1)));
        let ((off, stats), which) = best[0];
        c.max("worst_off_ppm", (off * 1e6) as u64);
        if single {
            let drift = refs[0].1.drift(&az.model.vs);
            c.max("worst_drift_ppb", (drift * 1e9) as u64);
            if drift > DRIFT {
                c.violation("step", &format!("{}: {n} examples in one batch, {passes} passes: the weights differ from the specified training by {drift:.5} learning rates on average", G::TAG), wit.clone());
            }
        }
        c.max("worst_stats_off_ppm", (stats * 1e6) as u64);
        if best.len() > 1 {
            c.max("closest_wrong_order_on_percent", 100 - (best[1].0 .0 * 100.0) as u64);
            orders.insert(which);
        }
        if off > 0.01 || stats > 0.02 {
            c.violation(
                if single { "step" } else { "batches" },
                &format!("{}: {n} examples in batches of {size}, {passes} passes: {:.1}% of the weights and {:.1}% of the statistics differ from the specified training", G::TAG, off * 100.0, stats * 100.0),
                wit.clone(),
            );
        }
        if net::vars(&az.model.vs) == v0 {
            c.violation("nothing", "training changes nothing", wit);
        }
    }
}

/// Two special examples, next to each other, among equal ones: which batches they fall in tells
/// how the examples are mixed.
fn mixed(c: &mut Check, r: &mut Rng, n: usize, size: usize, times: usize) {
    type G = Mon<HashGame>;
    let cfg = Conf { training_batch_size: size, lr: 0.003, ..Conf::default() };
    let ch = <G as LearnableGame>::N_INPUT_CHANNELS;
    let k = n.div_ceil(size);
    let (mut same, mut first) = (0, vec![0usize; k]);
    let mut judged = 0;
    for _ in 0..times {
        if c.out_of_time() || c.full() {
            return;
        }
        let mut az = cfg.alphazero::<G>(None);
        net::randomize(&az.model.vs, r, 1.0);
        let three = examples::<G>(r, 3, true);
        let at = r.below(n - 1);
        let mut mem: Vec<MemoryFragment> = (0..n)
            .map(|i| {
                let f = &three[if i == at { 1 } else if i == at + 1 { 2 } else { 0 }];
                MemoryFragment { outcome: f.outcome, ps: f.ps.shallow_clone(), state: f.state.shallow_clone() }
            })
            .collect();
        let ex: Vec<Example> = three.iter().map(|m| Example::of(m, ch)).collect();
        let before = sorted(&mem);
        let wit = json!({"game": "hashgame", "examples": n, "special": [at, at + 1], "conf": cfg.toml()});
        let mut refs = vec![];
        for i in 0..k {
            for j in 0..k {
                let mut t = Trainer::new::<G>(&az.model.vs, cfg.lr, cfg.wd);
                for b in 0..k {
                    let len = size.min(n - b * size);
                    let mut v: Vec<&Example> = vec![&ex[0]; len];
                    if b == j {
                        v[len - 1] = &ex[2];
                    }
                    if b == i {
                        v[0] = &ex[1];
                    }
                    t.step(&v);
                }
                refs.push(((i, j), t));
            }
        }
        if c.run("mixed", "train", || wit.clone(), || az.train(&mut mem)).is_none() {
            return;
        }
        c.eval();
        c.count("mixed", 1);
        c.nontrivial(hash_of(&("mixed", n, size, &before)));
        if sorted(&mem) != before {
            c.violation("examples", "training changes the set of training examples", wit.clone());
        }
        let mut best = refs.iter().map(|(i, t)| (t.off(&az.model.vs), *i)).collect::<Vec<_>>();
        best.sort_by(|a, b| (a.0 .0 + a.0 .1).total_cmp(&(b.0 .0 + b.0 .1)));
        let ((off, stats), which) = best[0];
        if off > 0.01 || stats > 0.02 {
            c.violation(
                "batches",
                &format!("{n} examples in batches of {size}: {:.1}% of the weights and {:.1}% of the statistics differ from the specified training for every way of placing two of them", off * 100.0, stats * 100.0),
                wit.clone(),
            );
        }
        let next = best[1].0;
        if next.0 + next.1 > 3.0 * (off + stats) + 0.005 {
            judged += 1;
            same += (which.0 == which.1) as usize;
            first[which.0] += 1;
        }
    }
    c.count("mixed_judged", judged as u64);
    c.count("mixed_same_batch", same as u64);
    let most = *first.iter().max().unwrap();
    // one in k each: 4 more than the binomial makes likely
    if judged >= 12 && (same + 2 >= judged || most + 1 >= judged) {
        c.violation(
            "order",
            &format!("{n} examples in batches of {size}: of two neighbouring examples the first falls in one batch {most} times, and both in the same one {same} times, of {judged}: the order does not vary"),
            json!({"conf": cfg.toml()}),
        );
    }
}

/// Large sets: all examples equal (every way of batching is the same), and all different (two
/// passes from the same start differ).
fn large(c: &mut Check, r: &mut Rng, n: usize, size: usize) {
    type G = Mon<HashGame>;
    if c.out_of_time() || c.full() {
        return;
    }
    let cfg = Conf { training_batch_size: size, lr: *r.pick(&[0.0005, 0.003]), ..Conf::default() };
    let wit = json!({"game": "hashgame", "examples": n, "conf": cfg.toml()});
    let mut az = cfg.alphazero::<G>(None);
    net::randomize(&az.model.vs, r, 1.0);
    let one = examples::<G>(r, 1, true);
    let copy = |f: &MemoryFragment| MemoryFragment { outcome: f.outcome, ps: f.ps.shallow_clone(), state: f.state.shallow_clone() };
    let mut mem: Vec<MemoryFragment> = (0..n).map(|_| copy(&one[0])).collect();
    let ex = Example::of(&one[0], <G as LearnableGame>::N_INPUT_CHANNELS);
    let mut t = Trainer::new::<G>(&az.model.vs, cfg.lr, cfg.wd);
    for b in 0..n.div_ceil(size) {
        t.step(&vec![&ex; size.min(n - b * size)]);
    }
    if c.run("large", "train", || wit.clone(), || az.train(&mut mem)).is_none() {
        return;
    }
    c.eval();
    c.count("large", 1);
    c.max("large_examples", n as u64);
    let (off, stats) = t.off(&az.model.vs);
    c.max("large_off_ppm", (off * 1e6) as u64);
    let drift = t.drift(&az.model.vs);
    c.max("large_drift_ppb", (drift * 1e9) as u64);
    if drift > 20.0 * DRIFT {
        c.violation("large", &format!("{n} equal examples in batches of {size}: the weights differ from the specified training by {drift:.5} learning rates on average"), wit.clone());
    }
    if mem.len() != n {
        c.violation("examples", "training changes the set of training examples", wit.clone());
    }
    if off > 0.02 || stats > 0.02 {
        c.violation("large", &format!("{n} equal examples in batches of {size}: {:.1}% of the weights and {:.1}% of the statistics differ from the specified training", off * 100.0, stats * 100.0), wit.clone());
    }
    let start = r.next();
    let ex = examples::<G>(r, n, true);
    let mut got = vec![];
    for _ in 0..2 {
        let mut az = cfg.alphazero::<G>(None);
        net::randomize(&az.model.vs, &mut Rng::new(start), 1.0);
        let mut mem: Vec<MemoryFragment> = ex.iter().map(copy).collect();
        if c.run("large", "train", || wit.clone(), || az.train(&mut mem)).is_none() {
            return;
        }
        got.push(net::vars(&az.model.vs));
    }
    let (mut n_diff, mut n_all) = (0, 0);
    for (a, b) in got[0].iter().zip(&got[1]) {
        for (x, y) in a.1.iter().zip(b.1) {
            n_all += 1;
            n_diff += ((x - y).abs() > 1e-5) as usize;
        }
    }
    c.count("large_twice", 1);
    if size < n && n_diff * 20 < n_all {
        c.violation("order", &format!("{n} examples in batches of {size}: two passes from the same weights give the same result ({n_diff} of {n_all} weights differ): the order does not vary"), wit);
    }
}

fn fits(c: &mut Check, r: &mut Rng) {
    for _ in 0..2 {
        let cfg = Conf { training_batch_size: 8, lr: 0.01, ..Conf::default() };
        let mut az = cfg.alphazero::<Mon<HashGame>>(None);
        let mut mem = examples::<Mon<HashGame>>(r, 24, true);
        let ex: Vec<Example> = mem.iter().map(|m| Example::of(m, <Mon<HashGame> as LearnableGame>::N_INPUT_CHANNELS)).collect();
        let loss = |az: &die_e::alphazero::alphazero::AlphaZero| {
            let mut t = Trainer::new::<Mon<HashGame>>(&az.model.vs, 1e-9, 0.0);
            t.step(&ex.iter().collect::<Vec<_>>());
            t.last_loss
        };
        let a = loss(&az);
        if c.run("fit", "train", || json!("fit"), || (0..80).for_each(|_| az.train(&mut mem))).is_none() {
            return;
        }
        let b = loss(&az);
        c.eval();
        c.count("fits", 1);
        if !(b < a - 0.3) {
            c.violation("fit", &format!("80 passes over 24 examples change the loss from {a:.3} to {b:.3}"), json!({"conf": cfg.toml()}));
        }
    }
}

fn main() {
    let mut c = Check::new(
        "N03",
        "A case is one or more training passes compared, weight by weight, with an independent Adam over the same examples; with several batches every way of batching \
         them is tried and one must match. Non-trivial: distinct example sets and settings.",
    );
    let mut r = c.rng(1);
    let mut orders = HashSet::new();
    for _ in 0..c.n(1, 15) {
        go::<Mon<HashGame>>(&mut c, &mut r, &[(6, 6, 1), (20, 32, 3), (1, 4, 1), (40, 40, 5), (7, 100, 5), (2, 2, 1), (150, 256, 3), (64, 64, 4), (9, 9, 2), (300, 512, 4)], &mut orders);
        let many = vec![(5, 2, 1); 14];
        go::<Mon<HashGame>>(&mut c, &mut r, &many, &mut orders);
        go::<Mon<HashGame>>(&mut c, &mut r, &[(4, 1, 1), (6, 4, 1), (6, 3, 1), (4, 3, 1), (7, 5, 1)], &mut HashSet::new());
        go::<Mon<TicTacToe>>(&mut c, &mut r, &[(12, 16, 2), (64, 64, 4), (5, 3, 1)], &mut HashSet::new());
        go::<Mon<Backgammon>>(&mut c, &mut r, &[(9, 16, 2), (40, 64, 3), (5, 3, 1), (1, 8, 1)], &mut HashSet::new());
        go::<TicTacToe>(&mut c, &mut r, &[(10, 10, 1)], &mut HashSet::new());
        mixed(&mut c, &mut r, 66, 11, 14);
        mixed(&mut c, &mut r, 130, 32, 12);
        for (n, size) in [(64, 7), (100, 50), (300, 64), (1100, 128), (2500, 512)] {
            large(&mut c, &mut r, n, size);
        }
    }
    fits(&mut c, &mut r);
    c.count("distinct_orders", orders.len() as u64);
    if orders.len() < 3 && c.counter("several_batches") >= 10 && !c.violated() {
        c.violation("order", "the order of the examples does not vary between training passes", json!({"orders": orders.len()}));
    }
    c.assume("weights whose gradient is below 1e-5 are not compared (their Adam step amplifies rounding); up to 1% of the others may differ");
    c.require("single_batch", 8);
    c.require("several_batches", 10);
    c.require("fits", 1);
    c.require("mixed_judged", 18);
    c.require("large_twice", 4);
    c.finish()
}
