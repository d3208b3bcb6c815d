//! S07: probabilities handed around are distributions over the legal moves.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::utils::*;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use tch::Tensor;
use vh::hashgame::{self, HashGame};
use vh::net::Conf;
use vh::rig::{Fan, FAN};
use vh::tree::observe;
use vh::work::{hg, Source};
use vh::*;

const TOL: f64 = 2e-4;

fn rand_policy(r: &mut Rng, n: usize) -> Vec<f32> {
    let sharp = *r.pick(&[0.5, 3.0, 8.0]);
    let v: Vec<f64> = (0..n).map(|_| ((r.f64() * 2.0 - 1.0) * sharp).exp()).collect();
    let s: f64 = v.iter().sum();
    v.iter().map(|x| (x / s) as f32).collect()
}

fn same(a: &[f32], b: &[f64]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !close(*x as f64, *y, TOL) {
            return Some(format!("entry {i} is {x} instead of {y}"));
        }
    }
    None
}

fn conversions<T: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    let a_size = T::ACTION_SPACE_SIZE as usize;
    for _ in 0..n {
        if c.full() {
            return;
        }
        let m = r.range(1, 6) as usize;
        let mut states: Vec<T> = vec![];
        while states.len() < m {
            let s = T::random(r);
            if !s.get_valid_moves().is_empty() {
                states.push(s);
            }
        }
        let mut store: NodeStore<T> = NodeStore::new();
        for s in &states {
            store.add_node(*s, None, None, 0.0);
        }
        // now and then a network so sure of something illegal that nothing is left for the legal moves
        let mut hopeless = vec![false; m];
        let ps: Vec<Vec<f32>> = states
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let mut p = rand_policy(r, a_size);
                let codes: Vec<usize> = s.get_valid_moves().iter().map(|x| <T as LearnableGame>::encode(s, x) as usize).collect();
                if r.chance(0.1) && codes.len() < a_size {
                    hopeless[i] = true;
                    codes.iter().for_each(|&k| p[k] = 0.0);
                }
                p
            })
            .collect();
        c.count("hopeless", hopeless.iter().filter(|x| **x).count() as u64);
        // then any distribution over the legal moves will do
        let fill = |got: &[f32], want: &mut [f64], s: &T| {
            let codes: Vec<usize> = s.get_valid_moves().iter().map(|x| <T as LearnableGame>::encode(s, x) as usize).collect();
            let sum: f64 = codes.iter().map(|&k| got[k] as f64).sum();
            if close(sum, 1.0, 1e-3) && codes.iter().all(|&k| got[k] >= 0.0) {
                codes.iter().for_each(|&k| want[k] = got[k] as f64);
            }
        };
        let wit = json!({"states": states});
        let mut expected: Vec<Vec<f64>> = states
            .iter()
            .zip(&ps)
            .map(|(s, p)| {
                let mut e = vec![0.0; a_size];
                let codes: Vec<usize> = s.get_valid_moves().iter().map(|x| <T as LearnableGame>::encode(s, x) as usize).collect();
                let sum: f64 = codes.iter().map(|&k| p[k] as f64).sum();
                let n = codes.len() as f64;
                for k in codes {
                    e[k] = if sum > 0.0 { p[k] as f64 / sum } else { 1.0 / n };
                }
                e
            })
            .collect();
        for i in 0..m {
            c.eval();
            c.nontrivial(hash_of(&serde_json::to_string(&states[i]).unwrap()));
            let node = store.get_node(i);
            let t = Tensor::from_slice(&ps[i]);
            if let Some(v) = c.run("vec", "turn_policy_to_probs", || wit.clone(), || turn_policy_to_probs(&t, &node)) {
                if hopeless[i] {
                    fill(&v, &mut expected[i], &states[i]);
                }
                if let Some(e) = same(&v, &expected[i]) {
                    c.violation("vec", &format!("policy of one position as a list: {e}"), wit.clone());
                }
            }
            if let Some(v) = c.run("tensor", "turn_policy_to_probs_tensor", || wit.clone(), || turn_policy_to_probs_tensor(&t, &node)) {
                let v = net::tensor_vec(&v);
                if hopeless[i] {
                    fill(&v, &mut expected[i], &states[i]);
                }
                if let Some(e) = same(&v, &expected[i]) {
                    c.violation("tensor", &format!("policy of one position as a tensor: {e}"), wit.clone());
                }
            }
        }
        let all: Vec<f32> = ps.iter().flatten().copied().collect();
        let t = Tensor::from_slice(&all).view([m as i64, a_size as i64]);
        let idx: Vec<usize> = (0..m).collect();
        if let Some(v) = c.run("batch", "turn_policy_to_probs_tensor_parallel", || wit.clone(), || turn_policy_to_probs_tensor_parallel(&store, &idx, &t)) {
            c.count("batches", 1);
            if v.size() == [m as i64, a_size as i64] {
                for (i, row) in net::tensor_vec(&v).chunks(a_size).enumerate().filter(|x| hopeless[x.0]) {
                    fill(row, &mut expected[i], &states[i]);
                }
            }
            let flat: Vec<f64> = expected.iter().flatten().copied().collect();
            if v.size() != [m as i64, a_size as i64] {
                c.violation("batch", "policies of a batch have the wrong shape", wit.clone());
            } else if let Some(e) = same(&net::tensor_vec(&v), &flat) {
                c.violation("batch", &format!("policies of a batch: {e}"), wit.clone());
            }
        }
        // visits to probabilities
        let mut want = vec![];
        for i in 0..m {
            let mut node = store.get_node(i);
            let ok = c.run("expand", "alpha_expand", || wit.clone(), || node.alpha_expand(&mut store, expected[i].iter().map(|x| *x as f32).collect()));
            if ok.is_none() {
                return;
            }
            let kids = store.get_node(i).children;
            let most = *r.pick(&[2, 60, 60, 3000]);
            let mut vis: Vec<f64> = kids.iter().map(|_| if r.chance(0.3) { 0.0 } else if r.chance(0.2) { 1.0 } else { r.below(most) as f64 }).collect();
            if vis.iter().sum::<f64>() == 0.0 {
                vis[0] = 3.0;
            }
            let sum: f64 = vis.iter().sum();
            store.get_node_as_mut(i).visits = sum as f32 + r.below(2) as f32;
            let mut e = vec![0.0; a_size];
            for (k, v) in kids.iter().zip(&vis) {
                let ch = store.get_node_as_mut(*k);
                ch.visits = *v as f32;
                e[<T as LearnableGame>::encode(&states[i], ch.action_taken.as_ref().unwrap()) as usize] = v / sum;
            }
            if let Some(p) = c.run("visits", "get_prob_tensor", || wit.clone(), || get_prob_tensor(&states[i], i, &store)) {
                match p {
                    None => c.violation("visits-none", "no probabilities although moves were searched", wit.clone()),
                    Some(p) => {
                        if let Some(x) = same(&net::tensor_vec(&p), &e) {
                            c.violation("visits", &format!("visit probabilities: {x}"), wit.clone());
                        }
                    }
                }
            }
            want.extend(e);
        }
        let roots: Vec<_> = (0..m).map(|i| store.get_node_ref(i)).collect();
        if let Some(v) = c.run("visits-batch", "get_prob_tensor_parallel", || wit.clone(), || get_prob_tensor_parallel(&roots, &store)) {
            if let Some(e) = same(&net::tensor_vec(&v), &want) {
                c.violation("visits-batch", &format!("visit probabilities of a batch: {e}"), wit.clone());
            }
        }
    }
}

/// The noise mixed into the priors of the searched position.
type Noised = std::collections::BTreeMap<(&'static str, String), (u64, u64)>;
fn noise<T: Source>(nd: &mut Noised, c: &mut Check, r: &mut Rng, n: usize) {
    for k in 0..n {
        if c.full() {
            return;
        }
        let eps = *r.pick(&[0.0, 0.1, 0.25, 0.5, 1.0]);
        let alpha = *r.pick(&[0.03, 0.3, 1.0, 3.0, 10.0]);
        let conf = Conf { iterations: 1, dirichlet_alpha: alpha, dirichlet_epsilon: eps, ..Conf::default() };
        let gain = *r.pick(&[0.5, 3.0]);
        let nn: ResNet = net::net::<mon::Mon<T>>(r, gain);
        mon::start_silent(1 << 40);
        let m = if k % 2 == 0 { 1 } else { *r.pick(&[1, 1, 2, 4, 7]) as usize };
        let ss: Vec<mon::Mon<T>> = (0..m).map(|_| mon::Mon::wrap(T::random(r))).collect();
        let wit = json!({"states": ss, "conf": conf.toml(), "gain": gain, "serial": k % 2 == 0});
        let w = wit.clone();
        let Some((_, ts)) = c.run("search", "a search", || w, || {
            observe::<mon::Mon<T>, _>(|| {
                if k % 2 == 0 {
                    drop(alpha_mcts(&ss[0], &nn, &conf.mcts()))
                } else {
                    let mut store = NodeStore::new();
                    alpha_mcts_parallel(&mut store, &ss, &nn, &conf.mcts(), Some(indicatif::ProgressBar::hidden()))
                }
            })
        }) else { continue };
        for t in &ts {
            for root in t.roots() {
                let s = t.nodes[root].state;
                let kids = &t.nodes[root].children;
                if kids.is_empty() {
                    continue;
                }
                c.eval();
                c.count(&format!("noisy_roots_{}", t.kind), 1);
                let (p, _) = net::eval(&nn, &s);
                let code = |i: usize| <T as LearnableGame>::encode(&s.g, t.nodes[i].action.as_ref().unwrap()) as usize;
                let raw: Vec<f64> = kids.iter().map(|&i| p[code(i)] as f64).collect();
                let got: Vec<f64> = kids.iter().map(|&i| t.nodes[i].policy).collect();
                let sum: f64 = raw.iter().sum();
                let total: f64 = got.iter().sum();
                if !close(total, 1.0, 1e-3) || got.iter().any(|x| !(*x >= -1e-6)) {
                    c.violation(&format!("{}-root-priors", t.kind), &format!("{}: priors at the searched position add up to {total}", t.kind), wit.clone());
                    continue;
                }
                if eps == 0.0 || kids.len() == 1 {
                    if got.iter().zip(&raw).any(|(g, x)| !close(*g, x / sum, 1e-3)) {
                        c.violation(&format!("{}-no-noise", t.kind), &format!("{}: without noise the priors are not the network's", t.kind), wit.clone());
                    }
                    continue;
                }
                let k = [2, 3, 4, 6, 10, 30].iter().rposition(|&b| kids.len() >= b).unwrap();
                let mut groups = vec![format!("{k}")];
                if alpha > 0.1 {
                    // little concentration may well leave the few legal moves alone
                    groups.push(format!("alpha {alpha} of {}", m.min(3)));
                    groups.push(format!("epsilon {eps} of {}", m.min(3)));
                }
                for g in groups {
                    let e = nd.entry((t.kind, g)).or_default();
                    e.0 += 1;
                    e.1 += got.iter().zip(&raw).all(|(g, x)| (g - x / sum).abs() < 1e-6) as u64;
                }
                if t.kind == "alpha" {
                    // noise over the children
                    let d: Vec<f64> = got.iter().zip(&raw).map(|(g, x)| (g - (1.0 - eps) * x / sum) / eps).collect();
                    if d.iter().any(|x| *x < -2e-3) || !close(d.iter().sum(), 1.0, 1e-2) {
                        c.violation("alpha-mix", &format!("priors are not (1-e) network + e noise: noise {d:?}"), wit.clone());
                    }
                } else {
                    // noise over the whole action space, then restricted to the legal moves
                    let z_min = got.iter().zip(&raw).filter(|(g, _)| **g > 1e-6).map(|(g, x)| (1.0 - eps) * x / g).fold(0.0, f64::max);
                    let z_max = (1.0 - eps) * sum + eps;
                    if z_min > z_max * (1.0 + 1e-2) + 1e-4 {
                        c.violation("parallel-mix", "priors cannot come from (1-e) network + e noise", wit.clone());
                    }
                }
            }
        }
    }
}

/// The noise of searches of one or several positions, read off where all moves are legal.
fn concentration(c: &mut Check, r: &mut Rng) {
    let nn = net::net::<Fan>(r, 1.0);
    for alpha in [0.03, 0.3, 1.0, 2.5, 10.0, 60.0] {
        for m in [0usize, 1, 2, 5, 40] {
            // no others: one position searched alone
            let eps = *r.pick(&[0.1, 0.25, 0.5, 1.0]);
            let n = c.n(120, 1500);
            let conf = Conf { iterations: 1, dirichlet_alpha: alpha, dirichlet_epsilon: eps, ..Conf::default() };
            let how = if m == 0 { "alone".to_string() } else { format!("{m} at once") };
            let wit = json!({"alpha": alpha, "epsilon": eps, "how": how});
            let (mut s, mut s2, mut sum) = (0.0, 0.0, vec![0.0; FAN]);
            let mut got = 0.0;
            for _ in 0..n {
                let gs: Vec<Fan> = (0..m.max(1)).map(|i| Fan { player: if i % 3 == 1 { 1 } else { -1 }, ..Fan::new() }).collect();
                let Some((_, ts)) = c.run("search", "a search", || wit.clone(), || {
                    observe::<Fan, _>(|| {
                        if m == 0 {
                            drop(alpha_mcts(&gs[0], &nn, &conf.mcts()))
                        } else {
                            let mut store = NodeStore::new();
                            alpha_mcts_parallel(&mut store, &gs, &nn, &conf.mcts(), Some(indicatif::ProgressBar::hidden()))
                        }
                    })
                }) else { return };
                let Some(t) = ts.first() else { return };
                // one of them: they may share their noise
                let roots: Vec<_> = t.nodes.iter().filter(|n| n.parent.is_none()).collect();
                let root = *r.pick(&roots);
                let (p, _) = net::eval(&nn, &root.state);
                let mut d = vec![0.0; FAN];
                for &k in &root.children {
                    let a = t.nodes[k].action.unwrap() as usize;
                    d[a] = (t.nodes[k].policy - (1.0 - eps) * p[a] as f64) / eps;
                }
                let q: f64 = d.iter().map(|x| x * x).sum();
                s += q;
                s2 += q * q;
                sum.iter_mut().zip(&d).for_each(|(a, b)| *a += b);
                got += 1.0;
                if d.iter().any(|x| *x < -2e-3) || !close(d.iter().sum(), 1.0, 1e-2) {
                    c.violation("mix", &format!("{how}: priors are not (1-e) network + e noise: noise {d:?}"), wit.clone());
                    return;
                }
            }
            c.eval();
            c.count("noise_told", 1);
            let mean = s / got;
            let sd = ((s2 / got - mean * mean).max(0.0) / got).sqrt();
            let kf = FAN as f64;
            let want = (alpha + 1.0) / (kf * alpha + 1.0);
            if (mean - want).abs() > 6.5 * sd + 0.03 * want {
                c.violation("noise-concentration", &format!("{how}: noise of concentration {alpha} has a mean square sum of {mean:.3}, expected {want:.3}"), wit.clone());
            }
            let sd = (1.0 / kf * (1.0 - 1.0 / kf) / (kf * alpha + 1.0) / got).sqrt();
            if let Some(i) = (0..FAN).find(|&i| (sum[i] / got - 1.0 / kf).abs() > 6.5 * sd + 0.03 / kf) {
                c.violation("noise-even", &format!("{how}: noise favours move {i}: {:.3} of it in the mean", sum[i] / got), wit.clone());
            }
        }
    }
}

/// Moves drawn from given probabilities: how often each comes up, and after which.
fn sampling(c: &mut Check, r: &mut Rng) {
    use die_e::alphazero::alphazero::AlphaZero;
    let mut shapes: Vec<(&str, Vec<f64>)> = vec![
        ("one", vec![1.0]),
        ("last", vec![0.0, 0.0, 1.0]),
        ("first", vec![1.0, 0.0, 0.0]),
        ("two", vec![0.3, 0.7]),
        ("even", vec![1.0 / 9.0; 9]),
        ("rare", [vec![0.9995], vec![0.0001; 5]].concat()),
        ("rare ends", [vec![0.001], vec![0.998 / 7.0; 7], vec![0.001]].concat()),
    ];
    let mut tail = vec![0.0; 120];
    tail[r.below(120)] = 0.7;
    tail.iter_mut().filter(|x| **x == 0.0).for_each(|x| *x = 0.3 / 119.0);
    shapes.push(("long tail", tail));
    let mut sparse = vec![0.0; 1352];
    for k in [0, 1351, 25, 676, 700 + r.below(600)] {
        sparse[k] = 1.0 + r.below(9) as f64;
    }
    shapes.push(("sparse", sparse));
    shapes.push(("geometric", (0..20).map(|i| 0.5f64.powi(i)).collect()));
    shapes.push(("random", (0..9).map(|_| r.f64()).collect()));
    for (name, p) in shapes {
        let sum: f64 = p.iter().sum();
        let t = Tensor::from_slice(&p.iter().map(|x| (x / sum) as f32).collect::<Vec<f32>>());
        let n = c.n(if p.len() > 500 { 6_000 } else { 60_000 }, 400_000);
        let mut got = vec![0u64; p.len()];
        let mut twice = 0u64; // the same as the draw before
        let mut prev = usize::MAX;
        for _ in 0..n {
            let Some(k) = c.run("sample", "weighted_select_tensor_idx", || json!({"shape": name}), || AlphaZero::weighted_select_tensor_idx(&t)) else { return };
            if k >= p.len() {
                c.violation("sample-range", &format!("{name}: a move outside the list is drawn"), json!({"drawn": k, "length": p.len()}));
                return;
            }
            got[k] += 1;
            twice += (k == prev) as u64;
            prev = k;
        }
        c.eval();
        c.count("sampled", n as u64);
        c.nontrivial(hash_of(&name));
        let nf = n as f64;
        let far = |g: f64, q: f64| (g - nf * q).abs() > 7.0 * (nf * q * (1.0 - q) + 1.0).sqrt();
        for (k, x) in p.iter().enumerate() {
            let q = x / sum;
            if *x == 0.0 && got[k] > 0 || far(got[k] as f64, q) {
                c.violation("sample", &format!("{name}: move {k} of probability {q:.6} is drawn {} times in {n}", got[k]), json!({"probabilities": p, "drawn": got}));
                break;
            }
        }
        // everything unlikely together
        for at in [0.0005, 0.005, 0.05] {
            let (g, q) = p.iter().zip(&got).filter(|(x, _)| **x / sum < at).fold((0.0, 0.0), |a, (x, g)| (a.0 + *g as f64, a.1 + x / sum));
            if far(g, q) {
                c.violation("sample-rare", &format!("{name}: moves less likely than {at} are drawn {g} times in {n} instead of {:.0}", nf * q), json!({"probabilities": p, "drawn": got}));
                break;
            }
        }
        let same: f64 = p.iter().map(|x| (x / sum).powi(2)).sum();
        if (twice as f64 - nf * same).abs() > 8.0 * (nf * same + 1.0).sqrt() {
            c.violation("sample-again", &format!("{name}: a draw repeats the one before {twice} times in {n} instead of {:.0}", nf * same), json!({"probabilities": p}));
        }
    }
}

fn main() {
    let mut c = Check::new(
        "S07",
        "A case is one conversion between network policy or visit counts and move probabilities on random positions, policies and visits, single and batched, compared with \
         the definition; or the priors of a searched position under noise. Non-trivial: distinct positions.",
    );
    let mut r = c.rng(1);
    let mut nd = Noised::default();
    for _ in 0..c.n(1, 15) {
        if c.out_of_time() || c.full() {
            break;
        }
        conversions::<TicTacToe>(&mut c, &mut r, 300);
        conversions::<Backgammon>(&mut c, &mut r, 300);
        noise::<TicTacToe>(&mut nd, &mut c, &mut r, 400);
        noise::<Backgammon>(&mut nd, &mut c, &mut r, 60);
        for _ in 0..6 {
            hg(&mut r);
            conversions::<HashGame>(&mut c, &mut r, 50);
            noise::<HashGame>(&mut nd, &mut c, &mut r, 80);
        }
    }
    sampling(&mut c, &mut r);
    concentration(&mut c, &mut r);
    for ((kind, k), (n, none)) in &nd {
        c.count(&format!("noised_{kind}_{k}"), *n);
        if *n >= 8 && none * 10 >= n * 9 {
            c.violation("noise-missing", &format!("{kind}: at {none} of {n} searched positions ({k}) there is no noise in the priors"), json!({"class": k}));
        }
    }
    // the noise itself: mean and spread of a symmetric Dirichlet
    let nn = net::net::<HashGame>(&mut r, 1.0);
    for (k, alpha) in [(2, 0.3), (6, 0.3), (6, 2.0), (40, 0.5), (2, 0.03), (3, 0.01), (2, 1e-5), (2, 30.0)] {
        hashgame::configure(hashgame::HgCfg { pass: 0, max_moves: 48, min_len: 6, max_len: 9, ..hashgame::DEFAULT });
        let mut g = HashGame::at(1, -1);
        while g.get_valid_moves().len() != k {
            g = HashGame::at(g.path + 1, -1);
        }
        let (p, _) = net::eval(&nn, &g);
        let conf = Conf { iterations: 1, dirichlet_alpha: alpha, dirichlet_epsilon: 0.5, ..Conf::default() };
        let n = c.n(4000, 40000);
        let (mut s1, mut s2) = (vec![0.0; k], vec![0.0; k]);
        let mut got = 0.0;
        for _ in 0..n {
            let Ok((_, ts)) = guarded(|| observe::<HashGame, _>(|| alpha_mcts(&g, &nn, &conf.mcts()))) else { continue };
            let Some(t) = ts.first() else { continue };
            let kids = &t.nodes[0].children;
            if kids.len() != k {
                continue;
            }
            let raw: Vec<f64> = kids.iter().map(|&i| p[g.encode(t.nodes[i].action.as_ref().unwrap()) as usize] as f64).collect();
            let sum: f64 = raw.iter().sum();
            for (j, &i) in kids.iter().enumerate() {
                let d = (t.nodes[i].policy - 0.5 * raw[j] / sum) / 0.5;
                s1[j] += d;
                s2[j] += d * d;
            }
            got += 1.0;
        }
        c.count("noise_samples", got as u64);
        let (kf, af) = (k as f64, alpha * k as f64);
        let var = (1.0 / kf) * (1.0 - 1.0 / kf) / (af + 1.0);
        // spread over all moves together
        let mut spread = 0.0;
        for j in 0..k {
            let mean = s1[j] / got;
            spread += (s2[j] / got - mean * mean) / kf;
            if !((mean - 1.0 / kf).abs() <= 7.0 * (var / got).sqrt()) {
                c.violation("noise-mean", &format!("root noise has mean {mean:.4} instead of {:.4} for move {j} of {k}", 1.0 / kf), json!({"alpha": alpha}));
            }
        }
        if !(spread >= 0.8 * var && spread <= 1.25 * var) {
            c.violation("noise-spread", &format!("root noise has variance {spread:.5}, a Dirichlet({alpha}) over {k} moves has {var:.5}"), json!({"alpha": alpha}));
        }
    }
    c.require("noised_alpha_0", 4);
    c.require("noised_alpha_parallel_0", 4);
    c.require("sampled", 400_000);
    c.require("noise_told", 30);
    c.require("hopeless", 50);
    c.require("batches", 300);
    c.require("noisy_roots_alpha", 40);
    c.require("noisy_roots_alpha_parallel", 40);
    c.require("noise_samples", 4000);
    c.finish()
}
