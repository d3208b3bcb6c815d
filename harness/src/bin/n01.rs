//! N01: asking the network changes nothing and each position is judged for itself.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, Player};
use serde_json::json;
use tch::Tensor;
use vh::hashgame::HashGame;
use vh::mon::{self, Mon};
use vh::net::{tensor_vec, vars, Conf};
use vh::work::Source;
use vh::*;

const TOL: f64 = 2e-4;

fn off(a: &[f32], b: &[f32]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    a.iter().zip(b).map(|(x, y)| if x.is_nan() || y.is_nan() { f64::INFINITY } else { (x - y).abs() as f64 }).fold(0.0, f64::max)
}

fn rows(t: &Tensor, n: usize) -> Vec<Vec<f32>> {
    let v = tensor_vec(t);
    if n == 0 || v.len() % n != 0 {
        return vec![];
    }
    v.chunks(v.len() / n).map(|x| x.to_vec()).collect()
}

fn outputs<G: Source>(c: &mut Check, r: &mut Rng, nets: usize, batches: usize) {
    let a = G::ACTION_SPACE_SIZE as usize;
    for _ in 0..nets {
        if c.out_of_time() || c.full() {
            return;
        }
        let gain = *r.pick(&[0.0, 0.5, 3.0]);
        // gain 0: a network as it is created
        let nn = if gain == 0.0 { ResNet::new::<G>(tch::nn::VarStore::new(tch::Device::Cpu)) } else { net::net::<G>(r, gain) };
        let v0 = vars(&nn.vs);
        for b in 0..batches {
            // now and then as many as a match or a large self-play asks at once
            let n = match b % 6 {
                5 if G::TAG == "backgammon" => *r.pick(&[70, 130, 300]),
                5 => *r.pick(&[70, 300, 600, 1500]),
                _ => *r.pick(&[1, 2, 3, 8, 20]),
            } as usize;
            c.max("largest_batch", n as u64);
            if n > 256 {
                c.count(&format!("big_batches_{}", G::TAG), 1);
            }
            let every = if n > 30 { n / 24 } else { 1 };
            let shift = r.below(every);
            let mut ss: Vec<G> = (0..n).map(|_| G::random(r)).collect();
            if n > 2 && r.chance(0.3) {
                ss[n - 1] = ss[0];
            }
            let wit = json!({"game": G::TAG, "positions": ss, "gain": gain});
            let xs: Vec<Tensor> = ss.iter().map(|s| s.as_tensor()).collect();
            let x = Tensor::cat(&xs, 0);
            let _g = tch::no_grad_guard();
            let Some((p, v)) = c.run("forward", "forward_t", || wit.clone(), || nn.forward_t(&x, false)) else { return };
            let (ps, vals) = (rows(&p, n), rows(&v, n));
            if ps.len() != n || ps[0].len() != a || vals.len() != n || vals[0].len() != 1 {
                c.violation("shape", &format!("{}: outputs of {n} positions have shapes {:?} and {:?}", G::TAG, p.size(), v.size()), wit);
                return;
            }
            for i in 0..n {
                if n > 30 && i % every != shift && i + 4 < n {
                    continue;
                }
                c.eval();
                let sum: f64 = ps[i].iter().map(|x| *x as f64).sum();
                if !((sum - 1.0).abs() < 1e-3) || ps[i].iter().any(|x| !(*x >= 0.0)) {
                    c.violation("policy", &format!("{}: a policy sums to {sum} or has negative entries", G::TAG), wit.clone());
                }
                if !(vals[i][0].abs() <= 1.0) {
                    c.violation("value", &format!("{}: a value of {}", G::TAG, vals[i][0]), wit.clone());
                }
                let alone = net::eval(&nn, &ss[i]);
                if off(&alone.0, &ps[i]) > TOL || (alone.1 - vals[i][0]).abs() as f64 > TOL {
                    c.violation("batch", &format!("{}: position {i} of {n} is judged differently alone", G::TAG), wit.clone());
                }
                let again = net::eval(&nn, &ss[i]);
                if off(&alone.0, &again.0) > 1e-6 || (alone.1 - again.1).abs() > 1e-6 {
                    c.violation("again", &format!("{}: the same question is answered differently the second time", G::TAG), wit.clone());
                }
                c.nontrivial(hash_of(&(G::TAG, serde_json::to_string(&ss[i]).unwrap(), v0.values().next().unwrap().first().map(|x| x.to_bits()))));
                if i > 0 && off(&ps[0], &ps[i]) > 1e-5 {
                    c.count("different_answers", 1);
                }
            }
            // the other ways to ask
            if let Some(q) = c.run("policy-only", "forward_policy", || wit.clone(), || nn.forward_policy(&x, false)) {
                if off(&tensor_vec(&q), &tensor_vec(&p)) > TOL {
                    c.violation("policy-only", &format!("{}: asking for the policy alone gives another policy", G::TAG), wit.clone());
                }
            }
            if let Some((l, u)) = c.run("logits", "forward_train", || wit.clone(), || nn.forward_train(&x, false)) {
                if off(&tensor_vec(&l.softmax(1, None)), &tensor_vec(&p)) > TOL || off(&tensor_vec(&u), &tensor_vec(&v)) > TOL {
                    c.violation("logits", &format!("{}: the outputs training works on are not those used in play", G::TAG), wit.clone());
                }
            }
            // every input plane matters
            if gain > 0.0 {
                for k in 0..G::N_INPUT_CHANNELS {
                    let y = xs[0].to_kind(tch::Kind::Float).copy();
                    let mut plane = y.narrow(1, k, 1);
                    let _ = plane.g_add_scalar_(1.0);
                    let (q, w) = nn.forward_t(&y, false);
                    c.count("planes_changed", 1);
                    if off(&tensor_vec(&q), &ps[0]) + (tensor_vec(&w)[0] - vals[0][0]).abs() as f64 > 1e-7 {
                        c.count("planes_noticed", 1);
                    }
                }
            }
        }
        if vars(&nn.vs) != v0 {
            c.violation("changed", &format!("{}: asking the network changes it", G::TAG), json!({"game": G::TAG}));
        }
    }
}

/// the same positions in batches of every size, asked in every way
fn sizes<G: Source>(c: &mut Check, r: &mut Rng, ns: &[i64]) {
    let most = *ns.iter().max().unwrap();
    let nn = net::net::<G>(r, 1.0);
    let v0 = vars(&nn.vs);
    let xs: Vec<Tensor> = (0..most).map(|_| G::random(r).as_tensor()).collect();
    let x = Tensor::cat(&xs, 0);
    let _g = tch::no_grad_guard();
    let alone: Vec<(Vec<f32>, f32)> = xs.iter().map(|t| nn.forward_t(t, false)).map(|(p, v)| (tensor_vec(&p), tensor_vec(&v)[0])).collect();
    for &n in ns {
        if c.full() {
            return;
        }
        let wit = json!({"game": G::TAG, "batch": n});
        let part = x.narrow(0, 0, n);
        let (q, Some((p, v)), Some((l, u))) = (
            c.run("policy-only", "forward_policy", || wit.clone(), || nn.forward_policy(&part, false)),
            c.run("forward", "forward_t", || wit.clone(), || nn.forward_t(&part, false)),
            c.run("logits", "forward_train", || wit.clone(), || nn.forward_train(&part, false)),
        ) else {
            continue;
        };
        let Some(q) = q else { continue };
        c.eval();
        c.count("batch_sizes", 1);
        let (p, q, l, v, u) = (rows(&p, n as usize), rows(&q, n as usize), rows(&l.softmax(1, None), n as usize), tensor_vec(&v), tensor_vec(&u));
        for i in [0, r.below(n as usize), n as usize - 1] {
            let (a, w) = &alone[i];
            if off(a, &p[i]) > TOL || off(a, &l[i]) > TOL || !((v[i] - w).abs() as f64 <= TOL) || !((u[i] - w).abs() as f64 <= TOL) {
                c.violation("batch", &format!("{}: position {i} of {n} is judged differently alone", G::TAG), wit.clone());
            }
            if off(a, &q[i]) > TOL {
                c.violation("policy-only", &format!("{}: asking for the policy of {n} positions alone gives another policy", G::TAG), wit.clone());
            }
        }
        if vars(&nn.vs) != v0 {
            c.violation("changed", &format!("{}: asking the network about {n} positions changes it", G::TAG), wit);
            return;
        }
    }
}

/// searching and playing leave the networks alone
fn uses<G: Source>(c: &mut Check, r: &mut Rng, with_match: bool) {
    let cfg = Conf { iterations: 8, num_self_play_batches: 4, simulate_round_limit: 10, ..Conf::default() };
    let nn = net::net::<Mon<G>>(r, 1.0);
    let az = cfg.alphazero::<Mon<G>>(None);
    net::randomize(&az.model.vs, r, 1.0);
    let (v, w) = (vars(&nn.vs), vars(&az.model.vs));
    mon::start_silent(50_000_000);
    let ss: Vec<Mon<G>> = (0..6).map(|_| Mon::random(r)).collect();
    let wit = json!({"game": G::TAG});
    for (what, f) in [
        ("search", Box::new(|| { alpha_mcts(&ss[0], &nn, &cfg.mcts()); }) as Box<dyn Fn()>),
        ("batched search", Box::new(|| alpha_mcts_parallel(&mut NodeStore::new(), &ss, &nn, &cfg.mcts(), Some(indicatif::ProgressBar::hidden())))),
        ("self-play", Box::new(|| { az.self_play_parallel::<Mon<G>>(); })),
        ("answer", Box::new(|| { az.get_next_move_for_state(&ss[1]); })),
    ] {
        if c.run("use", what, || wit.clone(), &f).is_none() {
            continue;
        }
        c.eval();
        c.count("uses", 1);
        if vars(&nn.vs) != v || vars(&az.model.vs) != w {
            c.violation("use", &format!("{}: {what} changes the network", G::TAG), wit.clone());
        }
    }
    if with_match {
        let other = net::net::<Mon<G>>(r, 1.0);
        let copy = net::net::<Mon<G>>(r, 1.0);
        let keep = copy.vs.variables();
        let before = vars(&copy.vs);
        let cfg = Conf { iterations: 2, ..Conf::default() };
        if c.run("use", "a match", || wit.clone(), || play::<Mon<G>>(Player::new(Agent::Model, Some(copy)), Player::new(Agent::Model, Some(other)), &cfg.mcts(), 1.0)).is_some() {
            c.eval();
            c.count("uses", 1);
            let _g = tch::no_grad_guard();
            for (k, t) in keep {
                if tensor_vec(&t) != before[&k] {
                    c.violation("use", &format!("{}: a match changes the network", G::TAG), wit.clone());
                    break;
                }
            }
        }
        let rival = net::net::<Mon<G>>(r, 1.0);
        c.run("use", "play_vs_model", || wit.clone(), || az.play_vs_model::<Mon<G>>(rival));
        if vars(&az.model.vs) != w {
            c.violation("use", &format!("{}: a match changes the network", G::TAG), wit);
        }
    }
}

fn main() {
    let mut c = Check::new(
        "N01",
        "A case is one position judged in a batch, alone, again and through the other ways of asking, or one use of a network with all its variables compared before and after. \
         Non-trivial: distinct (network, position) pairs.",
    );
    let mut r = c.rng(1);
    for _ in 0..c.n(1, 15) {
        outputs::<Mon<HashGame>>(&mut c, &mut r, 20, 6);
        outputs::<TicTacToe>(&mut c, &mut r, 4, 6);
        outputs::<Backgammon>(&mut c, &mut r, 3, 6);
        let all: Vec<i64> = (1..=420).chain([512, 600, 800, 1000, 1024, 2048]).collect();
        sizes::<Mon<HashGame>>(&mut c, &mut r, &all);
        sizes::<TicTacToe>(&mut c, &mut r, &[1, 2, 16, 32, 64, 100, 128, 199, 200, 201, 256, 400, 512]);
        sizes::<Backgammon>(&mut c, &mut r, &[1, 2, 16, 32, 64, 100, 128, 200]);
        uses::<HashGame>(&mut c, &mut r, true);
        uses::<TicTacToe>(&mut c, &mut r, true);
        uses::<Backgammon>(&mut c, &mut r, false);
    }
    let (n, s) = (c.counter("planes_changed"), c.counter("planes_noticed"));
    if n > 0 && s * 10 < n * 8 {
        c.violation("deaf", &format!("only {s} of {n} changes of an input plane change the answer"), json!({"changed": n, "noticed": s}));
    }
    c.assume("equal up to 2e-4 between batch sizes, 1e-6 between repetitions; weights compared bit by bit");
    c.require("evaluations", 300);
    c.require("different_answers", 100);
    c.require("uses", 10);
    c.require("big_batches_hashgame", 2);
    c.finish()
}
