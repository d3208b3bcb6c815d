//! S05: every iteration follows the upper-confidence rule.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::mct_search;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use vh::hashgame::HashGame;
use vh::mon::{Inner, Mon};
use vh::net::Conf;
use vh::tree::{observe, Tree};
use vh::work::{hg, Source};
use vh::*;

fn score<T: Inner>(t: &Tree<T>, p: usize, k: usize, c: f64) -> f64 {
    let (n, v) = (t.nodes[k].visits, t.nodes[k].value);
    let np = t.nodes[p].visits;
    if t.kind == "mcts" {
        v / n + (c * np.ln() / n).sqrt()
    } else {
        let q = if n == 0.0 { 0.0 } else { v / n };
        q + c * t.nodes[k].policy * np.sqrt() / (1.0 + n)
    }
}

/// `a` is the tree after k iterations, `b` the same search after k + 1.
fn step<T: Inner>(c: &mut Check, a: &Tree<T>, b: &Tree<T>, cc: f64, wit: &serde_json::Value) {
    let comparable = b.nodes.len() >= a.nodes.len() && (0..a.nodes.len()).all(|i| a.nodes[i].action == b.nodes[i].action && a.nodes[i].parent == b.nodes[i].parent && a.nodes[i].state.same(&b.nodes[i].state) && b.nodes[i].visits >= a.nodes[i].visits);
    if !comparable {
        c.count("not_comparable", 1);
        return;
    }
    for root in a.roots() {
        let mut n = root;
        let mut depth = 0;
        loop {
            if b.nodes[n].visits - a.nodes[n].visits != 1.0 {
                c.count("not_comparable", 1);
                return;
            }
            let node = &a.nodes[n];
            let waiting = a.kind == "mcts" && node.n_expandable > 0 && node.state.check_winner().is_none();
            let grown: Vec<usize> = node.children.iter().copied().filter(|&k| b.nodes[k].visits > a.nodes[k].visits).collect();
            if waiting {
                c.eval();
                c.count("expansions", 1);
                let fresh: Vec<usize> = b.nodes[n].children.iter().copied().filter(|k| *k >= a.nodes.len()).collect();
                if fresh.len() != 1 || !grown.is_empty() {
                    c.violation(&format!("{}-expand", a.kind), &format!("{}: at a node with untried moves the iteration does not try exactly one of them", a.kind), json!({"node": n, "run": wit}));
                }
                break;
            }
            if node.children.is_empty() {
                c.count("leaves", 1);
                break;
            }
            c.eval();
            if grown.len() != 1 {
                c.violation(&format!("{}-path", a.kind), &format!("{}: an iteration follows {} children of one node", a.kind, grown.len()), json!({"node": n, "run": wit}));
                break;
            }
            let best = node.children.iter().map(|&k| score(a, n, k, cc)).fold(f64::NEG_INFINITY, f64::max);
            let got = score(a, n, grown[0], cc);
            let distinct = node.children.iter().filter(|&&k| (score(a, n, k, cc) - best).abs() > 1e-3).count();
            c.count(&format!("choices_{}", a.kind), 1);
            if distinct > 0 && node.children.len() > 1 {
                c.count(&format!("real_choices_{}", a.kind), 1);
                c.nontrivial(hash_of(&(a.kind, a.iterations, n, serde_json::to_string(&a.nodes[root].state).unwrap())));
            }
            if got < best - 1e-3 * (1.0 + best.abs()) {
                c.violation(
                    &format!("{}-rule", a.kind),
                    &format!("{}: iteration {} follows a child of node {n} scoring {got:.5}, another one scores {best:.5}", a.kind, b.iterations),
                    json!({"node": n, "visits": node.children.iter().map(|&k| a.nodes[k].visits).collect::<Vec<_>>(), "run": wit}),
                );
            }
            n = grown[0];
            depth += 1;
        }
        c.max("deepest_path", depth);
    }
}

fn chain<T: Inner>(c: &mut Check, ks: &[usize], cc: f64, wit: serde_json::Value, f: impl Fn(usize) -> Option<Tree<T>>) {
    for &k in ks {
        if let (Some(a), Some(b)) = (f(k), f(k + 1)) {
            step(c, &a, &b, cc, &wit);
        }
    }
}

fn go<T: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    for k in 0..n {
        if c.full() {
            return;
        }
        let eps = *r.pick(&[0.0, 0.25]);
        let cc = *r.pick(&[0.0, 0.3, 1.4, 2.0, 5.0, 30.0, 400.0]);
        let gain = *r.pick(&[1.0, 4.0]);
        let seed = r.next();
        // most searches are short, some long enough for any cap on visits to show
        let long = k % 6 >= 3 && k % 9 < 5;
        let ks: Vec<usize> = match (long, k % 3 == 0) {
            (false, mcts) => (0..10).map(|_| 1 + r.below(if mcts { 250 } else { 70 })).collect(),
            (true, true) => (0..3).map(|_| 500 + r.below(500)).collect(),
            (true, false) => (0..2).map(|_| 130 + r.below(400)).collect(),
        };
        c.max("longest_search", *ks.iter().max().unwrap() as u64);
        let conf = move |it: usize| Conf { iterations: it, exploration_const: cc, dirichlet_epsilon: eps, simulate_round_limit: 60, ..Conf::default() };
        if k % 3 == 0 {
            let s = T::random(r);
            let p = s.get_player() * if r.chance(0.3) { -1 } else { 1 };
            let wit = json!({"search": "mcts", "state": s, "player": p, "conf": conf(0).toml(), "entropy": seed});
            chain::<T>(c, &ks, cc, wit, |it| entropy::with_entropy(seed, || guarded(|| observe::<T, _>(|| mct_search(s, p, &conf(it).mcts())).1.pop()).ok().flatten()).ok().flatten());
        } else {
            let nn = net::net::<Mon<T>>(r, gain);
            mon::start_silent(1 << 40);
            let m = if k % 3 == 1 { 1 } else { r.range(2, 5) as usize };
            let ss: Vec<Mon<T>> = (0..m).map(|_| Mon::wrap(T::random(r))).collect();
            let wit = json!({"search": if m == 1 {"alpha"} else {"alpha_parallel"}, "states": ss, "conf": conf(0).toml(), "gain": gain, "entropy": seed});
            // the version plane must not depend on the run: judge by the plain game instead
            let base = ss[m - 1].ver;
            struct Share<'a>(&'a die_e::alphazero::nnet::ResNet);
            unsafe impl Sync for Share<'_> {}
            let sh = Share(&nn);
            let sh = &sh;
            let ss = &ss;
            chain::<Mon<T>>(c, &ks, cc, wit, |it| {
                mon::rewind(base);
                entropy::with_entropy(seed, move || {
                    let sh = sh;
                    guarded(|| {
                        observe::<Mon<T>, _>(|| {
                            if m == 1 {
                                drop(alpha_mcts(&ss[0], sh.0, &conf(it).mcts()))
                            } else {
                                let mut store = NodeStore::new();
                                alpha_mcts_parallel(&mut store, ss, sh.0, &conf(it).mcts(), Some(indicatif::ProgressBar::hidden()))
                            }
                        })
                        .1
                        .pop()
                    })
                    .ok()
                    .flatten()
                })
                .ok()
                .flatten()
            });
        }
    }
}

/// What a search makes of its random numbers does not depend on searches going on elsewhere.
fn alone_and_among_others<T: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    type Shape = Vec<(Option<usize>, u64, String)>;
    let run = |s: T, p: i8, cfg: &Conf, seed: u64| -> Option<Shape> {
        let t = entropy::with_entropy(seed, || guarded(|| observe::<T, _>(|| mct_search(s, p, &cfg.mcts())).1.pop()).ok().flatten()).ok().flatten()?;
        Some(t.nodes.iter().map(|n| (n.parent, n.visits as u64, format!("{:?}", n.action))).collect())
    };
    let mut cases = vec![];
    for _ in 0..n {
        let s = T::random(r);
        let p = s.get_player() * if r.chance(0.3) { -1 } else { 1 };
        let cfg = Conf { iterations: *r.pick(&[40, 150, 300]), exploration_const: *r.pick(&[0.3, 1.4, 2.0, 30.0]), simulate_round_limit: 60, ..Conf::default() };
        let seed = r.next();
        match (run(s, p, &cfg, seed), run(s, p, &cfg, seed)) {
            (Some(x), Some(y)) if x == y => cases.push((s, p, cfg, seed, x)),
            _ => c.count("not_comparable", 1),
        }
    }
    let crowd = crowd::Crowd::<T>::new(6, r.next(), crowd::Busy::Searching);
    for _ in 0..4 {
        for (s, p, cfg, seed, alone) in &cases {
            crowd.near(s);
            let Some(t) = run(*s, *p, cfg, *seed) else { continue };
            c.eval();
            c.count("searches_among_others", 1);
            if t != *alone {
                let at = t.iter().zip(alone).position(|(x, y)| x != y);
                c.violation("mcts-shared", "mcts: with the same random numbers a search follows other moves while other threads search", json!({"first_difference_at_node": at, "state": s, "player": p, "conf": cfg.toml(), "entropy": seed}));
                return;
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "S05",
        "A case is one choice on the path of one iteration, seen by running the same search (same positions, network and random numbers) for k and k+1 iterations and \
         comparing the trees; the child followed must have the best score computed from the first tree. Non-trivial: distinct choices between children whose scores differ.",
    );
    let mut r = c.rng(1);
    for _ in 0..c.n(1, 15) {
        if c.out_of_time() || c.full() {
            break;
        }
        go::<TicTacToe>(&mut c, &mut r, 60);
        go::<Backgammon>(&mut c, &mut r, 24);
        for _ in 0..8 {
            hg(&mut r);
            go::<HashGame>(&mut c, &mut r, 9);
        }
    }
    // while other threads search as well
    for _ in 0..c.n(1, 8) {
        if c.full() {
            break;
        }
        let crowd = crowd::Crowd::<TicTacToe>::new(4, r.next(), crowd::Busy::Searching);
        crowd.near(&TicTacToe::new());
        let other = crowd::Crowd::<Backgammon>::new(2, r.next(), crowd::Busy::Searching);
        for _ in 0..1 {
            go::<TicTacToe>(&mut c, &mut r, 12);
            go::<Backgammon>(&mut c, &mut r, 3);
        }
        drop((crowd, other));
    }
    for _ in 0..c.n(1, 10) {
        alone_and_among_others::<TicTacToe>(&mut c, &mut r, 60);
        alone_and_among_others::<Backgammon>(&mut c, &mut r, 20);
    }
    c.require("searches_among_others", 100);
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    c.assume("a run is repeated with identical random numbers by serving the operating system's entropy from a seed; pairs of runs that still differ are not judged (counted as not_comparable)");
    for t in ["real_choices_mcts", "real_choices_alpha", "real_choices_alpha_parallel"] {
        c.require(t, 300);
    }
    c.finish()
}
