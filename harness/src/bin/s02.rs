//! S02: search trees are well formed and account for every iteration.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::mct_search;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use vh::hashgame::HashGame;
use vh::mon::{Inner, Mon};
use vh::net::Conf;
use vh::tree::{observe, Tree};
use vh::work::{hg, Source};
use vh::*;

fn judge<T: Source>(c: &mut Check, t: &Tree<T>, n_roots: usize, roots: &[T], wit: serde_json::Value) {
    c.eval();
    c.count(&format!("nodes_{}_{}", t.kind, T::TAG), t.nodes.len() as u64);
    c.max("largest_tree", t.nodes.len() as u64);
    if t.nodes.len() > n_roots + 2 {
        c.nontrivial(hash_of(&(t.kind, t.iterations, t.nodes.iter().map(|n| n.visits as u64).collect::<Vec<_>>(), serde_json::to_string(&t.nodes[0].state).unwrap())));
    }
    for n in &t.nodes {
        if n.parent.is_some() && n.state.check_winner().is_some() && n.visits > 1.0 {
            c.count("revisited_finished", 1);
        }
        if n.state.check_winner().is_none() && n.children.is_empty() && n.n_expandable == 0 && n.visits > 1.0 {
            c.count("revisited_blocked", 1);
        }
    }
    let r = t.roots();
    if r.len() != n_roots {
        c.violation(&format!("{}-roots", t.kind), &format!("{}: {} roots for {} positions", t.kind, r.len(), n_roots), wit.clone());
        return;
    }
    for s in roots {
        if r.iter().filter(|&&i| t.nodes[i].state.same(s)).count() < 1 {
            c.violation(&format!("{}-root-state", t.kind), &format!("{}: no root for a searched position", t.kind), json!({"state": s, "run": wit}));
        }
    }
    for (k, m) in t.structure().into_iter().chain(t.conservation()) {
        c.violation(&format!("{}-{k}", t.kind), &format!("{} at {}: {m}", t.kind, T::TAG), wit.clone());
    }
}

fn go<T: Source>(c: &mut Check, r: &mut Rng, n_mcts: usize, n_alpha: usize) {
    for _ in 0..n_mcts {
        if c.full() {
            return;
        }
        let s = T::random(r);
        let cfg = Conf { iterations: *r.pick(&[1, 2, 3, 5, 7, 10, 14, 22, 50, 300]), exploration_const: *r.pick(&[0.1, 1.4, 2.0, 10.0]), simulate_round_limit: *r.pick(&[1, 5, 400]), ..Conf::default() };
        let wit = json!({"search": "mcts", "state": s, "conf": cfg.toml()});
        let w = wit.clone();
        let p = s.get_player() * if r.chance(0.3) { -1 } else { 1 };
        let Some((m, ts)) = c.run("mcts", "mct_search", || w, || observe::<T, _>(|| mct_search(s, p, &cfg.mcts()))) else { continue };
        if ts.len() != 1 {
            c.count("unobserved", 1);
            continue;
        }
        judge(c, &ts[0], 1, &[s], wit.clone());
        // the answer is a move searched most
        let t = &ts[0];
        let best = t.nodes[0].children.iter().map(|&i| t.nodes[i].visits).fold(0.0, f64::max);
        if best > 0.0 && !t.nodes[0].children.iter().any(|&i| t.nodes[i].visits == best && t.nodes[i].action.as_ref() == Some(&m)) {
            c.violation("mcts-answer", &format!("the answer {m:?} is not the most visited move"), wit);
        }
    }
    for k in 0..n_alpha {
        if c.full() {
            return;
        }
        let cfg = Conf {
            iterations: *r.pick(&[1, 2, 10, 40, 120]),
            dirichlet_epsilon: *r.pick(&[0.0, 0.25, 1.0]),
            dirichlet_alpha: *r.pick(&[0.03, 0.3, 2.0]),
            exploration_const: *r.pick(&[0.1, 0.3, 2.0, 8.0]),
            ..Conf::default()
        };
        let gain = *r.pick(&[0.2, 2.0, 5.0]);
        let nn = net::net::<Mon<T>>(r, gain);
        mon::start_silent(50_000_000);
        if k % 2 == 0 {
            let s = Mon::wrap(T::random(r));
            let wit = json!({"search": "alpha", "state": s, "conf": cfg.toml(), "gain": gain});
            let w = wit.clone();
            let Some((_, ts)) = c.run("alpha", "alpha_mcts", || w, || observe::<Mon<T>, _>(|| alpha_mcts(&s, &nn, &cfg.mcts()))) else { continue };
            if ts.len() == 1 {
                judge(c, &ts[0], 1, &[s], wit);
            }
        } else {
            let n = r.range(1, 9) as usize;
            let ss: Vec<Mon<T>> = (0..n).map(|_| Mon::wrap(T::random(r))).collect();
            let wit = json!({"search": "alpha_parallel", "states": ss, "conf": cfg.toml(), "gain": gain});
            let w = wit.clone();
            let Some((_, ts)) = c.run("alpha-parallel", "alpha_mcts_parallel", || w, || {
                observe::<Mon<T>, _>(|| {
                    let mut store = NodeStore::new();
                    alpha_mcts_parallel(&mut store, &ss, &nn, &cfg.mcts(), Some(indicatif::ProgressBar::hidden()))
                })
            }) else { continue };
            if ts.len() == 1 {
                judge(c, &ts[0], n, &ss, wit);
                // roots stand in the order of the positions given
                let at = ts[0].roots();
                for (i, s) in ss.iter().enumerate() {
                    if at.get(i).is_none_or(|&k| !ts[0].nodes[k].state.same(s)) {
                        c.violation("alpha_parallel-order", "roots are not in the order of the positions given", json!(s));
                    }
                }
            }
        }
    }
}

/// trees of more nodes and visits than fit in two bytes
fn large(c: &mut Check, r: &mut Rng) {
    let s = TicTacToe::new();
    let cfg = Conf { iterations: 70_000, simulate_round_limit: 20, ..Conf::default() };
    let wit = json!({"search": "mcts", "state": s, "conf": cfg.toml()});
    let w = wit.clone();
    if let Some((_, ts)) = c.run("mcts", "mct_search", || w, || observe::<TicTacToe, _>(|| mct_search(s, -1, &cfg.mcts()))) {
        if ts.len() == 1 {
            judge(c, &ts[0], 1, &[s], wit);
        }
    }
    let nn = net::net::<Mon<TicTacToe>>(r, 2.0);
    mon::start_silent(500_000_000);
    let n = r.range(300, 500) as usize;
    let ss: Vec<Mon<TicTacToe>> = (0..n).map(|_| Mon::wrap(TicTacToe::new())).collect();
    let cfg = Conf { iterations: 90, exploration_const: 2.0, ..Conf::default() };
    let wit = json!({"search": "alpha_parallel", "states": n, "conf": cfg.toml()});
    let w = wit.clone();
    if let Some((_, ts)) = c.run("alpha-parallel", "alpha_mcts_parallel", || w, || {
        observe::<Mon<TicTacToe>, _>(|| {
            let mut store = NodeStore::new();
            alpha_mcts_parallel(&mut store, &ss, &nn, &cfg.mcts(), Some(indicatif::ProgressBar::hidden()))
        })
    }) {
        if ts.len() == 1 {
            judge(c, &ts[0], n, &ss[..1], wit);
        }
    }
}

fn main() {
    let mut c = Check::new(
        "S02",
        "A case is the finished tree of one search (plain, single network-guided, batched) reported by a hook and walked by an oracle: links, positions, legal and \
         complete expansions, and visit counts. Non-trivial: distinct trees with more than two nodes besides roots.",
    );
    let mut r = c.rng(1);
    large(&mut c, &mut r);
    for _ in 0..c.n(1, 15) {
        if c.out_of_time() || c.full() {
            break;
        }
        go::<TicTacToe>(&mut c, &mut r, 500, 50);
        go::<Backgammon>(&mut c, &mut r, 120, 40);
        for _ in 0..12 {
            hg(&mut r);
            go::<HashGame>(&mut c, &mut r, 90, 14);
        }
    }
    // while other threads search as well
    for _ in 0..c.n(1, 8) {
        if c.full() {
            break;
        }
        let crowd = crowd::Crowd::<TicTacToe>::new(4, r.next(), crowd::Busy::Searching);
        crowd.near(&TicTacToe::new());
        let other = crowd::Crowd::<Backgammon>::new(2, r.next(), crowd::Busy::Searching);
        for _ in 0..1 {
            go::<TicTacToe>(&mut c, &mut r, 150, 0);
            go::<Backgammon>(&mut c, &mut r, 40, 0);
        }
        drop((crowd, other));
    }
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    c.require("largest_tree", 70_000);
    c.require("nodes_mcts_tictactoe", 1000);
    c.require("nodes_mcts_backgammon", 1000);
    c.require("nodes_alpha_backgammon", 500);
    c.require("nodes_alpha_parallel_tictactoe", 500);
    c.require("nodes_alpha_parallel_backgammon", 500);
    c.require("nodes_alpha_parallel_hashgame", 500);
    c.require("revisited_finished", 100);
    c.require("revisited_blocked", 20);
    c.finish()
}
