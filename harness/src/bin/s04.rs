//! S04: what a search learns at a node is about that node's game, position and side.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::mct_search;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::collections::HashMap;
use vh::hashgame::HashGame;
use vh::mon::{Inner, Mon};
use vh::net::Conf;
use vh::tree::{observe, Tree};
use vh::work::{hg, Source};
use vh::*;

const TOL: f64 = 3e-4;

fn alpha<T: Source>(c: &mut Check, t: &Tree<Mon<T>>, nn: &die_e::alphazero::nnet::ResNet, eps: f64, wit: &serde_json::Value) {
    for (i, n) in t.nodes.iter().enumerate() {
        let s = &n.state;
        let me = s.get_player();
        let root = n.parent.is_none();
        let own_v = t.own_value(i);
        let own_n = t.own_visits(i);
        if n.visits == 0.0 {
            continue;
        }
        c.eval();
        if let Some(w) = s.check_winner() {
            let sign = if w == me { 1.0 } else if w == -me { -1.0 } else { 0.0 };
            c.count("finished_nodes", 1);
            if !close(own_v, sign * own_n, TOL) {
                c.violation("finished", &format!("{}: a finished game (winner {w}, player {me} to move) is valued {own_v} over {own_n} visits", t.kind), json!({"node": i, "state": s, "run": wit}));
            }
            continue;
        }
        let (p, v) = net::eval(nn, s);
        let times = if !root { own_n } else if n.children.is_empty() { t.iterations as f64 } else { 0.0 };
        if v.abs() > 0.05 && times > 0.0 {
            c.nontrivial(hash_of(&serde_json::to_string(s).unwrap()));
        }
        c.count("network_values", 1);
        if !close(own_v, v as f64 * times, TOL * (1.0 + times)) {
            c.violation("value", &format!("{}: node {i} got value {own_v}, the network says {v} ({times} evaluations)", t.kind), json!({"node": i, "state": s, "run": wit}));
        }
        // priors of the children
        if n.children.is_empty() || (root && eps > 0.0) {
            continue;
        }
        let code = |a: &T::Move| <Mon<T> as LearnableGame>::encode(s, a) as usize;
        let sum: f64 = s.get_valid_moves().iter().map(|m| p[code(m)] as f64).sum();
        for &k in &n.children {
            let Some(a) = &t.nodes[k].action else { continue };
            let want = p[code(a)] as f64 / sum;
            c.count("priors", 1);
            if !close(t.nodes[k].policy, want, TOL) {
                c.violation("prior", &format!("{}: move {a:?} of node {i} has prior {}, the network gives it {want}", t.kind, t.nodes[k].policy), json!({"node": i, "state": s, "run": wit}));
            }
        }
    }
}

fn doubles<T: Source>(s: &T) -> bool {
    let v = serde_json::to_value(s).unwrap_or_default();
    v["roll"].is_null() || v["roll"][0] == v["roll"][1]
}

/// a position that differs from this one in a single respect
fn twin<T: Source>(s: &T, r: &mut Rng) -> Option<T> {
    let mut v = serde_json::to_value(s).ok()?;
    let o = v.as_object_mut()?;
    if let (Some(b), Some(roll)) = (o.get("is_second_play").and_then(|x| x.as_bool()), o.get("roll").cloned()) {
        match r.below(4) {
            0 => {
                // both plays of the same double
                if roll[0] != roll[1] {
                    let d = r.range(1, 6);
                    o.insert("roll".into(), json!([d, d]));
                }
                o.insert("is_second_play".into(), json!(!b));
            }
            1 => {
                o.insert("roll".into(), json!([roll[1], roll[0]]));
            }
            2 => {
                o.insert("roll".into(), json!([r.range(1, 6), r.range(1, 6)]));
                o.insert("is_second_play".into(), json!(false));
            }
            _ => {
                let p = o.get("player")?.as_i64()?;
                o.insert("player".into(), json!(-p));
            }
        }
    } else {
        let p = o.get("player")?.as_i64()?;
        o.insert("player".into(), json!(-p));
    }
    let t: T = serde_json::from_value(v).ok()?;
    t.check_winner().is_none().then_some(t)
}

fn alphas<T: Source>(c: &mut Check, r: &mut Rng, n: usize, large: bool) {
    for k in 0..n {
        if c.full() {
            return;
        }
        let eps = *r.pick(&[0.0, 0.0, 0.25]);
        let cfg = Conf { iterations: *r.pick(&[1, 2, 3, 10, 40, 90]), dirichlet_epsilon: eps, exploration_const: *r.pick(&[0.3, 2.0, 8.0]), ..Conf::default() };
        let gain = *r.pick(&[1.0, 3.0]);
        let nn = net::net::<Mon<T>>(r, gain);
        mon::start_silent(50_000_000);
        let single = !large && k % 3 == 0;
        let m = if single { 1 } else if large { r.range(60, 420) as usize } else { r.range(2, 10) as usize };
        let cfg = if large { Conf { iterations: r.range(1, 12) as usize, ..cfg } } else { cfg };
        let mut ss: Vec<Mon<T>> = vec![];
        while ss.len() < m {
            let mut s = T::random(r);
            if r.chance(0.1) {
                // nothing to play, the position itself is evaluated again and again
                for _ in 0..200 {
                    if s.get_valid_moves().is_empty() && doubles(&s) {
                        c.count("blocked_roots", 1);
                        break;
                    }
                    s = T::random(r);
                }
            }
            ss.push(Mon::wrap(s));
            if r.chance(0.4) || (s.get_valid_moves().is_empty() && doubles(&s)) {
                if let Some(t) = twin(&s, r) {
                    c.count("twins", 1);
                    ss.push(Mon::wrap(t));
                    if r.chance(0.5) {
                        // and its own twin once more
                        if let Some(t) = twin(&t, r) {
                            ss.push(Mon::wrap(t));
                        }
                    }
                }
            }
        }
        if single {
            ss.truncate(2);
        }
        c.max("games_together", ss.len() as u64);
        // nearly finished games drop out of the batch at different times
        if T::TAG == "tictactoe" && m > 2 {
            for s in ss.iter_mut().take(m / 2) {
                *s = loop {
                    let g = T::random(r);
                    if g.get_valid_moves().len() <= 3 {
                        break Mon::wrap(g);
                    }
                };
            }
        }
        let wit = json!({"states": ss, "conf": cfg.toml(), "gain": gain});
        let w = wit.clone();
        // the same positions once more with another network
        let mut nets = vec![nn];
        if k % 5 < 2 {
            nets.push(net::net::<Mon<T>>(r, gain));
        }
        let turns: Vec<usize> = if nets.len() == 1 { vec![0] } else { vec![0, 1, 0] };
        for nn in turns.into_iter().map(|i| &nets[i]) {
            let w = w.clone();
            let Some((_, ts)) = c.run("alpha", "a network-guided search", || w, || {
                observe::<Mon<T>, _>(|| {
                    if single {
                        for s in &ss {
                            drop(alpha_mcts(s, nn, &cfg.mcts()))
                        }
                    } else {
                        let mut store = NodeStore::new();
                        alpha_mcts_parallel(&mut store, &ss, nn, &cfg.mcts(), Some(indicatif::ProgressBar::hidden()))
                    }
                })
            }) else { continue };
            for t in &ts {
                c.count(&format!("trees_{}_{}", t.kind, T::TAG), 1);
                alpha(c, t, nn, eps, &wit);
            }
        }
    }
}

/// The common result of every way to play on, if there is one (None: undecided).
fn forced<T: Inner>(s: &T, memo: &mut HashMap<String, Option<i8>>, depth: usize) -> Option<i8> {
    if let Some(w) = s.check_winner() {
        return Some(w);
    }
    if depth == 0 {
        return None;
    }
    let key = serde_json::to_string(s).unwrap();
    if let Some(x) = memo.get(&key) {
        return *x;
    }
    let ms = s.get_valid_moves();
    let mut nexts: Vec<T> = ms
        .iter()
        .map(|m| {
            let mut n = *s;
            n.apply_move(m);
            n
        })
        .collect();
    if ms.is_empty() {
        let mut n = *s;
        n.skip_turn();
        nexts.push(n);
    }
    let mut out: Option<i8> = None;
    for (i, n) in nexts.iter().enumerate() {
        let f = forced(n, memo, depth - 1);
        if f.is_none() || (i > 0 && f != out) {
            out = None;
            break;
        }
        out = f;
    }
    memo.insert(key, out);
    out
}

fn plain<T: Source>(c: &mut Check, r: &mut Rng, n: usize, decided: bool) {
    let mut memo = HashMap::new();
    for _ in 0..n {
        if c.full() {
            return;
        }
        let s = T::random(r);
        let cfg = Conf { iterations: *r.pick(&[20, 150, 500]), exploration_const: *r.pick(&[0.5, 2.0]), simulate_round_limit: 400, ..Conf::default() };
        let p = s.get_player() * if r.chance(0.4) { -1 } else { 1 };
        let wit = json!({"state": s, "player": p, "conf": cfg.toml()});
        let w = wit.clone();
        let Some((_, ts)) = c.run("mcts", "mct_search", || w, || observe::<T, _>(|| mct_search(s, p, &cfg.mcts()))) else { continue };
        for t in &ts {
            c.count(&format!("trees_mcts_{}", T::TAG), 1);
            for (i, n) in t.nodes.iter().enumerate() {
                let me = n.state.get_player();
                let own = t.own_value(i);
                let own_n = t.own_visits(i);
                c.eval();
                if own_n < 0.5 {
                    if !close(own, 0.0, TOL) {
                        c.violation("mcts-inner", &format!("node {i} has value {own} of its own without a visit of its own"), wit.clone());
                    }
                    continue;
                }
                if own.abs() > own_n + TOL || (own - own.round()).abs() > TOL {
                    c.violation("mcts-range", &format!("node {i}: results add up to {own} over {own_n} playouts"), wit.clone());
                }
                let f = if decided { forced(&n.state, &mut memo, 12) } else { n.state.check_winner() };
                if let Some(w) = f {
                    let sign = if w == me { 1.0 } else if w == -me { -1.0 } else { 0.0 };
                    c.count(if n.state.check_winner().is_some() { "finished_nodes" } else { "decided_nodes" }, 1);
                    c.nontrivial(hash_of(&serde_json::to_string(&n.state).unwrap()));
                    if !close(own, sign * own_n, TOL) {
                        c.violation("mcts-value", &format!("node {i}: result {w} is certain, player {me} to move, but the playouts credit {own} over {own_n}"), json!({"state": n.state, "run": wit}));
                    }
                }
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "S04",
        "A case is one node of a finished search tree: its own contribution (value minus its children's, from the side to move) is compared with the network's answer for \
         that very position alone, the true result of a finished game, or the certain result of a decided one; priors with the network's policy over the legal moves. \
         Non-trivial: distinct positions with a value away from zero.",
    );
    let mut r = c.rng(1);
    for _ in 0..c.n(1, 15) {
        if c.out_of_time() || c.full() {
            break;
        }
        alphas::<TicTacToe>(&mut c, &mut r, 90, false);
        alphas::<TicTacToe>(&mut c, &mut r, 4, true);
        alphas::<Backgammon>(&mut c, &mut r, 36, false);
        plain::<TicTacToe>(&mut c, &mut r, 120, true);
        plain::<Backgammon>(&mut c, &mut r, 40, false);
        for _ in 0..15 {
            hg(&mut r);
            alphas::<HashGame>(&mut c, &mut r, 12, false);
            alphas::<HashGame>(&mut c, &mut r, 1, true);
            hg(&mut r);
            plain::<HashGame>(&mut c, &mut r, 25, true);
        }
    }
    // while other threads search as well
    for _ in 0..c.n(1, 8) {
        if c.full() {
            break;
        }
        let crowd = crowd::Crowd::<TicTacToe>::new(4, r.next(), crowd::Busy::Searching);
        crowd.near(&TicTacToe::new());
        let other = crowd::Crowd::<Backgammon>::new(2, r.next(), crowd::Busy::Searching);
        for _ in 0..1 {
            plain::<TicTacToe>(&mut c, &mut r, 40, true);
            plain::<Backgammon>(&mut c, &mut r, 15, false);
        }
        drop((crowd, other));
    }
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    c.require("twins", 100);
    c.require("games_together", 257);
    for t in ["finished_nodes", "decided_nodes", "network_values", "priors"] {
        c.require(t, 1000);
    }
    for t in ["trees_alpha_tictactoe", "trees_alpha_parallel_tictactoe", "trees_alpha_backgammon", "trees_alpha_parallel_backgammon", "trees_mcts_tictactoe", "trees_mcts_hashgame"] {
        c.require(t, 5);
    }
    c.finish()
}
