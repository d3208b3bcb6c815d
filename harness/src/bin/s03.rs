//! S03: random playouts are uniform, legal, bounded and report the true result.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::node::Node;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::collections::BTreeMap;
use vh::hashgame::{self, HashGame};
use vh::mon::{self, Kind, Mon};
use vh::play::Draws;
use vh::work::{hg, Source};
use vh::*;

type Steps = BTreeMap<String, Draws>;

fn go<T: Source>(st: &mut Steps, c: &mut Check, r: &mut Rng, n: usize, limits: &[usize], finished: bool) {
    for _ in 0..n {
        if c.full() {
            return;
        }
        let mut g = T::random(r);
        if finished {
            while g.check_winner().is_none() {
                let ms = g.get_valid_moves();
                if ms.is_empty() {
                    g.skip_turn()
                } else {
                    g.apply_move(r.pick(&ms))
                }
            }
        }
        let limit = *r.pick(limits);
        let player = if r.chance(0.5) { 1 } else { -1 };
        let wit = json!({"state": g, "player": player, "limit": limit});
        mon::start(100_000);
        let s = Mon::wrap(g);
        let node = Node::new(s, 0, None, None, 0.0);
        let res = c.run("simulate", "a playout", || wit.clone(), || node.simulate(player, limit));
        let log = mon::stop();
        let Some(res) = res else { continue };
        c.eval();
        let t = &mon::trunks(&log)[0];
        let steps = t.steps.len() - 1;
        let end = T::from_st(&log.states[&t.last()]);
        if steps > 1 {
            c.nontrivial(hash_of(&serde_json::to_string(&end).unwrap()));
        }
        c.count(&format!("playout_steps_{}", T::TAG), steps as u64);
        if steps > limit {
            c.violation("limit", &format!("a playout of {steps} steps under a limit of {limit}"), wit.clone());
        }
        let truth = match end.check_winner() {
            Some(w) if w == player => 1.0,
            Some(w) if w == -player => -1.0,
            _ => 0.0,
        };
        if end.check_winner().is_none() {
            c.count("cut_off", 1);
            if steps < limit {
                c.violation("early", &format!("a playout stops after {steps} of {limit} steps without a result"), wit.clone());
            }
        } else {
            c.count(&format!("result_{truth}"), 1);
        }
        // the step that used up the limit need not be looked at
        if res as f64 != truth && !(steps == limit && res == 0.0) {
            c.violation("result", &format!("a playout ending in {end:?} reports {res} for player {player}"), wit.clone());
        }
        for (i, (v, e)) in t.steps.iter().enumerate() {
            let Some(e) = e else { continue };
            let from = T::from_st(&log.states[v]);
            if e.kind == Kind::Apply {
                let ms = from.get_valid_moves();
                if let Some(k) = ms.iter().position(|m| serde_json::to_string(m).unwrap() == e.mv) {
                    let n = [1, 2, 4, 16, 32, 64].iter().rposition(|&b| ms.len() >= b).unwrap();
                    for key in [format!("{} {} moves", T::TAG, n), format!("step {}", [0, 1, 2, 8, 30, 100].iter().rposition(|&b| i >= b).unwrap())] {
                        st.entry(key).or_default().add_uniform(ms.len(), k);
                    }
                }
            }
            if e.kind == Kind::Skip && !from.get_valid_moves().is_empty() {
                c.violation("skip", "a playout passes although moves are legal", wit.clone());
            }
            if e.over || !e.legal {
                c.violation("illegal", "a playout plays an illegal move or on after the end", wit.clone());
            }
            if e.kind == Kind::Skip {
                c.count("passes", 1);
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "S03",
        "A case is one random playout, recorded step by step through the game wrapper and compared with the number it returns. Non-trivial: distinct final positions of \
         playouts of at least two steps. Uniformity: chi-square over the first and second step from fixed positions.",
    );
    let mut r = c.rng(1);
    let mut st = Steps::default();
    mon::with_moves(true);
    for _ in 0..c.n(1, 12) {
        if c.out_of_time() || c.full() {
            break;
        }
        go::<TicTacToe>(&mut st, &mut c, &mut r, 6000, &[1, 2, 5, 9, 400], false);
        go::<TicTacToe>(&mut st, &mut c, &mut r, 300, &[1, 400], true);
        go::<Backgammon>(&mut st, &mut c, &mut r, 1200, &[1, 5, 40, 400], false);
        go::<Backgammon>(&mut st, &mut c, &mut r, 20, &[1, 400], true);
        for _ in 0..30 {
            hg(&mut r);
            go::<HashGame>(&mut st, &mut c, &mut r, 120, &[1, 3, 8, 400], false);
            go::<HashGame>(&mut st, &mut c, &mut r, 10, &[1, 400], true);
        }
    }
    // while other threads search as well
    for _ in 0..c.n(1, 8) {
        if c.full() {
            break;
        }
        let crowd = crowd::Crowd::<TicTacToe>::new(4, r.next(), crowd::Busy::Searching);
        crowd.near(&TicTacToe::new());
        let other = crowd::Crowd::<Backgammon>::new(2, r.next(), crowd::Busy::Searching);
        for _ in 0..1 {
            go::<TicTacToe>(&mut st, &mut c, &mut r, 2000, &[1, 2, 5, 9, 400], false);
            go::<Backgammon>(&mut st, &mut c, &mut r, 300, &[1, 5, 40, 400], false);
        }
        drop((crowd, other));
    }
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    // very long playouts
    for limit in [990, 1500, 3000, 70_000] {
        hashgame::configure(hashgame::HgCfg { seed: r.next(), min_len: 2_000_000, max_len: 2_000_001, pass: 20, max_moves: 4, ..hashgame::DEFAULT });
        go::<HashGame>(&mut st, &mut c, &mut r, if limit > 5000 { 1 } else { 4 }, &[limit], false);
        c.max("longest_limit", limit as u64);
    }
    for (what, d) in &st {
        let (z1, z2) = d.z();
        c.count("steps_of_known_choice", d.n);
        if d.n >= 200 && (z1.abs() > 6.5 || z2.abs() > 6.5) {
            c.violation("step-uniform", &format!("moves of playouts ({what}) are not chosen uniformly: {z1:.1} and {z2:.1} standard deviations off over {} choices", d.n), json!({"choices": d.n}));
        }
    }
    c.require("steps_of_known_choice", 50_000);
    // uniform choice: depth 1 and 2 of tic-tac-toe, depth 1 of the synthetic game
    let n = c.n(60_000, 600_000);
    let mut firsts: BTreeMap<String, u64> = BTreeMap::new();
    let mut seconds: BTreeMap<String, u64> = BTreeMap::new();
    mon::with_moves(true);
    mon::judge(false);
    for _ in 0..n {
        mon::start(1000);
        let node = Node::new(Mon::wrap(TicTacToe::new()), 0, None, None, 0.0);
        let _ = guarded(|| node.simulate(1, 2));
        let log = mon::stop();
        let t = &mon::trunks(&log)[0];
        let mv = |i: usize| t.steps.get(i).and_then(|s| s.1.as_ref()).map(|e| e.mv.clone()).unwrap_or_default();
        *firsts.entry(mv(0)).or_default() += 1;
        *seconds.entry(format!("{} {}", mv(0), mv(1))).or_default() += 1;
    }
    let mut chi = |c: &mut Check, what: &str, m: &BTreeMap<String, u64>, cells: f64| {
        let e = n as f64 / cells;
        let mut x: f64 = m.values().map(|&o| (o as f64 - e).powi(2) / e).sum();
        x += (cells - m.len() as f64).max(0.0) * e;
        let df = cells - 1.0;
        let z = ((x / df).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt();
        c.count(&format!("uniformity_{what}"), n as u64);
        if z > 6.5 {
            c.violation("uniform", &format!("playout moves ({what}) are not uniform: {z:.1} standard deviations"), json!(m));
        }
    };
    chi(&mut c, "first move", &firsts, 9.0);
    chi(&mut c, "first two moves", &seconds, 72.0);
    // several offered moves of a fixed synthetic position
    for k in [2, 5, 90] {
        hashgame::configure(hashgame::HgCfg { seed: 5, pass: 0, max_moves: 96, min_len: 5, max_len: 8, ..hashgame::DEFAULT });
        let mut g = HashGame::at(1, -1);
        while g.get_valid_moves().len() != k {
            g = HashGame::at(g.path + 1, -1);
        }
        let mut m5: BTreeMap<String, u64> = BTreeMap::new();
        for _ in 0..n {
            mon::start(1000);
            let node = Node::new(Mon::wrap(g), 0, None, None, 0.0);
            let _ = guarded(|| node.simulate(1, 1));
            let log = mon::stop();
            let t = &mon::trunks(&log)[0];
            *m5.entry(t.steps[0].1.as_ref().map(|e| e.mv.clone()).unwrap_or_default()).or_default() += 1;
        }
        chi(&mut c, &format!("{k} moves"), &m5, k as f64);
    }
    c.require("passes", 100);
    c.require("cut_off", 500);
    c.require("result_1", 500);
    c.require("result_-1", 500);
    c.require("result_0", 100);
    c.finish()
}
