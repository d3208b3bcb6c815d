//! R06: numbering of moves loses nothing.
use die_e::backgammon::backgammon_logic::{Actions, Backgammon};
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::collections::HashMap;
use vh::*;

fn main() {
    let mut c = Check::new(
        "R06",
        "A case is one (position, player, roll, offered move): number it, check the range, turn it back, compare; and all offered moves of a position must get \
         different numbers. Both the game interface and the inherent methods. Non-trivial: distinct (player, roll, move) triples.",
    );
    type Enc = fn(&Backgammon, &Actions) -> u32;
    type Dec = fn(&Backgammon, u32) -> Actions;
    let ways: [(&str, Enc, Dec); 2] = [
        ("game interface", |g, m| <Backgammon as LearnableGame>::encode(g, m), |g, a| <Backgammon as LearnableGame>::decode(g, a)),
        ("inherent", |g, m| g.encode(m), |g, a| g.decode(a)),
    ];
    let mut pos = gen::Positions::new(c.rng(1));
    let mut r = c.rng(2);
    let mut codes = std::collections::HashSet::new();
    for _ in 0..c.n(5000, 100000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        for d1 in 1..=6u8 {
            for d2 in 1..=6u8 {
                let mut g = Backgammon::init_with_fields(b, p, d1 == d2 && hash_of(&b) & 1 == 1);
                g.roll = (d1, d2);
                let Some(ms) = c.run("moves", "get_valid_moves", || json!(g), || g.get_valid_moves()) else { continue };
                for (name, enc, dec) in ways {
                    let mut seen: HashMap<u32, Actions> = HashMap::new();
                    for m in &ms {
                        c.eval();
                        let wit = json!({"game": g, "move": m, "via": name});
                        let Some(a) = c.run("encode", "encode", || wit.clone(), || enc(&g, m)) else { continue };
                        codes.insert(a);
                        c.nontrivial(hash_of(&(p, d1, d2, m)));
                        if m.len() == 1 {
                            c.count("single_steps", 1);
                        }
                        if m.iter().any(|s| s.0 == -1) {
                            c.count("entries", 1);
                        }
                        if m.iter().any(|s| s.1 == -1) {
                            c.count("bear_offs", 1);
                        }
                        if a as i64 >= Backgammon::ACTION_SPACE_SIZE {
                            c.violation("range", &format!("{name}: {m:?} gets number {a}, outside the action space"), wit.clone());
                            continue;
                        }
                        if let Some(o) = seen.insert(a, m.clone()) {
                            c.violation("collision", &format!("{name}: {o:?} and {m:?} get the same number {a}"), wit.clone());
                        }
                        let Some(back) = c.run("decode", "decode", || wit.clone(), || dec(&g, a)) else { continue };
                        if back != *m {
                            c.violation("round-trip", &format!("{name}: {m:?} comes back as {back:?}"), wit);
                        }
                    }
                }
                // passing is numbered too
                for (name, enc, dec) in ways {
                    let Some(a) = c.run("encode", "encode of a pass", || json!(g), || enc(&g, &vec![])) else { continue };
                    let Some(back) = c.run("decode", "decode of a pass", || json!(g), || dec(&g, a)) else { continue };
                    if !back.is_empty() || a as i64 >= Backgammon::ACTION_SPACE_SIZE || ms.iter().any(|m| guarded(|| enc(&g, m)).ok() == Some(a)) {
                        c.violation("pass", &format!("{name}: the empty move is not numbered apart"), json!(g));
                    }
                }
            }
        }
        // moves of nearly equal positions in turn
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.roll = gen::roll(&mut r);
        for _ in 0..3 {
            let t = gen::twin(&g, &mut r);
            let both = [g, t];
            let lists: Vec<Vec<Actions>> = both.iter().map(|g| guarded(|| g.get_valid_moves()).unwrap_or_default()).collect();
            let mut queries: Vec<(usize, Actions)> = vec![];
            for k in 0..lists[0].len().max(lists[1].len()).min(12) {
                for (i, l) in lists.iter().enumerate() {
                    if let Some(m) = l.get(k) {
                        queries.push((i, m.clone()));
                        if lists[1 - i].contains(m) {
                            queries.push((1 - i, m.clone()));
                        }
                    }
                }
            }
            c.count("twins", 1);
            for (name, enc, dec) in ways {
                // numbers first, then back, then both at once
                let nums: Vec<Option<u32>> = queries.iter().map(|(i, m)| guarded(|| enc(&both[*i], m)).ok()).collect();
                let backs: Vec<Option<Actions>> = queries.iter().zip(&nums).map(|((i, _), a)| a.and_then(|a| guarded(|| dec(&both[*i], a)).ok())).collect();
                for (((i, m), a), back) in queries.iter().zip(&nums).zip(&backs) {
                    c.eval();
                    let at_once = guarded(|| dec(&both[*i], enc(&both[*i], m))).ok();
                    if back.as_ref() != Some(m) || at_once.as_ref() != Some(m) || guarded(|| enc(&both[*i], m)).ok() != *a {
                        c.violation("twin", &format!("{name}: {m:?} is numbered {a:?} and comes back as {back:?} or {at_once:?}"), json!({"game": both[*i], "move": m, "other": both[1 - *i]}));
                    }
                }
            }
            g = t;
        }
        if c.evals % 50_000 < 300 {
            c.sample(json!({"board": b, "player": p}));
        }
    }
    // while other threads are busy with the same positions
    let mut pos = gen::Positions::new(c.rng(5));
    let crowd = crowd::Crowd::<Backgammon>::new(6, r.next(), crowd::Busy::Numbering);
    for _ in 0..c.n(5000, 40000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.roll = gen::roll(&mut r);
        crowd.near(&g);
        let ms = guarded(|| g.get_valid_moves()).unwrap_or_default();
        for (name, enc, dec) in ways {
            let mut seen = std::collections::HashSet::new();
            for m in &ms {
                c.eval();
                let a = guarded(|| enc(&g, m)).ok();
                let mut back = a.and_then(|a| guarded(|| dec(&g, a)).ok());
                for _ in 0..8 {
                    if back.as_ref() == Some(m) {
                        back = a.and_then(|a| guarded(|| dec(&g, a)).ok());
                    }
                }
                if back.as_ref() != Some(m) || !seen.insert(a) {
                    c.violation("threads", &format!("{name}: with other threads at work {m:?} is numbered {a:?} and comes back as {back:?}"), json!({"game": g, "move": m}));
                }
            }
        }
    }
    drop(crowd);
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    let t = TicTacToe::new();
    for m in 0..9u8 {
        c.eval();
        let a = t.encode(&m);
        if a as i64 >= TicTacToe::ACTION_SPACE_SIZE || t.decode(a) != m {
            c.violation("tictactoe", &format!("square {m} does not survive numbering"), json!(m));
        }
    }
    c.count("distinct_numbers_seen", codes.len() as u64);
    c.require("single_steps", 1000);
    c.require("entries", 1000);
    c.require("bear_offs", 1000);
    c.require("distinct_numbers_seen", 800);
    c.finish()
}
