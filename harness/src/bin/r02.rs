//! R02: the offered moves are exactly the legal plays of the dice.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use serde_json::json;
use std::collections::HashSet;
use vh::*;

fn look(c: &mut Check, g: &Backgammon) {
    let (b, p, roll) = (g.board, g.player, g.roll);
    let wit = json!({"game": g});
    c.eval();
    let Some(ms) = c.run("moves", "get_valid_moves", || wit.clone(), || g.get_valid_moves()) else { return };
    let tags = gen::tags(&b, p, roll);
    if tags.len() > 1 {
        c.nontrivial(hash_of(&(b, p, roll)));
    }
    for t in &tags {
        c.count(t, 1);
    }
    let want = refbg::legal(&b, p, roll);
    let want_pos: HashSet<refbg::Board> = want.iter().map(|x| x.1).collect();
    let mut got_pos: HashSet<refbg::Board> = HashSet::new();
    let len = want.first().map(|x| x.0.len()).unwrap_or(0);
    for m in &ms {
        if m.is_empty() {
            c.violation("empty", "an empty move is offered", json!({"game": g, "moves": ms}));
            continue;
        }
        match refbg::follow(&b, p, roll, m) {
            None => c.violation("illegal", &format!("offered move {m:?} breaks the rules"), json!({"game": g, "move": m})),
            Some(nb) => {
                if m.len() != len {
                    c.violation("dice-left", &format!("offered move {m:?} uses {} dice, {} can be played", m.len(), len), json!({"game": g, "move": m}));
                }
                if !got_pos.insert(nb) {
                    c.violation("duplicate", &format!("two offered moves lead to the same position ({m:?})"), json!({"game": g, "moves": ms}));
                }
            }
        }
    }
    if let Some(miss) = want_pos.difference(&got_pos).next() {
        let play = want.iter().find(|x| x.1 == *miss).map(|x| x.0.clone());
        c.violation("missing", &format!("legal play {play:?} is not offered"), json!({"game": g, "missing": play, "offered": ms}));
    }
}

fn main() {
    let mut c = Check::new(
        "R02",
        "A case is (position, player, roll, first or second half of a double); positions are half reachable by play, half constructed (bear-off, contact, \
         bar, primes, stacks), every roll in both orders. Non-trivial: distinct (position, player, roll) where a special rule is in play \
         (bar, bearing off, hit, doubles, wasted die, blocked).",
    );
    let mut pos = gen::Positions::new(c.rng(1));
    let mut r = c.rng(4);
    for _ in 0..c.n(6000, 120000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        for d1 in 1..=6u8 {
            for d2 in 1..=6u8 {
                let roll = (d1, d2);
                let mut g = Backgammon::init_with_fields(b, p, d1 == d2 && hash_of(&(b, d1)) & 1 == 0);
                g.roll = roll;
                look(&mut c, &g);
                if r.chance(0.12) {
                    // the same again around a position that is nearly the same
                    let t = gen::twin(&g, &mut r);
                    look(&mut c, &t);
                    look(&mut c, &g);
                    c.count("twins", 1);
                }
                if c.evals % 40_000 == 7 {
                    c.sample(json!({"board": b, "player": p, "roll": roll}));
                }
            }
        }
    }
    // while other threads are busy with the same positions
    let mut pos = gen::Positions::new(c.rng(5));
    let crowd = crowd::Crowd::<Backgammon>::new(6, r.next(), crowd::Busy::Moving);
    for _ in 0..c.n(400, 8000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let mut g = Backgammon::init_with_fields(b, p, false);
        for _ in 0..6 {
            g.roll = gen::roll(&mut r);
            crowd.near(&g);
            for _ in 0..6 {
                look(&mut c, &g);
            }
            let t = gen::twin(&g, &mut r);
            crowd.near(&t);
            look(&mut c, &t);
            look(&mut c, &g);
            look(&mut c, &t);
        }
    }
    drop(crowd);
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    // the two colours are mirror images
    let mut pos = gen::Positions::new(c.rng(2));
    let mut r = c.rng(3);
    for _ in 0..c.n(3000, 40000) {
        if c.full() {
            break;
        }
        let (b, p) = pos.next();
        let roll = gen::roll(&mut r);
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.roll = roll;
        let mut h = Backgammon::init_with_fields(refbg::mirror(&b), -p, false);
        h.roll = roll;
        let (Ok(x), Ok(y)) = (guarded(|| g.get_valid_moves()), guarded(|| h.get_valid_moves())) else { continue };
        let fx: HashSet<_> = x.iter().filter_map(|m| refbg::follow(&b, p, roll, m)).map(|b| refbg::mirror(&b)).collect();
        let fy: HashSet<_> = y.iter().filter_map(|m| refbg::follow(&h.board, -p, roll, m)).collect();
        c.count("mirror_pairs", 1);
        if fx != fy {
            c.violation("mirror", "the mirrored position offers different moves", json!({"game": g, "moves": x, "mirrored": h, "mirrored_moves": y}));
        }
    }
    c.count("constructed_positions", pos.constructed);
    c.count("reachable_positions", pos.reachable);
    c.require("twins", 1000);
    for t in ["one_on_bar", "several_on_bar", "bearing_off", "bearing_off_with_contact", "no_move", "one_die_only", "some_order_wastes_a_die", "hit_possible", "double_hit_possible", "win_possible", "player_plus", "player_minus"] {
        c.require(t, 50);
    }
    c.assume("if only one die can be played either may be chosen (the crate's own tests fix this; tournament rules ask for the higher one)");
    c.finish()
}
