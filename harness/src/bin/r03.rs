//! R03: applying a move changes the position exactly as the move says.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use serde_json::json;
use vh::*;

fn main() {
    let mut c = Check::new(
        "R03",
        "A case is one offered move (or one single step) applied to a generated or played position; the resulting position is compared with the rules. \
         Non-trivial: distinct (position, move) that hits, enters, bears off or stacks on own checkers.",
    );
    let mut pos = gen::Positions::new(c.rng(1));
    let mut r = c.rng(2);
    for _ in 0..c.n(12000, 250000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        for _ in 0..6 {
            let roll = gen::roll(&mut r);
            let second = roll.0 == roll.1 && r.chance(0.5);
            let mut g = Backgammon::init_with_fields(b, p, second);
            g.roll = roll;
            let id = r.below(1000);
            g.set_id(id);
            let Some(ms) = c.run("moves", "get_valid_moves", || json!(g), || g.get_valid_moves()) else { continue };
            for m in ms {
                c.eval();
                let Some(want) = refbg::follow(&b, p, roll, &m) else {
                    c.count("not_judged_illegal_offer", 1);
                    continue;
                };
                let hit = refbg::bar(&want, -p) > refbg::bar(&b, -p);
                let enter = m.iter().any(|s| s.0 == -1);
                let off = m.iter().any(|s| s.1 == -1);
                if hit {
                    c.count("hits", 1);
                }
                if refbg::bar(&want, -p) > refbg::bar(&b, -p) + 1 {
                    c.count("double_hits", 1);
                }
                if enter {
                    c.count("entries", 1);
                }
                if hit && enter {
                    c.count("hits_from_the_bar", 1);
                }
                if off {
                    c.count("bear_offs", 1);
                }
                if m.len() == 2 && m[0].1 == m[1].0 && m[0].1 != -1 {
                    c.count("same_checker_twice", 1);
                }
                if hit || enter || off {
                    c.nontrivial(hash_of(&(b, p, &m)));
                }
                let wit = json!({"game": g, "move": m, "expected_board": want});
                let Some(nb) = c.run("next", "get_next_state", || wit.clone(), || Backgammon::get_next_state(b, &m, p)) else { continue };
                if nb != want {
                    c.violation("next-state", &format!("get_next_state({m:?}) gives {nb:?}"), wit.clone());
                }
                let Some(n) = c.run("apply", "apply_move", || wit.clone(), || {
                    let mut n = g;
                    n.apply_move(&m);
                    n
                }) else { continue };
                if n.board != want {
                    c.violation("apply", &format!("apply_move({m:?}) gives {:?}", n.board), wit.clone());
                }
                if n.get_id() != id {
                    c.violation("id", "applying a move changes the identity of the game", wit.clone());
                }
                // and once more after the same move in a position that is nearly the same
                if r.chance(0.05) {
                    let t = gen::twin(&g, &mut r);
                    if let Some(tb) = refbg::follow(&t.board, t.player, t.roll, &m) {
                        c.count("twins", 1);
                        for (g, want) in [(t, tb), (g, want)] {
                            let mut n = g;
                            let r = guarded(|| n.apply_move(&m)).is_ok();
                            let x = guarded(|| Backgammon::get_next_state(g.board, &m, g.player)).ok();
                            if !r || n.board != want || x != Some(want) {
                                c.violation("twin", &format!("apply_move({m:?}) gives {:?}, get_next_state {x:?}", n.board), json!({"game": g, "move": m, "expected_board": want}));
                            }
                        }
                    }
                }
                // step by step gives the same as all at once
                let Some(s) = c.run("next", "get_next_state", || wit.clone(), || m.iter().fold(b, |x, st| Backgammon::get_next_state(x, &vec![*st], p))) else { continue };
                if s != want {
                    c.violation("stepwise", &format!("playing {m:?} step by step gives {s:?}"), wit);
                }
            }
            // a pass leaves the position alone
            let mut n = g;
            n.skip_turn();
            if n.board != b || n.get_id() != id {
                c.violation("skip", "passing changes the position", json!({"game": g, "after": n}));
            }
        }
        // the game's own idea of a sound position
        let mut x = b;
        if r.chance(0.7) {
            let d = *r.pick(&[-2i8, -1, 1, 2]);
            match r.below(6) {
                0 => x.1 .0 = x.1 .0.wrapping_add_signed(d),
                1 => x.1 .1 = x.1 .1.wrapping_add_signed(d),
                2 => x.2 .0 = x.2 .0.wrapping_add_signed(d),
                3 => x.2 .1 = x.2 .1.wrapping_add_signed(d),
                _ => x.0[r.below(24)] += d,
            }
        }
        let fields = [x.1 .0, x.1 .1, x.2 .0, x.2 .1];
        if fields.iter().all(|&v| v <= 17) {
            let side = |p: i8, out: u8| x.0.iter().filter(|&&v| v * p > 0).map(|&v| v as i32 * p as i32).sum::<i32>() + out as i32;
            let sound = side(-1, x.1 .0 + x.2 .0) == 15 && side(1, x.1 .1 + x.2 .1) == 15;
            let says = guarded(|| Backgammon::init_with_fields(x, p, false).is_valid()).is_ok();
            c.count(if sound { "sound_positions" } else { "unsound_positions" }, 1);
            if says != sound {
                c.violation("sound", &format!("is_valid {} a position {} 15 checkers of each player", if says { "accepts" } else { "rejects" }, if sound { "with" } else { "without" }), json!({"board": x}));
            }
        }
        if c.evals % 9000 < 20 {
            c.sample(json!({"board": b, "player": p}));
        }
    }
    // while other threads are busy with the same positions
    let mut pos = gen::Positions::new(c.rng(5));
    let crowd = crowd::Crowd::<Backgammon>::new(6, r.next(), crowd::Busy::Moving);
    for _ in 0..c.n(5000, 40000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let roll = gen::roll(&mut r);
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.roll = roll;
        crowd.near(&g);
        for (m, want) in refbg::legal(&b, p, roll) {
            c.eval();
            let mut n = g;
            let ok = guarded(|| n.apply_move(&m)).is_ok();
            let x = guarded(|| Backgammon::get_next_state(b, &m, p)).ok();
            if !ok || n.board != want || x != Some(want) {
                c.violation("threads", &format!("with other threads at work apply_move({m:?}) gives {:?}, get_next_state {x:?}", n.board), json!({"game": g, "move": m, "expected_board": want}));
            }
        }
    }
    drop(crowd);
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    for t in ["sound_positions", "unsound_positions", "twins", "hits", "double_hits", "entries", "hits_from_the_bar", "bear_offs", "same_checker_twice"] {
        c.require(t, 200);
    }
    c.finish()
}
