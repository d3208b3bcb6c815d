//! R04: turn order, doubles, dice and the end of the game over whole histories.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use serde_json::json;
use vh::*;

/// Follows the history with its own idea of whose turn it is.
fn main() {
    let mut c = Check::new(
        "R04",
        "A case is one transition (move, pass, roll) of a played history, judged against a turn/dice state machine. Non-trivial: distinct transitions with \
         doubles, passes, a pass between the two plays of a double, or the end of the game.",
    );
    let start = Backgammon::new();
    if start.board != refbg::initial() || start.player != -1 || start.is_second_play || start.check_winner().is_some() || Backgammon::get_initial_state() != refbg::initial() || Backgammon::default().board != refbg::initial() {
        c.violation("initial", "a new game is not the backgammon starting position with player -1 to move", json!(start));
    }
    let mut r = c.rng(1);
    let mut pos = gen::Positions::new(c.rng(2));
    let ok_die = |d: u8| (1..=6).contains(&d);
    for k in 0..c.n(3000, 60000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let mut g = if k % 3 == 0 {
            Backgammon::new()
        } else {
            let (b, p) = pos.next();
            Backgammon::init_with_fields(b, p, false)
        };
        let before = g;
        let ret = g.roll_die();
        if g.roll != ret || !ok_die(ret.0) || !ok_die(ret.1) || g.player != before.player || g.board != before.board || g.is_second_play {
            c.violation("roll", "roll_die does not just roll two dice", json!({"before": before, "after": g, "returned": ret}));
        }
        if k % 2 == 0 {
            let d = gen::roll(&mut r);
            g.roll = d;
        }
        let (mut mover, mut second) = (g.player, false);
        for _ in 0..c.n(150, 300) {
            c.eval();
            let over = g.check_winner();
            if over != refbg::winner(&g.board) {
                c.violation("winner", &format!("winner reported {:?}, borne off {:?}", over, g.board.2), json!(g));
            }
            for p in [-1i8, 1] {
                if Backgammon::check_win(g.board, p) != (refbg::winner(&g.board) == Some(p)) {
                    c.violation("check-win", "check_win disagrees with 15 checkers borne off", json!(g));
                }
            }
            if over.is_some() {
                c.count("games_ended", 1);
                c.nontrivial(hash_of(&g.board));
                break;
            }
            if g.get_player() != mover || g.is_second_play != second {
                break; // already reported
            }
            let before = g;
            let Some(ms) = c.run("moves", "get_valid_moves", || json!(g), || g.get_valid_moves()) else { break };
            let dbl = g.roll.0 == g.roll.1;
            if ms.is_empty() || (k % 50 == 7 && r.chance(0.05)) {
                g.skip_turn();
                c.count("passes", 1);
                if second {
                    c.count("passes_between_halves", 1);
                }
                c.nontrivial(hash_of(&(before.board, before.roll, before.player, second)));
                mover = -mover;
                second = false;
                if g.player != mover || g.is_second_play || g.board != before.board || !ok_die(g.roll.0) || !ok_die(g.roll.1) {
                    c.violation("pass", "a pass does not hand the turn over with fresh dice", json!({"before": before, "after": g}));
                    break;
                }
            } else {
                let m = r.pick(&ms).clone();
                let Some(_) = c.run("apply", "apply_move", || json!({"game": before, "move": m}), || g.apply_move(&m)) else { break };
                if dbl && !second {
                    second = true;
                    c.count("first_halves", 1);
                    c.nontrivial(hash_of(&(before.board, before.roll, before.player, true)));
                    if g.player != mover || !g.is_second_play || g.roll != before.roll {
                        c.violation("double", "after the first half of a double the same player does not continue with the same dice", json!({"before": before, "move": m, "after": g}));
                        break;
                    }
                } else {
                    if second {
                        c.count("second_halves", 1);
                    } else {
                        c.count("plain_turns", 1);
                    }
                    second = false;
                    mover = -mover;
                    if g.player != mover || g.is_second_play || !ok_die(g.roll.0) || !ok_die(g.roll.1) {
                        c.violation("turn", "the turn does not pass to the opponent with fresh dice", json!({"before": before, "move": m, "after": g}));
                        break;
                    }
                }
                // keep doubles and blocked positions frequent
                if r.chance(0.15) && !second {
                    let d = r.range(1, 6) as u8;
                    g.roll = (d, d);
                }
            }
        }
        if k < 3 {
            c.sample(json!(g));
        }
    }
    // positions around the end of the game
    let mut q = c.rng(3);
    for _ in 0..c.n(20000, 200000) {
        let mut b = gen::construct(&mut q);
        let p = if q.chance(0.5) { -1 } else { 1 };
        if q.chance(0.5) {
            for i in 0..24 {
                if b.0[i] * p > 0 {
                    b.0[i] = 0;
                }
            }
            if p == -1 {
                b.1 .0 = 0;
                b.2 .0 = 15;
            } else {
                b.1 .1 = 0;
                b.2 .1 = 15;
            }
        }
        let g = Backgammon::init_with_fields(b, q.range(0, 1) as i8 * 2 - 1, false);
        c.eval();
        c.count("winner_checks", 1);
        if g.check_winner() != refbg::winner(&b) || Backgammon::check_win_without_player(b) != refbg::winner(&b) {
            c.violation("winner", "winner is not the player with 15 checkers off", json!(g));
        }
    }
    // turns taken in nearly equal positions one after the other, at the end while other threads do so too
    let n = c.n(20000, 200000);
    let mut crowd = None;
    for k in 0..n + n / 5 {
        if c.full() {
            break;
        }
        if k == n {
            crowd = Some(crowd::Crowd::<Backgammon>::new(6, r.next(), crowd::Busy::Moving));
        }
        let (b, p) = pos.next();
        let roll = gen::roll(&mut r);
        let mut g = Backgammon::init_with_fields(b, p, roll.0 == roll.1 && r.chance(0.5));
        g.roll = roll;
        if let Some(w) = &crowd {
            w.near(&g);
        }
        // naming a game does nothing else to it, and the name stays
        let id = if r.chance(0.5) { r.range(0, 3000) as usize } else { 1usize << r.range(0, 40) };
        let mut named = g;
        if r.chance(0.1) {
            (named.roll, named.is_second_play) = ((0, 0), false);
        }
        let bare = named;
        named.set_id(id);
        c.count("named", 1);
        let same = |a: &Backgammon, b: &Backgammon| a.board == b.board && a.player == b.player && a.roll == b.roll && a.is_second_play == b.is_second_play;
        if named.get_id() != id || !same(&named, &bare) {
            c.violation("id", &format!("giving a game the id {id} changes more than its id"), json!({"before": bare, "after": named}));
        }
        let t = gen::twin(&g, &mut r);
        for mut g in [g, t, g] {
            c.eval();
            g.set_id(id);
            c.count("twin_turns", 1);
            let Some(ms) = c.run("moves", "get_valid_moves", || json!(g), || g.get_valid_moves()) else { break };
            let mut n = g;
            let pass = ms.is_empty() || r.chance(0.2);
            if pass {
                n.skip_turn();
            } else {
                let m = r.pick(&ms).clone();
                let Some(_) = c.run("apply", "apply_move", || json!({"game": g, "move": m}), || n.apply_move(&m)) else { break };
            }
            let again = !pass && g.roll.0 == g.roll.1 && !g.is_second_play;
            if n.player != if again { g.player } else { -g.player } || n.is_second_play != again || (again && n.roll != g.roll) || n.check_winner() != refbg::winner(&n.board) || (pass && n.board != g.board) || n.get_id() != id {
                c.violation("twin", "the turn does not go to who is next", json!({"before": g, "pass": pass, "after": n}));
            }
        }
    }
    drop(crowd);
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    for t in ["passes", "passes_between_halves", "first_halves", "second_halves", "plain_turns", "games_ended"] {
        c.require(t, 50);
    }
    c.finish()
}
