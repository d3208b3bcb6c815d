//! R07: the network input shows exactly the position.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use vh::*;

fn look(c: &mut Check, g: &Backgammon) {
    let (b, p, roll, second) = (g.board, g.player, g.roll, g.is_second_play);
    c.eval();
    c.nontrivial(hash_of(&(b, p, roll, second)));
    let Some(t) = c.run("tensor", "as_tensor", || json!(g), || g.as_tensor()) else { return };
    let size = t.size();
    if size != [1, Backgammon::N_INPUT_CHANNELS, 4, 6] {
        c.violation("shape", &format!("input has shape {size:?}"), json!(g));
        return;
    }
    let v = net::tensor_vec(&t);
    for i in 0..24 {
        let side = |x: (u8, u8)| if i < 12 { x.0 as f32 } else { x.1 as f32 };
        let want = [b.0[i] as f32, p as f32, side(b.1), side(b.2), side(roll), second as u8 as f32];
        for (ch, w) in want.iter().enumerate() {
            if v[ch * 24 + i] != *w {
                c.violation(&format!("plane-{ch}"), &format!("plane {ch} cell {i} is {} instead of {w}", v[ch * 24 + i]), json!(g));
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "R07",
        "A case is one position turned into network input and compared plane by plane with the position. Non-trivial: distinct positions.",
    );
    let mut pos = gen::Positions::new(c.rng(1));
    let mut r = c.rng(2);
    for k in 0..c.n(60000, 800000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let roll = gen::roll(&mut r);
        let second = roll.0 == roll.1 && r.chance(0.5);
        let mut g = Backgammon::init_with_fields(b, p, second);
        g.roll = roll;
        g.set_id(r.below(500));
        look(&mut c, &g);
        if k % 3 == 0 {
            // the same again around a position that is nearly the same
            let t = gen::twin(&g, &mut r);
            look(&mut c, &t);
            look(&mut c, &g);
            c.count("twins", 1);
        }
        if b.1 .0 != b.1 .1 {
            c.count("bars_differ", 1);
        }
        if b.2 .0 != b.2 .1 {
            c.count("borne_off_differ", 1);
        }
        if second {
            c.count("second_halves", 1);
        }
        if k < 3 {
            c.sample(json!(g));
        }
    }
    // while other threads are busy with the same positions
    let mut pos = gen::Positions::new(c.rng(5));
    let crowd = crowd::Crowd::<Backgammon>::new(6, r.next(), crowd::Busy::Showing);
    for _ in 0..c.n(3000, 30000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.roll = gen::roll(&mut r);
        crowd.near(&g);
        for _ in 0..4 {
            look(&mut c, &g);
        }
    }
    drop(crowd);
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    // tic-tac-toe: every reachable position
    let mut stack = vec![TicTacToe::new()];
    let mut seen = std::collections::HashSet::new();
    while let Some(g) = stack.pop() {
        if !seen.insert((g.board, g.get_player())) {
            continue;
        }
        c.eval();
        c.nontrivial(hash_of(&(g.board, 7)));
        let Some(t) = c.run("tensor", "as_tensor", || json!(g), || g.as_tensor()) else { continue };
        if t.size() != [1, 3, 3, 3] {
            c.violation("shape", &format!("tic-tac-toe input has shape {:?}", t.size()), json!(g));
            continue;
        }
        let v = net::tensor_vec(&t);
        for (ch, who) in [-1i8, 0, 1].iter().enumerate() {
            for i in 0..9 {
                if v[ch * 9 + i] != (g.board[i] == *who) as u8 as f32 {
                    c.violation("tictactoe", &format!("tic-tac-toe plane {ch} is wrong at square {i}"), json!(g));
                }
            }
        }
        if g.check_winner().is_none() {
            for m in g.get_valid_moves() {
                let mut n = g;
                n.apply_move(&m);
                stack.push(n);
            }
        }
    }
    c.count("tictactoe_positions", seen.len() as u64);
    c.require("tictactoe_positions", 5000);
    c.require("bars_differ", 1000);
    c.require("borne_off_differ", 1000);
    c.require("second_halves", 1000);
    c.finish()
}
