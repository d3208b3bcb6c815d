//! R08: tic-tac-toe follows its rules in every reachable position.
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use vh::*;

/// 0..2 coordinates instead of a table of lines
fn winner(b: &[i8; 9]) -> Option<i8> {
    let at = |r: usize, k: usize| b[r * 3 + k];
    for p in [-1i8, 1] {
        for i in 0..3 {
            if (0..3).all(|j| at(i, j) == p) || (0..3).all(|j| at(j, i) == p) {
                return Some(p);
            }
        }
        if (0..3).all(|j| at(j, j) == p) || (0..3).all(|j| at(j, 2 - j) == p) {
            return Some(p);
        }
    }
    b.iter().all(|&x| x != 0).then_some(0)
}

fn main() {
    let mut c = Check::new(
        "R08",
        "A case is one reachable tic-tac-toe position with all its moves, enumerated completely from the empty board. Non-trivial: all of them are distinct.",
    );
    let s = TicTacToe::new();
    if s.board != [0; 9] || s.get_player() != -1 || s.check_winner().is_some() {
        c.violation("initial", "a new game is not an empty board with player -1 to move", json!(s));
    }
    let (mut seen, mut ends): (HashSet<[i8; 9]>, HashMap<i8, u64>) = Default::default();
    // alone, and while other threads play as well
    for others in [0, 6, 6, 6, 6, 6, 6] {
        let crowd = (others > 0).then(|| crowd::Crowd::<TicTacToe>::new(others, c.rng(1).next(), crowd::Busy::Ending));
        seen = HashSet::new();
        let mut stack = vec![s];
        ends = HashMap::new();
        while let Some(g) = stack.pop() {
            if !seen.insert(g.board) {
                continue;
            }
            if let Some(w) = &crowd {
                w.near(&g);
            }
            c.eval();
            c.nontrivial(hash_of(&g.board));
            let (x, o) = (g.board.iter().filter(|&&v| v == -1).count(), g.board.iter().filter(|&&v| v == 1).count());
            let mover = if x == o { -1 } else { 1 };
            if g.get_player() != mover {
                c.violation("turn", "turns do not alternate", json!(g));
            }
            let w = winner(&g.board);
            let Some(got) = c.run("winner", "check_winner", || json!(g), || g.check_winner()) else { continue };
            let got = if others == 0 || got != w { got } else { (0..20).map(|_| g.check_winner()).find(|x| *x != w).unwrap_or(w) };
            if got != w {
                c.violation("winner", &format!("winner {got:?} instead of {w:?}"), json!(g));
            }
            if let Some(w) = w {
                *ends.entry(w).or_default() += 1;
                continue;
            }
            let Some(mut ms) = c.run("moves", "get_valid_moves", || json!(g), || g.get_valid_moves()) else { continue };
            ms.sort();
            let free: Vec<u8> = (0..9).filter(|&i| g.board[i as usize] == 0).collect();
            if ms != free {
                c.violation("moves", &format!("offers {ms:?}, free squares {free:?}"), json!(g));
            }
            for m in free {
                c.count("moves", 1);
                let mut n = g;
                let id = [42, 0, 255, 2999, 1 << 33][m as usize % 5];
                n.set_id(id);
                if n.board != g.board || n.get_player() != g.get_player() {
                    c.violation("id", &format!("giving a game the id {id} changes more than its id"), json!(g));
                }
                let Some(_) = c.run("apply", "apply_move", || json!({"game": g, "move": m}), || n.apply_move(&m)) else { continue };
                let mut want = g.board;
                want[m as usize] = mover;
                if n.board != want || n.get_player() != -mover || n.get_id() != id {
                    c.violation("apply", &format!("playing {m} gives {n:?}"), json!(g));
                }
                let mut k = g;
                k.skip_turn();
                if k.board != g.board || k.get_player() != -mover {
                    c.violation("skip", "a pass does more than hand over the turn", json!(g));
                }
                stack.push(n);
            }
        }
        if !c.violated() && seen.len() != 5478 {
            c.violation("reach", &format!("{} positions are reachable instead of 5478", seen.len()), json!(seen.len()));
        }
    }
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    c.count("positions", seen.len() as u64);
    for (w, n) in ends {
        c.count(&format!("ended_{w}"), n);
    }
    c.sample(json!({"board": [-1, 1, 0, 0, 0, 0, 0, 0, 0]}));
    c.exhaustive();
    c.finish()
}
