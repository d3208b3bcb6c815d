//! R09: the printed board can be read back to the position.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use vh::*;

type Read = (refbg::Board, i8, (u8, u8));

/// What a person reads off the printed board.
fn read(s: &str) -> Option<Read> {
    let lines: Vec<&str> = s.lines().collect();
    let nums = |l: &str| -> Vec<i64> {
        l.split(|ch: char| !ch.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
    };
    let head = lines.iter().find(|l| l.contains("Current turn"))?;
    let h = nums(head);
    let player = match h[0] {
        1 => -1,
        2 => 1,
        _ => return None,
    };
    // under whose name they are
    let mut bars = [None; 2];
    let mut offs = [None; 2];
    let mut whose = None;
    for l in &lines {
        if !l.contains("Current turn") {
            for (i, name) in ["Player 1", "Player 2"].iter().enumerate() {
                if l.contains(name) {
                    whose = Some(i)
                }
            }
        }
        if l.contains("Broken Pieces") {
            bars[whose?] = Some(*nums(l).last()? as u8)
        }
        if l.contains("Pieces Collected") {
            offs[whose?] = Some(*nums(l).last()? as u8)
        }
    }
    let rule: Vec<usize> = lines.iter().enumerate().filter(|(_, l)| l.starts_with("====")).map(|x| x.0).collect();
    let grid = &lines[rule[0] + 1..*rule.last()?];
    let cells: Vec<Vec<&str>> = grid.iter().map(|l| l.split('\t').filter(|x| *x != "|").collect()).collect();
    let top: Vec<usize> = cells.first()?.iter().map(|x| x.trim().parse().unwrap()).collect();
    let bot: Vec<usize> = cells.last()?.iter().map(|x| x.trim().parse().unwrap()).collect();
    let body = &cells[1..cells.len() - 1];
    let blank = body.iter().position(|r| r.iter().all(|x| x.trim().is_empty()) && true)?;
    let _ = blank;
    let half = body.len() / 2;
    let mut b = [0i8; 24];
    for (rows, names) in [(&body[..half], &top), (&body[body.len() - half..], &bot)] {
        for (col, &point) in names.iter().enumerate() {
            let (mut n, mut sign) = (0i8, 0i8);
            for r in rows {
                match r.get(col)?.trim() {
                    "" => {}
                    "x" => {
                        n += 1;
                        sign = -1
                    }
                    "o" => {
                        n += 1;
                        sign = 1
                    }
                    m => n += m.strip_prefix('+')?.parse::<i8>().ok()?,
                }
            }
            b[point] = n * sign;
        }
    }
    Some(((b, (bars[0]?, bars[1]?), (offs[0]?, offs[1]?)), player, (h[1] as u8, h[2] as u8)))
}

fn look(c: &mut Check, g: &Backgammon, show: bool) {
    let (b, p) = (g.board, g.player);
    c.eval();
    c.nontrivial(hash_of(&(b, p, g.roll)));
    if b.0.iter().any(|x| x.abs() >= 6) {
        c.count("tall_stacks", 1);
    }
    let Some(s) = c.run("print", "to_pretty_str", || json!(g), || g.to_pretty_str()) else { return };
    match std::panic::catch_unwind(|| read(&s)).unwrap_or(None) {
        None => {
            util::take_panic();
            c.violation("unreadable", "the printed board cannot be read", json!({"game": g, "printed": s}))
        }
        Some(x) => {
            if x != (b, p, g.roll) {
                c.violation("mismatch", &format!("the printed board shows {x:?}"), json!({"game": g, "printed": s}));
            }
        }
    }
    if show {
        c.sample(json!(s));
    }
}

fn main() {
    let mut c = Check::new("R09", "A case is one position printed and read back. Non-trivial: distinct positions; counted apart: points with 6 or more checkers.");
    let mut pos = gen::Positions::new(c.rng(1));
    let mut r = c.rng(2);
    for k in 0..c.n(40000, 400000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.roll = gen::roll(&mut r);
        look(&mut c, &g, k < 2);
        if k % 3 == 0 {
            // the same again around a position that is nearly the same
            let t = gen::twin(&g, &mut r);
            look(&mut c, &t, false);
            look(&mut c, &g, false);
            c.count("twins", 1);
        }
    }
    // while other threads are busy with the same positions
    let mut pos = gen::Positions::new(c.rng(5));
    let crowd = crowd::Crowd::<Backgammon>::new(6, r.next(), crowd::Busy::Showing);
    for _ in 0..c.n(3000, 30000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.roll = gen::roll(&mut r);
        crowd.near(&g);
        for _ in 0..4 {
            look(&mut c, &g, false);
        }
    }
    drop(crowd);
    c.count("turns_of_other_threads", crowd::turns());
    c.require("turns_of_other_threads", 300);
    for i in 0..19683u32 {
        let mut g = TicTacToe::new();
        let mut x = i;
        for k in 0..9 {
            g.board[k] = (x % 3) as i8 - 1;
            x /= 3;
        }
        c.eval();
        c.count("tictactoe_boards", 1);
        let s = g.to_pretty_str();
        let v: Vec<i8> = s.split(['|', '\n']).filter_map(|x| x.trim().parse().ok()).collect();
        if v != g.board {
            c.violation("tictactoe", "the printed tic-tac-toe board is wrong", json!({"game": g, "printed": s}));
        }
    }
    c.require("tall_stacks", 500);
    c.finish()
}
