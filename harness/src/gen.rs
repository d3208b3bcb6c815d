//! Positions: reachable ones (random and biased play under the reference rules)
//! and constructed ones (bear-off, bar, primes, stacks, contact in the home board).

use crate::refbg::{self, Board};
use crate::Rng;
use die_e::backgammon::backgammon_logic::Backgammon;

pub fn roll(r: &mut Rng) -> (u8, u8) {
    if r.chance(0.2) {
        let d = r.range(1, 6) as u8;
        return (d, d);
    }
    (r.range(1, 6) as u8, r.range(1, 6) as u8)
}

#[derive(Clone, Copy, Debug)]
pub enum Style {
    Random,
    Hitter,
    Runner,
    Blocker,
    Back,
}

pub const STYLES: [Style; 5] = [Style::Random, Style::Hitter, Style::Runner, Style::Blocker, Style::Back];

fn score(style: Style, p: i8, b: &Board, r: &mut Rng) -> f64 {
    let noise = r.f64();
    let pips = |q: i8| (1..=24).map(|k| refbg::own(b, q, k) * k as i32).sum::<i32>() as f64 + 25.0 * refbg::bar(b, q) as f64;
    match style {
        Style::Random => noise,
        Style::Hitter => refbg::bar(b, -p) as f64 * 5.0 + noise,
        Style::Runner => -pips(p) + refbg::off(b, p) as f64 * 3.0 + noise,
        Style::Blocker => (1..=24).filter(|&k| refbg::own(b, p, k) >= 2).count() as f64 + noise,
        Style::Back => -((1..=24).filter(|&k| refbg::own(b, p, k) == 1).count() as f64) * -1.0 + refbg::bar(b, p) as f64 + noise,
    }
}

/// One reference game; returns every (board, player to move) met.
pub fn game(r: &mut Rng, max_plies: usize) -> Vec<(Board, i8)> {
    let mut b = refbg::initial();
    let mut p = if r.chance(0.5) { -1 } else { 1 };
    let styles = [*r.pick(&STYLES), *r.pick(&STYLES)];
    let mut out = vec![];
    for _ in 0..max_plies {
        if refbg::winner(&b).is_some() {
            break;
        }
        out.push((b, p));
        let d = roll(r);
        let style = styles[(p == 1) as usize];
        let l = refbg::legal(&b, p, d);
        if !l.is_empty() {
            let mut best = 0;
            let mut bs = f64::MIN;
            for (i, (_, nb)) in l.iter().enumerate() {
                let s = if r.chance(0.15) { r.f64() * 100.0 } else { score(style, p, nb, r) };
                if s > bs {
                    bs = s;
                    best = i;
                }
            }
            b = l[best].1;
        }
        p = -p;
    }
    out
}

fn put(r: &mut Rng, b: &mut Board, p: i8, choose: &dyn Fn(&mut Rng) -> i32) {
    // 0 = bar, 25 = off, 1..=24 pip
    let mut left = 15;
    let mut tries = 0;
    while left > 0 {
        tries += 1;
        let mut k = choose(r);
        if tries > 400 {
            k = r.range(1, 24) as i32;
        }
        match k {
            0 => {
                if p == -1 {
                    b.1 .0 += 1
                } else {
                    b.1 .1 += 1
                }
                left -= 1;
            }
            25 => {
                let o = if p == -1 { &mut b.2 .0 } else { &mut b.2 .1 };
                if *o < 14 {
                    *o += 1;
                    left -= 1;
                }
            }
            k => {
                let i = refbg::idx(p, k as usize);
                if b.0[i] * p >= 0 {
                    b.0[i] += p;
                    left -= 1;
                }
            }
        }
    }
}

fn profile(r: &mut Rng) -> Box<dyn Fn(&mut Rng) -> i32> {
    match r.below(10) {
        0 => Box::new(|r| r.range(1, 24) as i32),
        1 => Box::new(|r| if r.chance(0.5) { 25 } else { r.range(1, 6) as i32 }),
        2 => {
            let share = r.f64() * 0.95;
            Box::new(move |r| if r.chance(share) { 25 } else { r.range(1, 6) as i32 })
        }
        3 => Box::new(|r| if r.chance(0.15) { 0 } else { r.range(1, 24) as i32 }),
        4 => {
            let start = r.range(1, 18) as i32;
            Box::new(move |r| if r.chance(0.85) { start + r.range(0, 5) as i32 } else { r.range(1, 24) as i32 })
        }
        5 => {
            let spots: Vec<i32> = (0..r.range(1, 4)).map(|_| r.range(1, 24) as i32).collect();
            Box::new(move |r| *r.pick(&spots))
        }
        6 => {
            // home board with a checker or two still out
            Box::new(move |r| if r.chance(0.06) { r.range(7, 24) as i32 } else { r.range(1, 6) as i32 })
        }
        7 => {
            // few checkers left
            Box::new(|r| if r.chance(0.85) { 25 } else { r.range(1, 8) as i32 })
        }
        8 => {
            // holding points in the opponent's home
            Box::new(|r| if r.chance(0.4) { r.range(19, 24) as i32 } else { r.range(1, 12) as i32 })
        }
        _ => Box::new(|r| if r.chance(0.3) { 0 } else if r.chance(0.2) { 25 } else { r.range(1, 24) as i32 }),
    }
}

/// One side on as many points as it has checkers, hardly anything in its way: positions with
/// the most moves there are.
pub fn spread(r: &mut Rng) -> Board {
    let mut b: Board = ([0; 24], (0, 0), (0, 0));
    let p: i8 = if r.chance(0.5) { -1 } else { 1 };
    let mut points: Vec<usize> = (1..=24).collect();
    r.shuffle(&mut points);
    let n = 15 - r.below(4);
    for &k in &points[..n] {
        b.0[refbg::idx(p, k)] = p;
    }
    // the rest of them on top of the others
    for i in n..15 {
        b.0[refbg::idx(p, points[i - n])] += p;
    }
    let stay = r.range(1, 4) as u8;
    for i in 0..stay {
        b.0[refbg::idx(p, points[n + i as usize % 2])] -= p;
    }
    if p == -1 {
        b.2 .1 = 15 - stay
    } else {
        b.2 .0 = 15 - stay
    }
    b
}

/// A structurally valid, unfinished position with 15 checkers a side.
pub fn construct(r: &mut Rng) -> Board {
    if r.chance(0.05) {
        return spread(r);
    }
    loop {
        let mut b: Board = ([0; 24], (0, 0), (0, 0));
        let first = if r.chance(0.5) { -1 } else { 1 };
        for p in [first, -first] {
            let pr = profile(r);
            put(r, &mut b, p, &*pr);
        }
        if refbg::winner(&b).is_none() {
            return b;
        }
    }
}

/// Stream of (board, player) mixing both kinds.
pub struct Positions {
    r: Rng,
    buf: Vec<(Board, i8)>,
    pub constructed: u64,
    pub reachable: u64,
}

impl Positions {
    pub fn new(r: Rng) -> Self {
        Positions { r, buf: vec![], constructed: 0, reachable: 0 }
    }
    pub fn next(&mut self) -> (Board, i8) {
        if self.r.chance(0.5) {
            self.constructed += 1;
            let b = construct(&mut self.r);
            let p = if self.r.chance(0.5) { -1 } else { 1 };
            return (b, p);
        }
        if self.buf.is_empty() {
            self.buf = game(&mut self.r, 400);
            let mut r = self.r.clone();
            r.shuffle(&mut self.buf);
            self.r.next();
        }
        self.reachable += 1;
        self.buf.pop().unwrap()
    }
}

/// Tags of what a (board, player, roll) exercises, for coverage accounting.
pub fn tags(b: &Board, p: i8, roll: (u8, u8)) -> Vec<&'static str> {
    let mut v = vec![];
    if refbg::bar(b, p) == 1 {
        v.push("one_on_bar")
    }
    if refbg::bar(b, p) >= 2 {
        v.push("several_on_bar")
    }
    if refbg::bar(b, -p) > 0 {
        v.push("opponent_on_bar")
    }
    if refbg::all_home(b, p) {
        v.push("bearing_off");
        if (1..=6).any(|k| refbg::opp(b, p, k) > 0) || refbg::bar(b, -p) > 0 {
            v.push("bearing_off_with_contact")
        }
    }
    if roll.0 == roll.1 {
        v.push("doubles")
    }
    let l = refbg::sequences(b, p, roll);
    let m = l.iter().map(|x| x.0.len()).max().unwrap_or(0);
    if m == 0 {
        v.push("no_move")
    }
    if m == 1 {
        v.push("one_die_only")
    }
    if m == 2 && l.iter().any(|x| x.0.len() == 1) {
        v.push("some_order_wastes_a_die")
    }
    if l.iter().any(|x| refbg::bar(&x.1, -p) > refbg::bar(b, -p)) {
        v.push("hit_possible")
    }
    if l.iter().any(|x| refbg::bar(&x.1, -p) > refbg::bar(b, -p) + 1) {
        v.push("double_hit_possible")
    }
    if l.iter().any(|x| refbg::winner(&x.1).is_some()) {
        v.push("win_possible")
    }
    if p == 1 {
        v.push("player_plus")
    } else {
        v.push("player_minus")
    }
    v
}

/// A position that differs from this one in a single respect.
pub fn twin(g: &Backgammon, r: &mut Rng) -> Backgammon {
    for _ in 0..40 {
        let mut t = *g;
        match r.below(7) {
            0 | 1 => t.player = -g.player,
            2 if g.roll.0 == g.roll.1 => t.is_second_play = !g.is_second_play,
            3 if g.roll.0 != g.roll.1 => t.roll = (g.roll.1, g.roll.0),
            4 => {
                let d = r.range(1, 6) as u8;
                if r.chance(0.5) {
                    t.roll.0 = d
                } else {
                    t.roll.1 = d
                }
                t.is_second_play = false;
            }
            5 => {
                // a checker from the bar is off instead, the points are the same
                if r.chance(0.5) && t.board.1 .0 > 0 && t.board.2 .0 < 14 {
                    t.board.1 .0 -= 1;
                    t.board.2 .0 += 1;
                } else if t.board.1 .1 > 0 && t.board.2 .1 < 14 {
                    t.board.1 .1 -= 1;
                    t.board.2 .1 += 1;
                }
            }
            6 => {
                let p = if r.chance(0.5) { -1 } else { 1 };
                let (i, j) = (r.below(24), r.below(24));
                if t.board.0[i] * p > 0 && t.board.0[j] * p >= 0 {
                    t.board.0[i] -= p;
                    t.board.0[j] += p;
                }
            }
            _ => {}
        }
        if (t.board, t.roll, t.player, t.is_second_play) != (g.board, g.roll, g.player, g.is_second_play) {
            return t;
        }
    }
    *g
}

/// Coarse kinds of position for the player to move.
pub fn kind(b: &Board, p: i8) -> Vec<&'static str> {
    let mut v = vec![];
    match refbg::bar(b, p) {
        0 => {}
        1 => v.push("one on the bar"),
        _ => v.push("several on the bar"),
    }
    if refbg::bar(b, -p) > 0 {
        v.push("opponent on the bar")
    }
    if refbg::all_home(b, p) {
        v.push("bearing off")
    }
    if refbg::off(b, p) >= 12 {
        v.push("nearly done")
    }
    if refbg::off(b, -p) >= 12 {
        v.push("opponent nearly done")
    }
    let pips = |q: i8| (1..=24).map(|k| refbg::own(b, q, k) * k as i32).sum::<i32>() + 25 * refbg::bar(b, q) as i32;
    v.push(match pips(p) - pips(-p) {
        i32::MIN..=-60 => "far ahead",
        -59..=59 => "even",
        _ => "far behind",
    });
    if (1..=6).filter(|&k| refbg::own(b, -p, k) >= 2).count() >= 4 {
        v.push("opponent's home board closed")
    }
    v
}
