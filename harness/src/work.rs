//! Workloads shared by the search checks: random positions of every game.

use crate::hashgame::{self, HashGame, HgCfg};
use crate::mon::{Inner, Mon};
use crate::{gen, Rng};
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;

pub trait Source: Inner {
    /// an unfinished position, possibly without a legal move
    fn random(r: &mut Rng) -> Self;
}

impl Source for TicTacToe {
    fn random(r: &mut Rng) -> Self {
        loop {
            let mut g = TicTacToe::new();
            for _ in 0..r.below(9) {
                if g.check_winner().is_some() {
                    break;
                }
                let m = *r.pick(&g.get_valid_moves());
                g.apply_move(&m);
            }
            if g.check_winner().is_none() {
                return g;
            }
        }
    }
}

impl Source for Backgammon {
    fn random(r: &mut Rng) -> Self {
        if r.chance(0.12) {
            // a blocked one
            loop {
                let b = gen::construct(r);
                let p = if r.chance(0.5) { -1 } else { 1 };
                let roll = gen::roll(r);
                if crate::refbg::legal(&b, p, roll).is_empty() {
                    let mut g = Backgammon::init_with_fields(b, p, roll.0 == roll.1 && r.chance(0.5));
                    g.roll = roll;
                    return g;
                }
            }
        }
        let (b, p) = if r.chance(0.5) {
            (gen::construct(r), if r.chance(0.5) { -1 } else { 1 })
        } else {
            let n = 1 + r.below(120);
            let g = gen::game(r, n);
            *g.last().unwrap()
        };
        let roll = gen::roll(r);
        let mut g = Backgammon::init_with_fields(b, p, roll.0 == roll.1 && r.chance(0.5));
        g.roll = roll;
        g
    }
}

impl Source for HashGame {
    fn random(r: &mut Rng) -> Self {
        loop {
            let mut g = HashGame::at(r.next(), if r.chance(0.5) { 1 } else { -1 });
            for _ in 0..r.below(6) {
                let ms = g.get_valid_moves();
                if g.check_winner().is_some() {
                    break;
                }
                if ms.is_empty() {
                    g.skip_turn();
                } else {
                    let m = *r.pick(&ms);
                    g.apply_move(&m);
                }
            }
            if g.check_winner().is_none() {
                return g;
            }
        }
    }
}

impl<G: Source> Source for Mon<G> {
    fn random(r: &mut Rng) -> Self {
        Mon::wrap(G::random(r))
    }
}

/// A position with a great choice of moves.
pub fn wide<G: Source>(r: &mut Rng) -> G {
    let mut s = G::random(r);
    for _ in 0..120 {
        let o = G::random(r);
        if o.get_valid_moves().len() > s.get_valid_moves().len() {
            s = o;
        }
    }
    s
}

/// Varies the synthetic game.
pub fn hg(r: &mut Rng) -> HgCfg {
    let c = HgCfg {
        seed: r.next(),
        min_len: r.range(1, 3) as u32,
        max_len: r.range(3, 9) as u32,
        pass: *r.pick(&[0, 40, 60]),
        double: *r.pick(&[0, 60, 128]),
        draw: *r.pick(&[0, 60, 160]),
        end: *r.pick(&[20, 60, 120]),
        max_moves: *r.pick(&[2, 4, 6, 12]),
        same: false,
    };
    // now and then many moves at once, or long games
    let c = match r.below(12) {
        0 | 1 => HgCfg { max_moves: *r.pick(&[30, 60, 96]), max_len: c.max_len.min(6), ..c },
        2 => HgCfg { min_len: 35, max_len: 90, end: 12, max_moves: c.max_moves.min(6), ..c },
        _ => c,
    };
    hashgame::configure(c);
    c
}
