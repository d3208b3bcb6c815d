//! A synthetic game for the generic code: a pure function of the path played, with
//! blocked positions, double turns, draws, very short and longer games, and an
//! encoding of moves that depends on the position.

use crate::{hash2, hash64};
use die_e::base::LearnableGame;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::RwLock;
use tch::Tensor;

#[derive(Clone, Copy, Debug)]
pub struct HgCfg {
    pub seed: u64,
    pub min_len: u32,
    pub max_len: u32,
    /// chances in 1/256
    pub pass: u64,
    pub double: u64,
    pub draw: u64,
    pub end: u64,
    pub max_moves: u64,
    /// every new game is the same instance
    pub same: bool,
}

pub const DEFAULT: HgCfg =
    HgCfg { seed: 1, min_len: 2, max_len: 8, pass: 30, double: 60, draw: 60, end: 60, max_moves: 5, same: false };

pub static CFG: RwLock<HgCfg> = RwLock::new(DEFAULT);
static NEXT: AtomicU64 = AtomicU64::new(0);

pub fn configure(c: HgCfg) {
    *CFG.write().unwrap() = c;
    NEXT.store(0, Ordering::SeqCst);
}
fn cfg() -> HgCfg {
    *CFG.read().unwrap()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct HashGame {
    pub path: u64,
    /// changed by moves only: a pass never ends a game
    pub board: u64,
    pub ply: u32,
    pub player: i8,
    pub id: usize,
}

pub const A: u64 = 96;

impl HashGame {
    pub fn at(path: u64, player: i8) -> Self {
        HashGame { path, board: path, ply: 0, player, id: 0 }
    }
    fn h(&self, what: u64) -> u64 {
        hash2(self.path, what)
    }
}

impl LearnableGame for HashGame {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = A as i64;
    const N_INPUT_CHANNELS: i64 = 3;
    const CONV_OUTPUT_SIZE: i64 = 4;
    const N_FILTERS: i64 = 4;
    const N_RES_BLOCKS: i64 = 1;

    fn new() -> Self {
        let c = cfg();
        let k = if c.same { 0 } else { NEXT.fetch_add(1, Ordering::SeqCst) };
        HashGame::at(hash2(c.seed, k), -1)
    }
    fn name() -> String {
        "hashgame".into()
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        let c = cfg();
        if self.check_winner().is_some() || self.h(1) % 256 < c.pass {
            return vec![];
        }
        let n = 1 + self.h(2) % c.max_moves;
        let mut v: Vec<u8> = (0..A as u8).collect();
        v.sort_by_cached_key(|m| self.h(100 + *m as u64));
        v.truncate(n as usize);
        v
    }
    fn apply_move(&mut self, m: &u8) {
        let c = cfg();
        let again = self.h(3) % 256 < c.double;
        self.path = hash2(self.path, 1000 + *m as u64);
        self.board = self.path;
        self.ply += 1;
        if !again {
            self.player *= -1;
        }
    }
    fn skip_turn(&mut self) {
        self.path = hash2(self.path, 5000);
        self.player *= -1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        let c = cfg();
        let over = self.ply >= c.max_len || (self.ply >= c.min_len && hash2(self.board, 4) % 256 < c.end);
        over.then(|| if hash2(self.board, 5) % 256 < c.draw { 0 } else if hash2(self.board, 6) & 1 == 0 { 1 } else { -1 })
    }
    fn as_tensor(&self) -> Tensor {
        let v: Vec<f32> = (0..12).map(|i| (hash64(self.path ^ (i << 7)) >> 40) as f32 / (1u64 << 24) as f32 * 2. - 1.).collect();
        let mut v = v;
        v[0] = self.player as f32;
        Tensor::from_slice(&v).view([1, 3, 2, 2])
    }
    fn decode(&self, a: u32) -> u8 {
        ((a as u64 + A - self.path % A) % A) as u8
    }
    fn encode(&self, m: &u8) -> u32 {
        ((*m as u64 + self.path % A) % A) as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, id: usize) {
        self.id = id
    }
    fn to_pretty_str(&self) -> String {
        format!("{:?}", self)
    }
}
