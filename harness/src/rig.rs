//! Games with a result set from outside: by game number, or by which move each side plays.

use die_e::base::LearnableGame;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use tch::Tensor;

static WIN: AtomicUsize = AtomicUsize::new(0);
static LOSE: AtomicUsize = AtomicUsize::new(0);

/// Of the games numbered 0..400, `win` are won by player -1 and `lose` by player 1,
/// spread over the numbers; the rest is drawn.
pub fn outcome(win: usize, lose: usize) {
    WIN.store(win, SeqCst);
    LOSE.store(lose, SeqCst);
}

/// One move each game, whatever is played.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct ByNumber {
    pub id: usize,
    pub player: i8,
    pub over: bool,
}

impl LearnableGame for ByNumber {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 2;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self {
        ByNumber { id: 0, player: -1, over: false }
    }
    fn name() -> String {
        "by_number".into()
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        if self.over { vec![] } else { vec![0, 1] }
    }
    fn apply_move(&mut self, _: &u8) {
        self.over = true;
        self.player *= -1;
    }
    fn skip_turn(&mut self) {
        self.player *= -1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        // 267 has no common factor with 400: the results are mixed over the numbers
        let k = self.id * 267 % 400;
        self.over.then(|| if k < WIN.load(SeqCst) { -1 } else if k < WIN.load(SeqCst) + LOSE.load(SeqCst) { 1 } else { 0 })
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[self.player as f32]).view([1, 1, 1, 1])
    }
    fn decode(&self, a: u32) -> u8 {
        a as u8
    }
    fn encode(&self, m: &u8) -> u32 {
        *m as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, id: usize) {
        self.id = id
    }
    fn to_pretty_str(&self) -> String {
        format!("{self:?}")
    }
}

/// Each side plays once; whoever alone plays 0 wins.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct ByMove {
    pub id: usize,
    pub player: i8,
    /// move of player -1 and of player 1 (255 not yet)
    pub m: [u8; 2],
}

impl LearnableGame for ByMove {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 2;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self {
        ByMove { id: 0, player: -1, m: [255, 255] }
    }
    fn name() -> String {
        "by_move".into()
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        if self.m[(self.player > 0) as usize] == 255 { vec![0, 1] } else { vec![] }
    }
    fn apply_move(&mut self, a: &u8) {
        self.m[(self.player > 0) as usize] = *a;
        self.player *= -1;
    }
    fn skip_turn(&mut self) {
        self.player *= -1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        match self.m {
            [255, _] | [_, 255] => None,
            [0, 1] => Some(-1),
            [1, 0] => Some(1),
            _ => Some(0),
        }
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[self.player as f32]).view([1, 1, 1, 1])
    }
    fn decode(&self, a: u32) -> u8 {
        a as u8
    }
    fn encode(&self, m: &u8) -> u32 {
        *m as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, id: usize) {
        self.id = id
    }
    fn to_pretty_str(&self) -> String {
        format!("{self:?}")
    }
}

/// One move, then the game is over: moves 0..4 win, 4..8 lose for whoever plays them, the rest draws.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Fan {
    pub id: usize,
    pub player: i8,
    /// the move played (255: none yet)
    pub m: u8,
    pub by: i8,
}

pub const FAN: usize = 12;

impl LearnableGame for Fan {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = FAN as i64;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self {
        Fan { id: 0, player: -1, m: 255, by: 0 }
    }
    fn name() -> String {
        "fan".into()
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        if self.m == 255 { (0..FAN as u8).collect() } else { vec![] }
    }
    fn apply_move(&mut self, a: &u8) {
        (self.m, self.by) = (*a, self.player);
        self.player *= -1;
    }
    fn skip_turn(&mut self) {
        self.player *= -1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        match self.m {
            255 => None,
            0..=3 => Some(self.by),
            4..=7 => Some(-self.by),
            _ => Some(0),
        }
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[self.player as f32]).view([1, 1, 1, 1])
    }
    fn decode(&self, a: u32) -> u8 {
        a as u8
    }
    fn encode(&self, m: &u8) -> u32 {
        *m as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, id: usize) {
        self.id = id
    }
    fn to_pretty_str(&self) -> String {
        format!("{self:?}")
    }
}

static STEPS: AtomicUsize = AtomicUsize::new(0);
/// Moves applied in Endless games since the last call.
pub fn steps() -> usize {
    STEPS.swap(0, SeqCst)
}

/// One move each turn, for ever.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Endless {
    pub id: usize,
    pub player: i8,
    pub n: u32,
}

impl LearnableGame for Endless {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 2;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self {
        Endless { id: 0, player: -1, n: 0 }
    }
    fn name() -> String {
        "endless".into()
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        vec![0, 1]
    }
    fn apply_move(&mut self, _: &u8) {
        STEPS.fetch_add(1, SeqCst);
        self.n += 1;
        self.player *= -1;
    }
    fn skip_turn(&mut self) {
        self.player *= -1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        None
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[self.n as f32]).view([1, 1, 1, 1])
    }
    fn decode(&self, a: u32) -> u8 {
        a as u8
    }
    fn encode(&self, m: &u8) -> u32 {
        *m as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, id: usize) {
        self.id = id
    }
    fn to_pretty_str(&self) -> String {
        format!("{self:?}")
    }
}

static FORK_STEPS: AtomicUsize = AtomicUsize::new(0);
/// Moves made beyond the fork since the last call.
pub fn fork_steps() -> usize {
    FORK_STEPS.swap(0, SeqCst)
}

/// Move 0 wins at once, after move 1 the game goes on for ever.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Fork {
    pub id: usize,
    pub player: i8,
    /// the first move (255: none yet)
    pub m: u8,
    pub by: i8,
}

impl LearnableGame for Fork {
    type Move = u8;
    const EMPTY_MOVE: u8 = 255;
    const IS_DETERMINISTIC: bool = true;
    const ACTION_SPACE_SIZE: i64 = 2;
    const N_INPUT_CHANNELS: i64 = 1;
    const CONV_OUTPUT_SIZE: i64 = 1;
    const N_FILTERS: i64 = 2;
    const N_RES_BLOCKS: i64 = 1;
    fn new() -> Self {
        Fork { id: 0, player: -1, m: 255, by: 0 }
    }
    fn name() -> String {
        "fork".into()
    }
    fn get_valid_moves(&self) -> Vec<u8> {
        if self.m == 0 { vec![] } else { vec![0, 1] }
    }
    fn apply_move(&mut self, a: &u8) {
        if self.m == 255 {
            (self.m, self.by) = (*a, self.player);
        } else {
            FORK_STEPS.fetch_add(1, SeqCst);
        }
        self.player *= -1;
    }
    fn skip_turn(&mut self) {
        self.player *= -1;
    }
    fn get_player(&self) -> i8 {
        self.player
    }
    fn check_winner(&self) -> Option<i8> {
        (self.m == 0).then_some(self.by)
    }
    fn as_tensor(&self) -> Tensor {
        Tensor::from_slice(&[self.m as f32]).view([1, 1, 1, 1])
    }
    fn decode(&self, a: u32) -> u8 {
        a as u8
    }
    fn encode(&self, m: &u8) -> u32 {
        *m as u32
    }
    fn get_id(&self) -> usize {
        self.id
    }
    fn set_id(&mut self, id: usize) {
        self.id = id
    }
    fn to_pretty_str(&self) -> String {
        format!("{self:?}")
    }
}
