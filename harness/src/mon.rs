//! `Mon<G>`: the game G seen through a recorder.  Every state gets a unique version,
//! every mutation is an event, and the version is visible in the network input, so the
//! trunk of every played game can be told apart from what searches try out.

use crate::hashgame::HashGame;
use crate::refbg;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering};
use std::sync::Mutex;
use tch::Tensor;

#[derive(Clone, Copy, Debug)]
pub enum St {
    B(Backgammon),
    T(TicTacToe),
    H(HashGame),
}

/// Games the harness knows the transition relation of.
pub trait Inner: LearnableGame + 'static {
    fn st(&self) -> St;
    fn from_st(s: &St) -> Self;
    /// may `child` be the position after playing `a` here?
    fn follows(&self, a: &Self::Move, child: &Self) -> bool;
    fn same(&self, o: &Self) -> bool;
    const TAG: &'static str;
}

fn same_bg(a: &Backgammon, b: &Backgammon) -> bool {
    a.board == b.board && a.roll == b.roll && a.player == b.player && a.is_second_play == b.is_second_play
}

impl Inner for Backgammon {
    const TAG: &'static str = "backgammon";
    fn st(&self) -> St {
        St::B(*self)
    }
    fn from_st(s: &St) -> Self {
        match s {
            St::B(b) => *b,
            _ => panic!("wrong state kind"),
        }
    }
    fn follows(&self, a: &Self::Move, c: &Self) -> bool {
        let Some(b) = refbg::follow(&self.board, self.player, self.roll, a) else { return false };
        let again = self.roll.0 == self.roll.1 && !self.is_second_play;
        b == c.board
            && if again {
                c.player == self.player && c.is_second_play && c.roll == self.roll
            } else {
                c.player == -self.player && !c.is_second_play && (1..=6).contains(&c.roll.0) && (1..=6).contains(&c.roll.1)
            }
    }
    fn same(&self, o: &Self) -> bool {
        same_bg(self, o)
    }
}
impl Inner for TicTacToe {
    const TAG: &'static str = "tictactoe";
    fn st(&self) -> St {
        St::T(*self)
    }
    fn from_st(s: &St) -> Self {
        match s {
            St::T(b) => *b,
            _ => panic!("wrong state kind"),
        }
    }
    fn follows(&self, a: &Self::Move, c: &Self) -> bool {
        let mut b = self.board;
        if b[*a as usize] != 0 {
            return false;
        }
        b[*a as usize] = self.get_player();
        b == c.board && c.get_player() == -self.get_player()
    }
    fn same(&self, o: &Self) -> bool {
        self.board == o.board && self.get_player() == o.get_player()
    }
}
impl Inner for HashGame {
    const TAG: &'static str = "hashgame";
    fn st(&self) -> St {
        St::H(*self)
    }
    fn from_st(s: &St) -> Self {
        match s {
            St::H(b) => *b,
            _ => panic!("wrong state kind"),
        }
    }
    fn follows(&self, a: &Self::Move, c: &Self) -> bool {
        let mut n = *self;
        n.apply_move(a);
        self.get_valid_moves().contains(a) && n.same(c)
    }
    fn same(&self, o: &Self) -> bool {
        self.path == o.path && self.ply == o.ply && self.player == o.player
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    New,
    Apply,
    Skip,
    Roll,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: Kind,
    pub from: u32,
    pub to: u32,
    /// the move was offered / the game was not over
    pub legal: bool,
    pub over: bool,
    /// serialized move
    pub mv: String,
}

#[derive(Default)]
pub struct Log {
    pub evs: Vec<Ev>,
    pub states: HashMap<u32, St>,
}

static LOG: Mutex<Option<Log>> = Mutex::new(None);
static VER: AtomicU32 = AtomicU32::new(1);
static BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
static JUDGE: AtomicBool = AtomicBool::new(true);
static SLOW: AtomicBool = AtomicBool::new(false);
static WITH_MOVES: AtomicBool = AtomicBool::new(false);

/// Starts a fresh recording; `budget` bounds the number of mutations.
pub fn start(budget: i64) {
    *LOG.lock().unwrap_or_else(|e| e.into_inner()) = Some(Log::default());
    VER.store(1, Ordering::SeqCst);
    BUDGET.store(budget, Ordering::SeqCst);
}
/// Without a recording, only versions and the budget are kept.
pub fn start_silent(budget: i64) {
    *LOG.lock().unwrap_or_else(|e| e.into_inner()) = None;
    VER.store(1, Ordering::SeqCst);
    BUDGET.store(budget, Ordering::SeqCst);
}
/// Continues numbering after `ver`, so that a repeated run numbers its states the same way.
pub fn rewind(ver: u32) {
    VER.store(ver + 1, Ordering::SeqCst);
}
pub fn judge(on: bool) {
    JUDGE.store(on, Ordering::SeqCst);
}
/// Random delays while moves are looked up, to vary the interleaving of threads.
pub fn slow(on: bool) {
    SLOW.store(on, Ordering::SeqCst);
}
pub fn with_moves(on: bool) {
    WITH_MOVES.store(on, Ordering::SeqCst);
}
pub fn stop() -> Log {
    BUDGET.store(i64::MAX, Ordering::SeqCst);
    LOG.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "G: Serialize", deserialize = "G: DeserializeOwned"))]
pub struct Mon<G> {
    pub g: G,
    pub ver: u32,
}

impl<G: Inner> Mon<G> {
    pub fn wrap(g: G) -> Self {
        let mut m = Mon { g, ver: 0 };
        m.log(Kind::New, 0, true, false, String::new());
        m
    }
    fn log(&mut self, kind: Kind, from: u32, legal: bool, over: bool, mv: String) {
        self.ver = VER.fetch_add(1, Ordering::SeqCst);
        if self.ver >= 1 << 24 {
            panic!("MONITOR: version space exhausted");
        }
        if let Some(l) = LOG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            l.evs.push(Ev { kind, from, to: self.ver, legal, over, mv });
            l.states.insert(self.ver, self.g.st());
        }
        if BUDGET.fetch_sub(1, Ordering::SeqCst) <= 0 {
            panic!("MONITOR: step budget exceeded, the run does not come to an end");
        }
    }
}

pub const VER_SCALE: f32 = 16777216.0;

/// Called whenever a game begins.
pub static WATCH: std::sync::Mutex<Option<Box<dyn FnMut() + Send>>> = std::sync::Mutex::new(None);

impl<G: Inner> LearnableGame for Mon<G> {
    type Move = G::Move;
    const EMPTY_MOVE: G::Move = G::EMPTY_MOVE;
    const IS_DETERMINISTIC: bool = G::IS_DETERMINISTIC;
    const ACTION_SPACE_SIZE: i64 = G::ACTION_SPACE_SIZE;
    const N_INPUT_CHANNELS: i64 = G::N_INPUT_CHANNELS + 1;
    const CONV_OUTPUT_SIZE: i64 = G::CONV_OUTPUT_SIZE;
    const N_FILTERS: i64 = 4;
    const N_RES_BLOCKS: i64 = 1;

    fn new() -> Self {
        if let Ok(mut w) = WATCH.try_lock() {
            if let Some(f) = w.as_mut() {
                f();
            }
        }
        Mon::wrap(G::new())
    }
    fn name() -> String {
        format!("mon_{}", G::TAG)
    }
    fn get_valid_moves(&self) -> Vec<G::Move> {
        if SLOW.load(Ordering::Relaxed) {
            match crate::hash2(self.ver as u64, 99) % 8 {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros(crate::hash2(self.ver as u64, 98) % 200)),
                _ => {}
            }
        }
        self.g.get_valid_moves()
    }
    fn apply_move(&mut self, a: &G::Move) {
        let (legal, over) = if JUDGE.load(Ordering::Relaxed) {
            (self.g.get_valid_moves().contains(a), self.g.check_winner().is_some())
        } else {
            (true, false)
        };
        let mv = if WITH_MOVES.load(Ordering::Relaxed) { serde_json::to_string(a).unwrap() } else { String::new() };
        let from = self.ver;
        if !legal || over {
            self.log(Kind::Apply, from, legal, over, mv);
            panic!("MONITOR: {} move {:?} applied to {:?}", if over { "game is over," } else { "illegal" }, a, self.g);
        }
        self.g.apply_move(a);
        self.log(Kind::Apply, from, legal, over, mv);
    }
    fn roll_die(&mut self) -> (u8, u8) {
        let r = self.g.roll_die();
        let from = self.ver;
        self.log(Kind::Roll, from, true, false, String::new());
        r
    }
    fn skip_turn(&mut self) {
        let over = self.g.check_winner().is_some();
        let from = self.ver;
        self.g.skip_turn();
        self.log(Kind::Skip, from, true, over, String::new());
    }
    fn get_player(&self) -> i8 {
        self.g.get_player()
    }
    fn check_winner(&self) -> Option<i8> {
        self.g.check_winner()
    }
    fn as_tensor(&self) -> Tensor {
        let t = self.g.as_tensor().to_kind(tch::Kind::Float);
        let mut s = t.size();
        s[1] = 1;
        let v = Tensor::full(s.as_slice(), self.ver as f64 / VER_SCALE as f64, (tch::Kind::Float, tch::Device::Cpu));
        Tensor::cat(&[t, v], 1)
    }
    fn decode(&self, a: u32) -> G::Move {
        self.g.decode(a)
    }
    fn encode(&self, a: &G::Move) -> u32 {
        // through the trait, as the generic code does
        <G as LearnableGame>::encode(&self.g, a)
    }
    fn get_id(&self) -> usize {
        self.g.get_id()
    }
    fn set_id(&mut self, id: usize) {
        self.g.set_id(id)
    }
    fn to_pretty_str(&self) -> String {
        self.g.to_pretty_str()
    }
}

/// The version a network input was made from.
pub fn version_of(t: &Tensor) -> u32 {
    let v: Vec<f32> = Vec::try_from(t.flatten(0, -1).to_kind(tch::Kind::Float)).unwrap();
    (*v.last().unwrap() * VER_SCALE).round() as u32
}

impl<G: Inner> Inner for Mon<G> {
    const TAG: &'static str = G::TAG;
    fn st(&self) -> St {
        self.g.st()
    }
    fn from_st(s: &St) -> Self {
        Mon { g: G::from_st(s), ver: 0 }
    }
    fn follows(&self, a: &Self::Move, c: &Self) -> bool {
        self.g.follows(a, &c.g)
    }
    fn same(&self, o: &Self) -> bool {
        self.g.same(&o.g)
    }
}

/// One really played game: the versions from its creation on, each with the event that left it.
#[derive(Debug)]
pub struct Trunk {
    pub start: u32,
    /// (version, event leaving it) in order; the last version has none
    pub steps: Vec<(u32, Option<Ev>)>,
}
impl Trunk {
    pub fn last(&self) -> u32 {
        self.steps.last().unwrap().0
    }
}

/// The last mutation of a version is the real one: searches work on copies and end before
/// the game itself moves on.
pub fn trunks(l: &Log) -> Vec<Trunk> {
    let mut out: HashMap<u32, &Ev> = HashMap::new();
    for e in &l.evs {
        if e.kind != Kind::New {
            out.insert(e.from, e);
        }
    }
    l.evs
        .iter()
        .filter(|e| e.kind == Kind::New)
        .map(|e| {
            let mut steps = vec![];
            let mut v = e.to;
            loop {
                match out.get(&v) {
                    Some(ev) => {
                        steps.push((v, Some((*ev).clone())));
                        v = ev.to;
                    }
                    None => {
                        steps.push((v, None));
                        break;
                    }
                }
            }
            Trunk { start: e.to, steps }
        })
        .collect()
}

