//! Other threads that use the code under test all the time, around the position being looked at,
//! so that anything shared between threads shows.
use crate::entropy;
use crate::net::Conf;
use crate::work::Source;
use crate::Rng;
use die_e::mcts::node::Node;
use die_e::mcts::simple_mcts::mct_search;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// the id of the games of the crowd; their search trees are not reported
pub const ID: usize = 51_966;

/// what the crowd does most
#[derive(Clone, Copy, PartialEq)]
pub enum Busy {
    Moving,
    Numbering,
    Showing,
    Ending,
    Searching,
}

pub struct Crowd<T: Source> {
    stop: Arc<AtomicBool>,
    near: Arc<Mutex<Option<T>>>,
    hs: Vec<std::thread::JoinHandle<()>>,
}

static DONE: AtomicU64 = AtomicU64::new(0);

fn turn<T: Source>(r: &mut Rng, g: T, busy: Busy) -> T {
    let mut g = g;
    g.set_id(ID);
    if g.check_winner().is_some() {
        return T::random(r);
    }
    let ms = g.get_valid_moves();
    let what = match (busy, r.below(5)) {
        (_, 0) => r.below(if busy == Busy::Searching { 8 } else { 6 }),
        (Busy::Moving, _) => 99,
        (Busy::Numbering, _) => 2,
        (Busy::Showing, _) => r.below(2),
        (Busy::Ending, _) => 4,
        (Busy::Searching, _) => 6 + r.below(2),
    };
    match what {
        99 => {
            for m in ms.iter().take(20) {
                let mut n = g;
                n.apply_move(m);
            }
        }
        0 => drop(g.as_tensor()),
        1 => drop(g.to_pretty_str()),
        2 | 3 => {
            // numbers of this position and of another one in turn
            let o = T::random(r);
            let os = o.get_valid_moves();
            let nums: Vec<(T, u32)> = ms.iter().take(6).map(|m| (g, g.encode(m))).chain(os.iter().take(6).map(|m| (o, o.encode(m)))).collect();
            for _ in 0..200 {
                for (g, a) in &nums {
                    let _ = g.decode(*a);
                }
            }
        }
        4 | 5 => {
            let mut all = vec![g];
            for m in &ms {
                let mut n = g;
                n.apply_move(m);
                for k in n.get_valid_moves() {
                    let mut n = n;
                    if n.check_winner().is_none() && all.len() < 60 {
                        n.apply_move(&k);
                    }
                    all.push(n);
                }
                all.push(n);
            }
            for _ in 0..200 {
                for g in &all {
                    let _ = g.check_winner();
                }
            }
        }
        6 => {
            let _ = Node::new(g, 0, None, None, 0.0).simulate(if r.chance(0.5) { 1 } else { -1 }, *r.pick(&[1, 3, 20, 400]));
        }
        _ => {
            let cfg = Conf { iterations: *r.pick(&[3, 20, 60]), exploration_const: *r.pick(&[0.5, 2.0, 40.0]), simulate_round_limit: *r.pick(&[1, 8, 60]), ..Conf::default() };
            let _ = mct_search(g, if r.chance(0.5) { 1 } else { -1 }, &cfg.mcts());
        }
    }
    let mut n = g;
    if ms.is_empty() {
        n.skip_turn()
    } else {
        n.apply_move(r.pick(&ms))
    }
    n
}

impl<T: Source> Crowd<T> {
    pub fn new(n: usize, seed: u64, busy: Busy) -> Self {
        let stop = Arc::new(AtomicBool::new(false));
        let near: Arc<Mutex<Option<T>>> = Arc::default();
        let hs = (0..n)
            .map(|k| {
                let (stop, near) = (stop.clone(), near.clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        entropy::local(seed ^ (k as u64) << 40);
                        let mut r = Rng::new(seed.wrapping_add(k as u64));
                        let mut g = T::random(&mut r);
                        let mut i = 0u64;
                        while !stop.load(Ordering::Relaxed) {
                            i += 1;
                            if i % 3 != 0 {
                                if let Some(n) = *near.lock().unwrap_or_else(|e| e.into_inner()) {
                                    g = n;
                                }
                            } else if i % 30 == 0 {
                                g = T::random(&mut r);
                            }
                            g = crate::unwound(|| turn(&mut r, g, busy)).unwrap_or(g);
                            DONE.fetch_add(1, Ordering::Relaxed);
                        }
                    })
                    .unwrap()
            })
            .collect();
        Crowd { stop, near, hs }
    }
    /// what the others should be busy with
    pub fn near(&self, g: &T) {
        *self.near.lock().unwrap_or_else(|e| e.into_inner()) = Some(*g);
    }
}

/// turns made by crowds so far
pub fn turns() -> u64 {
    DONE.load(Ordering::Relaxed)
}

impl<T: Source> Drop for Crowd<T> {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        for h in self.hs.drain(..) {
            let _ = h.join();
        }
    }
}
