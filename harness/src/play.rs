//! Self-play and matches seen from outside: fragments, played games, the searches behind the moves.

use crate::mon::{self, Inner, Log, Mon, St, Trunk};
use crate::net::tensor_vec;
use crate::tree::Tree;
use die_e::alphazero::alphazero::MemoryFragment;
use die_e::base::LearnableGame;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Frag {
    /// the recorded position, by version
    pub ver: u32,
    pub outcome: i8,
    pub ps: Vec<f32>,
    /// network input without the version plane
    pub x: Vec<f32>,
}

pub fn frag<G: Inner>(m: &MemoryFragment) -> Frag {
    let mut x = tensor_vec(&m.state);
    let plane = x.len() / (G::N_INPUT_CHANNELS as usize + 1);
    let ver = mon::version_of(&m.state);
    x.truncate(x.len() - plane);
    Frag { ver, outcome: m.outcome, ps: tensor_vec(&m.ps), x }
}

/// Visit shares after temperature.
pub fn target(visits: &[(usize, f64)], temperature: f64, a: usize) -> Vec<f64> {
    let max = visits.iter().map(|v| v.1).fold(0.0, f64::max);
    let mut t = vec![0.0; a];
    if max <= 0.0 {
        return t;
    }
    for &(k, v) in visits {
        if v > 0.0 {
            t[k] += ((v / max).ln() / temperature).exp();
        }
    }
    let s: f64 = t.iter().sum();
    t.iter_mut().for_each(|x| *x /= s);
    t
}

/// root version -> (number of move, move, visits, prior) of every child, with the kind of search
pub type Searches<G> = HashMap<u32, (&'static str, Vec<(usize, <G as LearnableGame>::Move, f64, f64)>)>;

pub fn searches<G: Inner>(ts: &[Tree<Mon<G>>]) -> Searches<G> {
    let mut m = HashMap::new();
    for t in ts {
        for r in t.roots() {
            let s = &t.nodes[r].state;
            let v = t.nodes[r]
                .children
                .iter()
                .filter_map(|&k| {
                    let n = &t.nodes[k];
                    let a = n.action.clone()?;
                    Some((<Mon<G> as LearnableGame>::encode(s, &a) as usize, a, n.visits, n.policy))
                })
                .collect();
            m.insert(s.ver, (t.kind, v));
        }
    }
    m
}

/// root version -> number of positions searched together with it
pub fn together<G: Inner>(ts: &[Tree<Mon<G>>]) -> HashMap<u32, usize> {
    ts.iter()
        .flat_map(|t| {
            let roots: Vec<usize> = t.roots().into_iter().collect();
            let n = roots.len();
            roots.into_iter().map(|r| (t.nodes[r].state.ver, n)).collect::<Vec<_>>()
        })
        .collect()
}

pub fn state_at<G: Inner>(l: &Log, ver: u32) -> Option<Mon<G>> {
    l.states.get(&ver).map(|s: &St| Mon { g: G::from_st(s), ver })
}

/// Games that were really begun (not placeholders).
pub fn played(l: &Log) -> Vec<Trunk> {
    mon::trunks(l).into_iter().filter(|t| t.steps.iter().any(|s| s.1.as_ref().is_some_and(|e| e.kind == mon::Kind::Apply || e.kind == mon::Kind::Skip))).collect()
}

/// At the round limit one more search runs on copies of the position: not moves of the game.
/// (A game that really went on would have recorded the position.)
pub fn cut(t: &Trunk, limit: Option<usize>) -> Trunk {
    let mut t = Trunk { start: t.start, steps: t.steps.clone() };
    let Some(m) = limit else { return t };
    let mut rounds = 0;
    for i in 0..t.steps.len() {
        if t.steps[i].1.as_ref().is_some_and(|e| e.kind != mon::Kind::Roll) {
            if rounds == m {
                t.steps.truncate(i + 1);
                t.steps[i].1 = None;
                break;
            }
            rounds += 1;
        }
    }
    t
}

/// Are choices drawn from the distributions given for them?  Sum over choices of
/// (probability of the choice - its expectation), in standard deviations; `min` is
/// the least probable choice seen.
#[derive(Default, Debug)]
pub struct Draws {
    pub n: u64,
    sum: f64,
    var: f64,
    sum2: f64,
    var2: f64,
    /// largest possible single contributions
    top: f64,
    top2: f64,
    /// place of the choice in the order of probability
    sum3: f64,
    var3: f64,
    /// moves less likely than 1%, 5%: taken, expected, variance
    rare: [(f64, f64, f64); 2],
}
impl Draws {
    pub fn add(&mut self, p: &[f64], chosen: usize) {
        let e: f64 = p.iter().map(|x| x * x).sum();
        let v: f64 = p.iter().map(|x| x * x * x).sum::<f64>() - e * e;
        if v < 1e-9 {
            return;
        }
        self.n += 1;
        self.add_place(p, chosen);
        for (k, at) in [0.01, 0.05].iter().enumerate() {
            let m: f64 = p.iter().filter(|x| *x < at).sum();
            self.rare[k].0 += (p[chosen] < *at) as u8 as f64;
            self.rare[k].1 += m;
            self.rare[k].2 += m * (1.0 - m);
        }
        self.sum += p[chosen] - e;
        self.var += v;
        self.top = p.iter().filter(|x| **x > 0.0).fold(self.top, |t, x| t.max((x - e).abs()));
        // rank within the list too: which of equally likely moves is taken
        let pos: Vec<f64> = (0..p.len()).map(|i| i as f64 / p.len() as f64).collect();
        let m: f64 = p.iter().zip(&pos).map(|(a, b)| a * b).sum();
        let w: f64 = p.iter().zip(&pos).map(|(a, b)| a * b * b).sum::<f64>() - m * m;
        self.sum2 += pos[chosen] - m;
        self.var2 += w;
        self.top2 = pos.iter().zip(p).filter(|x| *x.1 > 0.0).fold(self.top2, |t, (x, _)| t.max((x - m).abs()));
    }
    fn add_place(&mut self, p: &[f64], chosen: usize) {
        // moves of equal probability share a place
        let mut q: Vec<f64> = p.iter().copied().filter(|x| *x > 0.0).collect();
        q.sort_by(|a, b| a.total_cmp(b));
        let (mut below, mut i) = (0.0, 0);
        while i < q.len() {
            let n = q[i..].iter().take_while(|x| **x - q[i] < 1e-6).count();
            let mass: f64 = q[i..i + n].iter().sum();
            let off = below + mass / 2.0 - 0.5;
            self.var3 += mass * off * off;
            if p[chosen] >= q[i] - 1e-9 && p[chosen] <= q[i + n - 1] + 1e-9 {
                self.sum3 += off;
            }
            below += mass;
            i += n;
        }
    }
    /// how far off the places are, as `z`
    pub fn z_place(&self) -> f64 {
        self.sum3 / (self.var3 + self.sum3.abs() * 0.5 / 3.0).max(1e-12).sqrt()
    }
    /// a choice among `k` equally likely things
    pub fn add_uniform(&mut self, k: usize, chosen: usize) {
        if k < 2 {
            return;
        }
        self.n += 1;
        let x = (chosen as f64 + 0.5) / k as f64 - 0.5;
        let w = (1.0 - 1.0 / (k * k) as f64) / 12.0;
        self.sum2 += x;
        self.var2 += w;
        self.top = self.top.max(0.25);
        self.top2 = self.top2.max(0.5);
        // and its square: middle against the ends
        let m4: f64 = (0..k).map(|i| ((i as f64 + 0.5) / k as f64 - 0.5).powi(4)).sum::<f64>() / k as f64;
        self.sum += x * x - w;
        self.var += (m4 - w * w).max(1e-12);
    }
    /// taken and expected number of unlikely moves, if they are (far) apart
    pub fn rare_off(&self) -> Option<(f64, f64)> {
        self.rare.iter().find(|(got, want, var)| *want >= 8.0 && (got - want).abs() > 6.0 * (var + 1.0).sqrt() || *want < 8.0 && *got > want + 30.0).map(|x| (x.0, x.1))
    }
    /// How far off, in standard deviations of a normal variable that is as unlikely as
    /// Bernstein's inequality allows this sum to be (sound for few and for rare choices too).
    pub fn z(&self) -> (f64, f64) {
        let f = |t: f64, var: f64, top: f64| t / (var + t.abs() * top / 3.0).max(1e-12).sqrt();
        (f(self.sum, self.var, self.top), f(self.sum2, self.var2, self.top2))
    }
}

/// A sum of bounded terms of known variance around zero (each at most 1 in size).
#[derive(Default, Debug)]
pub struct Luck {
    pub n: u64,
    sum: f64,
    var: f64,
}
impl Luck {
    pub fn add(&mut self, off: f64, var: f64) {
        self.n += 1;
        self.sum += off;
        self.var += var;
    }
    pub fn z(&self) -> f64 {
        self.sum / (self.var + self.sum.abs() / 3.0).max(1e-12).sqrt()
    }
}
