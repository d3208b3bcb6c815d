//! Configurations and small networks.

use crate::Rng;
use config::{Config, File, FileFormat};
use die_e::alphazero::alphazero::{AlphaZero, AlphaZeroConfig, OptimizerParams};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::MctsConfig;
use std::path::PathBuf;
use tch::{nn::VarStore, Device, Tensor};

#[derive(Clone, Debug)]
pub struct Conf {
    pub temperature: f64,
    pub learn_iterations: usize,
    pub self_play_iterations: usize,
    pub num_epochs: usize,
    pub training_batch_size: usize,
    pub num_self_play_batches: usize,
    pub iterations: usize,
    pub exploration_const: f64,
    pub simulate_round_limit: usize,
    pub dirichlet_alpha: f64,
    pub dirichlet_epsilon: f64,
    pub wd: f64,
    pub lr: f64,
}

impl Default for Conf {
    fn default() -> Self {
        Conf {
            temperature: 1.25,
            learn_iterations: 1,
            self_play_iterations: 1,
            num_epochs: 1,
            training_batch_size: 64,
            num_self_play_batches: 4,
            iterations: 10,
            exploration_const: 2.0,
            simulate_round_limit: 400,
            dirichlet_alpha: 0.3,
            dirichlet_epsilon: 0.25,
            wd: 0.0001,
            lr: 0.001,
        }
    }
}

impl Conf {
    pub fn toml(&self) -> String {
        format!(
            "temperature = {:?}\nlearn_iterations = {}\nself_play_iterations = {}\nnum_epochs = {}\ntraining_batch_size = {}\nnum_self_play_batches = {}\niterations = {}\nexploration_const = {:?}\nsimulate_round_limit = {}\ndirichlet_alpha = {:?}\ndirichlet_epsilon = {:?}\nwd = {:?}\nlr = {:?}\n",
            self.temperature,
            self.learn_iterations,
            self.self_play_iterations,
            self.num_epochs,
            self.training_batch_size,
            self.num_self_play_batches,
            self.iterations,
            self.exploration_const,
            self.simulate_round_limit,
            self.dirichlet_alpha,
            self.dirichlet_epsilon,
            self.wd,
            self.lr
        )
    }
    pub fn config(&self) -> Config {
        parse(&self.toml())
    }
    pub fn mcts(&self) -> MctsConfig {
        MctsConfig::from_config(&self.config()).unwrap()
    }
    pub fn az(&self) -> AlphaZeroConfig {
        AlphaZeroConfig::from_config(&self.config()).unwrap()
    }
    /// An AlphaZero with the given configuration (works in the current directory).
    pub fn alphazero<T: LearnableGame>(&self, path: Option<PathBuf>) -> AlphaZero {
        let c = self.config();
        AlphaZero::new::<T>(path, self.az(), self.mcts(), OptimizerParams::from_config(&c).unwrap())
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!(self.toml())
    }
}

pub fn parse(toml: &str) -> Config {
    Config::builder().add_source(File::from_str(toml, FileFormat::Toml)).build().unwrap()
}

pub fn mcts(iterations: usize, c: f64, limit: usize, alpha: f64, eps: f64) -> MctsConfig {
    Conf { iterations, exploration_const: c, simulate_round_limit: limit, dirichlet_alpha: alpha, dirichlet_epsilon: eps, ..Conf::default() }
        .mcts()
}

fn rand_tensor(r: &mut Rng, size: &[i64], lo: f64, hi: f64) -> Tensor {
    let n: i64 = size.iter().product();
    let v: Vec<f32> = (0..n).map(|_| (lo + (hi - lo) * r.f64()) as f32).collect();
    Tensor::from_slice(&v).view(size)
}

/// Fills every variable with random values; `gain` spreads the outputs of the last layers.
pub fn randomize(vs: &VarStore, r: &mut Rng, gain: f64) {
    let _g = tch::no_grad_guard();
    let mut names: Vec<(String, Tensor)> = vs.variables().into_iter().collect();
    names.sort_by(|a, b| a.0.cmp(&b.0));
    for (name, mut t) in names {
        let s = t.size();
        let v = if name.contains("running_var") {
            rand_tensor(r, &s, 0.5, 1.5)
        } else if name.contains("running_mean") {
            rand_tensor(r, &s, -0.2, 0.2)
        } else if s.len() == 1 {
            rand_tensor(r, &s, -0.3, 1.0)
        } else {
            let fan: i64 = s[1..].iter().product();
            let k = (6.0 / fan as f64).sqrt() * if s.len() == 2 { gain } else { 1.0 };
            rand_tensor(r, &s, -k, k)
        };
        t.copy_(&v.to_device(t.device()));
    }
}

pub fn net<T: LearnableGame>(r: &mut Rng, gain: f64) -> ResNet {
    let n = ResNet::new::<T>(VarStore::new(Device::Cpu));
    randomize(&n.vs, r, gain);
    n
}

/// (policy, value) of one position.
pub fn eval<T: LearnableGame>(net: &ResNet, s: &T) -> (Vec<f32>, f32) {
    let _g = tch::no_grad_guard();
    let (p, v) = net.forward_t(&s.as_tensor(), false);
    (Vec::try_from(p.flatten(0, -1).to_kind(tch::Kind::Float)).unwrap(), v.flatten(0, -1).double_value(&[0]) as f32)
}

pub fn vars(vs: &VarStore) -> std::collections::BTreeMap<String, Vec<f32>> {
    let _g = tch::no_grad_guard();
    vs.variables()
        .into_iter()
        .map(|(k, t)| (k, Vec::<f32>::try_from(t.flatten(0, -1).to_kind(tch::Kind::Float).to_device(Device::Cpu)).unwrap()))
        .collect()
}

pub fn tensor_vec(t: &Tensor) -> Vec<f32> {
    let _g = tch::no_grad_guard();
    Vec::try_from(t.detach().flatten(0, -1).to_kind(tch::Kind::Float).to_device(Device::Cpu)).unwrap()
}

/// One training example: features, target policy, outcome.
#[derive(Clone, Debug)]
pub struct Example {
    pub x: Vec<f32>,
    pub shape: Vec<i64>,
    pub ps: Vec<f32>,
    pub z: i8,
}
impl Example {
    pub fn of(m: &die_e::alphazero::alphazero::MemoryFragment, channels: i64) -> Example {
        let s = m.state.size();
        Example { x: tensor_vec(&m.state), shape: vec![1, channels, s[s.len() - 2], s[s.len() - 1]], ps: tensor_vec(&m.ps), z: m.outcome }
    }
}

/// An independent Adam over a copy of the network: policy cross-entropy plus squared value
/// error, averaged over the batch, L2 weight decay, betas (0.9, 0.999), eps 1e-8.
pub struct Trainer {
    pub net: ResNet,
    lr: f64,
    wd: f64,
    t: i32,
    m: std::collections::BTreeMap<String, Tensor>,
    v: std::collections::BTreeMap<String, Tensor>,
    /// smallest gradient seen per entry (entries with none to speak of are noise)
    weak: std::collections::BTreeMap<String, Tensor>,
    pub last_loss: f64,
}

impl Trainer {
    pub fn new<T: LearnableGame>(from: &VarStore, lr: f64, wd: f64) -> Trainer {
        let mut net = ResNet::new::<T>(VarStore::new(Device::Cpu));
        net.vs.copy(from).unwrap();
        Trainer { net, lr, wd, t: 0, m: Default::default(), v: Default::default(), weak: Default::default(), last_loss: 0.0 }
    }
    pub fn step(&mut self, batch: &[&Example]) {
        let n = batch.len() as i64;
        let x: Vec<f32> = batch.iter().flat_map(|e| e.x.iter().copied()).collect();
        let p: Vec<f32> = batch.iter().flat_map(|e| e.ps.iter().copied()).collect();
        let z: Vec<f32> = batch.iter().map(|e| e.z as f32).collect();
        let mut shape = batch[0].shape.clone();
        shape[0] = n;
        let x = Tensor::from_slice(&x).view(shape.as_slice());
        let p = Tensor::from_slice(&p).view([n, -1]);
        let z = Tensor::from_slice(&z).view([n, 1]);
        for (_, mut t) in self.net.vs.variables() {
            if t.requires_grad() {
                t.zero_grad();
            }
        }
        let (logits, value) = self.net.forward_train(&x, true);
        let lp = logits.log_softmax(-1, tch::Kind::Float);
        let loss = -(p * lp).sum(tch::Kind::Float) / n as f64 + (value - z).square().sum(tch::Kind::Float) / n as f64;
        self.last_loss = loss.double_value(&[]);
        loss.backward();
        self.t += 1;
        let _g = tch::no_grad_guard();
        for (name, mut w) in self.net.vs.variables() {
            if !w.requires_grad() {
                continue;
            }
            let g = w.grad().to_kind(tch::Kind::Double) + self.wd * w.to_kind(tch::Kind::Double);
            let m = match self.m.remove(&name) {
                Some(m) => m * 0.9 + &g * 0.1,
                None => &g * 0.1,
            };
            let v = match self.v.remove(&name) {
                Some(v) => v * 0.999 + &g * &g * 0.001,
                None => &g * &g * 0.001,
            };
            let mh = &m / (1.0 - 0.9f64.powi(self.t));
            let vh: Tensor = &v / (1.0 - 0.999f64.powi(self.t));
            let new = w.to_kind(tch::Kind::Double) - self.lr * mh / (vh.sqrt() + 1e-8);
            let a = g.abs();
            let weak = match self.weak.remove(&name) {
                Some(x) => x.minimum(&a),
                None => a,
            };
            self.weak.insert(name.clone(), weak);
            self.m.insert(name.clone(), m);
            self.v.insert(name, v);
            w.copy_(&new.to_kind(tch::Kind::Float));
        }
    }
    /// mean difference of the trained entries from `other`, in steps of the learning rate
    pub fn drift(&self, other: &VarStore) -> f64 {
        let _g = tch::no_grad_guard();
        let theirs = vars(other);
        let (mut n, mut d) = (0f64, 0f64);
        for (name, a) in vars(&self.net.vs) {
            let (Some(b), Some(w)) = (theirs.get(&name), self.weak.get(&name)) else { continue };
            let w: Vec<f64> = Vec::try_from(w.flatten(0, -1)).unwrap();
            for i in 0..a.len().min(b.len()) {
                if w[i] >= 1e-3 {
                    n += 1.0;
                    d += ((a[i] - b[i]).abs() as f64 / (self.lr * self.t as f64)).min(2.0);
                }
            }
        }
        d / n.max(1.0)
    }
    /// (share of trained entries, share of statistics) that differ from `other` beyond rounding
    pub fn off(&self, other: &VarStore) -> (f64, f64) {
        let _g = tch::no_grad_guard();
        let theirs = vars(other);
        let (mut n, mut bad, mut ns, mut bads) = (0f64, 0f64, 0f64, 0f64);
        for (name, a) in vars(&self.net.vs) {
            let Some(b) = theirs.get(&name) else { return (1.0, 1.0) };
            if b.len() != a.len() {
                return (1.0, 1.0);
            }
            match self.weak.get(&name) {
                Some(w) => {
                    let w: Vec<f64> = Vec::try_from(w.flatten(0, -1)).unwrap();
                    for i in 0..a.len() {
                        if w[i] < 1e-5 {
                            continue;
                        }
                        n += 1.0;
                        if !((a[i] - b[i]).abs() as f64 <= 0.03 * self.lr * self.t as f64 + 1e-6 * (1.0 + a[i].abs() as f64)) {
                            bad += 1.0;
                        }
                    }
                }
                None => {
                    for i in 0..a.len() {
                        ns += 1.0;
                        if !((a[i] - b[i]).abs() as f64 <= 2e-3 * (0.02 + a[i].abs() as f64) + 3.0 * self.lr * self.t as f64 * if name.contains("mean") { 1.0 } else { 0.0 }) {
                            bads += 1.0;
                        }
                    }
                }
            }
        }
        (bad / n.max(1.0), bads / ns.max(1.0))
    }
}

/// all ways to cut 0..n into batches of `size` (the last may be smaller), order of batches included
pub fn partitions(n: usize, size: usize) -> Vec<Vec<Vec<usize>>> {
    fn rec(left: Vec<usize>, size: usize, acc: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
        if left.is_empty() {
            out.push(acc.clone());
            return;
        }
        let k = size.min(left.len());
        let mut pick = vec![];
        choose(&left, k, 0, &mut pick, &mut |p: &[usize]| {
            let rest: Vec<usize> = left.iter().copied().filter(|x| !p.contains(x)).collect();
            acc.push(p.to_vec());
            rec(rest, size, acc, out);
            acc.pop();
        });
    }
    fn choose(v: &[usize], k: usize, from: usize, pick: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if pick.len() == k {
            f(pick);
            return;
        }
        for i in from..v.len() {
            pick.push(v[i]);
            choose(v, k, i + 1, pick, f);
            pick.pop();
        }
    }
    if size >= n {
        return vec![vec![(0..n).collect()]];
    }
    let mut out = vec![];
    rec((0..n).collect(), size.max(1), &mut vec![], &mut out);
    out
}
