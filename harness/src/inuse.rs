//! The settings of the search, observed wherever the program searches: in matches, in self-play and
//! when a single move is asked for.

use crate::net::{self, Conf};
use crate::rig::{fork_steps, Fan, Fork, FAN};
use crate::tree::{observe, Tree};
use crate::*;
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::versus::{play, Agent, Player};
use serde_json::json;

/// visit shares by kind of result after n visits under the upper-confidence rule
pub fn by_result(v: &[f64]) -> [f64; 3] {
    [v[..4].iter().sum(), v[4..8].iter().sum(), v[8..].iter().sum()]
}
fn worth(i: usize) -> f64 {
    match i {
        0..=3 => 1.0,
        4..=7 => -1.0,
        _ => 0.0,
    }
}
pub fn guided(p: &[f64], c: f64, n: usize) -> Vec<f64> {
    let mut v = vec![0.0; FAN];
    for k in 0..n {
        let s = |i: usize| (if v[i] > 0.0 { worth(i) } else { 0.0 }) + c * p[i] * (1.0 + k as f64).sqrt() / (1.0 + v[i]);
        let b = (0..FAN).max_by(|&a, &b| s(a).partial_cmp(&s(b)).unwrap()).unwrap();
        v[b] += 1.0;
    }
    v
}
pub fn plain(c: f64, n: usize) -> Vec<f64> {
    let mut v = vec![0.0; FAN];
    for k in 0..n {
        if k < FAN {
            v[k] = 1.0;
            continue;
        }
        let s = |i: usize| worth(i) + (c * (k as f64).ln() / v[i]).sqrt();
        let b = (0..FAN).max_by(|&a, &b| s(a).partial_cmp(&s(b)).unwrap()).unwrap();
        v[b] += 1.0;
    }
    v
}

/// Every search among the trees made `cfg.iterations` iterations with the configured exploration and,
/// taken together, the configured share of noise. `nets` are those of player -1 and player 1.
fn judge(c: &mut Check, what: &str, count: &str, trees: &[Tree<Fan>], cfg: &Conf, nets: [Option<&ResNet>; 2], wit: &serde_json::Value) -> usize {
    let priors: Vec<Option<Vec<f64>>> = [-1i8, 1]
        .iter()
        .zip(nets)
        .map(|(&player, n)| n.map(|n| net::eval(n, &Fan { player, ..Fan::new() }).0.iter().map(|x| *x as f64).collect()))
        .collect();
    let (mut top, mut bottom, mut seen) = (0.0, 0.0, 0);
    for t in trees {
        for root in t.nodes.iter().filter(|n| n.parent.is_none()) {
            let (mut v, mut p) = (vec![0.0; FAN], vec![0.0; FAN]);
            for &k in &root.children {
                let a = t.nodes[k].action.unwrap() as usize;
                (v[a], p[a]) = (t.nodes[k].visits, t.nodes[k].policy);
            }
            seen += 1;
            c.eval();
            c.count(count, 1);
            let w = || json!({"visits": v, "priors": p, "run": wit});
            let n: f64 = v.iter().sum();
            if n != cfg.iterations as f64 {
                c.violation(&format!("{what}-iterations"), &format!("{what}: {} iterations are configured, {n} are made", cfg.iterations), w());
                return seen;
            }
            let tree_search = t.kind == "mcts";
            let want = if tree_search { plain(cfg.exploration_const, cfg.iterations) } else { guided(&p, cfg.exploration_const, cfg.iterations) };
            let (g, e) = (by_result(&v), by_result(&want));
            if (0..3).map(|i| (g[i] - e[i]).abs()).sum::<f64>() > 5.0 && (!tree_search || cfg.iterations >= FAN) {
                c.violation(&format!("{what}-exploration"), &format!("{what}: with exploration {} the visits by result are {g:?}, expected {e:?}", cfg.exploration_const), w());
                return seen;
            }
            if let (false, Some(q)) = (tree_search, &priors[(root.state.player > 0) as usize]) {
                for i in 0..FAN {
                    let d = 1.0 / FAN as f64 - q[i];
                    top += (p[i] - q[i]) * d;
                    bottom += d * d;
                }
            }
        }
    }
    if bottom > 3e-3 {
        c.count("in_noise_told", 1);
        if (top / bottom - cfg.dirichlet_epsilon).abs() > 0.004 + 0.05 * cfg.dirichlet_epsilon {
            c.violation(&format!("{what}-epsilon"), &format!("{what}: the share of noise is {:.3}, configured {}", top / bottom, cfg.dirichlet_epsilon), wit.clone());
        }
    }
    seen
}

fn copy(n: &ResNet) -> ResNet {
    let mut k = ResNet::new::<Fan>(tch::nn::VarStore::new(tch::Device::Cpu));
    k.vs.copy(&n.vs).unwrap();
    k
}

/// noise so even that its share can be read off
fn even(cfg: &Conf) -> Conf {
    Conf { dirichlet_alpha: 1e4, ..cfg.clone() }
}

/// Matches between the players that search.
pub fn matches(c: &mut Check, r: &mut Rng, cfg: &Conf) {
    let cfg = even(cfg);
    let seats = *r.pick(&[[0, 0], [0, 1], [1, 0], [1, 1]]);
    let nets = seats.map(|s| (s == 1).then(|| net::net::<Fan>(r, 1.0)));
    let wit = json!({"seats": seats, "conf": cfg.toml()});
    let player = |i: usize| if seats[i] == 1 { Player::new(Agent::Model, nets[i].as_ref().map(copy)) } else { Player::new(Agent::Mcts, None) };
    let Some((_, ts)) = c.run("match", "a match", || wit.clone(), || observe::<Fan, _>(|| play::<Fan>(player(0), player(1), &cfg.mcts(), 1.0))) else { return };
    let (plain, guided): (Vec<_>, Vec<_>) = ts.into_iter().partition(|t| t.kind == "mcts");
    let nets = [nets[0].as_ref(), nets[1].as_ref()];
    let n = judge(c, "tree search in a match", "in_match", &plain, &cfg, nets, &wit) + judge(c, "guided search in a match", "in_match_guided", &guided, &cfg, nets, &wit);
    if n != 400 {
        c.violation("match-searches", &format!("a match of 400 games of one move makes {n} searches"), wit.clone());
    }
    // playouts: one move wins at once, after the other one the game never ends
    if cfg.simulate_round_limit > 5000 {
        return;
    }
    let cfg = Conf { iterations: 20 + r.below(20), exploration_const: 2.0, ..cfg.clone() };
    let wit = json!({"conf": cfg.toml()});
    fork_steps();
    let Some((res, ts)) = c.run("match", "a match", || wit.clone(), || observe::<Fork, _>(|| play::<Fork>(Player::new(Agent::Mcts, None), Player::new(Agent::Mcts, None), &cfg.mcts(), 1.0))) else { return };
    let made = fork_steps() as f64;
    if res.n_games != 400 || ts.len() != 400 {
        return; // some game went on
    }
    let visits: f64 = ts.iter().flat_map(|t| t.nodes[0].children.iter().map(move |&k| &t.nodes[k])).filter(|n| n.action == Some(1)).map(|n| n.visits).sum();
    // each visit beyond the fork makes one new node and one playout
    let per = made / visits - 1.0;
    c.eval();
    c.count("in_match_playouts", 1);
    if (per - cfg.simulate_round_limit as f64).abs() > 2.0 {
        c.violation("match-playout-limit", &format!("playouts in a match have {per:.1} moves where the game has no end, the limit is {}", cfg.simulate_round_limit), json!({"visits": visits, "moves": made, "run": wit}));
    }
}

/// Self-play, matches between networks, single moves.
pub fn learning(c: &mut Check, r: &mut Rng, cfg: &Conf) {
    let cfg = Conf { num_self_play_batches: r.range(1, 40) as usize, simulate_round_limit: cfg.simulate_round_limit.max(2), ..even(cfg) };
    let wit = json!({"conf": cfg.toml()});
    let Some(az) = c.run("load", "loading", || wit.clone(), || cfg.alphazero::<Fan>(None)) else { return };
    net::randomize(&az.model.vs, r, 1.0);
    let both = [Some(&az.model), Some(&az.model)];
    if let Some((_, ts)) = c.run("self-play", "self-play", || wit.clone(), || observe::<Fan, _>(|| drop(az.self_play_parallel::<Fan>()))) {
        let n = judge(c, "self-play", "in_self_play", &ts, &cfg, both, &wit);
        if n != cfg.num_self_play_batches {
            c.violation("self-play-searches", &format!("self-play of {} games of one move makes {n} searches", cfg.num_self_play_batches), wit.clone());
        }
    }
    if let Some((_, ts)) = c.run("self-play", "sequential self-play", || wit.clone(), || observe::<Fan, _>(|| drop(az.self_play::<Fan>()))) {
        judge(c, "sequential self-play", "in_self_play_serial", &ts, &cfg, both, &wit);
    }
    if let Some((_, ts)) = c.run("move", "asking for a move", || wit.clone(), || observe::<Fan, _>(|| drop(az.get_next_move_for_state(&Fan::new())))) {
        judge(c, "a single move", "in_single_moves", &ts, &cfg, both, &wit);
    }
    let other = net::net::<Fan>(r, 1.0);
    let given = copy(&other);
    if let Some((_, ts)) = c.run("compare", "play_vs_model", || wit.clone(), || observe::<Fan, _>(|| drop(az.play_vs_model::<Fan>(given)))) {
        let n = judge(c, "a comparison of networks", "in_comparisons", &ts, &cfg, [None, None], &wit);
        if n != 400 {
            c.violation("comparison-searches", &format!("a comparison in 400 games of one move makes {n} searches"), wit.clone());
        }
    }
}
