//! S06: searches find what a few plies of looking ahead decide.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::mct_search;
use die_e::mcts::utils::get_prob_tensor_parallel;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, Player};
use serde_json::json;
use std::collections::HashMap;
use tch::nn::VarStore;
use vh::net::Conf;
use vh::*;

/// value for the player to move under perfect play
fn minimax(g: &TicTacToe, memo: &mut HashMap<[i8; 9], i8>) -> i8 {
    if let Some(w) = g.check_winner() {
        return w * g.get_player();
    }
    if let Some(v) = memo.get(&g.board) {
        return *v;
    }
    let v = g
        .get_valid_moves()
        .iter()
        .map(|m| {
            let mut n = *g;
            n.apply_move(m);
            -minimax(&n, memo)
        })
        .max()
        .unwrap();
    memo.insert(g.board, v);
    v
}

fn child_value(g: &TicTacToe, m: u8, memo: &mut HashMap<[i8; 9], i8>) -> i8 {
    let mut n = *g;
    n.apply_move(&m);
    -minimax(&n, memo)
}

fn wins_now(g: &TicTacToe, m: u8) -> bool {
    let mut n = *g;
    n.apply_move(&m);
    n.check_winner() == Some(g.get_player())
}

#[derive(Default)]
struct Score {
    n: u64,
    bad: u64,
    example: serde_json::Value,
}
impl Score {
    fn add(&mut self, good: bool, w: impl FnOnce() -> serde_json::Value) {
        self.n += 1;
        if !good {
            self.bad += 1;
            self.example = w();
        }
    }
    /// violated when clearly more than `share` of the cases are bad
    fn judge(&self, c: &mut Check, what: &str, share: f64) {
        c.count(&format!("{what}_cases"), self.n);
        c.count(&format!("{what}_missed"), self.bad);
        let allowed = share * self.n as f64 + 5.0 * (share * self.n as f64).sqrt() + 1.0;
        if self.bad as f64 > allowed {
            c.violation(what, &format!("{what}: {} of {} positions missed", self.bad, self.n), self.example.clone());
        }
    }
}

fn neutral<T: LearnableGame>() -> ResNet {
    let n = ResNet::new::<T>(VarStore::new(tch::Device::Cpu));
    let _g = tch::no_grad_guard();
    for (_, mut t) in n.vs.variables() {
        let _ = t.zero_();
    }
    n
}

type Play = <Backgammon as LearnableGame>::Move;

/// whether this answer wins (None: it is no play at all, another property)
fn decides(g: &Backgammon, a: &Play) -> Option<bool> {
    let p = g.player;
    let n = refbg::follow(&g.board, p, g.roll, a)?;
    Some(refbg::winner(&n) == Some(p))
}

/// a position where some of the plays win and all others lose: the opponent has one or two
/// checkers on the ace point (with a double, or a single checker left, every play is as good)
fn last_checkers(q: &mut Rng) -> Option<(Backgammon, &'static str)> {
    let p: i8 = if q.chance(0.5) { -1 } else { 1 };
    let roll = gen::roll(q);
    let left = 2u8;
    let theirs = q.range(1, 2) as u8;
    let mut b = gen::construct(q);
    b.0 = [0; 24];
    b.1 = (0, 0);
    for _ in 0..left {
        b.0[refbg::idx(p, q.range(1, 6) as usize)] += p;
    }
    b.0[refbg::idx(-p, 1)] = -p * theirs as i8;
    b.2 = if p == -1 { (15 - left, 15 - theirs) } else { (15 - theirs, 15 - left) };
    let mut g = Backgammon::init_with_fields(b, p, false);
    g.roll = roll;
    let l: Vec<Option<bool>> = g.get_valid_moves().iter().map(|a| decides(&g, a)).collect();
    if !l.contains(&Some(true)) || !l.contains(&Some(false)) {
        return None;
    }
    Some((g, if theirs == 1 { "against_1" } else { "against_2" }))
}

fn main() {
    let mut c = Check::new(
        "S06",
        "A case is one position whose best moves are certain by looking ahead (immediate wins, single threats to block, perfect-play value in tic-tac-toe, backgammon positions \
         with a move that wins at once) given to a search with a generous budget. Judged on the share of misses. Non-trivial: all; positions are distinct.",
    );
    let mut memo = HashMap::new();
    // all unfinished positions
    let mut all = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut stack = vec![TicTacToe::new()];
    while let Some(g) = stack.pop() {
        if g.check_winner().is_some() || !seen.insert(g.board) {
            continue;
        }
        all.push(g);
        for m in g.get_valid_moves() {
            let mut n = g;
            n.apply_move(&m);
            stack.push(n);
        }
    }
    let mut r = c.rng(1);
    r.shuffle(&mut all);
    let (mut win, mut block, mut perfect) = (Score::default(), Score::default(), Score::default());
    let total = c.n(3000, all.len());
    for g in all.iter().take(total) {
        if c.out_of_time() {
            break;
        }
        let ms = g.get_valid_moves();
        if ms.len() == 1 {
            continue;
        }
        let conf = Conf { iterations: *r.pick(&[900, 1200, 1200, 2500]), exploration_const: *r.pick(&[1.5, 2.0, 3.0]), simulate_round_limit: *r.pick(&[9, 10, 100, 400, 5000]), ..Conf::default() };
        let Some(a) = c.run("mcts", "mct_search", || json!(g), || mct_search(*g, g.get_player(), &conf.mcts())) else { break };
        c.eval();
        c.nontrivial(hash_of(&g.board));
        if !ms.contains(&a) {
            continue; // another property
        }
        let wit = || json!({"position": g, "answer": a, "conf": conf.toml()});
        let best = minimax(g, &mut memo);
        if ms.iter().any(|&m| wins_now(g, m)) {
            win.add(child_value(g, a, &mut memo) == 1, wit);
            continue;
        }
        let mut o = *g;
        o.skip_turn();
        let threats: Vec<u8> = ms.iter().copied().filter(|&m| wins_now(&o, m)).collect();
        if threats.len() == 1 && child_value(g, threats[0], &mut memo) > -1 {
            block.add(a == threats[0], wit);
        }
        perfect.add(child_value(g, a, &mut memo) == best, wit);
    }
    win.judge(&mut c, "mcts_win", 0.0);
    block.judge(&mut c, "mcts_block", 0.002);
    perfect.judge(&mut c, "mcts_perfect", 0.003);

    // network-guided search with a network that knows nothing
    let nn = neutral::<TicTacToe>();
    let (mut win, mut block, mut perfect) = (Score::default(), Score::default(), Score::default());
    for serial in [false, true] {
        let pool: Vec<TicTacToe> = all.iter().rev().filter(|g| g.get_valid_moves().len() > 1).take(c.n(if serial { 80 } else { 900 }, 4000)).copied().collect();
        let mut at = 0;
        while at < pool.len() {
            if c.out_of_time() {
                break;
            }
            let n = (*r.pick(&[1, 2, 10, 40, 130, 300]) as usize).min(pool.len() - at);
            let batch = &pool[at..at + n];
            at += n;
            let conf = Conf { iterations: *r.pick(&[600, 800, 1200]), exploration_const: *r.pick(&[1.5, 2.0, 3.0]), dirichlet_epsilon: 0.0, ..Conf::default() };
            let rows: Vec<Vec<f32>> = if serial {
                let mut v = vec![];
                for g in batch {
                    let Some(Some(t)) = c.run("alpha", "alpha_mcts", || json!(g), || alpha_mcts(g, &nn, &conf.mcts())) else { continue };
                    v.push(net::tensor_vec(&t));
                }
                v
            } else {
                let Some(t) = c.run("alpha", "alpha_mcts_parallel", || json!(batch), || {
                    let mut store = NodeStore::new();
                    alpha_mcts_parallel(&mut store, batch, &nn, &conf.mcts(), Some(indicatif::ProgressBar::hidden()));
                    let roots = store.get_root_nodes();
                    get_prob_tensor_parallel(&roots, &store)
                }) else { continue };
                net::tensor_vec(&t).chunks(9).map(|x| x.to_vec()).collect()
            };
            if rows.len() != batch.len() {
                continue;
            }
            for (g, row) in batch.iter().zip(rows) {
                c.eval();
                let ms = g.get_valid_moves();
                let a = *ms.iter().max_by(|x, y| row[g.encode(x) as usize].total_cmp(&row[g.encode(y) as usize])).unwrap();
                let wit = || json!({"position": g, "answer": a, "visits": row, "conf": conf.toml(), "serial": serial});
                if ms.iter().any(|&m| wins_now(g, m)) {
                    win.add(child_value(g, a, &mut memo) == 1, wit);
                    continue;
                }
                let mut o = *g;
                o.skip_turn();
                let threats: Vec<u8> = ms.iter().copied().filter(|&m| wins_now(&o, m)).collect();
                if threats.len() == 1 && child_value(g, threats[0], &mut memo) > -1 {
                    block.add(a == threats[0], wit);
                }
                perfect.add(child_value(g, a, &mut memo) == minimax(g, &mut memo), wit);
            }
        }
    }
    win.judge(&mut c, "alpha_win", 0.0);
    block.judge(&mut c, "alpha_block", 0.003);
    perfect.judge(&mut c, "alpha_perfect", 0.005);

    // backgammon: bear off the last checkers when the dice allow it
    let mut q = c.rng(2);
    let mut pool: Vec<(Backgammon, &'static str)> = vec![];
    let mut tries = 0;
    while pool.len() < c.n(260, 2000) && tries < 400_000 && !c.out_of_time() {
        tries += 1;
        pool.extend(last_checkers(&mut q));
    }
    let mut scores: HashMap<&'static str, Score> = HashMap::new();
    let mut judged = |c: &mut Check, by: &'static str, g: &Backgammon, what: &'static str, a: &Play| {
        c.eval();
        c.count(&format!("backgammon_{what}"), 1);
        c.nontrivial(hash_of(&(g.board, g.roll, g.player)));
        let good = decides(g, a).unwrap_or(true);
        scores.entry(by).or_default().add(good, || json!({"game": g, "answer": a, "kind": what}));
    };
    for (g, what) in &pool {
        if c.out_of_time() {
            break;
        }
        let conf = Conf { iterations: *q.pick(&[300, 400, 900]), exploration_const: *q.pick(&[1.0, 2.0]), simulate_round_limit: *q.pick(&[100, 400, 3000]), ..Conf::default() };
        let Some(a) = c.run("mcts", "mct_search", || json!(g), || mct_search(*g, g.player, &conf.mcts())) else { break };
        judged(&mut c, "mcts", g, what, &a);
    }
    let nn = neutral::<Backgammon>();
    let conf = Conf { iterations: 200, exploration_const: 2.0, dirichlet_epsilon: 0.0, ..Conf::default() };
    let best = |g: &Backgammon, row: &[f32]| g.get_valid_moves().into_iter().max_by(|x, y| row[g.encode(x) as usize].total_cmp(&row[g.encode(y) as usize])).unwrap();
    let mut at = 0;
    while at < pool.len().min(c.n(200, 2000)) && !c.out_of_time() {
        let n = (*q.pick(&[1, 5, 20, 60, 100]) as usize).min(pool.len() - at);
        let batch: Vec<Backgammon> = pool[at..at + n].iter().map(|x| x.0).collect();
        let Some(t) = c.run("alpha", "alpha_mcts_parallel", || json!(batch), || {
            let mut store = NodeStore::new();
            alpha_mcts_parallel(&mut store, &batch, &nn, &conf.mcts(), Some(indicatif::ProgressBar::hidden()));
            let roots = store.get_root_nodes();
            get_prob_tensor_parallel(&roots, &store)
        }) else { break };
        for (row, (g, what)) in net::tensor_vec(&t).chunks(Backgammon::ACTION_SPACE_SIZE as usize).zip(&pool[at..at + n]) {
            judged(&mut c, "alpha_parallel", g, what, &best(g, row));
        }
        at += n;
    }
    for (g, what) in pool.iter().rev().take(c.n(24, 200)) {
        if c.out_of_time() {
            break;
        }
        let Some(Some(t)) = c.run("alpha", "alpha_mcts", || json!(g), || alpha_mcts(g, &nn, &conf.mcts())) else { continue };
        judged(&mut c, "alpha", g, what, &best(g, &net::tensor_vec(&t)));
    }
    for (by, s) in &scores {
        s.judge(&mut c, match *by { "mcts" => "backgammon_win", "alpha" => "backgammon_win_alpha", _ => "backgammon_win_alpha_parallel" }, 0.0);
    }

    // strength in matches, from either seat
    let conf = Conf { iterations: 100, exploration_const: 2.0, ..Conf::default() };
    for seat in [1, 2] {
        let (a, b) = if seat == 1 { (Agent::Mcts, Agent::Random) } else { (Agent::Random, Agent::Mcts) };
        let Some(res) = c.run("match", "a match", || json!(seat), || play::<TicTacToe>(Player::new(a, None), Player::new(b, None), &conf.mcts(), 1.0)) else { continue };
        let (w, l) = if seat == 1 { (res.wins_p1, res.wins_p2) } else { (res.wins_p2, res.wins_p1) };
        c.eval();
        c.count(&format!("match_seat{seat}_wins"), w as u64);
        c.count(&format!("match_seat{seat}_losses"), l as u64);
        if l > 30 || w < 325 {
            c.violation("strength", &format!("tree search from seat {seat} wins {w} and loses {l} of 400 tic-tac-toe games against random play"), json!({"conf": conf.toml()}));
        }
    }
    c.sample(json!(all[0]));
    c.sample(json!(all[1]));
    c.assume("shares of misses allowed: wins 0, blocks 0.2 to 0.3%, perfect play 0.3 to 0.5%, plus five standard deviations");
    c.require("mcts_win_cases", 200);
    c.require("mcts_block_cases", 100);
    c.require("alpha_win_cases", 50);
    c.require("alpha_block_cases", 15);
    c.require("backgammon_win_cases", 150);
    c.require("backgammon_win_alpha_parallel_cases", 100);
    c.require("backgammon_win_alpha_cases", 15);
    for k in ["against_1", "against_2"] {
        c.require(&format!("backgammon_{k}"), 40);
    }
    c.finish()
}
