//! S01: every player answers with a legal move, and passes exactly when there is none.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::simple_mcts::mct_search;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, Player};
use serde_json::json;
use vh::hashgame::{self, HashGame};
use vh::mon::{self, Inner, Kind, Mon};
use vh::net::Conf;
use vh::work::{hg, Source};
use vh::*;

fn judge<T: LearnableGame>(c: &mut Check, who: &str, s: &T, m: &T::Move, wit: serde_json::Value) {
    c.eval();
    let over = s.check_winner().is_some();
    let legal = if over { vec![] } else { s.get_valid_moves() };
    let tag = format!("{who}_{}", T::name());
    c.count(&format!("answers_{tag}"), 1);
    if legal.len() > 1 {
        c.nontrivial(hash_of(&(who, serde_json::to_string(s).unwrap())));
    }
    if legal.is_empty() {
        c.count(&format!("passes_{tag}"), 1);
        if *m != T::EMPTY_MOVE {
            c.violation(&format!("{who}-no-pass"), &format!("{who} answers {m:?} where no move is possible"), wit);
        }
    } else if *m == T::EMPTY_MOVE {
        c.violation(&format!("{who}-pass"), &format!("{who} passes although {} moves are legal", legal.len()), wit);
    } else if !legal.contains(m) {
        c.violation(&format!("{who}-illegal"), &format!("{who} answers the illegal move {m:?}"), wit);
    }
}

fn singles<T: Source>(c: &mut Check, r: &mut Rng, n_mcts: usize, n_alpha: usize) {
    for k in 0..n_mcts {
        let s: T = if k % 8 == 0 { work::wide(r) } else { T::random(r) };
        c.max("most_moves", s.get_valid_moves().len() as u64);
        let cfg = Conf { iterations: *r.pick(&[1, 2, 5, 20, 60]), exploration_const: *r.pick(&[0.1, 1.4, 2.0]), simulate_round_limit: *r.pick(&[1, 10, 400]), ..Conf::default() };
        let wit = json!({"state": s, "conf": cfg.toml()});
        let who = s.get_player() * if r.chance(0.3) { -1 } else { 1 };
        if let Some(m) = c.run("mcts", "mct_search", || wit.clone(), || mct_search(s, who, &cfg.mcts())) {
            judge(c, "mcts", &s, &m, wit);
        }
    }
    for _ in 0..n_alpha {
        let cfg = Conf {
            iterations: *r.pick(&[1, 2, 5, 30]),
            temperature: *r.pick(&[0.01, 0.05, 0.3, 1.0, 1.25, 5.0]),
            dirichlet_epsilon: *r.pick(&[0.0, 0.25, 1.0]),
            dirichlet_alpha: *r.pick(&[0.03, 0.3, 2.0]),
            exploration_const: *r.pick(&[0.3, 2.0, 8.0]),
            ..Conf::default()
        };
        let az = cfg.alphazero::<Mon<T>>(None);
        let gain = *r.pick(&[0.2, 2.0, 6.0]);
        net::randomize(&az.model.vs, r, gain);
        for k in 0..8 {
            let s = Mon::wrap(if k < 2 { work::wide(r) } else { T::random(r) });
            let wit = json!({"state": s, "conf": cfg.toml()});
            if let Some(m) = c.run("alpha", "get_next_move_for_state", || wit.clone(), || az.get_next_move_for_state(&s)) {
                judge(c, "alphazero", &s, &m, wit);
            }
        }
    }
}

fn trunk_events<T: Inner>(c: &mut Check, what: &str, wit: serde_json::Value) {
    let log = mon::stop();
    for t in mon::trunks(&log) {
        for (v, e) in &t.steps {
            let Some(e) = e else { continue };
            let s = T::from_st(&log.states[v]);
            match e.kind {
                Kind::Apply => {
                    c.eval();
                    c.count(&format!("moves_{what}"), 1);
                    if !e.legal {
                        c.violation("play-illegal", &format!("{what}: an illegal move is played"), wit.clone());
                    }
                }
                Kind::Skip => {
                    // the second side's games start with a pass of the untouched position
                    if *v == t.start {
                        continue;
                    }
                    c.eval();
                    c.count(&format!("passes_{what}"), 1);
                    let n = s.get_valid_moves().len();
                    if n > 0 {
                        c.violation("play-pass", &format!("{what}: a turn is passed although {n} moves are legal"), json!({"state": s, "run": wit}));
                    }
                }
                _ => {}
            }
        }
    }
}

fn matches<T: Source>(c: &mut Check, r: &mut Rng, which: &[(Agent, Agent)], sp: usize) {
    for (a, b) in which {
        if c.full() {
            return;
        }
        let cfg = Conf { iterations: *r.pick(&[1, 3]), simulate_round_limit: 6, ..Conf::default() };
        let temp = *r.pick(&[0.02, 0.5, 1.0, 2.0]);
        let wit = json!({"match": format!("{a:?} against {b:?} at {}", T::TAG), "temperature": temp, "conf": cfg.toml()});
        let model = |x: &Agent, r: &mut Rng| -> Option<ResNet> { (*x == Agent::Model).then(|| net::net::<Mon<T>>(r, 3.0)) };
        let (p1, p2) = (Player::new(a.clone(), model(a, r)), Player::new(b.clone(), model(b, r)));
        mon::start(3_000_000);
        c.run("play", "a match", || wit.clone(), || play::<Mon<T>>(p1, p2, &cfg.mcts(), temp));
        trunk_events::<T>(c, &format!("match_{}", T::TAG), wit);
    }
    for k in 0..sp {
        if c.full() {
            return;
        }
        let cfg = Conf { iterations: *r.pick(&[1, 4, 9]), temperature: *r.pick(&[0.02, 0.5, 1.25]), simulate_round_limit: *r.pick(&[5, 60]), num_self_play_batches: r.range(1, 5) as usize, dirichlet_epsilon: *r.pick(&[0.0, 0.25]), ..Conf::default() };
        let az = cfg.alphazero::<Mon<T>>(None);
        net::randomize(&az.model.vs, r, 2.0);
        let wit = json!({"self play": T::TAG, "conf": cfg.toml()});
        mon::start(3_000_000);
        let serial = k % 4 == 3;
        c.run("self-play", "self play", || wit.clone(), || if serial { az.self_play::<Mon<T>>() } else { az.self_play_parallel::<Mon<T>>() });
        trunk_events::<T>(c, &format!("self_play_{}", T::TAG), wit);
    }
}

fn main() {
    let mut c = Check::new(
        "S01",
        "A case is one answer of a player: tree search, AlphaZero search, or the moves played in whole matches and self-play (recorded game wrapper). \
         Non-trivial: distinct positions with more than one legal move. Games: backgammon, tic-tac-toe and a synthetic game with passes, draws and double turns.",
    );
    let mut r = c.rng(1);
    let k = c.n(1, 12);
    for _ in 0..k {
        if c.out_of_time() || c.full() {
            break;
        }
        singles::<TicTacToe>(&mut c, &mut r, 400, 15);
        singles::<Backgammon>(&mut c, &mut r, 300, 15);
        for _ in 0..10 {
            hg(&mut r);
            singles::<HashGame>(&mut c, &mut r, 60, 4);
        }
        use Agent::*;
        matches::<TicTacToe>(&mut c, &mut r, &[(Model, Random), (Random, Mcts), (Model, Model)], 12);
        for _ in 0..4 {
            let h = hg(&mut r);
            hashgame::configure(hashgame::HgCfg { pass: h.pass.max(40), max_len: h.max_len.max(5), ..h });
            matches::<HashGame>(&mut c, &mut r, &[(Random, Random), (Model, Mcts), (Mcts, Model)], 12);
        }
        matches::<Backgammon>(&mut c, &mut r, &[(Model, Random), (Mcts, Random)], 6);
    }
    // finished games get no answer
    for _ in 0..200 {
        let mut g = TicTacToe::random(&mut r);
        while g.check_winner().is_none() {
            let m = *r.pick(&g.get_valid_moves());
            g.apply_move(&m);
        }
        if let Some(m) = c.run("mcts-over", "mct_search", || json!(g), || mct_search(g, -1, &Conf::default().mcts())) {
            judge(&mut c, "mcts", &g, &m, json!({"state": g}));
        }
    }
    c.require("passes_mcts_backgammon", 5);
    c.require("passes_alphazero_mon_backgammon", 2);
    c.require("passes_match_backgammon", 50);
    c.require("passes_self_play_backgammon", 1);
    c.require("passes_self_play_hashgame", 2);
    c.require("evaluations", 10000);
    c.finish()
}
