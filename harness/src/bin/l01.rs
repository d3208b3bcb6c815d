//! L01: self-play records every played position once, with the game's outcome for its mover.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use vh::hashgame::{self, HashGame, HgCfg};
use vh::mon::{self, Inner, Kind, Mon};
use vh::net::Conf;
use vh::play::{cut, frag, played, state_at, Frag};
use vh::work::{hg, Source};
use vh::*;

fn judge<G: Inner>(c: &mut Check, how: &str, l: &mon::Log, frags: &[Frag], n_games: usize, limit: Option<usize>, wit: serde_json::Value) {
    let ts = played(l);
    let tag = format!("{how}-{}", G::TAG);
    c.eval();
    c.count(&format!("games_{how}_{}", G::TAG), ts.len() as u64);
    if ts.len() != n_games {
        c.violation(&format!("{how}-games"), &format!("{tag}: {} games are played, {n_games} are configured", ts.len()), wit.clone());
        return;
    }
    let mut by_ver: HashMap<u32, Vec<&Frag>> = HashMap::new();
    for f in frags {
        by_ver.entry(f.ver).or_default().push(f);
    }
    let mut expected: HashSet<u32> = HashSet::new();
    for t in &ts {
        let t = cut(t, limit);
        let end = G::from_st(&l.states[&t.last()]);
        let rounds = t.steps.iter().filter(|s| s.1.as_ref().is_some_and(|e| e.kind != Kind::Roll)).count();
        let w = end.check_winner();
        match (w, limit) {
            (None, None) => c.violation(&format!("{how}-end"), &format!("{tag}: a game stops unfinished after {rounds} rounds"), wit.clone()),
            (None, Some(m)) if rounds < m => c.violation(&format!("{how}-end"), &format!("{tag}: a game stops unfinished after {rounds} of {m} rounds"), wit.clone()),
            _ => {}
        }
        c.count(
            match w {
                None => "cut_off_games",
                Some(0) => "drawn_games",
                Some(-1) => "games_won_by_first",
                _ => "games_won_by_second",
            },
            1,
        );
        if w.is_some() && Some(rounds) == limit {
            c.count("won_at_the_limit", 1);
        }
        for (v, e) in &t.steps {
            let Some(e) = e else { continue };
            if e.kind == Kind::Skip {
                c.count("passes", 1);
            }
            if e.kind != Kind::Apply {
                continue;
            }
            expected.insert(*v);
            let s = state_at::<G>(l, *v).unwrap();
            let fs = by_ver.get(v).cloned().unwrap_or_default();
            c.nontrivial(hash_of(&serde_json::to_string(&s.g).unwrap()));
            if fs.len() != 1 {
                c.violation(&format!("{how}-once"), &format!("{tag}: a position of a played game is recorded {} times", fs.len()), json!({"position": s.g, "run": wit}));
                continue;
            }
            let want = w.unwrap_or(0) * s.g.get_player();
            if fs[0].outcome != want {
                c.violation(
                    &format!("{how}-outcome"),
                    &format!("{tag}: the game ends with {w:?}, the position of player {} is recorded with {}", s.g.get_player(), fs[0].outcome),
                    json!({"position": s.g, "run": wit}),
                );
            }
            c.count(&format!("outcome_{want}"), 1);
            let x = net::tensor_vec(&s.g.as_tensor());
            if x != fs[0].x {
                c.violation(&format!("{how}-features"), &format!("{tag}: the recorded features are not those of the position"), json!({"position": s.g, "run": wit}));
            }
        }
    }
    c.count("fragments", frags.len() as u64);
    if let Some(f) = frags.iter().find(|f| !expected.contains(&f.ver)) {
        c.violation(&format!("{how}-extra"), &format!("{tag}: a recorded position was not played"), json!({"version": f.ver, "run": wit}));
    }
}

fn go<G: Source>(c: &mut Check, r: &mut Rng, n_par: usize, n_ser: usize, max_games: i64, limits: &[usize], long: bool) {
    for k in 0..n_par + n_ser {
        if c.out_of_time() || c.full() {
            return;
        }
        let parallel = k < n_par;
        let h = if G::TAG == "hashgame" {
            let mut h = hg(r);
            h.same = r.chance(0.2);
            if long {
                h = HgCfg { min_len: 600, max_len: 900, end: 0, max_moves: h.max_moves.min(4), same: false, ..h };
            }
            hashgame::configure(h);
            Some(format!("{h:?}"))
        } else {
            None
        };
        let cfg = Conf {
            num_self_play_batches: r.range(if max_games > 1000 { 1025 } else { 1 }, max_games) as usize,
            iterations: if max_games > 100 || long { 1 } else { *r.pick(&[1, 2, 4, 9]) },
            temperature: *r.pick(&[0.05, 0.5, 1.0, 1.25, 3.0]),
            simulate_round_limit: *r.pick(limits),
            dirichlet_epsilon: *r.pick(&[0.0, 0.25]),
            ..Conf::default()
        };
        let az = cfg.alphazero::<Mon<G>>(None);
        let gain = *r.pick(&[0.3, 2.0]);
        net::randomize(&az.model.vs, r, gain);
        let wit = json!({"game": G::TAG, "parallel": parallel, "conf": cfg.toml(), "synthetic": h});
        let mut n_frags = 0;
        // some learners play twice
        for _ in 0..1 + (k % 6 == 5) as usize {
            mon::start(6_000_000);
            let res = c.run(
                if parallel { "parallel" } else { "serial" },
                if parallel { "self_play_parallel" } else { "self_play" },
                || wit.clone(),
                || if parallel { az.self_play_parallel::<Mon<G>>() } else { az.self_play::<Mon<G>>() },
            );
            let log = mon::stop();
            let Some(mem) = res else { break };
            let frags: Vec<Frag> = mem.iter().map(frag::<G>).collect();
            n_frags = frags.len();
            let n = if parallel { cfg.num_self_play_batches } else { 1 };
            judge::<G>(c, if parallel { "parallel" } else { "serial" }, &log, &frags, n, parallel.then_some(cfg.simulate_round_limit), wit.clone());
        }
        if k == 0 {
            c.sample(json!({"run": wit, "fragments": n_frags}));
        }
    }
}

fn main() {
    let mut c = Check::new(
        "L01",
        "A case is one self-play run (serial or of up to 1300 games at once): every mutation of every game is recorded, the really played games are rebuilt and the memory \
         fragments compared with them. Non-trivial: distinct recorded positions.",
    );
    let mut r = c.rng(1);
    for _ in 0..c.n(1, 10) {
        let n = c.n(60, 120);
        go::<HashGame>(&mut c, &mut r, n, 30, 40, &[1, 2, 3, 5, 8, 400], false);
        // very long games, and very many
        go::<HashGame>(&mut c, &mut r, 2, 1, 4, &[1000], true);
        go::<HashGame>(&mut c, &mut r, 2, 0, 500, &[4, 400], false);
        go::<TicTacToe>(&mut c, &mut r, 1, 0, 1300, &[400], false);
        go::<TicTacToe>(&mut c, &mut r, 20, 12, 40, &[1, 3, 6, 7, 8, 400], false);
        go::<Backgammon>(&mut c, &mut r, 8, 4, 10, &[5, 30, 120, 150], false);
        go::<Backgammon>(&mut c, &mut r, 2, 0, 6, &[400], false);
    }
    c.assume("the version plane added to the network input identifies the position a fragment was made from");
    for k in ["games_parallel_backgammon", "games_serial_backgammon", "games_parallel_tictactoe", "games_serial_tictactoe", "games_parallel_hashgame", "games_serial_hashgame"] {
        c.require(k, 3);
    }
    c.require("cut_off_games", 20);
    c.require("won_at_the_limit", 5);
    c.require("drawn_games", 20);
    c.require("games_won_by_first", 50);
    c.require("games_won_by_second", 50);
    c.require("passes", 100);
    c.require("outcome_-1", 100);
    c.require("outcome_1", 100);
    c.require("outcome_0", 100);
    c.finish()
}
