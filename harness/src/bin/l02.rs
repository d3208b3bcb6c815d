//! L02: recorded targets are the search's visit shares after temperature, and moves are drawn from them.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, Player};
use serde_json::json;
use std::collections::HashMap;
use vh::hashgame::{self, HashGame, HgCfg};
use vh::mon::{self, Inner, Kind, Log, Mon};
use vh::net::Conf;
use vh::play::*;
use vh::tree::observe;
use vh::work::{hg, Source};
use vh::*;

const TOL: f64 = 1e-3;

#[derive(Default)]
struct Stat {
    draws: HashMap<String, Draws>,
}

/// the moves played in recorded games against the searches made for them
fn moves<G: Inner>(c: &mut Check, st: &mut Stat, how: &str, l: &Log, s: &Searches<G>, group: &HashMap<u32, usize>, temp: f64, limit: Option<usize>, wit: &serde_json::Value) {
    let a = G::ACTION_SPACE_SIZE as usize;
    for t in played(l).iter().map(|t| cut(t, limit)) {
        for (i, (v, e)) in t.steps.iter().enumerate() {
            let Some(e) = e else { continue };
            let Some((kind, kids)) = s.get(v) else { continue };
            let pos = state_at::<G>(l, *v).unwrap();
            if e.kind != Kind::Apply {
                continue;
            }
            let mv: G::Move = serde_json::from_str(&e.mv).unwrap();
            c.eval();
            if *kind == "mcts" {
                let best = kids.iter().map(|k| k.2).fold(0.0, f64::max);
                c.count("tree_search_moves", 1);
                if !kids.iter().any(|k| k.2 == best && k.1 == mv) {
                    c.violation(&format!("{how}-most-visited"), &format!("{how} ({}): the move played is not the most visited one of its search", G::TAG), json!({"position": pos.g, "move": e.mv, "run": wit}));
                }
                continue;
            }
            let visits: Vec<(usize, f64)> = kids.iter().map(|k| (k.0, k.2)).collect();
            let p = target(&visits, temp, a);
            let code = <Mon<G> as LearnableGame>::encode(&pos, &mv) as usize;
            c.count(&format!("moves_{how}"), 1);
            if p[code] < 1e-7 {
                c.violation(
                    &format!("{how}-impossible"),
                    &format!("{how} ({}): a move of probability {:.2e} is played (temperature {temp})", G::TAG, p[code]),
                    json!({"position": pos.g, "move": e.mv, "visits": visits, "run": wit}),
                );
                continue;
            }
            st.draws.entry(how.to_string()).or_default().add(&p, code);
            // also by how late in the game, and by how much choice there was
            let when = [0, 4, 20, 50].iter().rposition(|&b| i >= b).unwrap();
            st.draws.entry(format!("{how} round {when}")).or_default().add(&p, code);
            let wide = [1, 3, 8, 30].iter().rposition(|&b| visits.len() >= b).unwrap();
            st.draws.entry(format!("{how} moves {wide}")).or_default().add(&p, code);
            // and by how many games are still played
            let many = [1, 2, 4, 16].iter().rposition(|&b| group.get(v).copied().unwrap_or(1) >= b).unwrap();
            st.draws.entry(format!("{how} group {many} temperature {}1", if temp > 1.0 { "above " } else { "to " })).or_default().add(&p, code);
            // and by who chooses at what temperature
            st.draws.entry(format!("{how} {} player {} temperature {temp}", G::TAG, pos.get_player())).or_default().add(&p, code);
        }
    }
}

fn fragments<G: Inner>(c: &mut Check, how: &str, l: &Log, frags: &[Frag], s: &Searches<G>, temp: f64, wit: &serde_json::Value) {
    let a = G::ACTION_SPACE_SIZE as usize;
    for f in frags {
        let Some(pos) = state_at::<G>(l, f.ver) else { continue };
        let Some((_, kids)) = s.get(&f.ver) else {
            c.count("no_search_seen", 1);
            continue;
        };
        c.eval();
        c.count(&format!("targets_{how}_{}", G::TAG), 1);
        let visits: Vec<(usize, f64)> = kids.iter().map(|k| (k.0, k.2)).collect();
        if kids.len() > 1 {
            c.nontrivial(hash_of(&(how, serde_json::to_string(&pos.g).unwrap(), visits.iter().map(|v| v.1 as u64).collect::<Vec<_>>())));
        }
        let want = target(&visits, temp, a);
        let w = || json!({"position": pos.g, "visits": visits, "temperature": temp, "recorded": f.ps.iter().enumerate().filter(|x| *x.1 != 0.0).collect::<Vec<_>>(), "run": wit});
        if f.ps.len() != a {
            c.violation(&format!("{how}-shape"), &format!("{how} ({}): a target has {} entries", G::TAG, f.ps.len()), w());
            continue;
        }
        if let Some(i) = (0..a).find(|&i| !((f.ps[i] as f64 - want[i]).abs() <= TOL)) {
            c.violation(
                &format!("{how}-target"),
                &format!("{how} ({}): entry {i} of a target is {}, the visits give {:.5} at temperature {temp}", G::TAG, f.ps[i], want[i]),
                w(),
            );
        }
        let sum: f64 = f.ps.iter().map(|x| *x as f64).sum();
        if !((sum - 1.0).abs() <= TOL) {
            c.violation(&format!("{how}-sum"), &format!("{how} ({}): a target sums to {sum}", G::TAG), w());
        }
    }
}

const TEMPS: [f64; 8] = [0.01, 0.05, 0.3, 0.7, 1.0, 1.25, 2.0, 6.0];

fn self_play<G: Source>(c: &mut Check, st: &mut Stat, r: &mut Rng, n: usize, max_games: i64, limit: usize) {
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        if G::TAG == "hashgame" {
            hg(r);
            if k % 8 == 5 {
                // long games
                let h = HgCfg { min_len: 60, max_len: 90, max_moves: 5, ..hg(r) };
                hashgame::configure(h);
            }
        }
        let parallel = k % 2 != 0;
        // some searches with many visits
        let long = G::TAG == "tictactoe" && k % 10 >= 8;
        let cfg = Conf {
            num_self_play_batches: r.range(1, if long { 5 } else { max_games }) as usize,
            iterations: if long { 150 } else { *r.pick(&[2, 4, 9, 25]) },
            temperature: *r.pick(&TEMPS),
            simulate_round_limit: limit,
            dirichlet_epsilon: *r.pick(&[0.0, 0.25]),
            exploration_const: *r.pick(&[2.0, 8.0]),
            ..Conf::default()
        };
        if !parallel && G::TAG == "backgammon" && cfg.iterations > 4 {
            continue;
        }
        let az = cfg.alphazero::<Mon<G>>(None);
        net::randomize(&az.model.vs, r, 1.0);
        let wit = json!({"game": G::TAG, "parallel": parallel, "conf": cfg.toml()});
        mon::with_moves(true);
        mon::start(6_000_000);
        let how = if parallel { "parallel" } else { "serial" };
        let res = c.run(how, how, || wit.clone(), || observe::<Mon<G>, _>(|| if parallel { az.self_play_parallel::<Mon<G>>() } else { az.self_play::<Mon<G>>() }));
        let log = mon::stop();
        mon::with_moves(false);
        let Some((mem, ts)) = res else { continue };
        let s = searches(&ts);
        let frags: Vec<Frag> = mem.iter().map(frag::<G>).collect();
        fragments::<G>(c, how, &log, &frags, &s, cfg.temperature, &wit);
        moves::<G>(c, st, how, &log, &s, &together(&ts), cfg.temperature, parallel.then_some(limit), &wit);
        if k < 2 {
            if let Some(f) = frags.first() {
                c.sample(json!({"run": wit, "first_target": f.ps.iter().enumerate().filter(|x| *x.1 != 0.0).collect::<Vec<_>>()}));
            }
        }
    }
}

fn matches<G: Source>(c: &mut Check, st: &mut Stat, r: &mut Rng, n: usize, tail: bool) {
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        if G::TAG == "hashgame" {
            let h = hg(r);
            if tail {
                // few games are left for a long time
                hashgame::configure(HgCfg { min_len: 2, max_len: 300, end: 8, pass: 0, double: 40, max_moves: 6, ..h });
            } else if k % 3 == 0 {
                hashgame::configure(HgCfg { min_len: 9, max_len: 14, end: 60, max_moves: h.max_moves.clamp(3, 12), ..h });
            }
        }
        let cfg = Conf { iterations: if tail { 24 } else { *r.pick(&[3, 6]) }, dirichlet_epsilon: 0.25, exploration_const: if tail { 2.0 } else { 4.0 }, ..Conf::default() };
        // both network players at temperatures on either side of 1
        let temp = match k % 6 {
            _ if tail => [2.0, 0.3, 6.0, 0.05][k % 4],
            0 => 0.7,
            3 => 2.0,
            _ => *r.pick(&TEMPS),
        };
        let m = |r: &mut Rng| Player::new(Agent::Model, Some(net::net::<Mon<G>>(r, 0.5)));
        let other = match k % 3 {
            _ if tail => m(r),
            0 => m(r),
            1 => Player::new(Agent::Mcts, None),
            _ => Player::new(Agent::Random, None),
        };
        let me = m(r);
        let (a, b): (Player, Player) = if r.chance(0.5) { (me, other) } else { (other, me) };
        let wit = json!({"game": G::TAG, "match": [format!("{:?}", a.player_type), format!("{:?}", b.player_type)], "temperature": temp, "conf": cfg.toml()});
        mon::with_moves(true);
        mon::start(8_000_000);
        let res = c.run("match", "a match", || wit.clone(), || observe::<Mon<G>, _>(|| play::<Mon<G>>(a, b, &cfg.mcts(), temp)));
        let log = mon::stop();
        mon::with_moves(false);
        let Some((_, ts)) = res else { continue };
        moves::<G>(c, st, "match", &log, &searches(&ts), &together(&ts), temp, None, &wit);
    }
}

/// single answers of the network player
fn answers<G: Source>(c: &mut Check, st: &mut Stat, r: &mut Rng, n: usize) {
    let a = G::ACTION_SPACE_SIZE as usize;
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let long = k % 8 == 3 && G::TAG != "backgammon";
        let cfg = Conf { iterations: if long { 200 } else { *r.pick(&[5, 20]) }, temperature: *r.pick(&TEMPS), exploration_const: 4.0, ..Conf::default() };
        let az = cfg.alphazero::<Mon<G>>(None);
        net::randomize(&az.model.vs, r, 0.5);
        mon::start_silent(50_000_000);
        for i in 0..20 {
            let mut s = Mon::wrap(G::random(r));
            if i % 4 == 0 {
                s = Mon::wrap(work::wide(r));
            }
            c.max("most_moves_to_answer", s.get_valid_moves().len() as u64);
            if s.get_valid_moves().is_empty() {
                continue;
            }
            let wit = json!({"position": s.g, "conf": cfg.toml()});
            let Some((m, ts)) = c.run("answer", "get_next_move_for_state", || wit.clone(), || observe::<Mon<G>, _>(|| az.get_next_move_for_state(&s))) else { continue };
            let se = searches(&ts);
            let Some((_, kids)) = se.get(&s.ver) else {
                c.count("no_search_seen", 1);
                continue;
            };
            c.eval();
            c.count("moves_answer", 1);
            let visits: Vec<(usize, f64)> = kids.iter().map(|k| (k.0, k.2)).collect();
            let p = target(&visits, cfg.temperature, a);
            if m == G::EMPTY_MOVE {
                continue; // S01
            }
            let code = <Mon<G> as LearnableGame>::encode(&s, &m) as usize;
            if p[code] < 1e-7 {
                c.violation("answer-impossible", &format!("the network player answers a move of probability {:.2e} (temperature {})", p[code], cfg.temperature), json!({"visits": visits, "run": wit}));
            } else {
                st.draws.entry("answer".into()).or_default().add(&p, code);
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "L02",
        "A case is one recorded target or one played move, compared with the visits of the very search made at that position (reported by the hook), raised to \
         1/temperature and normalised. Non-trivial: targets with at least two moves, distinct by position and visits.",
    );
    let mut r = c.rng(1);
    let mut st = Stat::default();
    let _: Option<ResNet> = None;
    for _ in 0..c.n(1, 12) {
        self_play::<HashGame>(&mut c, &mut st, &mut r, 70, 20, 400);
        self_play::<TicTacToe>(&mut c, &mut st, &mut r, 40, 20, 400);
        self_play::<Backgammon>(&mut c, &mut st, &mut r, 16, 6, 25);
        self_play::<Backgammon>(&mut c, &mut st, &mut r, 8, 6, 110);
        matches::<HashGame>(&mut c, &mut st, &mut r, 9, false);
        matches::<HashGame>(&mut c, &mut st, &mut r, 4, true);
        matches::<TicTacToe>(&mut c, &mut st, &mut r, 4, false);
        answers::<HashGame>(&mut c, &mut st, &mut r, 40);
        answers::<TicTacToe>(&mut c, &mut st, &mut r, 20);
        answers::<Backgammon>(&mut c, &mut st, &mut r, 10);
    }
    for (how, d) in &st.draws {
        let ((z1, z2), z3) = (d.z(), d.z_place());
        c.max("largest_z_x100", (z1.abs().max(z2.abs()).max(z3.abs()) * 100.0) as u64);
        c.count(&format!("drawn_{how}"), d.n);
        if let Some((got, want)) = d.rare_off() {
            c.violation(&format!("{how}-rare"), &format!("{how}: unlikely moves are played {got} times instead of {want:.0}"), json!({"draws": format!("{d:?}")}));
        }
        if z1.abs() > 6.0 || z2.abs() > 6.0 || z3.abs() > 6.0 {
            c.violation(
                &format!("{how}-draw"),
                &format!("{how}: over {} moves the choices are not drawn from the distributions ({z1:.1}, {z2:.1} and {z3:.1} standard deviations off)", d.n),
                json!({"draws": format!("{d:?}")}),
            );
        }
    }
    c.assume("tolerance 1e-3 per entry; choices compared with their distributions at six standard deviations");
    for k in ["parallel_hashgame", "serial_hashgame", "parallel_tictactoe", "serial_tictactoe", "parallel_backgammon"] {
        c.require(&format!("targets_{k}"), 20);
    }
    c.require("moves_match", 1000);
    c.require("tree_search_moves", 200);
    c.require("moves_answer", 300);
    c.require("drawn_parallel", 300);
    c.require("drawn_serial", 30);
    c.require("drawn_parallel round 2", 300);
    c.require("drawn_parallel round 3", 300);
    c.require("drawn_match", 300);
    for p in [-1, 1] {
        for t in ["0.7", "2"] {
            c.require(&format!("drawn_match hashgame player {p} temperature {t}"), 150);
        }
    }
    for t in ["to 1", "above 1"] {
        c.require(&format!("drawn_match group 0 temperature {t}"), 20);
    }
    c.require("drawn_answer", 100);
    c.finish()
}
