//! R01: every history of play keeps 15 checkers a side.
use die_e::alphazero::alphazero::AlphaZero;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::versus::{play, Agent, Player};
use serde_json::json;
use vh::mon::{self, Inner, Mon, St};
use vh::*;

fn bad(b: &refbg::Board) -> Option<String> {
    let c = refbg::complaints(b);
    (!c.is_empty()).then(|| c.join(", "))
}

fn main() {
    let mut c = Check::new(
        "R01",
        "A case is one position reached by the game's own move application: offered moves from generated positions under every roll, \
         long random games, and the positions met inside matches and self-play. Non-trivial: a distinct position with a checker hit, on the bar or borne off.",
    );
    let note = |c: &mut Check, before: &Backgammon, after: &Backgammon, how: &str, mv: &str| {
        c.eval();
        if after.board.1 != (0, 0) || after.board.2 != (0, 0) {
            c.nontrivial(hash_of(&after.board));
        }
        if refbg::bar(&after.board, -before.player) > refbg::bar(&before.board, -before.player) {
            c.count("hits", 1);
        }
        if refbg::off(&after.board, before.player) > refbg::off(&before.board, before.player) {
            c.count("borne_off", 1);
        }
        if refbg::bar(&after.board, before.player) < refbg::bar(&before.board, before.player) {
            c.count("entered", 1);
        }
        if let Some(m) = bad(&after.board) {
            c.violation("conservation", &format!("{m} after {how}"), json!({"before": before, "move": mv, "after": after}));
        }
    };

    // generated positions, every roll, every offered move
    let mut pos = gen::Positions::new(c.rng(1));
    for k in 0..c.n(2500, 40000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        for d1 in 1..=6u8 {
            for d2 in 1..=d1 {
                let mut g = Backgammon::init_with_fields(b, p, d1 == d2 && k % 2 == 0);
                g.roll = (d1, d2);
                let Some(ms) = c.run("moves", "get_valid_moves", || json!(g), || g.get_valid_moves()) else { continue };
                for m in ms {
                    let w = json!({"game": g, "move": m});
                    let Some(n) = c.run("apply", "apply_move", || w, || {
                        let mut n = g;
                        n.apply_move(&m);
                        n
                    }) else { continue };
                    note(&mut c, &g, &n, "apply_move", &format!("{m:?}"));
                    let Some(nb) = c.run("next", "get_next_state", || json!(g), || Backgammon::get_next_state(g.board, &m, p)) else { continue };
                    if let Some(t) = bad(&nb) {
                        c.violation("next-state", &format!("{t} after get_next_state"), json!({"before": g, "move": m, "after": nb}));
                    }
                }
                if k < 200 {
                    let mut n = g;
                    n.skip_turn();
                    note(&mut c, &g, &n, "skip_turn", "");
                }
            }
        }
    }

    // long games
    let mut r = c.rng(2);
    for _ in 0..c.n(400, 6000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let mut g = Backgammon::new();
        g.roll_die();
        let prefer_hits = r.chance(0.5);
        for _ in 0..600 {
            if g.check_winner().is_some() {
                break;
            }
            let Some(ms) = c.run("moves", "get_valid_moves", || json!(g), || g.get_valid_moves()) else { break };
            let before = g;
            if ms.is_empty() {
                g.skip_turn();
                c.count("passes", 1);
                note(&mut c, &before, &g, "skip_turn", "");
                continue;
            }
            let m = if prefer_hits && r.chance(0.7) {
                ms.iter().max_by_key(|m| refbg::bar(&Backgammon::get_next_state(g.board, m, g.player), -g.player)).unwrap().clone()
            } else {
                r.pick(&ms).clone()
            };
            let Some(_) = c.run("apply", "apply_move", || json!({"game": before, "move": m}), || g.apply_move(&m)) else { break };
            note(&mut c, &before, &g, "apply_move", &format!("{m:?}"));
        }
        if g.check_winner().is_some() {
            c.count("games_finished", 1);
        }
    }

    // positions met by the program's own players, through the recording wrapper
    for (name, kind) in [("random match", 0), ("mcts match", 1), ("self play", 2)] {
        if c.full() {
            break;
        }
        mon::start(6_000_000);
        mon::judge(false);
        let conf = net::Conf { iterations: 2, simulate_round_limit: 4, num_self_play_batches: c.n(12, 60), ..net::Conf::default() };
        let az: Option<AlphaZero> = (kind == 2).then(|| {
            let z = net::Conf { simulate_round_limit: 200, ..conf.clone() }.alphazero::<Mon<Backgammon>>(None);
            net::randomize(&z.model.vs, &mut c.rng(9), 3.0);
            z
        });
        let res = guarded(|| match kind {
            0 => drop(play::<Mon<Backgammon>>(Player::new(Agent::Random, None), Player::new(Agent::Random, None), &conf.mcts(), 1.0)),
            1 => drop(play::<Mon<Backgammon>>(Player::new(Agent::Mcts, None), Player::new(Agent::Random, None), &conf.mcts(), 1.0)),
            _ => drop(az.as_ref().unwrap().self_play_parallel::<Mon<Backgammon>>()),
        });
        let log = mon::stop();
        if let Err(p) = res {
            c.violation("panic-play", &format!("{name}: {}", p.text()), json!({"workload": name}));
        }
        for e in &log.evs {
            if let (Some(St::B(a)), Some(St::B(b))) = (log.states.get(&e.from), log.states.get(&e.to)) {
                let (a, b) = (*a, *b);
                note(&mut c, &a, &b, name, "");
            }
        }
        c.count(&format!("events_{}", name.replace(' ', "_")), log.evs.len() as u64);
        let _ = Backgammon::TAG;
    }
    c.sample(json!({"positions_generated": pos.constructed + pos.reachable, "constructed": pos.constructed}));
    let mut q = gen::Positions::new(c.rng(3));
    for _ in 0..3 {
        c.sample(json!(q.next()));
    }
    c.require("hits", 1000);
    c.require("borne_off", 1000);
    c.require("entered", 1000);
    c.require("passes", 10);
    c.finish()
}
