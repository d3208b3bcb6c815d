//! V01: a match's result is what was played, seats are fair, and threads do not matter.
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{play, Agent, PlayResult, Player};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use vh::hashgame::{self, HashGame, HgCfg};
use vh::mon::{self, Inner, Kind, Log, Mon};
use vh::net::Conf;
use vh::play::{played, searches, state_at, Draws};
use vh::tree::{observe, Tree};
use vh::work::{hg, Source};
use vh::*;

const LIMIT: usize = 400;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Who {
    Random,
    Mcts,
    Net,
}

fn player<G: Source>(w: Who, nn: &Option<ResNet>) -> Player {
    match w {
        Who::Random => Player::new(Agent::Random, None),
        Who::Mcts => Player::new(Agent::Mcts, None),
        Who::Net => {
            let mut k = ResNet::new::<Mon<G>>(tch::nn::VarStore::new(tch::Device::Cpu));
            k.vs.copy(&nn.as_ref().unwrap().vs).unwrap();
            Player::new(Agent::Model, Some(k))
        }
    }
}
fn agent(w: Who) -> Agent {
    match w {
        Who::Random => Agent::Random,
        Who::Mcts => Agent::Mcts,
        Who::Net => Agent::Model,
    }
}

/// what the random players' choices are drawn from, by number of moves and round
type Random = BTreeMap<String, Draws>;

fn random_choices<G: Source>(rnd: &mut Random, l: &Log, who: [Who; 2], recorded: bool) {
    if !recorded || !who.contains(&Who::Random) {
        return;
    }
    for t in &played(l) {
        for (k, (v, e)) in t.steps.iter().enumerate() {
            let Some(e) = e else { continue };
            if e.kind != Kind::Apply {
                continue;
            }
            let pos = G::from_st(&l.states[v]);
            if who[(pos.get_player() != -1) as usize] != Who::Random {
                continue;
            }
            let legal = pos.get_valid_moves();
            let mv: G::Move = serde_json::from_str(&e.mv).unwrap();
            let Some(at) = legal.iter().position(|m| *m == mv) else { continue };
            let size = match legal.len() {
                0..=2 => "2",
                3..=4 => "3-4",
                5..=9 => "5-9",
                10..=20 => "10-20",
                _ => "more",
            };
            rnd.entry(format!("{size} moves of {}, {}", G::TAG, if k < 12 { "early" } else { "late" })).or_default().add_uniform(legal.len(), at);
        }
    }
}

fn judge<G: Source>(c: &mut Check, res: &PlayResult<Mon<G>>, l: &Log, ts: Option<&[Tree<Mon<G>>]>, who: [Who; 2], nets: &[Option<ResNet>; 2], wit: &serde_json::Value) {
    let g = played(l);
    c.eval();
    let tag = format!("{:?}-{:?} {}", who[0], who[1], G::TAG);
    let (mut w1, mut w2, mut draws, mut first, mut unclear) = (0, 0, 0, 0, 0);
    let mut winner_of: HashMap<u32, i8> = HashMap::new();
    for t in &g {
        let end = G::from_st(&l.states[&t.last()]);
        let rounds = t.steps.iter().filter(|s| s.1.as_ref().is_some_and(|e| e.kind == Kind::Apply || e.kind == Kind::Skip)).count();
        c.max("longest_game", rounds as u64);
        let w = end.check_winner();
        match w {
            Some(-1) => w1 += 1,
            Some(1) => w2 += 1,
            Some(_) => draws += 1,
            None => {
                draws += 1;
                c.count("cut_off_games", 1);
                if rounds < LIMIT {
                    c.violation("unfinished", &format!("{tag}: a game is given up after {rounds} rounds"), wit.clone());
                }
            }
        }
        let passes = t.steps.iter().filter(|s| s.1.as_ref().is_some_and(|e| e.kind == Kind::Skip)).count();
        if rounds > LIMIT + 1 && passes < 3 {
            c.violation("limit", &format!("{tag}: a game goes on for {rounds} rounds"), wit.clone());
        }
        // who makes the first move; unclear where a forced pass came before it
        let mut begin = 0;
        for (v, e) in &t.steps {
            let Some(e) = e else { break };
            let pos = G::from_st(&l.states[v]);
            if G::IS_DETERMINISTIC && pos.get_valid_moves().is_empty() {
                break;
            }
            if e.kind == Kind::Apply {
                begin = pos.get_player();
                break;
            }
        }
        if begin == 0 {
            unclear += 1;
        }
        if begin == -1 {
            first += 1;
        }
        for (v, e) in &t.steps {
            winner_of.insert(*v, w.unwrap_or(0));
            if e.is_some() {
                c.nontrivial(hash_of(&serde_json::to_string(&state_at::<G>(l, *v).unwrap().g).unwrap()));
            }
        }
    }
    c.count("games", g.len() as u64);
    c.count("won_by_first_seat", w1 as u64);
    c.count("won_by_second_seat", w2 as u64);
    c.count("drawn", draws as u64);
    let say = format!("{} won, {} lost, {} drawn of {}, win rate {}", res.wins_p1, res.wins_p2, res.draws, res.n_games, res.winrate);
    let real = format!("{w1} won, {w2} lost, {draws} drawn of {}", g.len());
    if res.n_games != g.len() {
        c.violation("number", &format!("{tag}: the result counts {} games, {} were played", res.n_games, g.len()), wit.clone());
    }
    if (res.wins_p1, res.wins_p2, res.draws) != (w1, w2, draws) {
        c.violation("tally", &format!("{tag}: reported {say}; played {real}"), wit.clone());
    }
    if (res.winrate - w1 as f64 / g.len() as f64).abs() > 1e-9 {
        c.violation("winrate", &format!("{tag}: reported {say}; played {real}"), wit.clone());
    }
    let text = format!("{res}");
    let after = |label: &str| text.lines().find_map(|l| l.trim().strip_prefix(label)).map(|x| x.trim().trim_start_matches(':').trim().trim_end_matches('%').to_string());
    for (label, n) in [("Wins Player 1", res.wins_p1), ("Wins Player 2", res.wins_p2), ("Draws", res.draws), ("Number of Games", res.n_games)] {
        if after(label) != Some(n.to_string()) {
            c.violation("display", &format!("{tag}: the printed result shows {:?} for {label}, it is {n}", after(label)), json!({"text": text, "run": wit}));
        }
    }
    let rate = after("Winrate").and_then(|x| x.parse::<f64>().ok());
    if !rate.is_some_and(|x| (x - res.winrate * 100.0).abs() < 0.01) {
        c.violation("display-rate", &format!("{tag}: the printed win rate is {rate:?}, it is {}", res.winrate), json!({"text": text, "run": wit}));
    }
    for (label, p) in [("Player 1", &res.player1), ("Player 2", &res.player2)] {
        if after(label) != Some(format!("{p:?}")) {
            c.violation("display-names", &format!("{tag}: the printed result shows {:?} for {label}, it is {p:?}", after(label)), json!({"text": text, "run": wit}));
        }
    }
    if unclear == 0 {
        c.count("seats_judged", 1);
    }
    if unclear == 0 && first * 2 != g.len() {
        c.violation("seats", &format!("{tag}: the first player begins {first} of {} games", g.len()), wit.clone());
    }
    if res.player1 != agent(who[0]) || res.player2 != agent(who[1]) {
        c.violation("names", &format!("{tag}: the result names {:?} and {:?}", res.player1, res.player2), wit.clone());
    }
    if res.games.len() != g.len() {
        c.violation("records", &format!("{tag}: {} game records for {} games", res.games.len(), g.len()), wit.clone());
    }
    // each record is one of the games and names its winner
    let mut ids = HashSet::new();
    let mut starts = HashSet::new();
    for game in &res.games {
        let j = serde_json::to_value(game).unwrap();
        ids.insert(j["id"].as_str().unwrap_or("").to_string());
        let Some(v) = j["initial_state"]["ver"].as_u64() else { continue };
        starts.insert(v);
        let Some(&w) = winner_of.get(&(v as u32)) else {
            c.violation("record-state", &format!("{tag}: a record's initial position is none of the games'"), json!({"record": j, "run": wit}));
            continue;
        };
        let want = match w {
            -1 => agent(who[0]),
            1 => agent(who[1]),
            _ => Agent::None,
        };
        c.count("records", 1);
        if game.winner != want {
            c.violation("record-winner", &format!("{tag}: the game won by {w} is recorded as won by {:?}", game.winner), json!({"record": j, "run": wit}));
        }
    }
    if ids.len() != res.games.len() || starts.len() != res.games.len() {
        c.violation("record-ids", &format!("{tag}: {} different ids and {} different games among {} records", ids.len(), starts.len(), res.games.len()), wit.clone());
    }
    // who really chose the moves
    let Some(ts) = ts else { return };
    let s = searches(ts);
    for t in &g {
        for (v, e) in &t.steps {
            let Some(e) = e else { continue };
            if e.kind != Kind::Apply {
                continue;
            }
            let pos = state_at::<G>(l, *v).unwrap();
            let seat = if pos.g.get_player() == -1 { 0 } else { 1 };
            let made = s.get(v);
            c.eval();
            match (who[seat], made) {
                (Who::Random, None) => {}
                (Who::Mcts, Some(("mcts", kids))) => {
                    let mv: G::Move = serde_json::from_str(&e.mv).unwrap();
                    let best = kids.iter().map(|k| k.2).fold(0.0, f64::max);
                    if !kids.iter().any(|k| k.1 == mv && k.2 == best) {
                        c.violation("chooser-move", &format!("{tag}: seat {} does not play its own search's move", seat + 1), json!({"position": pos.g, "run": wit}));
                    }
                }
                (Who::Net, Some((k, kids))) if *k != "mcts" => {
                    // its own network's priors
                    let (p, _) = net::eval(nets[seat].as_ref().unwrap(), &pos);
                    let sum: f64 = kids.iter().map(|k| p[k.0] as f64).sum();
                    if kids.iter().any(|k| !((k.3 - p[k.0] as f64 / sum).abs() < 2e-3)) {
                        c.violation("chooser-net", &format!("{tag}: seat {}'s moves are not chosen by its network", seat + 1), json!({"position": pos.g, "run": wit}));
                    }
                    c.count("own_network", 1);
                }
                (w, m) => {
                    c.violation("chooser", &format!("{tag}: seat {} is {w:?}, its move comes from {:?}", seat + 1, m.map(|m| m.0)), json!({"position": pos.g, "run": wit}));
                }
            }
            c.count(&format!("moves_of_{:?}", who[seat]), 1);
        }
    }
}

fn go<G: Source>(c: &mut Check, rnd: &mut Random, r: &mut Rng, n: usize, kinds: &[(Who, Who)], watch: bool, synth: Option<HgCfg>, slow: bool) {
    for k in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let h = if G::TAG == "hashgame" {
            match synth {
                Some(h) => hashgame::configure(h),
                None => {
                    hg(r);
                }
            }
            format!("{:?}", *hashgame::CFG.read().unwrap())
        } else {
            String::new()
        };
        let (a, b) = kinds[k % kinds.len()];
        let nets = [a, b].map(|w| (w == Who::Net).then(|| net::net::<Mon<G>>(r, 1.0)));
        let cfg = Conf { iterations: *r.pick(&[2, 5]), dirichlet_epsilon: 0.0, simulate_round_limit: 400, ..Conf::default() };
        let threads = *r.pick(&[1usize, 2, 3, 8, 16]);
        let wit = json!({"game": G::TAG, "seats": [format!("{a:?}"), format!("{b:?}")], "threads": threads, "conf": cfg.toml(), "synthetic": h, "slow": slow});
        let (p, q) = (player::<G>(a, &nets[0]), player::<G>(b, &nets[1]));
        let moves = watch || a == Who::Random || b == Who::Random;
        mon::with_moves(moves);
        mon::slow(slow);
        mon::start(if watch { 10_000_000 } else { 4_000_000 });
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        struct Send_<T>(T);
        unsafe impl<T> Send for Send_<T> {}
        let x = Send_((p, q));
        let m = cfg.mcts();
        let match_ = move || {
            pool.install(move || {
                let x = x;
                let Send_((p, q)) = x;
                Send_(play::<Mon<G>>(p, q, &m, 1.0))
            })
            .0
        };
        let run = |f: Box<dyn FnOnce() -> PlayResult<Mon<G>>>| if watch { let (r, t) = observe::<Mon<G>, _>(f); (r, Some(t)) } else { (f(), None) };
        let res = c.run("match", "a match", || wit.clone(), || run(Box::new(match_)));
        let log = mon::stop();
        mon::with_moves(false);
        mon::slow(false);
        let Some((res, ts)) = res else { continue };
        c.count(&format!("matches_with_{threads}_threads"), 1);
        random_choices::<G>(rnd, &log, [a, b], moves);
        judge::<G>(c, &res, &log, ts.as_deref(), [a, b], &nets, &wit);
        if k == 0 {
            c.sample(json!({"run": wit, "result": format!("{res}")}));
        }
    }
}

fn main() {
    let mut c = Check::new(
        "V01",
        "A case is one match of 400 games on a thread pool of 1 to 16 threads, all games recorded from outside and the reported result, records and seats compared with them; \
         in watched matches also every move with the search that made it. Non-trivial: distinct positions played.",
    );
    let mut r = c.rng(1);
    use Who::*;
    let mut rnd = BTreeMap::new();
    let all = [(Random, Random), (Random, Mcts), (Mcts, Random), (Net, Random), (Random, Net), (Net, Net), (Mcts, Net), (Mcts, Mcts), (Net, Mcts)];
    for _ in 0..c.n(1, 10) {
        go::<HashGame>(&mut c, &mut rnd, &mut r, 9, &all, true, None, false);
        go::<HashGame>(&mut c, &mut rnd, &mut r, 12, &[(Random, Random), (Mcts, Random), (Random, Mcts)], false, None, true);
        go::<TicTacToe>(&mut c, &mut rnd, &mut r, 6, &[(Net, Net), (Mcts, Random), (Random, Net), (Mcts, Net), (Random, Random), (Net, Mcts)], true, None, false);
        go::<TicTacToe>(&mut c, &mut rnd, &mut r, 6, &[(Random, Random), (Mcts, Random)], false, None, true);
        go::<Backgammon>(&mut c, &mut rnd, &mut r, 2, &[(Random, Random)], false, None, false);
        // games ended by the limit, or just before it
        for max_len in [400, 401, 399] {
            let h = HgCfg { seed: r.next(), min_len: 1000, max_len, pass: 0, double: 0, draw: 0, end: 0, max_moves: 2, same: false };
            go::<HashGame>(&mut c, &mut rnd, &mut r, 1, &[(Random, Random)], false, Some(h), false);
        }
        let h = HgCfg { seed: r.next(), min_len: 1000, max_len: 380, pass: 16, double: 40, draw: 60, end: 0, max_moves: 3, same: false };
        go::<HashGame>(&mut c, &mut rnd, &mut r, 1, &[(Random, Random)], false, Some(h), false);
    }
    // the settings of the search are the given ones
    for _ in 0..c.n(12, 100) {
        let cfg = Conf {
            iterations: *r.pick(&[1, 4, 25, 90, 240, 600]),
            exploration_const: *r.pick(&[0.1, 0.7, 1.41, 2.0, 5.0, 40.0]),
            simulate_round_limit: *r.pick(&[1, 3, 20, 90, 400, 1500]),
            dirichlet_epsilon: *r.pick(&[0.0, 0.05, 0.25, 0.8]),
            ..Conf::default()
        };
        inuse::matches(&mut c, &mut r, &cfg);
    }
    for (what, d) in &rnd {
        let (z1, z2) = d.z();
        c.eval();
        c.count("random_choices", d.n);
        c.max("random_largest_z_x100", (z1.abs().max(z2.abs()) * 100.0) as u64);
        if d.n >= 200 && (z1.abs() > 6.5 || z2.abs() > 6.5) {
            c.violation("random-uniform", &format!("the random player does not take each legal move equally often ({what}): {z1:.1} and {z2:.1} standard deviations off over {} choices", d.n), json!({"choices": d.n}));
        }
    }
    c.require("random_choices", 20_000);
    c.require("in_match", 400);
    c.require("in_match_guided", 400);
    c.require("in_match_playouts", 3);
    c.require("games", 8000);
    c.require("cut_off_games", 400);
    c.require("won_by_first_seat", 1000);
    c.require("won_by_second_seat", 1000);
    c.require("drawn", 500);
    c.require("own_network", 500);
    c.require("seats_judged", 8);
    c.require("records", 5000);
    c.finish()
}
