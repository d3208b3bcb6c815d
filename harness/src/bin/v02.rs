//! V02: games saved after a match read back as they were.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{load_all_games, load_game, play, print_game, save_game, Agent, Game, Player, Turn};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vh::hashgame::HashGame;
use vh::mon::{self, Inner, Kind, Mon};
use vh::net::Conf;
use vh::play::played;
use vh::work::{hg, Source};
use vh::*;

fn player<G: LearnableGame>(r: &mut Rng, k: usize) -> Player {
    match k {
        0 => Player::new(Agent::Random, None),
        1 => Player::new(Agent::Mcts, None),
        _ => Player::new(Agent::Model, Some(net::net::<G>(r, 1.0))),
    }
}

fn id(v: &Value) -> String {
    v["id"].as_str().unwrap_or("").to_string()
}

/// saves all games of a list, reads them back both ways
fn round_trip<G: LearnableGame>(c: &mut Check, what: &str, games: &[Game<G>], wit: &Value) {
    let top = Scratch::new("v02");
    // under any name
    let name = ["games", "my games", "spiele.json", "gam\u{e9}s-1", "-o", "a.b"][games.len() % 6];
    let s = top.path().join(name);
    std::fs::create_dir_all(&s).unwrap();
    let dir = s.to_str().unwrap().to_string() + if games.len() % 2 == 0 { "/" } else { "" };
    let mut want: BTreeMap<String, Value> = BTreeMap::new();
    // things that lie around
    std::fs::write(s.join("notes.txt"), "not a game").unwrap();
    std::fs::create_dir_all(s.join("older.json")).unwrap();
    for g in games {
        let v = serde_json::to_value(g).unwrap();
        want.insert(id(&v), v);
        match c.run("save", "save_game", || wit.clone(), || save_game(g, &dir).map_err(|e| e.to_string())) {
            Some(Ok(())) => {}
            Some(Err(e)) => c.violation(&format!("{what}-save"), &format!("{what}: saving fails: {e}"), wit.clone()),
            None => return,
        }
    }
    let files: BTreeSet<String> = std::fs::read_dir(&s).unwrap().flatten().filter(|e| e.path().is_file()).map(|e| e.file_name().to_string_lossy().to_string()).filter(|f| f.ends_with(".json")).collect();
    c.eval();
    if files.len() != games.len() {
        c.violation(&format!("{what}-files"), &format!("{what}: {} games leave {} files", games.len(), files.len()), wit.clone());
    }
    let mut got: BTreeMap<String, Value> = BTreeMap::new();
    for f in &files {
        let p = s.join(f);
        match c.run("load", "load_game", || wit.clone(), || load_game::<G>(p.clone()).map_err(|e| e.to_string())) {
            Some(Ok(g)) => {
                let v = serde_json::to_value(&g).unwrap();
                got.insert(id(&v), v);
            }
            Some(Err(e)) => c.violation(&format!("{what}-load"), &format!("{what}: a saved game does not load: {e}"), json!({"file": std::fs::read_to_string(&p).unwrap_or_default(), "run": wit})),
            None => return,
        }
    }
    for (k, v) in &want {
        c.eval();
        c.count("games_read_back", 1);
        c.nontrivial(hash_of(&v.to_string()));
        match got.get(k) {
            None => c.violation(&format!("{what}-lost"), &format!("{what}: a saved game does not come back"), json!({"game": v, "run": wit})),
            Some(g) if g != v => c.violation(&format!("{what}-changed"), &format!("{what}: a game reads back differently"), json!({"before": v, "after": g, "run": wit})),
            _ => {}
        }
    }
    match c.run("load-all", "load_all_games", || wit.clone(), || load_all_games::<G>(s.clone()).map_err(|e| e.to_string())) {
        Some(Ok(all)) => {
            let mut m: Vec<String> = all.iter().map(|g| serde_json::to_value(g).unwrap().to_string()).collect();
            m.sort();
            let mut w: Vec<String> = want.values().map(|v| v.to_string()).collect();
            w.sort();
            if m != w {
                c.violation(&format!("{what}-all"), &format!("{what}: of {} saved games {} are loaded, not the same", w.len(), m.len()), wit.clone());
            }
        }
        Some(Err(e)) => c.violation(&format!("{what}-all"), &format!("{what}: the directory does not load: {e}"), wit.clone()),
        None => {}
    }
    // saving again overwrites nothing else
    if let Some(g) = games.first() {
        if c.run("save", "save_game", || wit.clone(), || save_game(g, &dir).map_err(|e| e.to_string())).is_some() {
            let n = std::fs::read_dir(&s).unwrap().flatten().filter(|e| e.path().is_file() && e.file_name().to_string_lossy().ends_with(".json")).count();
            if n != games.len() {
                c.violation(&format!("{what}-again"), &format!("{what}: saving a game a second time leaves {n} files for {} games", games.len()), wit.clone());
            }
        }
        let f = files.iter().next().cloned().unwrap_or_default();
        c.run("print", "print_game", || wit.clone(), || print_game::<G>(s.join(f), false).map_err(|e| e.to_string()));
    }
    // a record that cannot be written is not said to be saved
    let full = s.join("full");
    if std::path::Path::new("/dev/full").exists() {
        let _ = std::fs::create_dir_all(&full);
        for g in games.iter().take(6) {
            let v = serde_json::to_value(g).unwrap();
            let p = full.join(format!("{}.json", id(&v)));
            if std::os::unix::fs::symlink("/dev/full", &p).is_err() {
                continue;
            }
            let said = guarded(|| save_game(g, full.to_str().unwrap()).map_err(|e| e.to_string()));
            c.count("no_room", 1);
            let link = p.symlink_metadata().map(|m| m.file_type().is_symlink()).unwrap_or(true);
            let there = !link && matches!(load_game::<G>(p.clone()), Ok(b) if serde_json::to_value(&b).unwrap() == v);
            if matches!(said, Ok(Ok(()))) && !there {
                c.violation(&format!("{what}-no-room"), &format!("{what}: a game that does not fit on the disk is reported as saved"), wit.clone());
            }
            let _ = std::fs::remove_file(&p);
        }
        let _ = std::fs::remove_dir_all(&full);
    }
    // broken files are reported
    for (i, f) in files.iter().enumerate().take(3) {
        let b = std::fs::read_to_string(s.join(f)).unwrap();
        for (how, t) in damage(&b, i) {
            let d = s.join("damaged");
            std::fs::create_dir_all(&d).unwrap();
            let p = d.join("damaged.json");
            std::fs::write(&p, &t).unwrap();
            c.count("broken_files", 1);
            c.count(&format!("broken_{how}"), 1);
            let w = json!({"file": String::from_utf8_lossy(&t), "run": wit});
            if let Some(Ok(_)) = c.run("broken", "load_game", || w.clone(), || load_game::<G>(p.clone()).map_err(|e| e.to_string())) {
                c.violation(&format!("{what}-broken"), &format!("{what}: a damaged file ({how}) loads as a game"), w.clone());
            }
            if let Some(Ok(l)) = c.run("broken", "load_all_games", || w.clone(), || load_all_games::<G>(d.clone()).map_err(|e| e.to_string())) {
                if !l.is_empty() {
                    c.violation(&format!("{what}-broken"), &format!("{what}: a damaged file ({how}) loads as a game with its directory"), w.clone());
                }
            }
        }
    }
}

/// damaged versions of a record's text, none of which is a record
fn damage(text: &str, i: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![];
    let b = text.trim_end().as_bytes();
    out.push(("cut off", b[..b.len() * (i + 1) / 4].to_vec()));
    out.push(("last byte missing", b[..b.len() - 1].to_vec()));
    out.push(("beginning missing", b[1 + i..].to_vec()));
    out.push(("empty", vec![]));
    for rest in ["}", "{}", "\0", ",", text] {
        out.push(("followed by more", [text.as_bytes(), rest.as_bytes()].concat()));
    }
    let mut z = b.to_vec();
    let n = z.len();
    z[n / 3..n / 3 + 8].fill(0);
    out.push(("zeros inside", z));
    let v: Value = serde_json::from_str(text).unwrap_or_default();
    for k in v.as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
        let mut w = v.clone();
        w.as_object_mut().unwrap().remove(&k);
        out.push(("a part missing", serde_json::to_vec_pretty(&w).unwrap()));
        let mut w = v.clone();
        w[&k] = json!(17.5);
        out.push(("a part replaced", serde_json::to_vec_pretty(&w).unwrap()));
    }
    out
}

/// the games of a match
fn matches<G: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    for _ in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        if G::TAG == "hashgame" {
            hg(r);
        }
        let (a, b) = if G::TAG == "backgammon" { (0, 0) } else { (r.below(3), r.below(3)) };
        let cfg = Conf { iterations: 2, ..Conf::default() };
        let wit = json!({"game": G::TAG, "seats": [a, b]});
        let (p, q) = (player::<Mon<G>>(r, a), player::<Mon<G>>(r, b));
        mon::judge(false);
        mon::start(4_000_000);
        let res = c.run("match", "a match", || wit.clone(), || play::<Mon<G>>(p, q, &cfg.mcts(), 1.0));
        let log = mon::stop();
        mon::judge(true);
        let Some(res) = res else { continue };
        c.count("matches", 1);
        let ts = played(&log);
        for g in &res.games {
            let v = serde_json::to_value(g).unwrap();
            // the record is one of the games, from its first position on
            let ver = v["initial_state"]["ver"].as_u64().unwrap_or(0) as u32;
            let Some(t) = ts.iter().find(|t| t.steps.iter().any(|s| s.0 == ver)) else {
                c.violation("state", "a record's initial position is none of the games'", json!({"record": v, "run": wit}));
                continue;
            };
            let at = t.steps.iter().position(|s| s.0 == ver).unwrap();
            if t.steps[..at].iter().any(|s| s.1.as_ref().is_some_and(|e| e.kind == Kind::Apply)) {
                c.violation("state", "a record does not begin at the game's first position", json!({"record": v, "run": wit}));
            }
            let s = G::from_st(&log.states[&ver]);
            let inner: G = serde_json::from_value(v["initial_state"]["g"].clone()).unwrap();
            if !inner.same(&s) {
                c.violation("state", "a record's initial position is not the game's", json!({"record": v, "run": wit}));
            }
            if v["player1"] != json!(res.player1) || v["player2"] != json!(res.player2) {
                c.violation("players", "a record names other players than the match", json!({"record": v, "run": wit}));
            }
            // the moves
            let moves = t.steps.iter().filter(|s| s.1.as_ref().is_some_and(|e| e.kind == Kind::Apply)).count();
            let turns = v["turns"].as_array().map(|x| x.len()).unwrap_or(0);
            c.count("records", 1);
            if turns == 0 && moves > 0 {
                c.violation("no-turns", "the record of a played game contains no turns", json!({"record": v, "moves_played": moves, "run": wit}));
            } else if turns < moves {
                c.violation("few-turns", &format!("the record of a game of {moves} moves has {turns} turns"), json!({"record": v, "run": wit}));
            }
        }
        round_trip(c, "match", &res.games, &wit);
    }
}

/// what ids are made of
const ID: [char; 64] = [
    '_', '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', 'A', 'B',
    'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
];

/// games with any content
fn made<G: Source>(c: &mut Check, r: &mut Rng, n: usize) {
    let agents = [Agent::Random, Agent::Mcts, Agent::Model, Agent::None];
    for _ in 0..n {
        if c.out_of_time() || c.full() {
            return;
        }
        let m = r.range(1, 25) as usize;
        let like = r.chance(0.5);
        let base: Vec<char> = (0..21).map(|_| *r.pick(&ID)).collect();
        let mut ids: BTreeSet<String> = BTreeSet::new();
        let games: Vec<Game<G>> = (0..m)
            .map(|_| {
                let mut g = Game::new(r.pick(&agents).clone(), r.pick(&agents).clone(), G::random(r));
                g.winner = r.pick(&agents).clone();
                for _ in 0..r.below(8) {
                    g.turns.push(Turn {
                        roll: r.chance(0.7).then(|| (r.range(1, 6) as u8, r.range(1, 6) as u8)),
                        action: (0..r.below(3)).map(|_| G::random(r)).collect(),
                        player: r.pick(&agents).clone(),
                    });
                }
                if like {
                    // ids as the generator may give them, each nearly that of another game
                    let mut v = serde_json::to_value(&g).unwrap();
                    let k = loop {
                        let mut k = base.clone();
                        let i = r.below(21);
                        k[i] = match r.below(3) {
                            0 if k[i].is_ascii_lowercase() => k[i].to_ascii_uppercase(),
                            0 => k[i].to_ascii_lowercase(),
                            1 if k[i] == '-' => '_',
                            1 => '-',
                            _ => *r.pick(&ID),
                        };
                        let k: String = k.into_iter().collect();
                        if ids.insert(k.clone()) {
                            break k;
                        }
                    };
                    v["id"] = json!(k);
                    g = serde_json::from_value(v).unwrap();
                }
                g
            })
            .collect();
        if like {
            c.count("near_ids", m as u64);
        }
        c.count("made_games", m as u64);
        round_trip(c, "made", &games, &json!({"game": G::TAG, "n": m}));
    }
}

fn main() {
    let mut c = Check::new(
        "V02",
        "A case is one game saved and read back (alone and with its whole directory), made up with any content or taken from a match whose games were recorded from outside. \
         Non-trivial: distinct saved games.",
    );
    let mut r = c.rng(1);
    for _ in 0..c.n(1, 12) {
        made::<Backgammon>(&mut c, &mut r, 20);
        made::<TicTacToe>(&mut c, &mut r, 20);
        made::<HashGame>(&mut c, &mut r, 10);
        matches::<HashGame>(&mut c, &mut r, 4);
        matches::<TicTacToe>(&mut c, &mut r, 3);
        matches::<Backgammon>(&mut c, &mut r, 1);
    }
    c.require("games_read_back", 1500);
    c.require("made_games", 300);
    c.require("near_ids", 50);
    c.require("matches", 5);
    c.require("broken_files", 300);
    for k in ["cut off", "followed by more", "a part missing", "a part replaced", "zeros inside"] {
        c.require(&format!("broken_{k}"), 20);
    }
    c.finish()
}
