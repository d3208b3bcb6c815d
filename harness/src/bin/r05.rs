//! R05: dice are uniform and independent, whatever triggers the roll.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use serde_json::json;
use std::collections::BTreeMap;
use vh::*;

/// chi-square against uniform, as a number of standard deviations
fn z(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|&o| (o as f64 - e).powi(2) / e).sum();
    let df = counts.len() as f64 - 1.0;
    // Wilson-Hilferty
    ((x / df).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * df))) / (2.0 / (9.0 * df)).sqrt()
}
const LIMIT: f64 = 6.5;

/// Is luck the same in every kind of position?  What a roll is worth to the player it is for
/// (moves, entering, hits, pips, doubles, repeating), against its exact mean over the 36 rolls.
fn in_positions(c: &mut Check) {
    use vh::play::Luck;
    let mut pos = gen::Positions::new(c.rng(7));
    let mut r = c.rng(8);
    let mut luck: BTreeMap<String, Luck> = BTreeMap::new();
    let all: Vec<(u8, u8)> = (1..=6).flat_map(|a| (1..=6).map(move |b| (a, b))).collect();
    let worth = |b: &refbg::Board, p: i8| -> Vec<[f64; 7]> {
        all.iter()
            .map(|&d| {
                let l = refbg::legal(b, p, d);
                let n = l.len() as f64;
                [
                    (n == 0.0) as u8 as f64,
                    n / (n + 10.0),
                    l.iter().any(|x| refbg::bar(&x.1, -p) > refbg::bar(b, -p)) as u8 as f64,
                    (d.0 + d.1) as f64 / 12.0,
                    (d.0 == d.1) as u8 as f64,
                    d.0 as f64 / 6.0,
                    l.iter().map(|x| refbg::off(&x.1, p) - refbg::off(b, p)).max().unwrap_or(0) as f64 / 2.0,
                ]
            })
            .collect()
    };
    const WHAT: [&str; 7] = ["no move", "many moves", "hits", "pips", "doubles", "first die", "bearing off"];
    for k in 0..c.n(7000, 100_000) {
        if c.out_of_time() || c.full() {
            break;
        }
        let (b, p) = pos.next();
        let mut g = Backgammon::init_with_fields(b, p, false);
        g.set_id(r.below(600));
        g.roll = gen::roll(&mut r);
        // what the dice are for: this position, or the one after a move
        let mut seen: Vec<(&str, Backgammon)> = vec![];
        let how = k % 3;
        let times = 12;
        match how {
            0 => {
                for _ in 0..times {
                    g.is_second_play = false;
                    g.roll_die();
                    seen.push(("an explicit roll", g));
                }
            }
            1 => {
                for _ in 0..times {
                    let mut h = g;
                    h.player = -p;
                    let again = r.chance(0.5);
                    if again {
                        h.roll.1 = h.roll.0;
                    }
                    h.is_second_play = again && r.chance(0.5);
                    h.skip_turn();
                    seen.push(("a pass", h));
                }
            }
            _ => {
                let second = g.roll.0 == g.roll.1;
                g.is_second_play = second;
                if let Ok(ms) = guarded(|| g.get_valid_moves()) {
                    if !ms.is_empty() {
                        let m = r.pick(&ms).clone();
                        for _ in 0..times {
                            let mut h = g;
                            if guarded(|| h.apply_move(&m)).is_ok() {
                                seen.push((if second { "a double" } else { "a move" }, h));
                            }
                        }
                    }
                }
            }
        }
        let Some((_, first)) = seen.first() else { continue };
        if refbg::winner(&first.board).is_some() {
            continue;
        }
        let (b, p) = (first.board, first.player);
        let table = worth(&b, p);
        let kinds: Vec<String> = gen::kind(&b, p).into_iter().map(String::from).chain([format!("player {p}"), "any".into()]).collect();
        for (cause, h) in &seen {
            if h.board != b || h.player != p || !(1..=6).contains(&h.roll.0) || !(1..=6).contains(&h.roll.1) {
                continue; // R04
            }
            c.eval();
            c.count("rolls_in_positions", 1);
            let at = (h.roll.0 as usize - 1) * 6 + h.roll.1 as usize - 1;
            for (i, what) in WHAT.iter().enumerate() {
                let m = table.iter().map(|x| x[i]).sum::<f64>() / 36.0;
                let v = table.iter().map(|x| x[i] * x[i]).sum::<f64>() / 36.0 - m * m;
                if v < 1e-12 {
                    continue;
                }
                for kind in &kinds {
                    luck.entry(format!("{what} after {cause}, {kind}")).or_default().add(table[at][i] - m, v);
                }
            }
        }
    }
    for (what, l) in &luck {
        c.nontrivial(hash_of(what));
        let z = l.z();
        c.max("largest_z_in_positions_x100", (z.abs() * 100.0) as u64);
        if z.abs() > LIMIT {
            c.violation("luck", &format!("rolls are not the same in every position: {what} comes {z:.1} standard deviations off over {} rolls", l.n), json!({"group": what}));
        }
    }
    c.count("kinds_of_position", luck.len() as u64);
    c.require("kinds_of_position", 150);
    c.require("rolls_in_positions", 50_000);
}

/// Whole games: is the next roll the same whatever the rolls before it were?
fn in_histories(c: &mut Check) {
    use vh::play::Luck;
    let mut r = c.rng(11);
    let mut luck: BTreeMap<String, Luck> = BTreeMap::new();
    let bucket = |n: usize, edges: &[usize]| edges.iter().rposition(|&e| n >= e).unwrap_or(0);
    let rolls_wanted = c.n(500_000, 6_000_000) as u64;
    let mut rolls = 0u64;
    let mut games = 0;
    while rolls < rolls_wanted && !c.out_of_time() && !c.full() {
        games += 1;
        let mut g = Backgammon::new();
        g.set_id(r.below(600));
        g.roll_die();
        // all rolls of the game with the player they were for
        let mut past: Vec<((u8, u8), i8)> = vec![];
        let mut pending = Some(g.player);
        let long = games % 4 == 0;
        let len = if long { 1600 } else { 400 };
        for _ in 0..len {
            if let Some(p) = pending {
                let d = g.roll;
                if !(1..=6).contains(&d.0) || !(1..=6).contains(&d.1) {
                    break; // R04
                }
                rolls += 1;
                let own: Vec<(u8, u8)> = past.iter().rev().filter(|x| x.1 == p).take(40).map(|x| x.0).collect();
                let drought = |it: &mut dyn Iterator<Item = (u8, u8)>| it.take_while(|d| d.0 != d.1).count();
                let streak = |it: &mut dyn Iterator<Item = (u8, u8)>| it.take_while(|d| d.0 == d.1).count();
                let mut rev = past.iter().rev().map(|x| x.0);
                let e = [0, 1, 2, 3, 6, 11, 21];
                let sum = |v: &[(u8, u8)]| v.iter().take(4).map(|d| d.0 as i32 + d.1 as i32).sum::<i32>();
                let others: Vec<(u8, u8)> = past.iter().rev().filter(|x| x.1 != p).take(4).map(|x| x.0).collect();
                let lead = sum(&own) - sum(&others);
                let mut when = vec![
                    format!("rolls since a double {}", e[bucket(drought(&mut past.iter().rev().map(|x| x.0)), &e)]),
                    format!("own rolls since a double {}", e[bucket(drought(&mut own.iter().copied()), &e)]),
                    format!("doubles in a row {}", streak(&mut rev).min(3)),
                    format!("own doubles in a row {}", streak(&mut own.iter().copied()).min(3)),
                    format!("roll number {} and on", [0, 1, 2, 10, 30, 60, 120, 400][bucket(past.len(), &[0, 1, 2, 10, 30, 60, 120, 400])]),
                    format!("player {p}"),
                ];
                if own.len() >= 4 && others.len() >= 4 {
                    when.push(format!("luck so far {}", if lead < -12 { "bad" } else if lead > 12 { "good" } else { "even" }));
                }
                let what: [(&str, f64, f64); 5] = [
                    ("doubles", (d.0 == d.1) as u8 as f64, 1.0 / 6.0),
                    ("a six", (d.0 == 6 || d.1 == 6) as u8 as f64, 11.0 / 36.0),
                    ("a one", (d.0 == 1 || d.1 == 1) as u8 as f64, 11.0 / 36.0),
                    ("many pips", (d.0 + d.1 > 7) as u8 as f64, 15.0 / 36.0),
                    ("the first die greater", (d.0 > d.1) as u8 as f64, 15.0 / 36.0),
                ];
                for w in &when {
                    for (name, got, p) in what {
                        luck.entry(format!("{name}, {w}")).or_default().add(got - p, p * (1.0 - p));
                    }
                }
                // the same again as some time before
                let n = past.len();
                for j in 1..=12 {
                    if n < j {
                        break;
                    }
                    let o = past[n - j].0;
                    for (name, got, p) in [
                        ("equals", d == o, 1.0 / 36.0),
                        ("shows the first die of", d.0 == o.0, 1.0 / 6.0),
                        ("shows as second die the second of", d.1 == o.1, 1.0 / 6.0),
                        ("shows as first die the second of", d.0 == o.1, 1.0 / 6.0),
                        ("shows as second die the first of", d.1 == o.0, 1.0 / 6.0),
                    ] {
                        luck.entry(format!("a roll {name} the {j}th before")).or_default().add(got as u8 as f64 - p, p * (1.0 - p));
                    }
                }
                for (j, o) in own.iter().enumerate().take(4) {
                    luck.entry(format!("a roll equals the player's {}th before", j + 1)).or_default().add((d == *o) as u8 as f64 - 1.0 / 36.0, 35.0 / 1296.0);
                }
                past.push((d, p));
            }
            let before = (g.player, g.is_second_play);
            if refbg::winner(&g.board).is_some() {
                if !long {
                    break;
                }
                g.board = refbg::initial();
            }
            let Ok(ms) = guarded(|| g.get_valid_moves()) else { break };
            let again = g.roll.0 == g.roll.1 && !g.is_second_play;
            if ms.is_empty() {
                g.skip_turn();
                pending = Some(g.player);
            } else {
                let m = r.pick(&ms).clone();
                if guarded(|| g.apply_move(&m)).is_err() {
                    break;
                }
                pending = (!again).then_some(g.player);
            }
            if pending.is_some() && g.player == before.0 {
                break; // R04
            }
        }
    }
    c.count("rolls_in_histories", rolls);
    for (what, l) in &luck {
        c.nontrivial(hash_of(what));
        let z = l.z();
        c.max("largest_z_in_histories_x100", (z.abs() * 100.0) as u64);
        if z.abs() > LIMIT && l.n > 300 {
            c.violation("history", &format!("rolls depend on the ones before: {what} comes {z:.1} standard deviations off over {} rolls", l.n), json!({"group": what}));
        }
    }
    c.count("kinds_of_history", luck.len() as u64);
    c.require("kinds_of_history", 200);
    c.require("rolls_in_histories", 200_000);
}

fn main() {
    let mut c = Check::new(
        "R05",
        "A case is one roll, recorded with what caused it (explicit roll, after a move, after the second half of a double, after a pass), the player it is for and \
         the roll before it. Chi-square per group; a group is violated beyond 6.5 standard deviations (p about 4e-11). Non-trivial: distinct (group, outcome) cells.",
    );
    let mut cells: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut pairs: BTreeMap<&str, Vec<u64>> = BTreeMap::new();
    let idx = |d: (u8, u8)| (d.0 as usize - 1) * 6 + d.1 as usize - 1;
    let mut out_of_range = None;
    let mut r = c.rng(1);
    let n = c.n(900_000, 12_000_000);
    let mut g = Backgammon::new();
    g.roll_die();
    let mut prev = g.roll;
    let mut evals = 0u64;
    let mut rec = |cells: &mut BTreeMap<String, Vec<u64>>, pairs: &mut BTreeMap<&str, Vec<u64>>, group: &'static str, p: i8, prev: (u8, u8), d: (u8, u8)| {
        evals += 1;
        if !(1..=6).contains(&d.0) || !(1..=6).contains(&d.1) {
            out_of_range = Some(d);
            return;
        }
        cells.entry(format!("{group}, player {p}")).or_insert_with(|| vec![0; 36])[idx(d)] += 1;
        if (1..=6).contains(&prev.0) {
            pairs.entry(group).or_insert_with(|| vec![0; 1296])[idx(prev) * 36 + idx(d)] += 1;
        }
    };
    let bearoff: refbg::Board = ([2, 2, 2, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, -2, -2, -2, -2, -2, -2], (0, 0), (3, 3));
    for i in 0..n {
        match i % 5 {
            0 => {
                let d = g.roll_die();
                rec(&mut cells, &mut pairs, "explicit roll", g.player, prev, d);
            }
            1 => {
                g.skip_turn();
                rec(&mut cells, &mut pairs, "after a pass", g.player, prev, g.roll);
            }
            2 => {
                // a move from a real position
                if g.check_winner().is_some() || i % 1000 == 2 {
                    g.board = if r.chance(0.7) { refbg::initial() } else { bearoff };
                }
                if let Ok(ms) = guarded(|| g.get_valid_moves()) {
                    if !ms.is_empty() {
                        g.is_second_play = g.roll.0 == g.roll.1;
                        let group = if g.is_second_play { "after a double" } else { "after a move" };
                        let m = r.pick(&ms).clone();
                        let mut h = g;
                        if guarded(|| h.apply_move(&m)).is_ok() {
                            g = h;
                            rec(&mut cells, &mut pairs, group, g.player, prev, g.roll);
                        }
                    }
                }
            }
            3 => {
                g.is_second_play = false;
                if g.roll.0 != g.roll.1 {
                    g.apply_move(&vec![]);
                    rec(&mut cells, &mut pairs, "after a move", g.player, prev, g.roll);
                }
            }
            _ => {
                // a pass between the halves of a double
                g.roll = (prev.0, prev.0);
                g.is_second_play = true;
                prev = g.roll;
                g.skip_turn();
                rec(&mut cells, &mut pairs, "after a pass in a double", g.player, (0, 0), g.roll);
            }
        }
        prev = g.roll;
    }
    // the first rolls of fresh threads
    let per = c.n(3000, 40000);
    let seed = c.seed;
    let firsts: Vec<(u8, u8)> = (0..per).filter_map(|i| entropy::with_entropy(hash2(seed, i as u64), || Backgammon::new().roll_die()).ok()).collect();
    for d in firsts {
        rec(&mut cells, &mut pairs, "first roll of a thread", -1, (0, 0), d);
    }
    c.evals = evals;
    in_positions(&mut c);
    in_histories(&mut c);
    if let Some(d) = out_of_range {
        c.violation("range", &format!("a die shows {d:?}"), json!(d));
    }
    for (k, v) in &cells {
        for (i, o) in v.iter().enumerate() {
            if *o > 0 {
                c.nontrivial(hash_of(&(k, i)));
            }
        }
        c.count(&format!("rolls {k}"), v.iter().sum());
        let zz = z(v);
        if v.iter().sum::<u64>() > 1000 && zz > LIMIT {
            c.violation("pairs-of-dice", &format!("rolls ({k}) are not uniform over 36 outcomes: {zz:.1} standard deviations"), json!({"group": k, "counts": v}));
        }
        for (which, f) in [("first", 6usize), ("second", 1)] {
            let mut m = vec![0u64; 6];
            for (i, o) in v.iter().enumerate() {
                m[(i / f) % 6] += o;
            }
            let zz = z(&m);
            if m.iter().sum::<u64>() > 1000 && zz > LIMIT {
                c.violation("die", &format!("the {which} die ({k}) is not uniform: {zz:.1} standard deviations"), json!({"group": k, "counts": m}));
            }
        }
    }
    // successive rolls: uniform given the roll before
    for (k, v) in &pairs {
        for i in 0..36 {
            let row = &v[i * 36..i * 36 + 36];
            let zz = z(row);
            if row.iter().sum::<u64>() > 1000 && zz > LIMIT {
                c.violation("independence", &format!("rolls ({k}) depend on the roll before ({},{}): {zz:.1} standard deviations", i / 6 + 1, i % 6 + 1), json!({"group": k, "counts": row}));
            }
        }
    }
    c.sample(json!(cells.iter().next()));
    c.require("evaluations", 400_000);
    c.finish()
}
