//! Executable specification of backgammon, written from the rules.
//! Player -1 moves from point 23 down to 0 and enters on 24-die,
//! player 1 moves from 0 up to 23 and enters on die-1.
//! A play is the list of (from, to) pairs the crate uses: from -1 is the bar, to -1 is off the board.

pub type Board = ([i8; 24], (u8, u8), (u8, u8));
pub type Play = Vec<(i8, i8)>;

pub fn initial() -> Board {
    // player -1 (negative): 2 on its 24 point, 5 on 13, 3 on 8, 5 on 6; player 1 is the mirror image
    let mut b = [0i8; 24];
    for (pip, n) in [(24usize, 2i8), (13, 5), (8, 3), (6, 5)] {
        b[pip - 1] -= n;
        b[24 - pip] += n;
    }
    (b, (0, 0), (0, 0))
}

pub fn idx(p: i8, pip: usize) -> usize {
    if p == -1 {
        pip - 1
    } else {
        24 - pip
    }
}
/// own checkers of p on the point `pip` steps away from bearing off (1..=24)
pub fn own(b: &Board, p: i8, pip: usize) -> i32 {
    (b.0[idx(p, pip)] as i32 * p as i32).max(0)
}
pub fn opp(b: &Board, p: i8, pip: usize) -> i32 {
    (-(b.0[idx(p, pip)] as i32 * p as i32)).max(0)
}
pub fn bar(b: &Board, p: i8) -> u8 {
    if p == -1 {
        b.1 .0
    } else {
        b.1 .1
    }
}
pub fn off(b: &Board, p: i8) -> u8 {
    if p == -1 {
        b.2 .0
    } else {
        b.2 .1
    }
}
fn bar_mut(b: &mut Board, p: i8) -> &mut u8 {
    if p == -1 {
        &mut b.1 .0
    } else {
        &mut b.1 .1
    }
}
fn off_mut(b: &mut Board, p: i8) -> &mut u8 {
    if p == -1 {
        &mut b.2 .0
    } else {
        &mut b.2 .1
    }
}

pub fn total(b: &Board, p: i8) -> i32 {
    (1..=24).map(|k| own(b, p, k)).sum::<i32>() + bar(b, p) as i32 + off(b, p) as i32
}

pub fn winner(b: &Board) -> Option<i8> {
    if off(b, -1) == 15 {
        Some(-1)
    } else if off(b, 1) == 15 {
        Some(1)
    } else {
        None
    }
}

pub fn all_home(b: &Board, p: i8) -> bool {
    bar(b, p) == 0 && (7..=24).all(|k| own(b, p, k) == 0)
}

fn land(b: &mut Board, p: i8, pip: usize) {
    if opp(b, p, pip) == 1 {
        b.0[idx(p, pip)] = 0;
        *bar_mut(b, -p) += 1;
    }
    b.0[idx(p, pip)] += p;
}

/// Every way of playing one die.
pub fn steps(b: &Board, p: i8, die: u8) -> Vec<((i8, i8), Board)> {
    let d = die as usize;
    let mut out = vec![];
    if bar(b, p) > 0 {
        let pip = 25 - d;
        if opp(b, p, pip) <= 1 {
            let mut n = *b;
            *bar_mut(&mut n, p) -= 1;
            land(&mut n, p, pip);
            out.push(((-1, idx(p, pip) as i8), n));
        }
        return out;
    }
    for pip in 1..=24usize {
        if own(b, p, pip) == 0 {
            continue;
        }
        let from = idx(p, pip);
        if pip > d {
            if opp(b, p, pip - d) <= 1 {
                let mut n = *b;
                n.0[from] -= p;
                land(&mut n, p, pip - d);
                out.push(((from as i8, idx(p, pip - d) as i8), n));
            }
        } else if all_home(b, p) && (pip == d || (pip + 1..=6).all(|k| own(b, p, k) == 0)) {
            let mut n = *b;
            n.0[from] -= p;
            *off_mut(&mut n, p) += 1;
            out.push(((from as i8, -1), n));
        }
    }
    out
}

/// Plays of the dice that cannot be continued, both orders, with the position they lead to.
pub fn sequences(b: &Board, p: i8, roll: (u8, u8)) -> Vec<(Play, Board)> {
    let mut out = vec![];
    let orders = if roll.0 == roll.1 { vec![[roll.0, roll.1]] } else { vec![[roll.0, roll.1], [roll.1, roll.0]] };
    for o in orders {
        for (s1, b1) in steps(b, p, o[0]) {
            let second = steps(&b1, p, o[1]);
            if second.is_empty() {
                out.push((vec![s1], b1));
            }
            for (s2, b2) in second {
                out.push((vec![s1, s2], b2));
            }
        }
    }
    out
}

/// The legal plays: both dice whenever some order allows it, otherwise either die.
/// (The crate's own tests fix that either die may be chosen if only one can be played.)
pub fn legal(b: &Board, p: i8, roll: (u8, u8)) -> Vec<(Play, Board)> {
    let mut s = sequences(b, p, roll);
    let m = s.iter().map(|x| x.0.len()).max().unwrap_or(0);
    s.retain(|x| x.0.len() == m);
    s
}

/// Follows a play step by step; None if some step is not legal with the dice left.
pub fn follow(b: &Board, p: i8, roll: (u8, u8), play: &[(i8, i8)]) -> Option<Board> {
    fn go(b: &Board, p: i8, dice: &[u8], play: &[(i8, i8)]) -> Option<Board> {
        let Some((first, rest)) = play.split_first() else { return Some(*b) };
        for (k, d) in dice.iter().enumerate() {
            let mut left = dice.to_vec();
            left.remove(k);
            for (s, n) in steps(b, p, *d) {
                if s == *first {
                    if let Some(r) = go(&n, p, &left, rest) {
                        return Some(r);
                    }
                }
            }
        }
        None
    }
    go(b, p, &[roll.0, roll.1], play)
}

/// Structural invariants of a position, as a list of complaints.
pub fn complaints(b: &Board) -> Vec<String> {
    let mut v = vec![];
    for p in [-1i8, 1] {
        if total(b, p) != 15 {
            v.push(format!("player {p} has {} checkers", total(b, p)));
        }
        if bar(b, p) > 15 || off(b, p) > 15 {
            v.push(format!("player {p}: bar {} off {}", bar(b, p), off(b, p)));
        }
    }
    v
}

pub fn mirror(b: &Board) -> Board {
    let mut m = [0i8; 24];
    for i in 0..24 {
        m[23 - i] = -b.0[i];
    }
    (m, (b.1 .1, b.1 .0), (b.2 .1, b.2 .0))
}
