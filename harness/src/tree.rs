//! Oracles over finished search trees.

use crate::mon::Inner;
use die_e::base::LearnableGame;
use die_e::verif_hooks::{self, TreeSnap};

#[derive(Clone, Debug)]
pub struct N<T: LearnableGame> {
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub visits: f64,
    pub value: f64,
    pub policy: f64,
    pub action: Option<T::Move>,
    pub n_expandable: usize,
    pub state: T,
}

#[derive(Clone, Debug)]
pub struct Tree<T: LearnableGame> {
    pub kind: &'static str,
    pub iterations: usize,
    pub nodes: Vec<N<T>>,
}

pub fn parse<T: LearnableGame>(s: TreeSnap) -> Tree<T> {
    Tree {
        kind: s.kind,
        iterations: s.iterations,
        nodes: s
            .nodes
            .into_iter()
            .map(|n| N {
                parent: n.parent,
                children: n.children,
                visits: n.visits as f64,
                value: n.value as f64,
                policy: n.policy as f64,
                action: n.action.map(|a| serde_json::from_str(&a).expect("move")),
                n_expandable: n.n_expandable,
                state: serde_json::from_str(&n.state).expect("state"),
            })
            .collect(),
    }
}

/// Runs `f` with tree reporting on and returns the trees it built.
pub fn observe<T: LearnableGame, R>(f: impl FnOnce() -> R) -> (R, Vec<Tree<T>>) {
    let busy = format!("\"id\":{}", crate::crowd::ID);
    verif_hooks::take_trees();
    verif_hooks::enable(true);
    let r = f();
    verif_hooks::enable(false);
    (r, verif_hooks::take_trees().into_iter().filter(|t| !t.nodes.first().is_some_and(|n| n.state.contains(&busy))).map(parse).collect())
}

impl<T: Inner> Tree<T> {
    pub fn roots(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| self.nodes[i].parent.is_none()).collect()
    }
    /// who picks node i (the player to move at its parent; a root is its own)
    pub fn picker(&self, i: usize) -> i8 {
        self.nodes[self.nodes[i].parent.unwrap_or(i)].state.get_player()
    }
    pub fn child_visits(&self, i: usize) -> f64 {
        self.nodes[i].children.iter().map(|&c| self.nodes[c].visits).sum()
    }
    /// sum of results backed up at the node itself, from the view of the player to move there
    pub fn own_value(&self, i: usize) -> f64 {
        let me = self.nodes[i].state.get_player() as f64;
        let mut v = self.nodes[i].value * self.picker(i) as f64;
        for &c in &self.nodes[i].children {
            v -= self.nodes[c].value * self.picker(c) as f64;
        }
        v * me
    }
    pub fn own_visits(&self, i: usize) -> f64 {
        self.nodes[i].visits - self.child_visits(i)
    }

    /// Parent/child links, legality and completeness of expansions, positions.
    pub fn structure(&self) -> Vec<(&'static str, String)> {
        let mut v = vec![];
        for (i, n) in self.nodes.iter().enumerate() {
            let over = n.state.check_winner().is_some();
            let legal = if over { vec![] } else { n.state.get_valid_moves() };
            if let Some(p) = n.parent {
                if p >= self.nodes.len() || self.nodes[p].children.iter().filter(|&&c| c == i).count() != 1 {
                    v.push(("links", format!("node {i} is not once among the children of its parent {p}")));
                    continue;
                }
                match &n.action {
                    None => v.push(("links", format!("node {i} has no action"))),
                    Some(a) => {
                        if !self.nodes[p].state.follows(a, &n.state) {
                            v.push(("position", format!("node {i} is not what {:?} leads to from {:?}: {:?}", a, self.nodes[p].state, n.state)));
                        }
                    }
                }
            }
            let mut acts: Vec<T::Move> = vec![];
            for &c in &n.children {
                if c >= self.nodes.len() || self.nodes[c].parent != Some(i) {
                    v.push(("links", format!("child {c} of node {i} does not point back")));
                    continue;
                }
                if let Some(a) = self.nodes[c].action.clone() {
                    if acts.contains(&a) {
                        v.push(("duplicate", format!("node {i} has two children for {a:?}")));
                    }
                    if !legal.contains(&a) {
                        v.push(("illegal", format!("node {i} has a child for {a:?}, not a legal move in {:?}", n.state)));
                    }
                    acts.push(a);
                }
            }
            if over && !n.children.is_empty() {
                v.push(("over", format!("finished game {:?} was expanded", n.state)));
            }
            if !over {
                let complete = if self.kind == "mcts" {
                    n.children.len() + n.n_expandable == legal.len()
                } else {
                    n.children.len() == legal.len() || (n.children.is_empty() && n.visits == 0.0)
                };
                if !complete {
                    v.push(("complete", format!("node {i}: {} children, {} waiting, {} legal moves in {:?}", n.children.len(), n.n_expandable, legal.len(), n.state)));
                }
            }
            if v.len() > 5 {
                break;
            }
        }
        v
    }

    /// Visit counts add up: every iteration is counted once on each node of its path.
    pub fn conservation(&self) -> Vec<(&'static str, String)> {
        let mut v = vec![];
        let it = self.iterations as f64;
        for (i, n) in self.nodes.iter().enumerate() {
            let own = self.own_visits(i);
            let over = n.state.check_winner().is_some();
            if n.visits < 0.0 || n.visits.fract() != 0.0 {
                v.push(("count", format!("node {i}: visits {}", n.visits)));
            }
            if n.parent.is_none() {
                let extra = if self.kind == "mcts" { 0.0 } else { 1.0 };
                if n.visits < it || n.visits > it + extra {
                    v.push(("root", format!("root {i}: {} visits after {} iterations", n.visits, it)));
                }
                let want = if n.children.is_empty() { 0.0 } else { it };
                if self.child_visits(i) != want {
                    v.push(("root-children", format!("root {i}: children hold {} visits after {} iterations", self.child_visits(i), it)));
                }
            } else {
                let blocked = !over && n.children.is_empty() && n.n_expandable == 0;
                let ok = if n.visits == 0.0 {
                    self.kind != "mcts" && n.children.is_empty() && n.value == 0.0
                } else if over || blocked {
                    own == n.visits
                } else {
                    own == 1.0
                };
                if !ok {
                    v.push(("node", format!("node {i}: {} visits, children hold {}, value {} (over {over}, blocked {blocked})", n.visits, self.child_visits(i), n.value)));
                }
            }
            if !(n.value.abs() <= n.visits * (1.0 + 1e-5) + 1e-4) {
                v.push(("range", format!("node {i}: value {} over {} visits", n.value, n.visits)));
            }
            if v.len() > 5 {
                break;
            }
        }
        v
    }
}
