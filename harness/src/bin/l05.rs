//! L05: an interrupted learning run keeps what it had finished.
//! (1) in one process: what is on disk whenever a game begins; (2) the program itself, ended at
//! every call that changes a file (see shim/crash.c), and what is left looked at.
use die_e::alphazero::alphazero::AlphaZero;
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use tch::Tensor;
use vh::hashgame::HashGame;
use vh::mon::{self, Mon};
use vh::net::{vars, Conf};
use vh::work::hg;
use vh::*;

type M = Mon<HashGame>;
type Tree = BTreeMap<PathBuf, u64>;

fn tree(d: &Path) -> Tree {
    let mut m = BTreeMap::new();
    if let Ok(it) = std::fs::read_dir(d) {
        for e in it.flatten() {
            if e.path().is_dir() {
                m.extend(tree(&e.path()));
            } else {
                m.insert(e.path(), hash_of(&std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    m
}

/// the directories that hold the data of one self-play
fn self_plays(d: &Path) -> BTreeSet<PathBuf> {
    let mut s = BTreeSet::new();
    if let Ok(it) = std::fs::read_dir(d) {
        for e in it.flatten().filter(|e| e.path().is_dir()) {
            if e.file_name().to_string_lossy().starts_with("sp-") {
                s.insert(e.path());
            } else {
                s.extend(self_plays(&e.path()));
            }
        }
    }
    s
}

/// When each self-play's data and each model came to be on disk, by the number of games begun.
fn order(c: &mut Check, r: &mut Rng, runs: usize) {
    let cwd = std::env::current_dir().unwrap();
    let data = cwd.join("data").join(M::name());
    let models = cwd.join("models").join(M::name());
    for k in 0..runs {
        if c.out_of_time() || c.full() {
            return;
        }
        let mut h = hg(r);
        h.min_len = 2;
        vh::hashgame::configure(h);
        let _ = std::fs::remove_dir_all(&data);
        if k % 2 == 0 {
            let _ = std::fs::remove_dir_all(&models);
        }
        let cfg = Conf {
            learn_iterations: r.range(1, 3) as usize,
            self_play_iterations: r.range(1, 4) as usize,
            num_epochs: r.range(0, 2) as usize,
            num_self_play_batches: r.range(1, 6) as usize,
            iterations: *r.pick(&[1, 3]),
            simulate_round_limit: *r.pick(&[3, 400]),
            ..Conf::default()
        };
        let wit = json!({"conf": cfg.toml(), "synthetic": format!("{h:?}"), "run": k});
        let Some(mut az) = c.run("new", "new", || wit.clone(), || cfg.alphazero::<M>(None)) else { continue };
        let seen: Arc<Mutex<Vec<Tree>>> = Arc::default();
        let (s2, d2, m2) = (seen.clone(), data.clone(), models.clone());
        *mon::WATCH.lock().unwrap() = Some(Box::new(move || {
            let mut t = tree(&d2);
            t.extend(tree(&m2));
            let mut s = s2.lock().unwrap();
            // a run of equal sights counts once
            if s.last() != Some(&t) {
                s.push(t);
            }
        }));
        let ok = c.run("learn", "learn_parallel", || wit.clone(), || az.learn_parallel::<M>());
        *mon::WATCH.lock().unwrap() = None;
        if ok.is_none() {
            continue;
        }
        c.eval();
        c.count("learning_runs", 1);
        let sights = seen.lock().unwrap().clone();
        let end = tree(&cwd.join("data"));
        let when = |fs: &[PathBuf], last: &Tree| sights.iter().position(|t| fs.iter().all(|f| t.contains_key(f) && t.get(f) == last.get(f)));
        let Some(run) = std::fs::read_dir(&data).ok().and_then(|mut i| i.next()).and_then(|e| e.ok()).map(|e| e.path()) else { continue };
        let mut before: Option<(String, usize)> = None;
        let all: Vec<(usize, usize)> = (0..cfg.learn_iterations).flat_map(|l| (0..cfg.self_play_iterations).map(move |s| (l, s))).collect();
        for (i, &(l, s)) in all.iter().enumerate() {
            let name = format!("lrn-{l}/sp-{s}");
            let fs: Vec<PathBuf> = ["ps.ot", "states.ot", "outcomes.ot"].iter().map(|f| run.join(&name).join(f)).collect();
            if !fs.iter().all(|f| end.contains_key(f)) {
                break; // L04's business
            }
            // the data of the last one of all may come after the last game
            let Some(t) = when(&fs, &end) else {
                if i + 1 < all.len() {
                    c.violation("late", &format!("the data of {name} is not on disk before the run's last game begins"), wit.clone());
                }
                continue;
            };
            c.count("self_plays_dated", 1);
            c.nontrivial(hash_of(&(k, l, s)));
            if let Some((b, u)) = &before {
                if t <= *u {
                    c.violation("together", &format!("the data of {b} only comes to the disk together with that of {name}"), wit.clone());
                }
            }
            before = Some((name, t));
            // the model of the iteration before is there when the next one's data comes
            if l > 0 {
                let m = models.join(format!("model_{}.ot", l - 1));
                c.count("models_dated", 1);
                let whole = tree(&models).get(&m).copied();
                if sights[t].get(&m).copied() != whole || sights[..t].iter().all(|x| x.get(&m).copied() != whole) {
                    c.violation("model-late", &format!("the model of iteration {} is not on disk before the games of iteration {l} are over", l - 1), wit.clone());
                }
            }
        }
    }
}

fn weights(p: &Path) -> Option<BTreeMap<String, Vec<f32>>> {
    guarded(|| vars(&ResNet::from_path::<TicTacToe>(&p.to_path_buf()).vs)).ok().map(|m| m.into_iter().filter(|(k, _)| !k.contains("running")).collect())
}

/// A network that plays the squares in a fixed order of preference.
fn prefers(r: &mut Rng, order: &[usize]) -> ResNet {
    let n = net::net::<TicTacToe>(r, 1.0);
    let _g = tch::no_grad_guard();
    for (_, mut t) in n.vs.variables() {
        let s = t.size();
        if s.len() == 2 && s[0] == 9 {
            let _ = t.zero_();
        } else if s == [9] {
            let mut b = [-12f32; 9];
            for (k, &i) in order.iter().enumerate() {
                b[i] = 3.0 - 3.0 * k as f32;
            }
            t.copy_(&Tensor::from_slice(&b));
        }
    }
    n
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Best {
    None,
    Weaker,
    Better,
}

struct Stage {
    best: Best,
    cfg: Conf,
    good: PathBuf,
    bad: PathBuf,
    shim: PathBuf,
}

/// One interrupted run.
struct Crash {
    at: usize,
    dir: Scratch,
    before: Tree,
    /// the calls made: what, to which file
    calls: Vec<(String, PathBuf)>,
    killed: bool,
}

impl Stage {
    fn set_up(&self) -> Scratch {
        let s = Scratch::new("l05");
        let d = s.path();
        std::fs::write(d.join("conf.toml"), self.cfg.toml()).unwrap();
        std::fs::copy(&self.good, d.join("good.ot")).unwrap();
        let old = d.join("data").join(TicTacToe::name()).join("run-older").join("lrn-0").join("sp-0");
        std::fs::create_dir_all(&old).unwrap();
        for f in ["ps.ot", "states.ot", "outcomes.ot"] {
            std::fs::write(old.join(f), format!("older {f}")).unwrap();
        }
        let models = d.join("models").join(TicTacToe::name());
        std::fs::create_dir_all(&models).unwrap();
        std::fs::write(models.join("mine.ot"), "my own").unwrap();
        match self.best {
            Best::None => 0,
            Best::Weaker => std::fs::copy(&self.bad, models.join("best_model.ot")).unwrap(),
            Best::Better => std::fs::copy(&self.good, models.join("best_model.ot")).unwrap(),
        };
        s
    }
    fn start(&self) -> &'static str {
        if self.best == Best::Better { "bad.ot" } else { "good.ot" }
    }
    fn learn(&self, at: usize) -> Crash {
        let dir = self.set_up();
        let d = dir.path().canonicalize().unwrap();
        if self.best == Best::Better {
            std::fs::copy(&self.bad, d.join("bad.ot")).unwrap();
        }
        let before = tree(&d);
        let log = d.with_extension("log");
        let _ = std::fs::remove_file(&log);
        let st = Command::new("timeout")
            .args(["-s", "TERM", "200"])
            .arg(std::env::var("VERIF_CLI").expect("VERIF_CLI"))
            .args(["-c", "conf.toml", "-n", "1", "-g", "tic-tac-toe", "learn", "-m", self.start()])
            .current_dir(&d)
            .env("OMP_NUM_THREADS", "1")
            .env("CRASH_ROOT", format!("{}/", d.display()))
            .env("CRASH_LOG", &log)
            .env("CRASH_AT", at.to_string())
            .env("LD_PRELOAD", &self.shim)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        let calls = std::fs::read_to_string(&log)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(4, ' ');
                let (_, what, _, path) = (p.next()?, p.next()?, p.next()?, p.next()?);
                Some((what.to_string(), d.join(path.strip_prefix("./").unwrap_or(path))))
            })
            .collect();
        let _ = std::fs::remove_file(&log);
        use std::os::unix::process::ExitStatusExt;
        let killed = st.is_ok_and(|s| s.signal() == Some(9) || s.code() == Some(137));
        Crash { at, dir, before, calls, killed }
    }
    fn command(&self, d: &Path, args: &[&str]) -> cli::Ran {
        cli::run(d, args, "", 200)
    }
}

/// ok, not all there, or cannot be read
#[derive(PartialEq, Debug)]
enum Data {
    Whole,
    Missing,
    Broken,
}
fn state_of(sp: &Path) -> Data {
    if ["ps.ot", "states.ot", "outcomes.ot"].iter().any(|f| !sp.join(f).is_file()) {
        return Data::Missing;
    }
    let rows = |f: &str| Tensor::load(sp.join(f)).ok().map(|t| t.size()[0]);
    let (a, b, c) = (rows("ps.ot"), rows("states.ot"), rows("outcomes.ot"));
    if a.is_none() || a != b || b != c || guarded(|| AlphaZero::load_training_data(sp)).is_err() {
        return Data::Broken;
    }
    Data::Whole
}

fn name_of(p: &Path) -> String {
    p.file_name().map(|s| s.to_string_lossy().to_string()).unwrap_or_default()
}

fn judge(c: &mut Check, st: &Stage, k: &Crash, good: &BTreeMap<String, Vec<f32>>, bad: &BTreeMap<String, Vec<f32>>) -> Value {
    let d = k.dir.path().canonicalize().unwrap();
    let (what, last) = k.calls.last().cloned().unwrap_or_default();
    let rel = last.strip_prefix(&d).unwrap_or(&last).display().to_string();
    let wit = json!({"best_model": format!("{:?}", st.best), "conf": st.cfg.toml(), "ended_at_call": k.at, "call": what, "file": rel});
    c.eval();
    c.count("interruptions", 1);
    c.count(&format!("at_{what}"), 1);
    c.nontrivial(hash_of(&(format!("{:?}", st.best), &what, name_of(&last), k.at)));
    let models = d.join("models").join(TicTacToe::name());
    let best = models.join("best_model.ot");
    // what was there before the run
    for (p, h) in &k.before {
        if *p != best && std::fs::read(p).map(|b| hash_of(&b)).ok() != Some(*h) {
            c.violation("older", &format!("a file from before the run is changed or gone: {}", p.strip_prefix(&d).unwrap_or(p).display()), wit.clone());
        }
    }
    // the best model is the old or the new one
    let w = if best.exists() { Some(weights(&best)) } else { None };
    let started = if st.best == Best::Better { bad } else { good };
    let fine = match (&w, st.best) {
        (None, Best::None) => true,
        (None, _) => false,
        (Some(None), _) => false,
        (Some(Some(w)), Best::None) => w == started,
        (Some(Some(w)), Best::Weaker) => w == bad || w == good,
        (Some(Some(w)), Best::Better) => w == good,
    };
    if !fine {
        c.violation("best", &format!("interrupted in {what} of {rel}, the best model is {}", match w { None => "gone", Some(None) => "no network any more", _ => "another one" }), wit.clone());
    }
    if let Some(Some(w)) = &w {
        c.count(if w == good { "best_good" } else { "best_bad" }, 1);
    }
    // the models of iterations that were over
    for e in std::fs::read_dir(&models).into_iter().flatten().flatten() {
        if name_of(&e.path()).starts_with("model_") && e.path() != last {
            c.count("models_left", 1);
            if weights(&e.path()).as_ref() != Some(started) {
                c.violation("model", &format!("interrupted in {what} of {rel}, {} is not whole", name_of(&e.path())), wit.clone());
            }
        }
    }
    // the data of self-plays that were over
    for sp in self_plays(&d.join("data")).into_iter().filter(|s| !s.components().any(|x| x.as_os_str() == "run-older")) {
        if last.starts_with(&sp) || std::fs::read_dir(&sp).is_ok_and(|mut i| i.next().is_none()) {
            c.count("self_plays_unfinished", 1);
            continue;
        }
        c.count("self_plays_left", 1);
        let s = state_of(&sp);
        if s != Data::Whole {
            c.violation("data", &format!("interrupted in {what} of {rel}, the data of {} is {s:?}", sp.strip_prefix(&d).unwrap_or(&sp).display()), wit.clone());
        }
    }
    wit
}

/// what the program makes of the remains
fn afterwards(st: &Stage, k: &Crash) -> (Option<(bool, bool, cli::Ran)>, (cli::Ran, Option<PathBuf>, Vec<PathBuf>)) {
    let d = k.dir.path().canonicalize().unwrap();
    let runs: Vec<PathBuf> = std::fs::read_dir(d.join("data").join(TicTacToe::name())).into_iter().flatten().flatten().map(|e| e.path()).filter(|p| name_of(p) != "run-older").collect();
    let sps: Vec<PathBuf> = runs.iter().flat_map(|r| self_plays(r)).collect();
    let train = (runs.len() == 1 && !sps.is_empty()).then(|| {
        let whole = sps.iter().all(|s| state_of(s) == Data::Whole);
        let id = name_of(&runs[0]).trim_start_matches("run-").to_string();
        let ran = st.command(&d, &["-c", "conf.toml", "-g", "tic-tac-toe", "train", &format!("--run-id={id}"), "--model-path", "good.ot", "--out-path", "trained.ot"]);
        let made = d.join("trained.ot").exists();
        (whole, made, ran)
    });
    let _ = std::fs::remove_file(d.join("trained.ot"));
    // starting again without naming a model
    let again = {
        let kept = tree(&d.join("data"));
        let ran = st.command(&d, &["-c", "conf.toml", "-g", "tic-tac-toe", "learn"]);
        let now = tree(&d.join("data"));
        let lost = kept.iter().filter(|(p, h)| now.get(*p) != Some(h)).map(|x| x.0.clone()).collect();
        let m = d.join("models").join(TicTacToe::name()).join("model_0.ot");
        (ran, m.exists().then_some(m), lost)
    };
    (train, again)
}

fn sweep(c: &mut Check, st: &Stage, every: bool) {
    let (good, bad) = (weights(&st.good).unwrap(), weights(&st.bad).unwrap());
    let base = st.learn(0);
    if base.calls.len() < 10 {
        c.count("shim_not_working", 1);
        return;
    }
    // all changes of files, writes of one file only at its beginning, middle and end
    let n = base.calls.len();
    let mut points = vec![];
    let mut i = 0;
    while i < n {
        let mut j = i;
        while j + 1 < n && base.calls[j + 1] == base.calls[i] {
            j += 1;
        }
        if every || j - i < 3 {
            points.extend(i + 1..=j + 1);
        } else {
            points.extend([i + 1, (i + j) / 2 + 1, j + 1]);
        }
        i = j + 1;
    }
    c.count("calls_changing_files", n as u64);
    drop(base);
    let mut classes = BTreeSet::new();
    for chunk in points.chunks(12) {
        if c.out_of_time() || c.full() {
            return;
        }
        let crashes: Vec<Crash> = chunk.par_iter().map(|&k| st.learn(k)).collect();
        let mut look = vec![];
        for k in crashes {
            if !k.killed || k.calls.len() != k.at {
                c.count("not_interrupted", 1);
                continue;
            }
            let wit = judge(c, st, &k, &good, &bad);
            let (what, last) = k.calls.last().unwrap();
            let kind = if what == "mkdir" { name_of(last).chars().take(3).collect() } else { name_of(last) };
            if classes.insert((what.clone(), kind)) {
                look.push((k, wit));
            }
        }
        // the state of each best model before anything else is done
        let bests: Vec<_> = look.iter().map(|(k, _)| weights(&k.dir.path().join("models").join(TicTacToe::name()).join("best_model.ot"))).collect();
        let after: Vec<_> = look.par_iter().map(|(k, _)| afterwards(st, k)).collect();
        for (((k, wit), best), (train, again)) in look.iter().zip(bests).zip(after) {
            let had = k.dir.path().join("models").join(TicTacToe::name()).join("best_model.ot").exists();
            if let Some((whole, made, ran)) = train {
                c.eval();
                c.count(if whole { "trained_afterwards" } else { "training_refused" }, 1);
                if whole != ran.ok || whole != made {
                    c.violation("train", &format!("training on the interrupted run {}: {}", if whole { "fails" } else { "is done although its data is not whole" }, ran.tail()), wit.clone());
                }
            }
            let (ran, model, lost) = again;
            c.eval();
            c.count("learned_afterwards", 1);
            if !ran.ok {
                c.violation("again", &format!("learning cannot be started again after the interruption: {}", ran.tail()), wit.clone());
            } else if best.is_some() && had && model.as_deref().and_then(weights) != best {
                c.violation("again-from", "learning started again does not go on from the best model", wit.clone());
            }
            if let Some(p) = lost.first() {
                c.violation("again-data", &format!("learning started again changes or removes {} files of data, like {}", lost.len(), p.display()), wit.clone());
            }
        }
    }
}

fn main() {
    let mut c = Check::new(
        "L05",
        "A case is one learning run: either watched from inside (what is on disk whenever a game begins), or the program itself ended at one call that changes a file, with \
         everything left behind examined and used again. Non-trivial: distinct self-plays dated, distinct points of interruption.",
    );
    let mut r = c.rng(1);
    let runs = c.n(12, 120);
    order(&mut c, &mut r, runs);
    let s = Scratch::new("l05m");
    let shim = s.path().join("crash.so");
    let src = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into())).join("harness/shim/crash.c");
    let built = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&shim).arg(&src).arg("-ldl").status().is_ok_and(|s| s.success());
    let (good, bad) = (s.path().join("good.ot"), s.path().join("bad.ot"));
    prefers(&mut r, &[0, 1, 2]).vs.save(&good).unwrap();
    prefers(&mut r, &[8, 3, 5]).vs.save(&bad).unwrap();
    for (i, best) in [Best::Weaker, Best::None, Best::Better].into_iter().enumerate() {
        if !built {
            break;
        }
        // nothing is learned at rate 0, so that what comes out is what went in
        let cfg = Conf {
            learn_iterations: 2,
            self_play_iterations: if i == 0 { 2 } else { 1 },
            num_epochs: 1,
            num_self_play_batches: 2,
            iterations: 1,
            dirichlet_epsilon: 0.0,
            temperature: 0.5,
            lr: 0.0,
            wd: 0.0,
            ..Conf::default()
        };
        let st = Stage { best, cfg, good: good.clone(), bad: bad.clone(), shim: shim.clone() };
        let every = c.thorough;
        sweep(&mut c, &st, every);
    }
    for (t, n) in [("learning_runs", 8), ("self_plays_dated", 20), ("models_dated", 5), ("interruptions", 80), ("at_mkdir", 10), ("at_open", 15), ("at_write", 30), ("best_good", 10), ("best_bad", 10), ("self_plays_left", 50), ("models_left", 20), ("trained_afterwards", 5), ("training_refused", 4), ("learned_afterwards", 15)] {
        c.require(t, n);
    }
    c.finish()
}
