//! The command line program, run in a directory of its own.

use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran {
    pub ok: bool,
    /// ended by itself within the time allowed
    pub ended: bool,
    pub out: String,
    pub err: String,
}

pub fn run(cwd: &Path, args: &[&str], stdin: &str, limit: u64) -> Ran {
    let exe = std::env::var("VERIF_CLI").expect("VERIF_CLI");
    let (o, e) = (cwd.join(".out"), cwd.join(".err"));
    let mut child = Command::new(exe)
        .args(args)
        .current_dir(cwd)
        .env("OMP_NUM_THREADS", "1")
        .stdin(Stdio::piped())
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(std::fs::File::create(&e).unwrap())
        .spawn()
        .expect("cannot start the command line program");
    {
        use std::io::Write;
        let mut s = child.stdin.take().unwrap();
        let _ = s.write_all(stdin.as_bytes());
    }
    let t = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if t.elapsed() > Duration::from_secs(limit) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let r = Ran {
        ok: status.is_some_and(|s| s.success()),
        ended: status.is_some(),
        out: String::from_utf8_lossy(&std::fs::read(&o).unwrap_or_default()).into(),
        err: String::from_utf8_lossy(&std::fs::read(&e).unwrap_or_default()).into(),
    };
    let _ = std::fs::remove_file(o);
    let _ = std::fs::remove_file(e);
    r
}

/// The same, on a disk that takes no file of more than `blocks` kB (what is printed does not count).
pub fn run_cramped(cwd: &Path, args: &[&str], blocks: u32, limit: u64) -> Option<bool> {
    let exe = std::env::var("VERIF_CLI").expect("VERIF_CLI");
    let st = Command::new("timeout")
        .arg(limit.to_string())
        .args(["bash", "-c", "trap '' XFSZ; ulimit -f \"$0\" || exit 77; exec \"$@\" >/dev/null 2>&1 </dev/null"])
        .arg(blocks.to_string())
        .arg(exe)
        .args(args)
        .current_dir(cwd)
        .env("OMP_NUM_THREADS", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    // none: no answer about the program
    (!matches!(st.code(), Some(77) | Some(124) | Some(127) | Some(126))).then(|| st.success())
}

impl Ran {
    pub fn tail(&self) -> String {
        let f = |s: &str| s.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ").chars().take(400).collect::<String>();
        format!("stdout: {} stderr: {}", f(&self.out), f(&self.err))
    }
}

