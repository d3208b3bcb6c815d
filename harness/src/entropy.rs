//! Deterministic entropy: the code under test draws everything from
//! rand::thread_rng(), which is seeded from getrandom(2).  Both routes to it
//! (libc::getrandom and libc::syscall(SYS_getrandom)) are defined here, so a
//! run is a function of VERIF_SEED (thread schedules aside) and `with_entropy`
//! can replay the same random choices in a fresh thread.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

static GLOBAL: AtomicU64 = AtomicU64::new(0x9E37_79B9_7F4A_7C15);

thread_local! {
    static LOCAL: Cell<Option<u64>> = const { Cell::new(None) };
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn next() -> u64 {
    const G: u64 = 0x9E37_79B9_7F4A_7C15;
    let local = LOCAL.try_with(|l| {
        l.get().map(|s| {
            let s = s.wrapping_add(G);
            l.set(Some(s));
            s
        })
    });
    match local {
        Ok(Some(s)) => mix(s),
        _ => mix(GLOBAL.fetch_add(G, Ordering::Relaxed).wrapping_add(G)),
    }
}

fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let w = next().to_le_bytes();
        for b in w {
            if i < len {
                unsafe { *buf.add(i) = b };
                i += 1;
            }
        }
    }
}

pub fn seed_global(seed: u64) {
    GLOBAL.store(mix(seed ^ 0x5EED_5EED), Ordering::SeqCst);
}

/// Runs f in a fresh thread whose thread_rng() is a function of `seed` alone.
pub fn with_entropy<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                LOCAL.with(|l| l.set(Some(mix(seed ^ 0xE27_0907))));
                f()
            })
            .unwrap()
            .join()
    })
}

/// The same for a thread that is there already and has not drawn anything yet.
pub fn local(seed: u64) {
    LOCAL.with(|l| l.set(Some(mix(seed ^ 0xE27_0907))));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 {
        fill(a as *mut u8, b as usize);
        return b;
    }
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&ret) {
        *__errno_location() = -ret as i32;
        return -1;
    }
    ret
}
