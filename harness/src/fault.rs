//! Running out of memory on request: from the k-th allocation of one library call on, every allocation fails,
//! or only that one.

use serde_json::Value as J;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

/// Allocations left; negative: memory does not run out.
static LEFT: AtomicI64 = AtomicI64::new(-1);
/// Only one allocation fails.
static ONCE: AtomicBool = AtomicBool::new(false);
static HIT: AtomicBool = AtomicBool::new(false);

/// Whether this allocation fails. Called by the allocator.
pub fn now() -> bool {
    match LEFT.load(SeqCst) {
        n if n < 0 => false,
        0 => {
            HIT.store(true, SeqCst);
            if ONCE.load(SeqCst) {
                LEFT.store(-1, SeqCst);
            }
            true
        }
        n => {
            LEFT.store(n - 1, SeqCst);
            false
        }
    }
}

/// Starts the shortage that the call asks for, if any.
pub fn arm(op: &J) {
    if let Some(k) = op["oom"].as_i64() {
        ONCE.store(op["once"] == true, SeqCst);
        LEFT.store(k, SeqCst);
    }
}
pub fn disarm() {
    LEFT.store(-1, SeqCst);
}

/// Runs one library call under the shortage that `op` asks for. (What it returns must not be dropped inside.)
pub fn short<T>(op: &J, f: impl FnOnce() -> T) -> T {
    arm(op);
    let r = f();
    disarm();
    r
}

/// Whether an allocation failed since the last question.
pub fn hit() -> bool {
    HIT.swap(false, SeqCst)
}
