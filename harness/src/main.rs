//! Executes scripts of API calls against yason and reports what was observed.
//! It contains no expectation of any result: the TLA+ specification judges.
//!
//! stdin: one case per line, {"id": .., "ops": [{"op": .., ..}, ..]}.
//! stdout: one line per executed call, `id <TAB> index <TAB> result`, and a line
//! `id <TAB> end` once a case is done, so that a crash is attributed to its call.

mod big;
mod build;
mod fault;
mod obs;
mod query;

use obs::*;
use serde_json::Value as J;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yason::{Yason, YasonBuf};

/// Memory that was never written reads as 0xA5 and freed memory as 0xDD, so that a document holding either shows it.
struct Poison;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if fault::now() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() && l.size() < 1 << 24 {
            p.write_bytes(0xA5, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() < 1 << 24 {
            p.write_bytes(0xDD, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if fault::now() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.size().max(new) >= 1 << 24 {
            if fault::now() {
                return std::ptr::null_mut();
            }
            return System.realloc(p, l, new);
        }
        // Always moves.
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            q.copy_from_nonoverlapping(p, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static MEMORY: Poison = Poison;

/// A document register. Documents are leaked: a case is short-lived and views must outlive calls.
#[derive(Clone, Copy)]
pub struct Doc(pub &'static Yason);

pub struct Ctx {
    pub docs: BTreeMap<u64, Doc>,
    pub qbuf: Vec<yason::Value<'static>>,
    pub rbuf: Vec<u8>,
    /// Paths compiled in this case: the same text is compiled once.
    pub paths: BTreeMap<String, &'static yason::PathExpression>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs one call; a panic is an observation, and ends the case.
pub fn guarded<F: FnOnce() -> String>(f: F) -> Result<String, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    fault::disarm();
    match r {
        Ok(s) => Ok(s),
        Err(_) => Err(format!(
            "{{\"ok\":false,\"panic\":{}}}",
            jstr(&PANIC.with(|p| p.borrow().clone()))
        )),
    }
}

pub struct Out<'a> {
    pub id: &'a str,
    pub out: std::io::StdoutLock<'static>,
    /// Whether memory ran out in the last call that was made.
    pub short: bool,
}

impl Out<'_> {
    pub fn emit(&mut self, i: usize, r: &str) {
        if r != SKIP {
            self.short = fault::hit();
        }
        if self.short && r != SKIP {
            writeln!(self.out, "{}\t{}\t{{\"fault\":true,{}", self.id, i, &r[1..]).unwrap();
        } else {
            writeln!(self.out, "{}\t{}\t{}", self.id, i, r).unwrap();
        }
        self.out.flush().unwrap();
    }

    /// Calls marked `again` are made only if memory ran out in the call before.
    pub fn idle(&self, op: &J) -> bool {
        op["again"].as_bool() == Some(true) && !self.short
    }
}

pub const SKIP: &str = "{\"ok\":false,\"skip\":true}";

fn simple_op(ctx: &mut Ctx, op: &J) -> String {
    match s(op, "op") {
        "parse" => build::parse(ctx, op),
        "scalar" => build::scalar(ctx, op),
        "walk" => obs::walk(ctx, op),
        "fmt" => obs::fmt(ctx, op),
        "root" => obs::root(ctx, op),
        "types" => obs::types(op),
        "arr" => obs::arr(ctx, op),
        "obj" => obs::obj(ctx, op),
        "eq" => obs::eq(ctx, op),
        "cut" => obs::cut(ctx, op),
        "rt" => obs::round_trip(ctx, op),
        "ext" => obs::extract(ctx, op),
        "path" => query::path(op),
        "query" => query::query(ctx, op),
        "exists" => query::exists(ctx, op),
        "qinit" => {
            ctx.qbuf.clear();
            ctx.rbuf = bytes_of(op, "pre");
            "{\"ok\":true}".to_string()
        }
        "big" | "fill" => big::run(op),
        "load" => big::load(ctx, op),
        x => panic!("harness: unknown op {x}"),
    }
}

fn run_case(id: &str, ops: &[J]) {
    let mut ctx = Ctx {
        docs: BTreeMap::new(),
        qbuf: Vec::new(),
        paths: BTreeMap::new(),
        rbuf: Vec::new(),
    };
    let mut out = Out {
        id,
        out: std::io::stdout().lock(),
        short: false,
    };
    let mut i = 0;
    while i < ops.len() {
        let name = s(&ops[i], "op");
        if out.idle(&ops[i]) {
            out.emit(i, SKIP);
            i += 1;
            continue;
        }
        if name == "b_root" {
            match build::session(&mut ctx, ops, i, &mut out) {
                Some(next) => i = next,
                None => break,
            }
            continue;
        }
        let r = if name.starts_with("b_") {
            Ok(SKIP.to_string())
        } else {
            guarded(|| simple_op(&mut ctx, &ops[i]))
        };
        match r {
            Ok(r) => out.emit(i, &r),
            Err(r) => {
                out.emit(i, &r);
                break;
            }
        }
        i += 1;
    }
    writeln!(out.out, "{}\tend", id).unwrap();
    out.out.flush().unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        fault::disarm();
        PANIC.with(|p| *p.borrow_mut() = info.to_string())
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let case: J = serde_json::from_str(&line).expect("case");
        let ops: Vec<J> = case["ops"].as_array().expect("ops").clone();
        let id = case["id"].as_str().expect("id").to_string();
        // A thread with the stack size programs usually get.
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || run_case(&id, &ops))
            .unwrap()
            .join()
            .expect("harness failure");
    }
}

pub fn leak(buf: YasonBuf) -> &'static Yason {
    let b: &'static YasonBuf = Box::leak(Box::new(buf));
    b
}
