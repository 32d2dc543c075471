//! Producing documents: scalars, JSON, and builder sessions.

use crate::fault::{arm, disarm, short};
use crate::obs::*;
use crate::{guarded, leak, Ctx, Doc, Out, SKIP};
use serde_json::Value as J;
use yason::*;

/// A caller's vector: given contents, given capacity, optionally stale bytes in the spare capacity.
fn target(op: &J) -> &'static mut Vec<u8> {
    let pre = bytes_of(op, "pre");
    let cap = n(op, "cap") as usize;
    let mut v: Vec<u8> = Vec::with_capacity(pre.len() + cap);
    if b(op, "dirty") {
        v.resize(v.capacity(), 0xAA);
        v.clear();
    }
    v.extend_from_slice(&pre);
    Box::leak(Box::new(v))
}

fn made(ctx: &mut Ctx, reg: u64, y: &'static Yason, buf: Option<&Vec<u8>>) -> String {
    ctx.docs.insert(reg, Doc(y));
    match buf {
        None => format!("{{\"ok\":true,\"bytes\":{}}}", jbytes(y.as_bytes())),
        Some(v) => format!(
            "{{\"ok\":true,\"bytes\":{},\"buf\":{}}}",
            jbytes(y.as_bytes()),
            jbytes(v)
        ),
    }
}

fn refused(err: String, buf: Option<&Vec<u8>>) -> String {
    match buf {
        None => format!("{{\"ok\":false,\"err\":{err}}}"),
        Some(v) => format!("{{\"ok\":false,\"err\":{err},\"buf\":{}}}", jbytes(v)),
    }
}

fn into_vec<F>(ctx: &mut Ctx, op: &J, f: F) -> String
where
    F: FnOnce(&'static mut Vec<u8>) -> std::result::Result<&'static Yason, BuildError>,
{
    let v: *mut Vec<u8> = target(op);
    match f(unsafe { &mut *v }) {
        Ok(y) => made(ctx, n(op, "reg"), y, Some(unsafe { &*v })),
        Err(e) => refused(jbuild_err(&e), Some(unsafe { &*v })),
    }
}

fn into_owned(ctx: &mut Ctx, op: &J, r: std::result::Result<YasonBuf, BuildError>) -> String {
    match r {
        Ok(y) => made(ctx, n(op, "reg"), leak(y), None),
        Err(e) => refused(jbuild_err(&e), None),
    }
}

pub fn parse(ctx: &mut Ctx, op: &J) -> String {
    let text = text_of(op, "text");
    match s(op, "via") {
        "own" => into_owned(ctx, op, YasonBuf::parse(&text)),
        "to" => into_vec(ctx, op, |v| Yason::parse_to(v, &text)),
        _ => match serde_json::from_str::<J>(&text) {
            Ok(j) => into_owned(ctx, op, short(op, || YasonBuf::try_from(&j))),
            Err(e) => refused(
                format!("{{\"k\":\"json\",\"msg\":{}}}", jstr(&e.to_string())),
                None,
            ),
        },
    }
}

pub fn scalar(ctx: &mut Ctx, op: &J) -> String {
    let v = &op["val"];
    let own = s(op, "via") == "own";
    match s(v, "t") {
        "null" if own => into_owned(ctx, op, short(op, Scalar::null)),
        "null" => into_vec(ctx, op, |x| short(op, || Scalar::null_with_vec(x))),
        "bool" if own => into_owned(ctx, op, short(op, || Scalar::bool(b(v, "b")))),
        "bool" => into_vec(ctx, op, |x| {
            short(op, || Scalar::bool_with_vec(b(v, "b"), x))
        }),
        "num" => {
            let num = number_of(v, n(op, "pad") as u32);
            if own {
                into_owned(ctx, op, short(op, || Scalar::number(num)))
            } else {
                into_vec(ctx, op, |x| short(op, || Scalar::number_with_vec(num, x)))
            }
        }
        "str" => {
            let text = text_of(v, "s");
            if own {
                into_owned(ctx, op, short(op, || Scalar::string(&text)))
            } else {
                into_vec(ctx, op, |x| short(op, || Scalar::string_with_vec(&text, x)))
            }
        }
        t => panic!("harness: scalar {t}"),
    }
}

/// A key; `kx` asks for that many more letters, for keys too long to spell out.
fn key_of(op: &J) -> String {
    let mut k = text_of(op, "key");
    if let Some(x) = op["kx"].as_u64() {
        k.push_str(&"L".repeat(x as usize));
    }
    k
}

fn done<T>(r: std::result::Result<T, BuildError>) -> String {
    match r {
        Ok(_) => "{\"ok\":true}".to_string(),
        Err(e) => refused(jbuild_err(&e), None),
    }
}

macro_rules! push_obj {
    ($bld:expr, $op:expr) => {{
        let key = key_of($op);
        let v = &$op["val"];
        match s(v, "t") {
            "null" => done(short($op, || $bld.push_null(&key).map(|_| ()))),
            "bool" => {
                let x = b(v, "b");
                done(short($op, || $bld.push_bool(&key, x).map(|_| ())))
            }
            "num" => {
                let x = number_of(v, n($op, "pad") as u32);
                done(short($op, || $bld.push_number(&key, x).map(|_| ())))
            }
            "str" => {
                let x = text_of(v, "s");
                done(short($op, || $bld.push_string(&key, &x).map(|_| ())))
            }
            t => panic!("harness: push {t}"),
        }
    }};
}
macro_rules! push_arr {
    ($bld:expr, $op:expr) => {{
        let v = &$op["val"];
        match s(v, "t") {
            "null" => done(short($op, || $bld.push_null().map(|_| ()))),
            "bool" => {
                let x = b(v, "b");
                done(short($op, || $bld.push_bool(x).map(|_| ())))
            }
            "num" => {
                let x = number_of(v, n($op, "pad") as u32);
                done(short($op, || $bld.push_number(x).map(|_| ())))
            }
            "str" => {
                let x = text_of(v, "s");
                done(short($op, || $bld.push_string(&x).map(|_| ())))
            }
            t => panic!("harness: push {t}"),
        }
    }};
}

/// How a level of builders ended: the index of the next call, or None when the case is over.
enum End {
    Next(usize),
    Stop,
}

/// Serves calls to one open builder. `$fin` consumes it and renders the result of finishing.
macro_rules! level {
    ($name:ident, $ty:ty, $push:ident, $open_obj:expr, $open_arr:expr) => {
        fn $name<'x>(
            ctx: &mut Ctx,
            mut bld: $ty,
            ops: &[J],
            mut i: usize,
            out: &mut Out,
            fin: &mut dyn FnMut(&mut Ctx, $ty, &J) -> String,
        ) -> End {
            while i < ops.len() {
                let op = &ops[i];
                if out.idle(op) {
                    out.emit(i, SKIP);
                    i += 1;
                    continue;
                }
                match s(op, "op") {
                    "b_push" => match guarded(|| $push!(bld, op)) {
                        Ok(r) => out.emit(i, &r),
                        Err(r) => {
                            out.emit(i, &r);
                            std::mem::forget(bld);
                            return End::Stop;
                        }
                    },
                    "b_open" => {
                        let count = n(op, "n") as u16;
                        let end = if s(op, "kind") == "obj" {
                            let mut r = None;
                            let p = guarded(|| {
                                r = Some($open_obj(&mut bld, op, count, b(op, "sorted")));
                                String::new()
                            });
                            match (p, r) {
                                (Err(p), _) => {
                                    out.emit(i, &p);
                                    return End::Stop;
                                }
                                (_, Some(Ok(inner))) => {
                                    out.emit(i, "{\"ok\":true}");
                                    obj_ref(ctx, inner, ops, i + 1, out, &mut |_, x, _| {
                                        view(x.finish())
                                    })
                                }
                                (_, Some(Err(e))) => {
                                    out.emit(i, &refused(jbuild_err(&e), None));
                                    End::Next(i + 1)
                                }
                                _ => unreachable!(),
                            }
                        } else {
                            let mut r = None;
                            let p = guarded(|| {
                                r = Some($open_arr(&mut bld, op, count));
                                String::new()
                            });
                            match (p, r) {
                                (Err(p), _) => {
                                    out.emit(i, &p);
                                    return End::Stop;
                                }
                                (_, Some(Ok(inner))) => {
                                    out.emit(i, "{\"ok\":true}");
                                    arr_ref(ctx, inner, ops, i + 1, out, &mut |_, x, _| {
                                        view(x.finish())
                                    })
                                }
                                (_, Some(Err(e))) => {
                                    out.emit(i, &refused(jbuild_err(&e), None));
                                    End::Next(i + 1)
                                }
                                _ => unreachable!(),
                            }
                        };
                        match end {
                            End::Next(next) => {
                                i = next;
                                continue;
                            }
                            End::Stop => return End::Stop,
                        }
                    }
                    "b_fin" => {
                        return match guarded(|| fin(ctx, bld, op)) {
                            Ok(r) => {
                                out.emit(i, &r);
                                End::Next(i + 1)
                            }
                            Err(r) => {
                                out.emit(i, &r);
                                End::Stop
                            }
                        }
                    }
                    "b_drop" => {
                        return match guarded(|| {
                            drop(bld);
                            "{\"ok\":true}".to_string()
                        }) {
                            Ok(r) => {
                                out.emit(i, &r);
                                End::Next(i + 1)
                            }
                            Err(r) => {
                                out.emit(i, &r);
                                End::Stop
                            }
                        }
                    }
                    _ => {
                        // Only builder calls are possible while a builder is open.
                        out.emit(i, SKIP);
                    }
                }
                i += 1;
            }
            End::Next(i)
        }
    };
}

fn view(r: std::result::Result<&Yason, BuildError>) -> String {
    match r {
        Ok(y) => format!("{{\"ok\":true,\"bytes\":{}}}", jbytes(y.as_bytes())),
        Err(e) => refused(jbuild_err(&e), None),
    }
}

level!(
    obj_own,
    ObjectBuilder<'x>,
    push_obj,
    |x: &mut ObjectBuilder<'x>, op: &J, c, sorted| unsafe {
        let k = key_of(op);
        arm(op);
        let r = long(x.push_object(&k, c, sorted));
        disarm();
        r
    },
    |x: &mut ObjectBuilder<'x>, op: &J, c| unsafe {
        let k = key_of(op);
        arm(op);
        let r = long_a(x.push_array(&k, c));
        disarm();
        r
    }
);
level!(
    obj_ref,
    ObjectRefBuilder<'x>,
    push_obj,
    |x: &mut ObjectRefBuilder<'x>, op: &J, c, sorted| unsafe {
        let k = key_of(op);
        arm(op);
        let r = long(x.push_object(&k, c, sorted));
        disarm();
        r
    },
    |x: &mut ObjectRefBuilder<'x>, op: &J, c| unsafe {
        let k = key_of(op);
        arm(op);
        let r = long_a(x.push_array(&k, c));
        disarm();
        r
    }
);
level!(
    arr_own,
    ArrayBuilder<'x>,
    push_arr,
    |x: &mut ArrayBuilder<'x>, op: &J, c, sorted| unsafe {
        arm(op);
        let r = long(x.push_object(c, sorted));
        disarm();
        r
    },
    |x: &mut ArrayBuilder<'x>, op: &J, c| unsafe {
        arm(op);
        let r = long_a(x.push_array(c));
        disarm();
        r
    }
);
level!(
    arr_ref,
    ArrayRefBuilder<'x>,
    push_arr,
    |x: &mut ArrayRefBuilder<'x>, op: &J, c, sorted| unsafe {
        arm(op);
        let r = long(x.push_object(c, sorted));
        disarm();
        r
    },
    |x: &mut ArrayRefBuilder<'x>, op: &J, c| unsafe {
        arm(op);
        let r = long_a(x.push_array(c));
        disarm();
        r
    }
);

/// A nested builder leaves the closure that opened it; it is used strictly before its parent again.
unsafe fn long<'y>(
    r: std::result::Result<ObjectRefBuilder<'_>, BuildError>,
) -> std::result::Result<ObjectRefBuilder<'y>, BuildError> {
    std::mem::transmute(r)
}
unsafe fn long_a<'y>(
    r: std::result::Result<ArrayRefBuilder<'_>, BuildError>,
) -> std::result::Result<ArrayRefBuilder<'y>, BuildError> {
    std::mem::transmute(r)
}

/// A builder session starting at ops[i]; returns the index after it.
pub fn session(ctx: &mut Ctx, ops: &[J], i: usize, out: &mut Out) -> Option<usize> {
    let op = &ops[i];
    let count = n(op, "n") as u16;
    let own = s(op, "via") == "own";
    let vec: *mut Vec<u8> = target(op);
    let is_obj = s(op, "kind") == "obj";
    let sorted = b(op, "sorted");

    fn fin_ref(
        ctx: &mut Ctx,
        r: std::result::Result<&'static Yason, BuildError>,
        op: &J,
        vec: *mut Vec<u8>,
    ) -> String {
        match r {
            Ok(y) => made(ctx, n(op, "reg"), y, Some(unsafe { &*vec })),
            Err(e) => refused(jbuild_err(&e), Some(unsafe { &*vec })),
        }
    }

    macro_rules! start {
        ($new:expr, $level:ident, $fin:expr) => {{
            let mut r = None;
            if let Err(p) = guarded(|| {
                r = Some(short(op, || $new));
                String::new()
            }) {
                out.emit(i, &p);
                return None;
            }
            match r.unwrap() {
                Ok(bld) => {
                    out.emit(i, "{\"ok\":true}");
                    $level(ctx, bld, ops, i + 1, out, &mut $fin)
                }
                Err(e) => {
                    out.emit(
                        i,
                        &refused(
                            jbuild_err(&e),
                            if own { None } else { Some(unsafe { &*vec }) },
                        ),
                    );
                    End::Next(i + 1)
                }
            }
        }};
    }
    let end = match (is_obj, own) {
        (true, true) => {
            start!(
                ObjectBuilder::try_new(count, sorted),
                obj_own,
                |ctx, x: ObjectBuilder, op| into_owned(ctx, op, x.finish())
            )
        }
        (true, false) => start!(
            ObjectRefBuilder::try_new(unsafe { &mut *vec }, count, sorted),
            obj_ref,
            |ctx, x: ObjectRefBuilder<'static>, op| { fin_ref(ctx, x.finish(), op, vec) }
        ),
        (false, true) => start!(
            ArrayBuilder::try_new(count),
            arr_own,
            |ctx, x: ArrayBuilder, op| into_owned(ctx, op, x.finish())
        ),
        (false, false) => start!(
            ArrayRefBuilder::try_new(unsafe { &mut *vec }, count),
            arr_ref,
            |ctx, x: ArrayRefBuilder<'static>, op| { fin_ref(ctx, x.finish(), op, vec) }
        ),
    };
    match end {
        End::Next(next) => Some(next),
        End::Stop => None,
    }
}
