//! Large documents. Strings and byte sequences are described, and reported, as runs [[byte, count], ...].

use crate::obs::*;
use crate::{Ctx, Doc};
use serde_json::Value as J;
use std::fmt::Write;
use yason::*;

fn expand(runs: &J) -> String {
    let xs = runs.as_array().expect("harness: runs");
    let mut s = Vec::with_capacity(xs.iter().map(|q| q[1].as_u64().unwrap() as usize).sum());
    for q in xs {
        s.resize(s.len() + q[1].as_u64().unwrap() as usize, q[0].as_u64().unwrap() as u8);
    }
    String::from_utf8(s).expect("harness: text of runs")
}

/// More runs than any case has: a result that has more is reported as a failure of its call.
const MOST_RUNS: usize = 20000;

fn runs(x: &[u8]) -> String {
    let mut o = String::from("[");
    let (mut i, mut k) = (0, 0);
    while i < x.len() {
        let c = x[i];
        let n = x[i..].iter().position(|&d| d != c).unwrap_or(x.len() - i);
        if k > 0 {
            o.push(',');
        }
        write!(o, "[{c},{n}]").unwrap();
        i += n;
        k += 1;
        assert!(k <= MOST_RUNS, "result of more than {MOST_RUNS} runs");
    }
    o.push(']');
    o
}

/// Runs of equal rendered values.
fn copies(xs: impl Iterator<Item = String>) -> String {
    let mut out: Vec<(String, usize)> = Vec::new();
    for x in xs {
        match out.last_mut() {
            Some(l) if l.0 == x => l.1 += 1,
            _ => out.push((x, 1)),
        }
        assert!(
            out.len() <= MOST_RUNS,
            "result of more than {MOST_RUNS} runs"
        );
    }
    jlist(
        &out.iter()
            .map(|(x, n)| format!("[{x},{n}]"))
            .collect::<Vec<_>>(),
    )
}

fn word(e: &BuildError) -> String {
    let j: J = serde_json::from_str(&jbuild_err(e)).unwrap();
    format!("\"{}\"", j["k"].as_str().unwrap())
}

// ---------------------------------------------------------------- ropes

/// Everything the builders are asked to push, with strings spelled out.
enum T {
    Null,
    Bool(bool),
    Num(Number),
    Str(String),
    Arr(u16, Vec<T>),
    Obj(u16, Vec<(String, T)>),
}

fn tree(v: &J) -> T {
    match s(v, "t") {
        "null" => T::Null,
        "bool" => T::Bool(b(v, "b")),
        "num" => T::Num(number_of(v, 0)),
        "str" => T::Str(expand(&v["r"])),
        "arr" => T::Arr(
            n(v, "n") as u16,
            v["a"].as_array().unwrap().iter().map(tree).collect(),
        ),
        "obj" => T::Obj(
            n(v, "n") as u16,
            v["o"]
                .as_array()
                .unwrap()
                .iter()
                .map(|m| (expand(&m["k"]), tree(&m["v"])))
                .collect(),
        ),
        t => panic!("harness: {t}"),
    }
}

fn text(x: &T, o: &mut String) {
    match x {
        T::Null => o.push_str("null"),
        T::Bool(x) => write!(o, "{x}").unwrap(),
        T::Num(x) => write!(o, "{x}").unwrap(),
        T::Str(x) => {
            o.push('"');
            o.push_str(x);
            o.push('"');
        }
        T::Arr(_, xs) => {
            o.push('[');
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                text(x, o);
            }
            o.push(']');
        }
        T::Obj(_, ms) => {
            o.push('{');
            for (i, (k, x)) in ms.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('"');
                o.push_str(k);
                o.push_str("\":");
                text(x, o);
            }
            o.push('}');
        }
    }
}

fn outcome<X>(outs: &mut Vec<String>, r: std::result::Result<X, BuildError>) -> Option<X> {
    match r {
        Ok(x) => {
            outs.push("\"ok\"".to_string());
            Some(x)
        }
        Err(e) => {
            outs.push(word(&e));
            None
        }
    }
}

macro_rules! drive_arr {
    ($bld:expr, $xs:expr, $outs:expr) => {
        for x in $xs {
            match x {
                T::Null => drop(outcome($outs, $bld.push_null().map(|_| ()))),
                T::Bool(x) => drop(outcome($outs, $bld.push_bool(*x).map(|_| ()))),
                T::Num(x) => drop(outcome($outs, $bld.push_number(x).map(|_| ()))),
                T::Str(x) => drop(outcome($outs, $bld.push_string(x).map(|_| ()))),
                T::Arr(n, ys) => {
                    if let Some(inner) = outcome($outs, $bld.push_array(*n)) {
                        arr_inner(inner, ys, $outs);
                    }
                }
                T::Obj(n, ys) => {
                    if let Some(inner) = outcome($outs, $bld.push_object(*n, false)) {
                        obj_inner(inner, ys, $outs);
                    }
                }
            }
        }
    };
}
macro_rules! drive_obj {
    ($bld:expr, $ms:expr, $outs:expr) => {
        for (k, x) in $ms {
            match x {
                T::Null => drop(outcome($outs, $bld.push_null(k).map(|_| ()))),
                T::Bool(x) => drop(outcome($outs, $bld.push_bool(k, *x).map(|_| ()))),
                T::Num(x) => drop(outcome($outs, $bld.push_number(k, x).map(|_| ()))),
                T::Str(x) => drop(outcome($outs, $bld.push_string(k, x).map(|_| ()))),
                T::Arr(n, ys) => {
                    if let Some(inner) = outcome($outs, $bld.push_array(k, *n)) {
                        arr_inner(inner, ys, $outs);
                    }
                }
                T::Obj(n, ys) => {
                    if let Some(inner) = outcome($outs, $bld.push_object(k, *n, false)) {
                        obj_inner(inner, ys, $outs);
                    }
                }
            }
        }
    };
}

fn arr_inner(mut bld: ArrayRefBuilder, xs: &[T], outs: &mut Vec<String>) {
    drive_arr!(bld, xs, outs);
    outcome(outs, bld.finish().map(|_| ()));
}
fn obj_inner(mut bld: ObjectRefBuilder, ms: &[(String, T)], outs: &mut Vec<String>) {
    drive_obj!(bld, ms, outs);
    outcome(outs, bld.finish().map(|_| ()));
}

/// A rope value read through the accessors.
fn back(v: &Value) -> YasonResultLike<String> {
    Ok(match v {
        Value::Null => "{\"t\":\"null\"}".to_string(),
        Value::Bool(x) => format!("{{\"t\":\"bool\",\"b\":{x}}}"),
        Value::Number(x) => jnum(x),
        Value::String(x) => format!("{{\"t\":\"str\",\"r\":{}}}", runs(x.as_bytes())),
        Value::Array(a) => {
            let mut xs = Vec::new();
            for x in a.iter()? {
                xs.push(back(&x?)?);
            }
            format!("{{\"t\":\"arr\",\"a\":{}}}", jlist(&xs))
        }
        Value::Object(o) => {
            let mut xs = Vec::new();
            for m in o.iter()? {
                let (k, x) = m?;
                // The same member through a lookup.
                let y = o.get(k)?;
                let same = y
                    .as_ref()
                    .map(back)
                    .transpose()?
                    .map_or(false, |y| Some(y) == back(&x).ok());
                xs.push(format!(
                    "{{\"k\":{},\"v\":{}}}",
                    runs(k.as_bytes()),
                    if same {
                        back(&x)?
                    } else {
                        "{\"t\":\"lost\"}".to_string()
                    }
                ));
            }
            format!("{{\"t\":\"obj\",\"o\":{}}}", jlist(&xs))
        }
    })
}

fn backs(vs: &[Value]) -> YasonResultLike<String> {
    let xs: YasonResultLike<Vec<String>> = vs.iter().map(back).collect();
    Ok(format!("{{\"t\":\"arr\",\"a\":{}}}", jlist(&xs?)))
}

fn view_of(y: &Yason) -> YasonResultLike<String> {
    back(&Value::try_from(y)?)
}

fn queried(y: &Yason, rb: bool) -> String {
    let path: PathExpression = match y.data_type() {
        Ok(DataType::Array) => "$[*]",
        Ok(DataType::Object) => "$.*",
        _ => return "{\"ok\":false,\"skip\":true}".to_string(),
    }
    .parse()
    .unwrap();
    let mut buf = b"previous".to_vec();
    match path.query(y, true, None, if rb { Some(&mut buf) } else { None }) {
        Err(e) => fail(&e),
        Ok(QueriedValue::None) => "{\"ok\":true,\"form\":\"none\"}".to_string(),
        Ok(v) => {
            let mut t = String::new();
            let _ = v.format_to(false, &mut t);
            let (form, vals, doc) = match &v {
                QueriedValue::Values(xs) => ("values", backs(xs), "[]".to_string()),
                QueriedValue::Yason(y) => ("yason", view_of(y), runs(y.as_bytes())),
                _ => ("other", Ok("{}".to_string()), "[]".to_string()),
            };
            match vals {
                Ok(vals) => format!(
                    "{{\"ok\":true,\"form\":\"{form}\",\"back\":{vals},\"doc\":{doc},\"text\":{}}}",
                    runs(t.as_bytes())
                ),
                Err(e) => fail(&e),
            }
        }
    }
}

/// One further call on a large document.
fn also(y: &Yason, a: &J) -> String {
    match s(a, "op") {
        "fmt" => {
            let mut t = String::new();
            let r = y.format_to(b(a, "pretty"), &mut t);
            format!("{{\"ok\":{},\"text\":{}}}", r.is_ok(), runs(t.as_bytes()))
        }
        "eq" => {
            let z = made(&a["val"]);
            format!(
                "{{\"ab\":{},\"ba\":{},\"op\":{}}}",
                res(y.equals(&z), |x| x.to_string()),
                res(z.equals(y), |x| x.to_string()),
                *y == *z
            )
        }
        "rt" => {
            let src = y.to_owned();
            let z: YasonBuf = match s(a, "via") {
                "bincode" => bincode::deserialize(&bincode::serialize(&src).unwrap()).unwrap(),
                "json" => serde_json::from_str(&serde_json::to_string(&src).unwrap()).unwrap(),
                via => {
                    let mut t = String::new();
                    y.format_to(via == "pretty", &mut t).unwrap();
                    YasonBuf::parse(&t).unwrap()
                }
            };
            match view_of(&z) {
                Ok(back) => format!(
                    "{{\"ok\":true,\"back\":{back},\"doc\":{},\"eq\":{}}}",
                    runs(z.as_bytes()),
                    res(y.equals(&z), |x| x.to_string())
                ),
                Err(e) => fail(&e),
            }
        }
        "ext" => {
            let take = || -> YasonResultLike<YasonBuf> {
                let pos = pos_of(a, "pos");
                if s(a, "via") == "try" {
                    let mut v = Vec::new();
                    return at(y, &pos)?.try_to_yason(&mut v).map(|z| z.to_owned());
                }
                match at(y, &pos)? {
                    Value::Array(x) => x.yason().to_yason_buf(),
                    Value::Object(x) => x.yason().to_yason_buf(),
                    other => {
                        let mut v = Vec::new();
                        other.try_to_yason(&mut v).map(|z| z.to_owned())
                    }
                }
            };
            match take().and_then(|z| Ok((view_of(&z)?, z))) {
                Ok((back, z)) => format!(
                    "{{\"ok\":true,\"back\":{back},\"doc\":{}}}",
                    runs(z.as_bytes())
                ),
                Err(e) => fail(&e),
            }
        }
        "root" => {
            let take = || -> YasonResultLike<YasonBuf> {
                let mut v = Vec::new();
                at(y, &pos_of(a, "pos"))?
                    .try_to_yason(&mut v)
                    .map(|z| z.to_owned())
            };
            match take() {
                Ok(z) => format!(
                    "{{\"ty\":{},\"isnull\":{},\"str\":{},\"arr\":{},\"obj\":{}}}",
                    res(z.data_type(), |t| format!("\"{}\"", type_name(t))),
                    res(z.is_null(), |x| x.to_string()),
                    res(z.string(), |x| runs(x.as_bytes())),
                    res(z.array().and_then(|x| x.len()), |x| x.to_string()),
                    res(z.object().and_then(|x| x.len()), |x| x.to_string())
                ),
                Err(e) => fail(&e),
            }
        }
        "exists" => res(
            text_of(a, "path")
                .parse::<PathExpression>()
                .unwrap()
                .exists(y),
            |x| x.to_string(),
        ),
        "query" => {
            let path: PathExpression = text_of(a, "path").parse().unwrap();
            let mut buf = b"previous".to_vec();
            match path.query(
                y,
                b(a, "wrap"),
                None,
                if b(a, "rb") { Some(&mut buf) } else { None },
            ) {
                Err(e) => fail(&e),
                Ok(v) => {
                    let items = |y: &Yason| -> YasonResultLike<String> {
                        let mut xs = Vec::new();
                        for x in y.array()?.iter()? {
                            xs.push(back(&x?)?);
                        }
                        Ok(jlist(&xs))
                    };
                    let all = |xs: &[Value]| {
                        xs.iter()
                            .map(back)
                            .collect::<YasonResultLike<Vec<String>>>()
                            .map(|xs| jlist(&xs))
                    };
                    let (form, vals) = match &v {
                        QueriedValue::None => ("none", Ok("[]".to_string())),
                        QueriedValue::Value(x) => ("value", all(std::slice::from_ref(x))),
                        QueriedValue::Values(xs) => ("values", all(xs)),
                        QueriedValue::ValuesRef(xs) => ("ref", all(xs)),
                        QueriedValue::Yason(y) => ("yason", items(y)),
                    };
                    vals.map_or_else(
                        |e| fail(&e),
                        |vals| format!("{{\"ok\":true,\"form\":\"{form}\",\"back\":{vals}}}"),
                    )
                }
            }
        }
        x => panic!("harness: also {x}"),
    }
}

/// The document of a rope value, by way of its text.
fn made(v: &J) -> YasonBuf {
    let mut t = String::new();
    text(&tree(v), &mut t);
    YasonBuf::parse(&t).unwrap()
}

fn at<'a>(y: &'a Yason, pos: &[usize]) -> YasonResultLike<Value<'a>> {
    let mut v = Value::try_from(y)?;
    for &i in pos {
        v = match v {
            Value::Array(a) => a.get(i)?,
            Value::Object(o) => o.value_iter()?.nth(i).expect("harness: pos")?,
            _ => panic!("harness: pos"),
        };
    }
    Ok(v)
}

fn rope_seen(y: &Yason, rb: bool, more: &J) -> String {
    let more: Vec<String> = more
        .as_array()
        .expect("harness: also")
        .iter()
        .map(|a| also(y, a))
        .collect();
    format!("{},\"also\":{}", rope_seen_(y, rb), jlist(&more))
}

fn rope_seen_(y: &Yason, rb: bool) -> String {
    let back = match view_of(y) {
        Ok(x) => x,
        Err(e) => {
            return format!(
                "\"ok\":true,\"doc\":{},\"back\":{},\"text\":[],\"q\":{{}}",
                runs(y.as_bytes()),
                fail(&e)
            )
        }
    };
    let mut t = String::new();
    let _ = y.format_to(false, &mut t);
    format!(
        "\"ok\":true,\"doc\":{},\"back\":{back},\"text\":{},\"q\":{}",
        runs(y.as_bytes()),
        runs(t.as_bytes()),
        queried(y, rb)
    )
}

fn refused(e: &BuildError) -> String {
    format!("\"ok\":false,\"err\":{}", jbuild_err(e))
}

fn rope(op: &J) -> String {
    let x = tree(&op["val"]);
    let pre = bytes_of(op, "pre");
    let rb = b(op, "rb");
    let own = s(op, "via") == "own";
    let mut outs: Vec<String> = Vec::new();
    let mut v = pre.clone();
    let seen = |y: &Yason| rope_seen(y, rb, &op["also"]);
    let body = match s(op, "how") {
        "build" => {
            macro_rules! top {
                ($new:expr, $drive:ident, $items:expr) => {{
                    let mut bld = match $new {
                        Ok(x) => x,
                        Err(e) => {
                            return format!(
                                "{{{},\"outs\":[],\"head\":[],\"buf\":[]}}",
                                refused(&e)
                            )
                        }
                    };
                    $drive!(bld, $items, &mut outs);
                    match outcome_ref(&mut outs, bld.finish()) {
                        Ok(y) => seen(y.as_ref()),
                        Err(e) => refused(&e),
                    }
                }};
            }
            match (&x, own) {
                (T::Arr(n, xs), true) => top!(ArrayBuilder::try_new(*n), drive_arr, xs),
                (T::Arr(n, xs), false) => top!(ArrayRefBuilder::try_new(&mut v, *n), drive_arr, xs),
                (T::Obj(n, ms), true) => top!(ObjectBuilder::try_new(*n, false), drive_obj, ms),
                (T::Obj(n, ms), false) => {
                    top!(ObjectRefBuilder::try_new(&mut v, *n, false), drive_obj, ms)
                }
                _ => panic!("harness: a scalar has no builder"),
            }
        }
        "scalar" => {
            let T::Str(t) = &x else {
                panic!("harness: scalar")
            };
            if own {
                match Scalar::string(t) {
                    Ok(y) => seen(&y),
                    Err(e) => refused(&e),
                }
            } else {
                match Scalar::string_with_vec(t, &mut v) {
                    Ok(y) => seen(y),
                    Err(e) => refused(&e),
                }
            }
        }
        "try" => {
            let T::Str(t) = &x else {
                panic!("harness: try")
            };
            let value = Value::String(t);
            match value.try_to_yason(&mut v) {
                Ok(y) => seen(y),
                Err(e) => format!("\"ok\":false,\"err\":{}", jyason_err(&e)),
            }
        }
        how => {
            let mut t = String::new();
            text(&x, &mut t);
            drop(x);
            let r = if how == "val" {
                let j: J = serde_json::from_str(&t).unwrap();
                drop(t);
                YasonBuf::try_from(&j).map(|y| seen(&y))
            } else if own {
                YasonBuf::parse(&t).map(|y| seen(&y))
            } else {
                Yason::parse_to(&mut v, &t).map(|y| seen(y))
            };
            r.unwrap_or_else(|e| refused(&e))
        }
    };
    let head = &v[..v.len().min(pre.len())];
    format!(
        "{{{body},\"outs\":{},\"head\":{},\"buf\":{}}}",
        jlist(&outs),
        jbytes(head),
        if own { "[]".to_string() } else { runs(&v) }
    )
}

/// Records how finishing went without letting go of what it returned.
fn outcome_ref<X>(
    outs: &mut Vec<String>,
    r: std::result::Result<X, BuildError>,
) -> std::result::Result<X, BuildError> {
    outs.push(match &r {
        Ok(_) => "\"ok\"".to_string(),
        Err(e) => word(e),
    });
    r
}

// ---------------------------------------------------------------- fills

fn fill_key(i: usize) -> String {
    [i / 17576, i / 676 % 26, i / 26 % 26, i % 26]
        .iter()
        .map(|x| (b'a' + *x as u8) as char)
        .collect()
}

fn pushed(order: &str, n: usize, k: usize) -> usize {
    match order {
        "asc" => k,
        "desc" => n - 1 - k,
        _ => {
            if 2 * k < n {
                2 * k
            } else {
                2 * (k - (n + 1) / 2) + 1
            }
        }
    }
}

fn fill_query(y: &Yason, ask: &J) -> String {
    let path: PathExpression = text_of(ask, "path").parse().unwrap();
    let mut buf = b"previous".to_vec();
    let rb = b(ask, "rb");
    let ptr: *mut Vec<u8> = &mut buf;
    match path.query(
        y,
        true,
        None,
        if rb { Some(unsafe { &mut *ptr }) } else { None },
    ) {
        Err(e) => fail(&e),
        Ok(QueriedValue::None) => "{\"ok\":true,\"form\":\"none\"}".to_string(),
        Ok(v) => {
            let (form, vals, doc, same) = match &v {
                QueriedValue::Values(xs) => (
                    "values",
                    copies(xs.iter().map(leaf_of)),
                    "[]".to_string(),
                    true,
                ),
                QueriedValue::Yason(y) => {
                    let xs = y.array().and_then(|a| a.iter()).map(|it| {
                        copies(it.map(|x| x.map_or("\"error\"".to_string(), |x| leaf_of(&x))))
                    });
                    (
                        "yason",
                        xs.unwrap_or_else(|_| "[]".to_string()),
                        jbytes(y.as_bytes()),
                        y.as_bytes() == &unsafe { &*ptr }[..],
                    )
                }
                _ => ("other", "[]".to_string(), "[]".to_string(), false),
            };
            format!(
                "{{\"ok\":true,\"form\":\"{form}\",\"vals\":{vals},\"doc\":{doc},\"same\":{same}}}"
            )
        }
    }
}

fn leaf_of(v: &Value) -> String {
    dump(v).map_or("\"error\"".to_string(), |x| x.nested())
}

fn fill_seen(y: &Yason, op: &J) -> YasonResultLike<String> {
    let kind = s(op, "kind");
    let mut out = format!("\"ok\":true,\"doc\":{}", jbytes(y.as_bytes()));
    let top = Value::try_from(y)?;
    let inner = match (s(op, "nest"), &top) {
        ("arr", Value::Array(a)) => a.get(0)?,
        ("obj", Value::Object(o)) => o.get("k")?.expect("the member k"),
        _ => Value::try_from(y)?,
    };
    let idx: Vec<usize> = pos_of(op, "idx");
    let gets: Vec<String>;
    match (kind, &inner) {
        ("arr", Value::Array(a)) => {
            let vals = a
                .iter()?
                .map(|x| x.map_or("\"error\"".to_string(), |x| leaf_of(&x)));
            write!(
                out,
                ",\"len\":{},\"vals\":{},\"keys\":[]",
                a.len()?,
                copies(vals)
            )
            .unwrap();
            gets = idx
                .iter()
                .map(|&i| res(a.get(i), |x| leaf_of(&x)))
                .collect();
        }
        ("obj", Value::Object(o)) => {
            let mut keys: Vec<u8> = Vec::new();
            let mut vals = Vec::new();
            for m in o.iter()? {
                let (k, x) = m?;
                keys.extend_from_slice(k.as_bytes());
                vals.push(leaf_of(&x));
            }
            write!(
                out,
                ",\"len\":{},\"vals\":{},\"keys\":{}",
                o.len()?,
                copies(vals.into_iter()),
                jbytes(&keys)
            )
            .unwrap();
            gets = idx
                .iter()
                .map(|&i| opt(o.get(fill_key(i)), |x| leaf_of(&x)))
                .collect();
        }
        _ => return Ok("\"ok\":true,\"doc\":[],\"wrong\":true".to_string()),
    }
    let mut t = String::new();
    if s(op, "nest") == "none" {
        let _ = y.format_to(false, &mut t);
    }
    let empty: Vec<J> = Vec::new();
    let qs: Vec<String> = op["qs"]
        .as_array()
        .unwrap_or(&empty)
        .iter()
        .map(|q| fill_query(y, q))
        .collect();
    write!(
        out,
        ",\"gets\":{},\"text\":{},\"q\":{}",
        jlist(&gets),
        jbytes(t.as_bytes()),
        jlist(&qs)
    )
    .unwrap();
    Ok(out)
}

fn fill(op: &J, look: &mut dyn FnMut(&Yason) -> String) -> String {
    let count = n(op, "n") as usize;
    let marks: Vec<usize> = if op["marks"].is_array() {
        pos_of(op, "marks")
    } else {
        Vec::new()
    };
    let order = s(op, "order");
    let leaf = &op["leaf"];
    let own = s(op, "via") == "own";
    let obj = s(op, "kind") == "obj";
    let nest = s(op, "nest");
    let pre = bytes_of(op, "pre");
    let mut v = pre.clone();
    let mut outs: Vec<String> = Vec::new();
    let mut seen = |y: &Yason| look(y);
    let mut doc_len = None;
    let num = if s(leaf, "t") == "num" {
        Some(number_of(leaf, 0))
    } else {
        None
    };
    let string = if s(leaf, "t") == "str" {
        text_of(leaf, "s")
    } else {
        String::new()
    };
    macro_rules! arr_all {
        ($bld:expr) => {
            for k in 0..count {
                let r = match s(leaf, "t") {
                    "null" => $bld.push_null().map(|_| ()),
                    "bool" => $bld
                        .push_bool(b(leaf, "b") ^ marks.contains(&k))
                        .map(|_| ()),
                    "num" => $bld.push_number(num.as_ref().unwrap()).map(|_| ()),
                    _ => $bld.push_string(&string).map(|_| ()),
                };
                outcome(&mut outs, r);
            }
        };
    }
    macro_rules! obj_all {
        ($bld:expr) => {
            for k in 0..count {
                let item = pushed(order, count, k);
                let key = fill_key(item);
                let r = match s(leaf, "t") {
                    "null" => $bld.push_null(&key).map(|_| ()),
                    "bool" => $bld
                        .push_bool(&key, b(leaf, "b") ^ marks.contains(&item))
                        .map(|_| ()),
                    "num" => $bld.push_number(&key, num.as_ref().unwrap()).map(|_| ()),
                    _ => $bld.push_string(&key, &string).map(|_| ()),
                };
                outcome(&mut outs, r);
            }
        };
    }
    macro_rules! tri {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => {
                    return format!("{{{},\"outs\":[],\"head\":[],\"tail\":false}}", refused(&e))
                }
            }
        };
    }
    let body = match s(op, "how") {
        "build" => {
            let d = n(op, "d") as u16;
            let sorted = b(op, "sorted");
            macro_rules! end {
                ($bld:expr) => {
                    match $bld.finish() {
                        Ok(y) => {
                            let y: &Yason = y.as_ref();
                            doc_len = Some(y.as_bytes().to_vec());
                            seen(y)
                        }
                        Err(e) => refused(&e),
                    }
                };
            }
            macro_rules! flat {
                ($new:expr, $all:ident) => {{
                    let mut bld = tri!($new);
                    $all!(bld);
                    end!(bld)
                }};
            }
            macro_rules! outer {
                ($new:expr, $($key:expr)?) => {{
                    let mut bld = tri!($new);
                    if obj {
                        let mut inner = tri!(bld.push_object($($key,)? d, sorted));
                        obj_all!(inner);
                        let _ = inner.finish();
                    } else {
                        let mut inner = tri!(bld.push_array($($key,)? d));
                        arr_all!(inner);
                        let _ = inner.finish();
                    }
                    end!(bld)
                }};
            }
            match (nest, obj, own) {
                ("none", true, true) => flat!(ObjectBuilder::try_new(d, sorted), obj_all),
                ("none", true, false) => {
                    flat!(ObjectRefBuilder::try_new(&mut v, d, sorted), obj_all)
                }
                ("none", false, true) => flat!(ArrayBuilder::try_new(d), arr_all),
                ("none", false, false) => flat!(ArrayRefBuilder::try_new(&mut v, d), arr_all),
                ("arr", _, true) => outer!(ArrayBuilder::try_new(1),),
                ("arr", _, false) => outer!(ArrayRefBuilder::try_new(&mut v, 1),),
                (_, _, true) => outer!(ObjectBuilder::try_new(1, false), "k"),
                (_, _, false) => outer!(ObjectRefBuilder::try_new(&mut v, 1, false), "k"),
            }
        }
        how => {
            let lt = |k: usize| match s(leaf, "t") {
                "null" => "null".to_string(),
                "bool" => format!("{}", b(leaf, "b") ^ marks.contains(&k)),
                "num" => format!("{}", num.as_ref().unwrap()),
                _ => format!("\"{string}\""),
            };
            let items: Vec<String> = (0..count)
                .map(|k| {
                    if obj {
                        format!("\"{}\":{}", fill_key(pushed(order, count, k)), lt(k))
                    } else {
                        lt(k)
                    }
                })
                .collect();
            let mut t = items.join(",");
            t = if obj {
                format!("{{{t}}}")
            } else {
                format!("[{t}]")
            };
            t = match nest {
                "none" => t,
                "arr" => format!("[{t}]"),
                _ => format!("{{\"k\":{t}}}"),
            };
            let r = if how == "val" {
                let j: J = serde_json::from_str(&t).unwrap();
                YasonBuf::try_from(&j).map(|y| seen(&y))
            } else if own {
                YasonBuf::parse(&t).map(|y| seen(&y))
            } else {
                Yason::parse_to(&mut v, &t).map(|y| {
                    doc_len = Some(y.as_bytes().to_vec());
                    seen(y)
                })
            };
            r.unwrap_or_else(|e| refused(&e))
        }
    };
    let head = &v[..v.len().min(pre.len())];
    // Whether what follows the previous contents is what the returned view showed.
    let tail = own || doc_len.map_or(false, |d| v.get(pre.len()..) == Some(&d[..]));
    format!(
        "{{{body},\"outs\":{},\"head\":{},\"tail\":{tail}}}",
        copies(outs.into_iter()),
        jbytes(head)
    )
}

pub fn run(op: &J) -> String {
    if s(op, "op") == "fill" {
        fill(op, &mut |y| match fill_seen(y, op) {
            Ok(x) => x,
            Err(e) => format!(
                "\"ok\":true,\"doc\":{},\"failed\":{}",
                jbytes(y.as_bytes()),
                jyason_err(&e)
            ),
        })
    } else {
        rope(op)
    }
}

/// A wide document for other calls to read.
pub fn load(ctx: &mut Ctx, op: &J) -> String {
    let mut made = None;
    let body = fill(op, &mut |y| {
        made = y.to_yason_buf().ok();
        format!("\"ok\":true,\"bytes\":{}", jbytes(y.as_bytes()))
    });
    if let Some(y) = made {
        ctx.docs.insert(n(op, "reg"), Doc(crate::leak(y)));
    }
    body
}
