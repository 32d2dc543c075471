//! Reading documents through the public accessors, and rendering observations as JSON.

use crate::{leak, Ctx, Doc};
use serde_json::Value as J;
use std::fmt::Write;
use yason::*;

pub fn s<'a>(op: &'a J, f: &str) -> &'a str {
    op[f]
        .as_str()
        .unwrap_or_else(|| panic!("harness: field {f} of {op}"))
}
pub fn n(op: &J, f: &str) -> u64 {
    op[f]
        .as_u64()
        .unwrap_or_else(|| panic!("harness: field {f} of {op}"))
}
pub fn b(op: &J, f: &str) -> bool {
    op[f]
        .as_bool()
        .unwrap_or_else(|| panic!("harness: field {f} of {op}"))
}
pub fn bytes_val(v: &J) -> Vec<u8> {
    v.as_array()
        .expect("harness: bytes")
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}
pub fn bytes_of(op: &J, f: &str) -> Vec<u8> {
    bytes_val(&op[f])
}
pub fn text_of(op: &J, f: &str) -> String {
    String::from_utf8(bytes_of(op, f)).expect("harness: text is not UTF-8")
}
pub fn pos_of(op: &J, f: &str) -> Vec<usize> {
    op[f]
        .as_array()
        .expect("harness: pos")
        .iter()
        .map(|x| x.as_u64().unwrap() as usize)
        .collect()
}

pub fn jstr(x: &str) -> String {
    let mut o = String::with_capacity(x.len() + 2);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => write!(o, "<{:x}>", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// No case makes anything longer; a result that claims to be is reported as a failure of its call.
const LONGEST: usize = 4 << 20;

pub fn jbytes(x: &[u8]) -> String {
    assert!(x.len() <= LONGEST, "result of {} bytes", x.len());
    let mut o = String::with_capacity(x.len() * 4 + 2);
    o.push('[');
    for (i, v) in x.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{v}").unwrap();
    }
    o.push(']');
    o
}
pub fn jlist(xs: &[String]) -> String {
    format!("[{}]", xs.join(","))
}

/// Exact decimal d * 10^e, digits without trailing zeros.
pub fn jnum(x: &Number) -> String {
    let (int, scale, neg) = x.into_parts();
    let mut d = int.to_string();
    let mut e = -(scale as i64);
    if int == 0 {
        // The sign of a zero is shown: no document should hold a negative zero.
        return format!("{{\"t\":\"num\",\"neg\":{neg},\"d\":[],\"e\":0}}");
    }
    while d.ends_with('0') {
        d.pop();
        e += 1;
    }
    let ds: Vec<String> = d.chars().map(|c| c.to_string()).collect();
    format!(
        "{{\"t\":\"num\",\"neg\":{neg},\"d\":{},\"e\":{e}}}",
        jlist(&ds)
    )
}

/// The number of an abstract value: digits * 10^e, written with `pad` extra zeros in its integer.
pub fn number_of(v: &J, pad: u32) -> Number {
    let mut int: u128 = 0;
    for d in v["d"].as_array().unwrap() {
        int = int * 10 + d.as_u64().unwrap() as u128;
    }
    let e = v["e"].as_i64().unwrap();
    int *= 10u128.pow(pad);
    let scale = -(e - pad as i64);
    Number::from_parts(
        int,
        if int == 0 { 0 } else { scale as i16 },
        v["neg"].as_bool().unwrap(),
    )
    .expect("harness: number")
}

pub fn type_name(t: DataType) -> &'static str {
    match t {
        DataType::Object => "obj",
        DataType::Array => "arr",
        DataType::String => "str",
        DataType::Number => "num",
        DataType::Bool => "bool",
        DataType::Null => "null",
    }
}
pub const TYPES: [DataType; 6] = [
    DataType::Object,
    DataType::Array,
    DataType::String,
    DataType::Number,
    DataType::Bool,
    DataType::Null,
];

pub fn jbuild_err(e: &BuildError) -> String {
    let d = jstr(&e.to_string());
    match e {
        BuildError::TryReserveError(_) => format!("{{\"k\":\"reserve\",\"msg\":{d}}}"),
        BuildError::InnerUncompletedError => format!("{{\"k\":\"inner\",\"msg\":{d}}}"),
        BuildError::InconsistentElementCount { expected, actual } => {
            format!("{{\"k\":\"count\",\"x\":{expected},\"y\":{actual},\"msg\":{d}}}")
        }
        BuildError::StringTooLong(n) => format!("{{\"k\":\"long\",\"x\":{n},\"msg\":{d}}}"),
        BuildError::TooManyElements(n) => format!("{{\"k\":\"many\",\"x\":{n},\"msg\":{d}}}"),
        BuildError::JsonError(_) => format!("{{\"k\":\"json\",\"msg\":{d}}}"),
        BuildError::NumberError(NumberError::Overflow) => format!("{{\"k\":\"over\",\"msg\":{d}}}"),
        BuildError::NumberError(_) => format!("{{\"k\":\"numfmt\",\"msg\":{d}}}"),
        BuildError::NestedTooDeeply => format!("{{\"k\":\"deep\",\"msg\":{d}}}"),
        #[allow(unreachable_patterns)]
        _ => format!("{{\"k\":\"other\",\"msg\":{d}}}"),
    }
}
pub fn jyason_err(e: &YasonError) -> String {
    let d = jstr(&e.to_string());
    match e {
        YasonError::IndexOutOfBounds { len, index } => {
            format!(
                "{{\"k\":\"bounds\",\"x\":{len},\"y\":{},\"msg\":{d}}}",
                *index as isize
            )
        }
        YasonError::UnexpectedType { expected, actual } => {
            format!(
                "{{\"k\":\"type\",\"x\":\"{}\",\"y\":\"{}\",\"msg\":{d}}}",
                type_name(*expected),
                type_name(*actual)
            )
        }
        YasonError::InvalidDataType(t) => format!("{{\"k\":\"badtype\",\"x\":{t},\"msg\":{d}}}"),
        YasonError::MultiValuesWithoutWrapper => format!("{{\"k\":\"multi\",\"msg\":{d}}}"),
        YasonError::TryReserveError(_) => format!("{{\"k\":\"reserve\",\"msg\":{d}}}"),
        YasonError::InvalidPathExpression => format!("{{\"k\":\"badpath\",\"msg\":{d}}}"),
        YasonError::BuildError(b) => jbuild_err(b),
        #[allow(unreachable_patterns)]
        _ => format!("{{\"k\":\"other\",\"msg\":{d}}}"),
    }
}

pub fn fail(e: &YasonError) -> String {
    format!("{{\"ok\":false,\"err\":{}}}", jyason_err(e))
}

/// {"ok":true,"v":..} or {"ok":false,"err":..}
pub fn res<T>(r: YasonResultLike<T>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => format!("{{\"ok\":true,\"v\":{}}}", f(x)),
        Err(e) => fail(&e),
    }
}
pub type YasonResultLike<T> = std::result::Result<T, YasonError>;

/// Optional results: an absent member is {"ok":true,"none":true}.
pub fn opt<T>(r: YasonResultLike<Option<T>>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(Some(x)) => format!("{{\"ok\":true,\"none\":false,\"v\":{}}}", f(x)),
        Ok(None) => "{\"ok\":true,\"none\":true}".to_string(),
        Err(e) => fail(&e),
    }
}

/// An abstract value.
pub enum V {
    Leaf(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl V {
    fn depth(&self) -> usize {
        match self {
            V::Leaf(_) => 0,
            V::Arr(xs) => 1 + xs.iter().map(V::depth).max().unwrap_or(0),
            V::Obj(ms) => 1 + ms.iter().map(|m| m.1.depth()).max().unwrap_or(0),
        }
    }
    pub fn nested(&self) -> String {
        match self {
            V::Leaf(x) => x.clone(),
            V::Arr(xs) => format!(
                "{{\"t\":\"arr\",\"a\":{}}}",
                jlist(&xs.iter().map(V::nested).collect::<Vec<_>>())
            ),
            V::Obj(ms) => {
                let xs: Vec<String> = ms
                    .iter()
                    .map(|(k, v)| format!("{{\"k\":{k},\"v\":{}}}", v.nested()))
                    .collect();
                format!("{{\"t\":\"obj\",\"o\":{}}}", jlist(&xs))
            }
        }
    }
    fn flat(&self, out: &mut Vec<String>) {
        match self {
            V::Leaf(x) => out.push(x.clone()),
            V::Arr(xs) => {
                out.push(format!("{{\"t\":\"arr\",\"n\":{}}}", xs.len()));
                xs.iter().for_each(|x| x.flat(out));
            }
            V::Obj(ms) => {
                let ks: Vec<String> = ms.iter().map(|m| m.0.clone()).collect();
                out.push(format!("{{\"t\":\"obj\",\"ks\":{}}}", jlist(&ks)));
                ms.iter().for_each(|m| m.1.flat(out));
            }
        }
    }
    /// The field holding the value: "v" nested, or "deep" in preorder when it nests too deeply for the reader of traces.
    pub fn field(&self) -> String {
        if self.depth() > 40 {
            let mut out = Vec::new();
            self.flat(&mut out);
            format!("\"deep\":{}", jlist(&out))
        } else {
            format!("\"v\":{}", self.nested())
        }
    }
}

/// The abstract value read through the public accessors.
pub fn dump(v: &Value) -> YasonResultLike<V> {
    Ok(match v {
        Value::Null => V::Leaf("{\"t\":\"null\"}".to_string()),
        Value::Bool(x) => V::Leaf(format!("{{\"t\":\"bool\",\"b\":{x}}}")),
        Value::Number(x) => V::Leaf(jnum(x)),
        Value::String(x) => V::Leaf(format!("{{\"t\":\"str\",\"s\":{}}}", jbytes(x.as_bytes()))),
        Value::Array(a) => {
            let mut xs = Vec::new();
            for x in a.iter()? {
                xs.push(dump(&x?)?);
            }
            V::Arr(xs)
        }
        Value::Object(o) => {
            let mut xs = Vec::new();
            for m in o.iter()? {
                let (k, x) = m?;
                xs.push((jbytes(k.as_bytes()), dump(&x)?));
            }
            V::Obj(xs)
        }
    })
}

/// The same through indexed and keyed lookups instead of the iterators.
fn dump_get(v: &Value) -> YasonResultLike<V> {
    Ok(match v {
        Value::Array(a) => {
            let mut xs = Vec::new();
            for i in 0..a.len()? {
                xs.push(dump_get(&a.get(i)?)?);
            }
            V::Arr(xs)
        }
        Value::Object(o) => {
            let mut xs = Vec::new();
            for k in o.key_iter()? {
                let k = k?;
                let x = match o.get(k)? {
                    Some(x) => dump_get(&x)?,
                    None => V::Leaf("{\"t\":\"missing\"}".to_string()),
                };
                xs.push((jbytes(k.as_bytes()), x));
            }
            V::Obj(xs)
        }
        x => dump(x)?,
    })
}

/// A result holding a document value.
fn res_dump(r: YasonResultLike<Value>) -> String {
    match r.and_then(|v| dump(&v)) {
        Ok(v) => format!("{{\"ok\":true,{}}}", v.field()),
        Err(e) => fail(&e),
    }
}
fn opt_dump(r: YasonResultLike<Option<Value>>) -> String {
    match r {
        Ok(None) => "{\"ok\":true,\"none\":true}".to_string(),
        Ok(Some(v)) => match dump(&v) {
            Ok(v) => format!("{{\"ok\":true,\"none\":false,{}}}", v.field()),
            Err(e) => fail(&e),
        },
        Err(e) => fail(&e),
    }
}

/// The value at a position: child numbers in stored order from the root.
pub fn nav(doc: &'static Yason, pos: &[usize]) -> YasonResultLike<Value<'static>> {
    let mut v = Value::try_from(doc)?;
    for &i in pos {
        v = match v {
            Value::Array(a) => a.iter()?.nth(i).expect("harness: position")?,
            Value::Object(o) => o.iter()?.nth(i).expect("harness: position")?.1,
            _ => panic!("harness: position"),
        };
    }
    Ok(v)
}

/// The view of the container at a position, or of the whole document.
pub fn nav_view(doc: &'static Yason, pos: &[usize]) -> YasonResultLike<Option<&'static Yason>> {
    if pos.is_empty() {
        return Ok(Some(doc));
    }
    let v: &'static Value<'static> = Box::leak(Box::new(nav(doc, pos)?));
    Ok(match v {
        Value::Object(o) => Some(o.yason()),
        Value::Array(a) => Some(a.yason()),
        _ => None,
    })
}

pub fn doc(ctx: &Ctx, op: &J, f: &str) -> Option<&'static Yason> {
    ctx.docs.get(&n(op, f)).map(|d| d.0)
}

macro_rules! need {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => return crate::SKIP.to_string(),
        }
    };
}
macro_rules! tryok {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(e) => return fail(&e),
        }
    };
}
pub(crate) use {need, tryok};

pub fn walk(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let v = tryok!(nav(d, &pos_of(op, "pos")));
    match if s(op, "how") == "get" {
        dump_get(&v)
    } else {
        dump(&v)
    } {
        Ok(v) => format!("{{\"ok\":true,{}}}", v.field()),
        Err(e) => fail(&e),
    }
}

pub fn format_of(y: &Yason, pretty: bool, via: &str) -> std::result::Result<String, String> {
    let mut o = String::new();
    match via {
        "disp" => write!(o, "{}", y.format(pretty)).map_err(|e| e.to_string())?,
        // A writer that already holds text, as a caller's writer may.
        "app" => {
            o.push_str("[[ ");
            y.format_to(pretty, &mut o).map_err(|e| e.to_string())?;
            o = o
                .strip_prefix("[[ ")
                .ok_or("harness: writer contents were changed")?
                .to_string();
        }
        _ => y.format_to(pretty, &mut o).map_err(|e| e.to_string())?,
    }
    Ok(o)
}

/// A writer that refuses what does not fit: from then on, or only once.
struct Tight {
    room: usize,
    once: bool,
    refused: bool,
    got: String,
}

impl std::fmt::Write for Tight {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if self.got.len() + t.len() > self.room && !(self.once && self.refused) {
            self.refused = true;
            return Err(std::fmt::Error);
        }
        self.got.push_str(t);
        Ok(())
    }
}

/// The same text written to writers with room for some thousandths of it
/// (more than 1000: for all of it).
pub fn tight(op: &J, full: usize, f: impl Fn(&mut dyn FnMut(&str) -> std::fmt::Result) -> bool) -> String {
    let none = Vec::new();
    let mut out = Vec::new();
    for x in op["rooms"].as_array().unwrap_or(&none) {
        let x = x.as_i64().unwrap();
        let mut w = Tight {
            room: full * x.unsigned_abs() as usize / 1000,
            once: x < 0,
            refused: false,
            got: String::new(),
        };
        let ok = f(&mut |t| w.write_str(t));
        out.push(format!(
            "{{\"room\":{},\"ok\":{ok},\"got\":{}}}",
            w.room,
            jbytes(w.got.as_bytes())
        ));
    }
    format!("[{}]", out.join(","))
}

/// A writer that hands every piece to a function.
pub struct Through<'a>(pub &'a mut dyn FnMut(&str) -> std::fmt::Result);
impl std::fmt::Write for Through<'_> {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        (self.0)(t)
    }
}

pub fn fmt(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let y = need!(tryok!(nav_view(d, &pos_of(op, "pos"))));
    let pretty = b(op, "pretty");
    match format_of(y, pretty, s(op, "via")) {
        Ok(t) => {
            let rooms = tight(op, t.len(), |w| {
                if s(op, "via") == "disp" {
                    write!(Through(w), "{}", y.format(pretty)).is_ok()
                } else {
                    y.format_to(pretty, &mut Through(w)).is_ok()
                }
            });
            format!("{{\"ok\":true,\"text\":{},\"rooms\":{rooms}}}", jbytes(t.as_bytes()))
        }
        Err(e) => format!(
            "{{\"ok\":false,\"err\":{{\"k\":\"fmt\",\"msg\":{}}}}}",
            jstr(&e)
        ),
    }
}

pub fn root(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let y = need!(tryok!(nav_view(d, &pos_of(op, "pos"))));
    format!(
        "{{\"ok\":true,\"ty\":{},\"isnull\":{},\"obj\":{},\"arr\":{},\"str\":{},\"num\":{},\"bool\":{},\"val\":{},\"vty\":{}}}",
        res(y.data_type(), |t| format!("\"{}\"", type_name(t))),
        res(y.is_null(), |x| x.to_string()),
        res(y.object().and_then(|o| o.len()), |x| x.to_string()),
        res(y.array().and_then(|a| a.len()), |x| x.to_string()),
        res(y.string(), |x| jbytes(x.as_bytes())),
        res(y.number(), |x| jnum(&x)),
        res(y.bool(), |x| x.to_string()),
        res_dump(Value::try_from(y)),
        res(Value::try_from(y), |v| format!("\"{}\"", type_name(v.data_type()))),
    )
}

pub fn types(op: &J) -> String {
    let items: Vec<String> = op["codes"]
        .as_array()
        .expect("harness: codes")
        .iter()
        .map(|c| match DataType::try_from(c.as_u64().unwrap() as u8) {
            Ok(t) => format!(
                "{{\"ok\":true,\"ty\":\"{}\",\"back\":{},\"name\":{},\"title\":{}}}",
                type_name(t),
                u8::from(t),
                jstr(t.name()),
                jstr(&t.to_string())
            ),
            Err(e) => format!("{{\"ok\":false,\"msg\":{}}}", jstr(&e.to_string())),
        })
        .collect();
    format!("{{\"ok\":true,\"items\":[{}]}}", items.join(","))
}

pub fn arr(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let y = need!(tryok!(nav_view(d, &pos_of(op, "pos"))));
    let a = tryok!(y.array());
    let len = tryok!(a.len());
    let mut items = Vec::new();
    for i in op["idx"].as_array().expect("harness: idx") {
        // A negative index stands for a huge one.
        let i = i.as_i64().unwrap() as isize as usize;
        let isty: Vec<String> = TYPES
            .iter()
            .map(|t| res(a.is_type(i, *t), |x| x.to_string()))
            .collect();
        items.push(format!(
            "{{\"i\":{},\"get\":{},\"un\":{},\"ty\":{},\"isty\":{},\"isnull\":{},\"obj\":{},\"arr\":{},\"str\":{},\"num\":{},\"bool\":{}}}",
            i as isize,
            res_dump(a.get(i)),
            if i < len { res_dump(unsafe { a.get_unchecked(i) }) } else { "{\"ok\":false,\"skip\":true}".to_string() },
            res(a.type_of(i), |t| format!("\"{}\"", type_name(t))),
            jlist(&isty),
            res(a.is_null(i), |x| x.to_string()),
            res_dump(a.object(i).map(Value::Object)),
            res_dump(a.array(i).map(Value::Array)),
            res(a.string(i), |x| jbytes(x.as_bytes())),
            res(a.number(i), |x| jnum(&x)),
            res(a.bool(i), |x| x.to_string()),
        ));
    }
    let mut iter = Vec::new();
    let mut it = tryok!(a.iter());
    // A little beyond the length, so that an iterator that does not stop is seen.
    for _ in 0..len + 3 {
        match it.next() {
            None => break,
            Some(v) => iter.push(res_dump(v)),
        }
    }
    let spent = it.next().is_none();
    format!(
        "{{\"ok\":true,\"len\":{len},\"empty\":{},\"items\":{},\"iter\":{},\"spent\":{spent}}}",
        res(a.is_empty(), |x| x.to_string()),
        jlist(&items),
        jlist(&iter)
    )
}

pub fn obj(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let y = need!(tryok!(nav_view(d, &pos_of(op, "pos"))));
    let o = tryok!(y.object());
    let len = tryok!(o.len());
    let mut items = Vec::new();
    for k in op["keys"].as_array().unwrap() {
        let k = String::from_utf8(bytes_val(k)).expect("harness: key");
        let k = k.as_str();
        let isty: Vec<String> = TYPES
            .iter()
            .map(|t| opt(o.is_type(k, *t), |x| x.to_string()))
            .collect();
        items.push(format!(
            "{{\"get\":{},\"has\":{},\"ty\":{},\"isty\":{},\"isnull\":{},\"obj\":{},\"arr\":{},\"str\":{},\"num\":{},\"bool\":{}}}",
            opt_dump(o.get(k)),
            res(o.contains_key(k), |x| x.to_string()),
            opt(o.type_of(k), |t| format!("\"{}\"", type_name(t))),
            jlist(&isty),
            opt(o.is_null(k), |x| x.to_string()),
            opt_dump(o.object(k).map(|x| x.map(Value::Object))),
            opt_dump(o.array(k).map(|x| x.map(Value::Array))),
            opt(o.string(k), |x| jbytes(x.as_bytes())),
            opt(o.number(k), |x| jnum(&x)),
            opt(o.bool(k), |x| x.to_string()),
        ));
    }
    let mut ents = Vec::new();
    let mut it = tryok!(o.iter());
    for _ in 0..len + 3 {
        match it.next() {
            None => break,
            Some(m) => ents.push(match m {
                Ok((k, v)) => match dump(&v) {
                    Ok(v) => format!(
                        "{{\"ok\":true,\"k\":{},{}}}",
                        jbytes(k.as_bytes()),
                        v.field()
                    ),
                    Err(e) => fail(&e),
                },
                Err(e) => fail(&e),
            }),
        }
    }
    let mut ks = Vec::new();
    let mut kit = tryok!(o.key_iter());
    for _ in 0..len + 3 {
        match kit.next() {
            None => break,
            Some(k) => ks.push(res(k, |k| jbytes(k.as_bytes()))),
        }
    }
    let mut vs = Vec::new();
    let mut vit = tryok!(o.value_iter());
    for _ in 0..len + 3 {
        match vit.next() {
            None => break,
            Some(v) => vs.push(res_dump(v)),
        }
    }
    let spent = it.next().is_none() && kit.next().is_none() && vit.next().is_none();
    format!(
        "{{\"ok\":true,\"len\":{len},\"empty\":{},\"items\":{},\"ents\":{},\"ks\":{},\"vs\":{},\"spent\":{spent}}}",
        res(o.is_empty(), |x| x.to_string()),
        jlist(&items),
        jlist(&ents),
        jlist(&ks),
        jlist(&vs)
    )
}

/// The first bytes of a document, as if it had been cut short.
pub fn cut(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let all = d.as_bytes();
    if all.len() < 2 {
        return crate::SKIP.to_string();
    }
    let at = op["at"].as_i64().expect("harness: at");
    let keep = 1 + at.rem_euclid(all.len() as i64 - 1) as usize;
    let part: &'static [u8] = Box::leak(all[..keep].to_vec().into_boxed_slice());
    let y: &'static Yason = unsafe { Yason::new_unchecked(part) };
    ctx.docs.insert(n(op, "reg2"), Doc(y));
    format!("{{\"ok\":true,\"bytes\":{}}}", jbytes(y.as_bytes()))
}

pub fn eq(ctx: &mut Ctx, op: &J) -> String {
    let a = need!(doc(ctx, op, "a"));
    let c = need!(doc(ctx, op, "b"));
    let a = need!(tryok!(nav_view(a, &pos_of(op, "apos"))));
    let c = need!(tryok!(nav_view(c, &pos_of(op, "bpos"))));
    // `==` is for documents that are whole.
    if op["fn"].as_bool() == Some(true) {
        return format!(
            "{{\"ok\":true,\"ab\":{},\"ba\":{}}}",
            res(a.equals(c), |x| x.to_string()),
            res(c.equals(a), |x| x.to_string())
        );
    }
    format!(
        "{{\"ok\":true,\"ab\":{},\"ba\":{},\"op\":{},\"bufs\":{}}}",
        res(a.equals(c), |x| x.to_string()),
        res(c.equals(a), |x| x.to_string()),
        a == c,
        match (a.to_yason_buf(), c.to_yason_buf()) {
            (Ok(x), Ok(y)) => (x == y).to_string(),
            _ => "\"error\"".into(),
        }
    )
}

pub fn round_trip(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let src = tryok!(d.to_yason_buf());
    let ferr = |stage: &str, e: String| {
        format!(
            "{{\"ok\":false,\"err\":{{\"k\":\"{stage}\",\"msg\":{}}}}}",
            jstr(&e)
        )
    };
    let (payload, back): (Vec<u8>, YasonBuf) = match s(op, "via") {
        "bincode" => {
            let p = match bincode::serialize(&src) {
                Ok(p) => p,
                Err(e) => return ferr("ser", e.to_string()),
            };
            match bincode::deserialize::<YasonBuf>(&p) {
                Ok(x) => (p, x),
                Err(e) => return ferr("de", e.to_string()),
            }
        }
        "json" => {
            let p = match serde_json::to_string(&src) {
                Ok(p) => p,
                Err(e) => return ferr("ser", e.to_string()),
            };
            match serde_json::from_str::<YasonBuf>(&p) {
                Ok(x) => (p.into_bytes(), x),
                Err(e) => return ferr("de", e.to_string()),
            }
        }
        // Through a serde_json tree, where the deserializer owns the string.
        "tree" => {
            let p = match serde_json::to_value(&src) {
                Ok(p) => p,
                Err(e) => return ferr("ser", e.to_string()),
            };
            match serde_json::from_value::<YasonBuf>(p.clone()) {
                Ok(x) => (p.to_string().into_bytes(), x),
                Err(e) => return ferr("de", e.to_string()),
            }
        }
        via => {
            let t = match format_of(d, via == "pretty", "to") {
                Ok(t) => t,
                Err(e) => return ferr("fmt", e),
            };
            match YasonBuf::parse(&t) {
                Ok(x) => (t.into_bytes(), x),
                Err(e) => return ferr("parse", e.to_string()),
            }
        }
    };
    let y = leak(back);
    let eq = res(d.equals(y), |x| x.to_string());
    let qe = res(y.equals(d), |x| x.to_string());
    ctx.docs.insert(n(op, "reg2"), Doc(y));
    format!(
        "{{\"ok\":true,\"payload\":{},\"bytes\":{},\"eq\":{eq},\"qe\":{qe},\"op\":{}}}",
        jbytes(&payload),
        jbytes(y.as_bytes()),
        d == y
    )
}

pub fn extract(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let before = d.as_bytes().to_vec();
    let pos = pos_of(op, "pos");
    let pre = bytes_of(op, "pre");
    let mut buf: &'static mut Vec<u8> = Box::leak(Box::new(pre));
    let y: &'static Yason = match s(op, "via") {
        "view" => need!(tryok!(nav_view(d, &pos))),
        "buf" => {
            let y = need!(tryok!(nav_view(d, &pos)));
            leak(tryok!(crate::fault::short(op, || y.to_yason_buf())))
        }
        "own" => leak(need!(tryok!(nav_view(d, &pos))).to_owned()),
        "clone" => {
            let mut x = Scalar::string("some longer previous content of this document").unwrap();
            x.clone_from_yason(need!(tryok!(nav_view(d, &pos))));
            leak(x)
        }
        "clonebig" => {
            let mut x = YasonBuf::parse("0").unwrap();
            x.clone_from_yason(need!(tryok!(nav_view(d, &pos))));
            leak(x)
        }
        _ => {
            let v: &'static Value<'static> = Box::leak(Box::new(tryok!(nav(d, &pos))));
            let p: *mut Vec<u8> = buf;
            let y = match crate::fault::short(op, || v.try_to_yason(unsafe { &mut *p })) {
                Ok(y) => y,
                Err(e) => {
                    return format!(
                        "{{\"ok\":false,\"err\":{},\"buf\":{}}}",
                        jyason_err(&e),
                        jbytes(unsafe { &*p })
                    )
                }
            };
            // The view borrows the buffer: look at the buffer through a copy only.
            buf = Box::leak(Box::new(unsafe { (*p).clone() }));
            y
        }
    };
    ctx.docs.insert(n(op, "reg2"), Doc(y));
    format!(
        "{{\"ok\":true,\"bytes\":{},\"buf\":{},\"same\":{}}}",
        jbytes(y.as_bytes()),
        jbytes(buf),
        d.as_bytes() == &before[..]
    )
}
