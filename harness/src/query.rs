//! Path expressions and queries.

use crate::fault::short;
use crate::obs::*;
use crate::Ctx;
use serde_json::Value as J;
use std::str::FromStr;
use yason::*;

pub fn path(op: &J) -> String {
    let text = text_of(op, "text");
    match short(op, || PathExpression::from_str(&text)) {
        Ok(_) => "{\"ok\":true}".to_string(),
        Err(e) => {
            let k = if format!("{e:?}").contains("TryReserveError") {
                "reserve"
            } else {
                "path"
            };
            format!(
                "{{\"ok\":false,\"err\":{{\"k\":\"{k}\",\"msg\":{}}}}}",
                jstr(&e.to_string())
            )
        }
    }
}

macro_rules! compile {
    ($ctx:expr, $op:expr) => {{
        let text = text_of($op, "path");
        let known = $ctx.paths.get(&text).copied();
        match known.map_or_else(|| PathExpression::from_str(&text).map(|p| &*Box::leak(Box::new(p))), Ok) {
            Ok(p) => {
                $ctx.paths.insert(text, p);
                p
            }
            Err(e) => {
                return format!(
                    "{{\"ok\":false,\"err\":{{\"k\":\"path\",\"msg\":{}}}}}",
                    jstr(&e.to_string())
                )
            }
        }
    }};
}

pub fn exists(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let y = need!(tryok!(nav_view(d, &pos_of(op, "pos"))));
    let p = compile!(ctx, op);
    res(short(op, || p.exists(y)), |x| x.to_string())
}

/// The values of a result, as one array.
fn dumps(vs: &[Value]) -> String {
    let xs: Vec<V> = vs
        .iter()
        .map(|v| dump(v).unwrap_or(V::Leaf("{\"t\":\"error\"}".into())))
        .collect();
    V::Arr(xs).field()
}

/// The compact text of each value as a document of its own.
fn texts(vs: &[Value]) -> String {
    let one = |v: &Value| -> Option<String> {
        let mut buf = Vec::new();
        let y = v.try_to_yason(&mut buf).ok()?;
        let mut t = String::new();
        y.format_to(false, &mut t).ok()?;
        Some(jbytes(t.as_bytes()))
    };
    let xs: Vec<String> = vs.iter().map(|v| one(v).unwrap_or("[]".into())).collect();
    format!("[{}]", xs.join(","))
}

pub fn query(ctx: &mut Ctx, op: &J) -> String {
    let d = need!(doc(ctx, op, "reg"));
    let y = need!(tryok!(nav_view(d, &pos_of(op, "pos"))));
    let p = compile!(ctx, op);
    let qbuf: *mut Vec<Value<'static>> = &mut ctx.qbuf;
    let rbuf: *mut Vec<u8> = &mut ctx.rbuf;
    let q = if b(op, "qb") {
        Some(unsafe { &mut *qbuf })
    } else {
        None
    };
    let r = if b(op, "rb") {
        Some(unsafe { &mut *rbuf })
    } else {
        None
    };
    let wrap = b(op, "wrap");
    let result = short(op, || p.query(y, wrap, q, r));
    let body = match result {
        Err(e) => format!("\"ok\":false,\"err\":{}", jyason_err(&e)),
        Ok(v) => {
            let mut c = String::new();
            let mut t = String::new();
            let fc = v.format_to(false, &mut c).is_ok();
            let fp = v.format_to(true, &mut t).is_ok();
            let pretty = op["pretty"].as_bool().unwrap_or(false);
            let rooms = tight(op, if pretty { t.len() } else { c.len() }, |w| {
                v.format_to(pretty, &mut Through(w)).is_ok()
            });
            let (form, vals, bytes) = match &v {
                QueriedValue::None => ("none", dumps(&[]), "[]".to_string()),
                QueriedValue::Value(x) => {
                    ("value", dumps(std::slice::from_ref(x)), "[]".to_string())
                }
                QueriedValue::Values(xs) => ("values", dumps(xs), "[]".to_string()),
                QueriedValue::ValuesRef(xs) => ("ref", dumps(xs), "[]".to_string()),
                QueriedValue::Yason(y) => ("yason", dumps(&[]), jbytes(y.as_bytes())),
            };
            let each = match &v {
                QueriedValue::None => texts(&[]),
                QueriedValue::Value(x) => texts(std::slice::from_ref(x)),
                QueriedValue::Values(xs) => texts(xs),
                QueriedValue::ValuesRef(xs) => texts(xs),
                QueriedValue::Yason(y) => match y.array().and_then(|a| a.iter()?.collect::<std::result::Result<Vec<Value>, _>>()) {
                    Ok(xs) => texts(&xs),
                    Err(_) => texts(&[]),
                },
            };
            format!(
                "\"ok\":true,\"form\":\"{form}\",{vals},\"bytes\":{bytes},\"fc\":{fc},\"fp\":{fp},\"rooms\":{rooms},\"each\":{each},\"ctext\":{},\"ptext\":{}",
                jbytes(c.as_bytes()),
                jbytes(t.as_bytes())
            )
        }
    };
    let rb = if b(op, "rb") {
        jbytes(unsafe { &*rbuf })
    } else {
        "[]".to_string()
    };
    format!("{{{body},\"rbuf\":{rb}}}")
}
