//! C10 compact, C11 pretty serialization.
use crate::gen;
use crate::rt::*;
use crate::spec::{self, Node, K};
use crate::view::*;
use core::fmt::{self, Write};
use justjson::doc::Document;
use justjson::{Entry, JsonNumber, JsonString, Object, Value};

/// How a value is laid out.
#[derive(Clone, Copy)]
struct Style<'a> {
    pretty: bool,
    indent: &'a [u8],
    eol: &'a [u8],
}
const COMPACT: Style<'static> = Style { pretty: false, indent: b"", eol: b"" };
const PRETTY: Style<'static> = Style { pretty: true, indent: b"  ", eol: b"\n" };

impl Style<'_> {
    fn line(&self, out: &mut Vec<u8>, level: usize) {
        if self.pretty {
            out.extend_from_slice(self.eol);
            for _ in 0..level {
                out.extend_from_slice(self.indent);
            }
        }
    }
    fn colon(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(if self.pretty { b": " } else { b":" });
    }
}

/// The text for node `i` of the source `b`.
fn layout(nodes: &[Node], i: usize, b: &[u8], st: Style<'_>, level: usize, out: &mut Vec<u8>) {
    let n = &nodes[i];
    match n.k {
        K::Null => out.extend_from_slice(b"null"),
        K::True => out.extend_from_slice(b"true"),
        K::False => out.extend_from_slice(b"false"),
        K::Num => out.extend_from_slice(&b[n.s..n.e]),
        K::Str | K::Key => {
            out.push(b'"');
            out.extend_from_slice(&b[n.s..n.e]);
            out.push(b'"');
        }
        K::Arr | K::Obj => {
            let obj = n.k == K::Obj;
            out.push(if obj { b'{' } else { b'[' });
            let mut j = i + 1;
            for k in 0..n.len {
                if k > 0 {
                    out.push(b',');
                }
                st.line(out, level + 1);
                if obj {
                    layout(nodes, j, b, st, level + 1, out);
                    st.colon(out);
                    j += 1;
                }
                layout(nodes, j, b, st, level + 1, out);
                j += nodes[j].size;
            }
            if n.len > 0 {
                st.line(out, level);
            }
            out.push(if obj { b'}' } else { b']' });
        }
    }
}
/// The text for a value of any origin.
fn render(v: &Value<'_>, st: Style<'_>, level: usize, out: &mut Vec<u8>) {
    fn string(s: &JsonString<'_>, out: &mut Vec<u8>) {
        // C12 says what this is
        out.push(b'"');
        out.extend_from_slice(s.escape_if_needed().as_bytes());
        out.push(b'"');
    }
    match v {
        Value::Null => out.extend_from_slice(b"null"),
        Value::Boolean(x) => out.extend_from_slice(if *x { b"true" } else { b"false" }),
        Value::Number(x) => out.extend_from_slice(x.source().as_bytes()),
        Value::String(s) => string(s, out),
        Value::Array(a) => {
            out.push(b'[');
            for (k, x) in a.iter().enumerate() {
                if k > 0 {
                    out.push(b',');
                }
                st.line(out, level + 1);
                render(x, st, level + 1, out);
            }
            if !a.is_empty() {
                st.line(out, level);
            }
            out.push(b']');
        }
        Value::Object(o) => {
            out.push(b'{');
            for (k, e) in o.iter().enumerate() {
                if k > 0 {
                    out.push(b',');
                }
                st.line(out, level + 1);
                string(&e.key, out);
                st.colon(out);
                render(&e.value, st, level + 1, out);
            }
            if !o.is_empty() {
                st.line(out, level);
            }
            out.push(b'}');
        }
    }
}

/// Every compact writer, and a destination which fails part way.
fn writes_compact(v: &Value<'_>, want: &[u8]) {
    check!(same(v.to_json().as_bytes(), want));
    let mut k = Sink::new();
    check!(v.write_json_to(&mut k).is_ok());
    check!(same(&k.v, want));
    let mut k = Sink::new();
    check!(write!(k, "{}", v).is_ok());
    check!(same(&k.v, want));
    let mut k = Sink::new();
    {
        let d: &mut dyn fmt::Write = &mut k;
        check!(v.write_json_to(d).is_ok());
    }
    check!(same(&k.v, want));
}
fn writes_pretty(v: &Value<'_>, want: &[u8]) {
    check!(same(v.to_json_pretty().as_bytes(), want));
    let mut k = Sink::new();
    check!(v.pretty_write_json_to(&mut k).is_ok());
    check!(same(&k.v, want));
    let mut k = Sink::new();
    check!(write!(k, "{:#}", v).is_ok());
    check!(same(&k.v, want));
    check!(same(v.to_json_pretty_custom("  ", "\n").as_bytes(), want));
}
/// A destination which takes only the first few writes: the failure comes
/// back, after a prefix of the text, and nothing more is written.
fn fails(v: &Value<'_>, want: &[u8], how: u32, most: u32) {
    let left = choice(most + 1) as usize;
    let mut k = Failing { v: Vec::with_capacity(64), left, failed: false };
    let r = match how {
        0 => v.write_json_to(&mut k),
        1 => write!(k, "{}", v),
        2 => v.pretty_write_json_to(&mut k),
        3 => write!(k, "{:#}", v),
        _ => v.pretty_write_json_to_custom("  ", "\n", &mut k),
    };
    check!(r.is_err() == k.failed);
    check!(k.v.len() <= want.len() && same(&k.v, &want[..k.v.len()]));
    if k.failed {
        cover(11);
    } else {
        cover(12);
        check!(k.v.len() == want.len());
    }
}
fn reparses(text: &[u8], v: &Value<'_>) {
    match Value::from_json_bytes_with_config(text, justjson::parser::ParseConfig::new().without_recursion_limit()) {
        Ok(r) => check!(r == *v && *v == r),
        Err(_) => check!(false),
    }
}

/// p4: config mode; p5: 0 nothing else, 1 also failing destinations
pub fn c10_parsed() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let w = spec::parse(&b, c);
    let v = match Value::from_json_bytes_with_config(&b, k) {
        Ok(v) => v,
        Err(_) => {
            cover(2);
            check!(w.err.is_some());
            return;
        }
    };
    cover(1);
    check!(w.err.is_none());
    let mut want = Vec::with_capacity(64);
    layout(&w.nodes, 0, &b, COMPACT, 0, &mut want);
    observe(want.len() as u64);
    writes_compact(&v, &want);
    if want.len() == b.len() {
        cover(3);
        check!(same(&want, &b));
    }
    reparses(&want, &v);
    match Document::from_json_bytes_with_config(&b, k) {
        Ok(d) => check!(same(Value::from(d).to_json().as_bytes(), &want)),
        Err(_) => check!(false),
    }
    if param(5) == 1 {
        fails(&v, &want, choice(2), 8);
    }
}
/// p4: config mode; p5: 1 also failing destinations, 2 custom layout
pub fn c11_parsed() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let w = spec::parse(&b, c);
    let v = match Value::from_json_bytes_with_config(&b, k) {
        Ok(v) => v,
        Err(_) => {
            cover(2);
            check!(w.err.is_some());
            return;
        }
    };
    cover(1);
    check!(w.err.is_none());
    let mut want = Vec::with_capacity(64);
    layout(&w.nodes, 0, &b, PRETTY, 0, &mut want);
    observe(want.len() as u64);
    match param(5) {
        0 => {
            writes_pretty(&v, &want);
            reparses(&want, &v);
        }
        1 => fails(&v, &want, 2 + choice(3), 12),
        _ => custom(&v),
    }
}
/// Indentation and line ending of 0..=2 bytes each.
fn custom(v: &Value<'_>) {
    let mut ind = vec![0; choice(3) as usize];
    fill(&mut ind);
    let mut eol = vec![0; choice(3) as usize];
    fill(&mut eol);
    let (i, e) = (gen::text(&ind), gen::text(&eol));
    let st = Style { pretty: true, indent: &ind, eol: &eol };
    let mut want = Vec::with_capacity(64);
    render(v, st, 0, &mut want);
    observe(want.len() as u64);
    check!(same(v.to_json_pretty_custom(i, e).as_bytes(), &want));
    let mut k = Sink::new();
    check!(v.pretty_write_json_to_custom(i, e, &mut k).is_ok());
    check!(same(&k.v, &want));
    let mut blank = true;
    for &x in ind.iter().chain(eol.iter()) {
        blank &= spec::is_ws(x);
    }
    if blank {
        cover(4);
        reparses(&want, v);
    } else {
        cover(5);
    }
}

/// Builds values by choice, with symbolic leaves of every origin.
struct Build {
    left: usize,
    /// sizes of strings
    str: usize,
}
impl Build {
    fn string(&mut self) -> JsonString<'static> {
        let (n, c) = if self.str >= 100 {
            let c = gen::long_text((self.str % 100 / 10) as u64, self.str % 10);
            (c.len(), c)
        } else {
            let n = choice(self.str as u32 + 1) as usize;
            let mut c = vec![0; n];
            fill(&mut c);
            (n, c)
        };
        let c: &'static [u8] = Box::leak(c.into_boxed_slice());
        let t = gen::text(c);
        match choice(3) {
            0 => JsonString::from(t),
            1 => JsonString::from(String::from(t)),
            _ => {
                let mut l = Vec::with_capacity(n + 2);
                l.push(b'"');
                l.extend_from_slice(c);
                l.push(b'"');
                let l: &'static [u8] = Box::leak(l.into_boxed_slice());
                match JsonString::from_json(gen::text(l)) {
                    Ok(s) => s,
                    Err(_) => {
                        assume(false);
                        fail(9998)
                    }
                }
            }
        }
    }
    fn value(&mut self, depth: usize) -> Value<'static> {
        self.left -= 1;
        let kinds = if depth > 0 { 5 } else { 3 };
        match choice(kinds) {
            0 => match choice(4) {
                0 => Value::Null,
                1 => Value::from(true),
                2 => Value::from(false),
                _ => match JsonNumber::from_json("-1.50e+07") {
                    Ok(n) => Value::Number(n),
                    Err(_) => fail(line!()),
                },
            },
            1 => Value::from(self.string()),
            2 => match Value::from_json("[1, {\"\\u0041\" :2} ]") {
                Ok(v) => v,
                Err(_) => fail(line!()),
            },
            3 => {
                let mut a = Vec::new();
                while self.left > 0 && flag() {
                    a.push(self.value(depth - 1));
                }
                Value::from(a)
            }
            _ => {
                let mut o = Object::new();
                while self.left > 0 && flag() {
                    let k = self.string();
                    let v = self.value(depth - 1);
                    o.push(Entry::new(k, v));
                }
                Value::from(o)
            }
        }
    }
}
/// Values that were built: p0 depth, p1 nodes, p2 string size (100 + 10 list +
/// window: long strings), p3: 0 compact,
/// 1 pretty, 2 failing compact, 3 failing pretty, 4 custom layout
pub fn c10_built() {
    let mut g = Build { left: param(1) as usize, str: param(2) as usize };
    let v = g.value(param(0) as usize);
    let mode = param(3);
    let st = if mode == 0 || mode == 2 { COMPACT } else { PRETTY };
    let mut want = Vec::with_capacity(64);
    render(&v, st, 0, &mut want);
    observe(want.len() as u64);
    cover(1);
    match mode {
        0 => {
            writes_compact(&v, &want);
            reparses(&want, &v);
            // nothing insignificant: the parsed form's own compact text
            let w = spec::parse(&want, spec::Cfg { limit: None, ..spec::DEFAULT });
            check!(w.err.is_none());
            let mut again = Vec::with_capacity(64);
            layout(&w.nodes, 0, &want, COMPACT, 0, &mut again);
            check!(same(&again, &want));
        }
        1 => {
            writes_pretty(&v, &want);
            reparses(&want, &v);
        }
        2 => fails(&v, &want, choice(2), 10),
        3 => fails(&v, &want, 2 + choice(3), 14),
        _ => custom(&v),
    }
}
