//! C25 equality of values and documents is equality of what they hold.
use crate::gen;
use crate::rt::*;
use crate::spec::{self, Node, K};
use crate::view::*;
use justjson::doc::Document;
use justjson::{Entry, JsonNumber, JsonString, Object, Value};

/// Are two nodes the same, apart from what follows them?
fn same_here(m: &Node, b: &[u8], n: &Node, d: &[u8], q: u8) -> bool {
    let (s, t) = (&b[m.s..m.e], &d[n.s..n.e]);
    m.len == n.len
        && match (m.k, n.k) {
            (K::Num, K::Num) => same(s, t),
            (K::Str | K::Key, K::Str | K::Key) => same(&spec::decoded(s, q), &spec::decoded(t, q)),
            (k, l) => k == l,
        }
}

/// Do two documents hold the same: structure, texts of numbers, decoded texts
/// of strings?
fn same_doc(x: &[Node], b: &[u8], y: &[Node], d: &[u8], q: u8) -> bool {
    if x.len() != y.len() {
        return false;
    }
    x.iter().zip(y.iter()).all(|(m, n)| same_here(m, b, n, d, q))
}

/// The same document written otherwise: blanks around every token, plain
/// letters of strings as escapes.
fn respelled(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len() * 6 + 8);
    let (mut inside, mut i) = (false, 0);
    while i < b.len() {
        let c = b[i];
        i += 1;
        if !inside {
            if c == b'"' {
                o.push(b' ');
                inside = true;
            }
            o.push(c);
            if c == b',' || c == b':' || c == b'[' || c == b'{' {
                o.push(b'\n');
            }
        } else if c == b'"' {
            inside = false;
            o.extend_from_slice(b"\"\t");
        } else if c == b'\\' {
            o.push(c);
            o.push(b[i]);
            i += 1;
            if b[i - 1] == b'u' {
                o.extend_from_slice(&b[i..i + 4]);
                i += 4;
            }
        } else if c < 0x80 {
            o.extend_from_slice(b"\\u00");
            o.push(b'0' + (c >> 4));
            let l = c & 15;
            o.push(if l < 10 { b'0' + l } else { b'a' - 10 + l });
        } else {
            o.push(c);
        }
    }
    o
}

/// Node `i` put together through the interface for building values. Odd nodes
/// own their text.
fn built<'a>(x: &[Node], i: usize, b: &'a [u8], text: &'a [String]) -> Value<'a> {
    let n = &x[i];
    match n.k {
        K::Null => Value::Null,
        K::True => Value::from(true),
        K::False => Value::from(false),
        K::Num => match JsonNumber::from_json(unsafe { core::str::from_utf8_unchecked(&b[n.s..n.e]) }) {
            Ok(v) => Value::Number(v),
            Err(_) => fail(998),
        },
        K::Str | K::Key => {
            if i & 1 == 0 {
                Value::from(text[i].as_str())
            } else {
                Value::from(text[i].clone())
            }
        }
        K::Arr => {
            let mut v = Vec::with_capacity(n.len);
            let mut j = i + 1;
            for _ in 0..n.len {
                v.push(built(x, j, b, text));
                j += x[j].size;
            }
            Value::from(v)
        }
        K::Obj => {
            let mut o = Object::new();
            let mut j = i + 1;
            for _ in 0..n.len {
                o.push(Entry::new(JsonString::from(text[j].as_str()), built(x, j + 1, b, text)));
                j += 1;
                j += x[j].size;
            }
            Value::from(o)
        }
    }
}

/// p4: the other document: 0 a byte is overwritten, 1 any of the family p5..p8,
/// 2 respelled, 3 built from parts
pub fn c25_same() {
    let b = gen::input(0);
    let v = match Value::from_json_bytes(&b) {
        Ok(v) => v,
        Err(_) => {
            cover(3);
            return;
        }
    };
    let p = spec::parse(&b, spec::DEFAULT);
    check!(p.err.is_none());
    let x = p.nodes;
    let q = bq();
    let mode = param(4);
    if mode == 3 {
        let text: Vec<String> = x
            .iter()
            .map(|n| match n.k {
                K::Str | K::Key => unsafe { String::from_utf8_unchecked(spec::decoded(&b[n.s..n.e], q)) },
                _ => String::new(),
            })
            .collect();
        let w = built(&x, 0, &b, &text);
        check!(v == w);
        check!(w == v);
        check!(!(v != w));
        cover(1);
        return;
    }
    let d = match mode {
        0 => {
            let mut d = b.clone();
            let at = if d.len() <= 24 {
                choice(d.len() as u32) as usize
            } else {
                match choice(6) {
                    0 => 1,
                    1 => 2,
                    2 => d.len() / 2,
                    3 => d.len() / 2 + 1,
                    4 => d.len() - 3,
                    _ => d.len() - 2,
                }
            };
            d[at] = gen::any_byte();
            d
        }
        1 => gen::input(5),
        _ => respelled(&b),
    };
    let w = match Value::from_json_bytes(&d) {
        Ok(v) => v,
        Err(_) => {
            check!(mode != 2);
            cover(4);
            return;
        }
    };
    let p = spec::parse(&d, spec::DEFAULT);
    check!(p.err.is_none());
    let y = p.nodes;
    let want = same_doc(&x, &b, &y, &d, q);
    check!(want | (mode != 2));
    cover(if want { 1 } else { 2 });
    observe(want as u64);
    check!((v == w) == want);
    check!((w == v) == want);
    check!((v != w) != want);
    let (e, f) = match (Document::from_json_bytes(&b), Document::from_json_bytes(&d)) {
        (Ok(e), Ok(f)) => (e, f),
        _ => fail(997),
    };
    check!((e == f) == want);
    check!((f == e) == want);
    // node by node
    for (i, (m, n)) in e.iter().zip(f.iter()).enumerate() {
        check!((m == n) == same_here(&x[i], &b, &y[i], &d, q));
    }
    if let (Some(s), Some(t)) = (v.as_object(), w.as_object()) {
        check!((s == t) == want);
    }
    if let (Some(s), Some(t)) = (v.as_array(), w.as_array()) {
        check!((s == t) == want);
    }
    check!((Value::from(e) == w) == want);
    check!((v == Value::from(f)) == want);
}
