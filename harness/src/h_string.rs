//! C04 decoding, C12 encoding, C13 equality, C14 order, C15 hash, C20 borrowing.
use crate::gen;
use crate::rt::*;
use crate::spec::{self, K};
use crate::view::*;
use core::cmp::Ordering;
use core::fmt::Write;
use justjson::doc::{Document, Node as DocNode};
use justjson::parser::{Parser, Tokenizer};
use justjson::{AnyStr, Entry, JsonNumber, JsonString, Object, Value};

/// KF1 is reported only when everything else about the path holds.
fn quirk(q: u8, seen: bool) {
    check!(q == 8 || q == 7);
    if q == 7 && seen {
        known(1)
    }
}

fn decodes_to(s: &JsonString<'_>, want: &[u8], esc: bool) {
    check!(s.decoded_len() == want.len());
    let u = utf8_of(s.decoded(), want.len());
    check!(same(&u, want));
    let d = s.decode_if_needed();
    check!(same(d.as_bytes(), want));
    let mut k = Sink::new();
    check!(write!(k, "{}", s).is_ok());
    check!(same(&k.v, want));
    let mut k = Sink::new();
    check!(write!(k, "{}", s.decoded()).is_ok());
    check!(same(&k.v, want));
    match s.as_str() {
        Some(t) => {
            check!(!esc);
            check!(same(t.as_bytes(), want));
        }
        None => check!(esc),
    }
    check!(s.is_empty() == want.is_empty());
    // half-read: displaying shows what is left and takes nothing
    if want.len() <= 16 {
        let mut it = s.decoded();
        let mut at = 0;
        while let Some(c) = it.next() {
            at += c.len_utf8();
            check!(at <= want.len());
            let mut k = Sink::new();
            check!(write!(k, "{}", it).is_ok());
            check!(same(&k.v, &want[at..]));
        }
        check!(at == want.len());
    }
}
/// p4: 0 bytes via Value, 1 text via JsonString (and a token), 2: key of an object
pub fn c04_decode() {
    let b = gen::input(0);
    let q = bq();
    let w = spec::parse(&b, spec::DEFAULT);
    if w.err.is_some() {
        cover(2);
        return;
    }
    let n = w.nodes[0];
    match param(4) {
        0 => {
            if n.k != K::Str {
                return;
            }
            let want = spec::decoded(&b[n.s..n.e], q);
            match Value::from_json_bytes(&b) {
                Ok(Value::String(s)) => decodes_to(&s, &want, n.esc),
                _ => check!(false),
            }
            cover(1);
            observe(want.len() as u64);
            quirk(q, n.esc && spec::has_b(&b[n.s..n.e]));
        }
        1 => {
            if n.k != K::Str {
                return;
            }
            let want = spec::decoded(&b[n.s..n.e], q);
            let t = gen::text(&b);
            match JsonString::from_json(t) {
                Ok(s) => decodes_to(&s, &want, n.esc),
                _ => check!(false),
            }
            cover(1);
            observe(want.len() as u64);
            quirk(q, n.esc && spec::has_b(&b[n.s..n.e]));
        }
        _ => {
            if n.k != K::Obj || w.nodes.len() < 2 {
                return;
            }
            let n = w.nodes[1];
            let want = spec::decoded(&b[n.s..n.e], q);
            match Document::from_json_bytes(&b) {
                Ok(d) => match d.iter().nth(1) {
                    Some(DocNode::String(s)) => decodes_to(&s, &want, n.esc),
                    _ => check!(false),
                },
                _ => check!(false),
            }
            cover(1);
            quirk(q, n.esc && spec::has_b(&b[n.s..n.e]));
        }
    }
}

/// The contents `e` as a JSON string denote `raw`, and are legal.
fn encodes(e: &[u8], raw: &[u8], q: u8) -> bool {
    match spec::contents_ok(e) {
        None => false,
        Some(t) => t.dec == raw.len() && same(&spec::decoded(e, q), raw),
    }
}
fn has_bel_or_bs(raw: &[u8]) -> bool {
    let mut r = false;
    for &c in raw {
        r |= (c == 7) | (c == 8);
    }
    r
}
/// p4: 0 arbitrary strings of p0..=p1 bytes; 1 the same after a fixed prefix;
/// 2 long strings, sizes from list p0, a window of p1 arbitrary bytes
pub fn c12_encode() {
    let mut raw = Vec::with_capacity(24);
    if param(4) == 2 {
        raw = gen::long_text(param(0), param(1) as usize);
    } else {
        let n = param(0) as usize + choice((param(1) - param(0) + 1) as u32) as usize;
        if param(4) == 1 {
            raw.extend_from_slice("k\u{e9}\u{20ac}\u{1f600}".as_bytes());
        }
        let l = raw.len();
        raw.resize(l + n, 0);
        fill(&mut raw[l..]);
    }
    let q = bq();
    let t = gen::text(&raw);
    let s = match choice(3) {
        0 => JsonString::from(t),
        1 => JsonString::from(String::from(t)),
        _ => match Value::from(t) {
            Value::String(s) => s,
            _ => fail(line!()),
        },
    };
    let e = s.escape_if_needed();
    let e = e.as_bytes();
    cover(1);
    observe(e.len() as u64);
    // legal, reversible, and of the reported lengths
    check!(encodes(e, &raw, q));
    check!(s.len() == e.len());
    check!(s.decoded_len() == raw.len());
    check!(s.is_empty() == raw.is_empty());
    // every way of producing it agrees
    check!(same(&utf8_of(s.as_json(), e.len()), e));
    let mut k = Sink::new();
    check!(write!(k, "{}", s.as_json()).is_ok());
    check!(same(&k.v, e));
    let mut k = Sink::new();
    check!(Value::String(s.clone()).write_json_to(&mut k).is_ok());
    check!(k.v.len() == e.len() + 2 && k.v[0] == b'"' && k.v[k.v.len() - 1] == b'"');
    check!(same(&k.v[1..k.v.len() - 1], e));
    if let Some(j) = s.as_json_str() {
        check!(same(j.as_bytes(), e));
        cover(2);
    } else {
        cover(3);
    }
    // the character iterator's size hint is a bound, at every step
    let mut it = s.as_json();
    let mut left = s.as_json().count();
    let mut at = 0;
    loop {
        let (lo, hi) = it.size_hint();
        check!(lo <= left);
        check!(hi.is_none() || hi.unwrap_or(0) >= left);
        if e.len() <= 30 {
            let mut k = Sink::new();
            check!(write!(k, "{}", it).is_ok());
            check!(same(&k.v, &e[at..]));
        }
        match it.next() {
            None => break,
            Some(c) => at += c.len_utf8(),
        }
        left -= 1;
    }
    check!(left == 0);
    // its own decoding views give the text back
    check!(same(s.decode_if_needed().as_bytes(), &raw));
    check!(same(&utf8_of(s.decoded(), raw.len()), &raw));
    // and the parser reads it back as the same string
    let mut lit = Vec::with_capacity(e.len() + 2);
    lit.push(b'"');
    lit.extend_from_slice(e);
    lit.push(b'"');
    match JsonString::from_json(unsafe { core::str::from_utf8_unchecked(&lit) }) {
        Ok(r) => {
            check!(same(r.decode_if_needed().as_bytes(), &raw));
            check!(r == s);
        }
        Err(_) => check!(false),
    }
    quirk(q, has_bel_or_bs(&raw) && spec::has_b(e));
}

/// A string in one of its representations, and the text it denotes. `mode`
/// bounds the contents: 0 arbitrary bytes, 1 also escapes.
fn any_string(n: usize, big: bool, q: u8) -> (JsonString<'static>, Vec<u8>) {
    let repr = choice(3);
    let mut c: Vec<u8> = Vec::with_capacity(24);
    if repr == 0 {
        // a JSON literal
        let kinds = if big { 5 } else { 3 };
        c.push(b'"');
        match choice(kinds) {
            0 => put(&mut c, n),
            1 => {
                c.push(b'\\');
                put(&mut c, 1);
                put(&mut c, n - 1);
            }
            2 => {
                c.extend_from_slice(b"\\u00");
                put(&mut c, 2);
                put(&mut c, n - 1);
            }
            3 => {
                c.extend_from_slice(b"\\u");
                put(&mut c, 4);
            }
            _ => {
                c.extend_from_slice(b"\\ud8");
                put(&mut c, 2);
                c.extend_from_slice(b"\\udc");
                put(&mut c, 2);
            }
        }
        c.push(b'"');
        let w = spec::parse(&c, spec::DEFAULT);
        assume(w.err.is_none());
        let want = spec::decoded(&c[w.nodes[0].s..w.nodes[0].e], q);
        let c: &'static [u8] = Box::leak(c.into_boxed_slice());
        match JsonString::from_json(gen::text(c)) {
            Ok(s) => (s, want),
            Err(_) => {
                assume(false);
                fail(9998)
            }
        }
    } else {
        put(&mut c, n);
        let want = c.clone();
        let c: &'static [u8] = Box::leak(c.into_boxed_slice());
        let t = gen::text(c);
        (if repr == 1 { JsonString::from(t) } else { JsonString::from(String::from(t)) }, want)
    }
}
/// The literal or raw text `c` (without quotes) as a string of some origin.
fn literal(c: Vec<u8>, q: u8) -> (JsonString<'static>, Vec<u8>) {
    let mut l = Vec::with_capacity(c.len() + 2);
    l.push(b'"');
    l.extend_from_slice(&c);
    l.push(b'"');
    let w = spec::parse(&l, spec::DEFAULT);
    assume(w.err.is_none());
    let want = spec::decoded(&c, q);
    let l: &'static [u8] = Box::leak(l.into_boxed_slice());
    match JsonString::from_json(gen::text(l)) {
        Ok(s) => (s, want),
        Err(_) => {
            assume(false);
            fail(9998)
        }
    }
}
fn raw(c: Vec<u8>, owned: bool) -> (JsonString<'static>, Vec<u8>) {
    let want = c.clone();
    let c: &'static [u8] = Box::leak(c.into_boxed_slice());
    let t = gen::text(c);
    (if owned { JsonString::from(String::from(t)) } else { JsonString::from(t) }, want)
}
/// One character of two to four bytes in any spelling, alone or after another.
fn wide_string(lead: u32, q: u8) -> (JsonString<'static>, Vec<u8>) {
    let mut c: Vec<u8> = Vec::with_capacity(24);
    let kind = choice(7);
    match lead {
        0 => {}
        1 if kind < 4 => c.extend_from_slice(b"\\n"),
        1 => c.push(b'\n'),
        _ => c.push(b'a'),
    }
    let put1 = |c: &mut Vec<u8>| {
        c.push(0);
        let l = c.len();
        fill(&mut c[l - 1..]);
    };
    match kind {
        // a pair of escapes
        0 => {
            c.extend_from_slice(b"\\ud");
            put1(&mut c);
            c.extend_from_slice(b"0");
            put1(&mut c);
            c.extend_from_slice(b"\\udc0");
            put1(&mut c);
        }
        1 => {
            c.extend_from_slice(b"\\u");
            put1(&mut c);
            c.extend_from_slice(b"0");
            put1(&mut c);
            c.extend_from_slice(b"0");
        }
        // four bytes
        2 | 4 | 5 => {
            put1(&mut c);
            put1(&mut c);
            assume(c[c.len() - 2] >= 0xf0);
            c.push(0x80);
            put1(&mut c);
        }
        // up to three
        _ => {
            if flag() {
                put1(&mut c);
                put1(&mut c);
            } else {
                put1(&mut c);
                put1(&mut c);
                c.push(0x80);
            }
        }
    }
    if kind < 4 {
        literal(c, q)
    } else {
        raw(c, kind == 5)
    }
}
/// Two long strings which differ in a window and perhaps in length.
fn long_pair(list: u64, w: usize, q: u8) -> [(JsonString<'static>, Vec<u8>); 2] {
    let n = gen::size(list);
    let wide = flag();
    let unit: &[u8] = if wide { b"\xc3\xa9" } else { b"a" };
    let at = match choice(3) {
        0 => 0,
        1 => (n - w) / 2,
        _ => n - w,
    };
    let mut one = |more: usize| {
        let repr = choice(4);
        let mut c: Vec<u8> = Vec::with_capacity(2 * n + 16);
        if repr == 1 {
            // one unit is escaped: before or after the window
            c.extend_from_slice(if wide { b"\\u00e9" } else { b"\\u0061" });
        }
        for i in 0..n + more {
            if i == at {
                let l = c.len();
                c.resize(l + w, 0);
                fill(&mut c[l..]);
            } else if !(i > at && i < at + w) && !(i + 1 == n && at + w < n && repr == 1) {
                c.extend_from_slice(unit);
            }
        }
        match repr {
            0 | 1 => literal(c, q),
            k => raw(c, k == 3),
        }
    };
    let a = one(0);
    let b = one(choice(2) as usize);
    [a, b]
}
/// Up to `n` characters, each in one of its spellings.
fn spelled(n: usize, q: u8) -> (JsonString<'static>, Vec<u8>) {
    let mut c: Vec<u8> = Vec::with_capacity(8 * n + 2);
    let repr = choice(3);
    let m = if flag() { n } else { n - 1 };
    for _ in 0..m {
        let l = c.len();
        match choice(if repr == 0 { 5 } else { 3 }) {
            0 => {
                c.push(0);
                fill(&mut c[l..]);
                assume((c[l] >= b'`') & (c[l] <= b'i'));
            }
            1 if repr == 0 => c.extend_from_slice(b"\\n"),
            1 => c.push(b'\n'),
            2 => c.extend_from_slice("\u{e9}".as_bytes()),
            3 => c.extend_from_slice(if flag() { b"\\u00e9" } else { b"\\u000A" }),
            _ => {
                c.extend_from_slice(b"\\u0060");
                fill(&mut c[l + 5..]);
                assume((c[l + 5] >= b'0') & (c[l + 5] <= b'9'));
            }
        }
    }
    if repr == 0 {
        literal(c, q)
    } else {
        raw(c, repr == 2)
    }
}
/// The two strings of a comparison, by parameter 2: 0 bytes and escapes, 1
/// larger escapes, 2 long strings (list p3, window p0), 3 any one character,
/// 4 characters in their several spellings
fn pair(q: u8) -> [(JsonString<'static>, Vec<u8>); 2] {
    match param(2) {
        2 => long_pair(param(3), param(0) as usize, q),
        3 => {
            let lead = choice(3);
            [wide_string(lead, q), wide_string(lead, q)]
        }
        4 => [spelled(param(0) as usize, q), spelled(param(1) as usize, q)],
        m => [any_string(param(0) as usize, m == 1, q), any_string(param(1) as usize, m == 1, q)],
    }
}
fn put(v: &mut Vec<u8>, max: usize) {
    let n = choice(max as u32 + 1) as usize;
    let l = v.len();
    v.resize(l + n, 0);
    fill(&mut v[l..]);
}
fn order(a: &[u8], b: &[u8]) -> Ordering {
    a.cmp(b)
}
fn rev(o: Ordering) -> Ordering {
    o.reverse()
}

/// p0/p1: content bounds of the two strings, p2: 1 = larger escapes
pub fn c13_equality() {
    let q = bq();
    let [(a, x), (b, y)] = pair(q);
    let want = same(&x, &y);
    if want {
        cover(1)
    } else {
        cover(2)
    }
    observe(want as u64);
    check!((a == b) == want);
    check!((b == a) == want);
    check!(a == a && b == b);
    let (s, t) = (unsafe { core::str::from_utf8_unchecked(&x) }, unsafe { core::str::from_utf8_unchecked(&y) });
    check!((a == *t) == want);
    check!((a == t) == want);
    check!((b == *s) == want);
    check!((a != b) != want);
    check!(a == *s && b == *t);
    // values and objects made of them
    let (va, vb) = (Value::String(a.clone()), Value::String(b.clone()));
    check!((va == vb) == want);
    let mut oa = Object::new();
    oa.push(Entry::new(a.clone(), va));
    let mut ob = Object::new();
    ob.push(Entry::new(b.clone(), vb));
    check!((oa == ob) == want);
    check!((Value::Array(vec![Value::Object(oa)]) == Value::Array(vec![Value::Object(ob)])) == want);
    // a copy is equal to what it was copied from
    check!(a.clone() == a);
}
pub fn c14_order() {
    let q = bq();
    let [(a, x), (b, y)] = pair(q);
    let want = order(&x, &y);
    cover(match want {
        Ordering::Less => 1,
        Ordering::Equal => 2,
        Ordering::Greater => 3,
    });
    observe(want as i32 as u64);
    check!(a.cmp(&b) == want);
    check!(b.cmp(&a) == rev(want));
    check!(a.partial_cmp(&b) == Some(want));
    check!((a < b) == (want == Ordering::Less));
    check!((a >= b) == (want != Ordering::Less));
    let (s, t) = (unsafe { core::str::from_utf8_unchecked(&x) }, unsafe { core::str::from_utf8_unchecked(&y) });
    check!(a.partial_cmp(t) == Some(want));
    check!(a.partial_cmp(&t) == Some(want));
    check!(b.partial_cmp(s) == Some(rev(want)));
    check!((a == b) == (want == Ordering::Equal));
    check!(a.cmp(&a) == Ordering::Equal);
}
pub fn c15_hash() {
    let q = bq();
    let [(a, x), (b, y)] = pair(q);
    let s = unsafe { core::str::from_utf8_unchecked(&x) };
    let want = tape(s);
    cover(1);
    observe(want.len() as u64);
    check!(same(&tape(&a), &want));
    check!(same(&tape(&a.clone()), &want));
    // two spellings of one text
    if a == b {
        cover(2);
        check!(same(&tape(&a), &tape(&b)));
    } else {
        check!(!same(&x, &y));
    }
    // The contract of Hash asks for the same writes too. KF2: a string with escapes is written
    // one character at a time, any other one in one piece.
    if writes(&a) != writes(s) {
        check!(a.as_str().is_none());
        known(2)
    }
}
/// C15: AnyStr is the string it holds
pub fn c15_anystr() {
    let mut x = Vec::with_capacity(8);
    let mut y = Vec::with_capacity(8);
    if param(2) == 1 {
        // long, alike but for one byte at the end and perhaps the length
        let n = gen::size(param(0));
        x.resize(n, b'z');
        y.resize(n + choice(2) as usize, b'z');
        let at = if flag() { 0 } else { n - 1 };
        fill(&mut x[at..at + 1]);
        fill(&mut y[at..at + 1]);
    } else {
        put(&mut x, param(0) as usize);
        put(&mut y, param(1) as usize);
    }
    let (s, t) = (gen::text(&x), gen::text(&y));
    let a = if flag() { AnyStr::from(s) } else { AnyStr::from(String::from(s)) };
    let b = if flag() { AnyStr::Borrowed(t) } else { AnyStr::Owned(String::from(t)) };
    let eq = same(&x, &y);
    let or = order(&x, &y);
    cover(1 + (or as i32 + 1) as u32);
    observe(or as i32 as u64);
    check!((a == b) == eq);
    check!((a == *t) == eq);
    check!((a == t) == eq);
    check!(a.partial_cmp(&b) == Some(or));
    check!(a.partial_cmp(t) == Some(or));
    check!(a.partial_cmp(&t) == Some(or));
    check!((a < b) == (or == Ordering::Less));
    check!(same(&tape(&a), &tape(s)));
    check!(writes(&a) == writes(s));
    let r: &str = core::borrow::Borrow::borrow(&a);
    check!(same(r.as_bytes(), &x));
    check!(same(a.as_str().as_bytes(), &x));
    check!(same(AsRef::<str>::as_ref(&a).as_bytes(), &x));
    check!(a.len() == x.len());
    let c = a.clone();
    check!(c == a && same(c.as_bytes(), &x));
}

fn points(s: &str, b: &[u8], from: usize, len: usize) -> bool {
    (s.as_ptr() as usize == b.as_ptr() as usize + from) & (s.len() == len)
}
fn string_borrows(s: &JsonString<'_>, n: &spec::Node, b: &[u8]) -> bool {
    match s.as_json_str() {
        Some(AnyStr::Borrowed(t)) => points(t, b, n.s, n.e - n.s),
        _ => false,
    }
}
fn value_borrows(v: &Value<'_>, nodes: &[spec::Node], i: &mut usize, b: &[u8]) -> bool {
    check!(*i < nodes.len());
    let n = &nodes[*i];
    *i += 1;
    match v {
        Value::String(s) => string_borrows(s, n, b) && views_borrow(s, n, b),
        Value::Number(x) => points(x.source(), b, n.s, n.e - n.s),
        Value::Array(a) => a.iter().all(|x| value_borrows(x, nodes, i, b)),
        Value::Object(o) => o.iter().all(|e| {
            check!(*i < nodes.len());
            let n = &nodes[*i];
            *i += 1;
            string_borrows(&e.key, n, b) && views_borrow(&e.key, n, b) && value_borrows(&e.value, nodes, i, b)
        }),
        _ => true,
    }
}
/// Views that need no change hand out the same bytes, without allocating.
fn views_borrow(s: &JsonString<'_>, n: &spec::Node, b: &[u8]) -> bool {
    let before = allocs();
    let e = match s.escape_if_needed() {
        AnyStr::Borrowed(t) => points(t, b, n.s, n.e - n.s),
        _ => false,
    };
    if n.esc {
        return e && allocs() == before;
    }
    let d = match s.decode_if_needed() {
        AnyStr::Borrowed(t) => points(t, b, n.s, n.e - n.s),
        _ => false,
    };
    let t = match s.as_str() {
        Some(t) => points(t, b, n.s, n.e - n.s),
        None => false,
    };
    e && d && t && allocs() == before
}
/// p4: config mode; p5: 1 = as text
pub fn c20_borrow() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let astext = param(5) == 1;
    if astext {
        gen::text(&b);
    }
    let t = unsafe { core::str::from_utf8_unchecked(&b) };
    // validation and tokenizing allocate nothing
    let before = allocs();
    let ok = if astext {
        let mut tk = Tokenizer::for_json(t);
        while let Some(r) = tk.next() {
            let _ = tk.peek();
            if r.is_err() {
                break;
            }
        }
        Parser::validate_json_with_config(t, k).is_ok()
    } else {
        for r in Tokenizer::for_json_bytes(&b) {
            if r.is_err() {
                break;
            }
        }
        Parser::validate_json_bytes_with_config(&b, k).is_ok()
    };
    check!(allocs() == before);
    if !ok {
        cover(2);
        return;
    }
    let w = spec::parse(&b, c);
    check!(w.err.is_none());
    cover(1);
    let r = if astext { Value::from_json_with_config(t, k) } else { Value::from_json_bytes_with_config(&b, k) };
    let mut i = 0;
    match &r {
        Ok(v) => {
            check!(value_borrows(v, &w.nodes, &mut i, &b));
            check!(i == w.nodes.len());
        }
        Err(_) => check!(false),
    }
    observe(i as u64);
    let r = if astext { Document::from_json_with_config(t, k) } else { Document::from_json_bytes_with_config(&b, k) };
    match r {
        Ok(d) => {
            let mut i = 0;
            for n in d.iter() {
                match &n {
                    DocNode::String(s) => check!(string_borrows(s, &w.nodes[i], &b)),
                    DocNode::Number(x) => check!(points(x.source(), &b, w.nodes[i].s, w.nodes[i].e - w.nodes[i].s)),
                    _ => {}
                }
                i += 1;
            }
        }
        Err(_) => check!(false),
    }
    if astext {
        if w.nodes[0].k == K::Str {
            let before = allocs();
            match JsonString::from_json(t) {
                Ok(s) => check!(string_borrows(&s, &w.nodes[0], &b)),
                Err(_) => check!(false),
            }
            check!(allocs() == before);
        }
        if w.nodes[0].k == K::Num {
            let before = allocs();
            match JsonNumber::from_json(t) {
                Ok(s) => check!(points(s.source(), &b, w.nodes[0].s, w.nodes[0].e - w.nodes[0].s)),
                Err(_) => check!(false),
            }
            check!(allocs() == before);
        }
    }
}
/// C20: strings made from Rust strings keep borrowing what they were given.
/// p0: largest size; p1: 1 = long strings, size list p0, window p2
pub fn c20_raw() {
    let mut raw = Vec::with_capacity(8);
    if param(1) == 1 {
        raw = gen::long_text(param(0), param(2) as usize);
    } else {
        put(&mut raw, param(0) as usize);
    }
    let t = gen::text(&raw);
    let before = allocs();
    let s = JsonString::from(t);
    check!(allocs() == before);
    let d = s.decode_if_needed();
    check!(allocs() == before);
    check!(matches!(d, AnyStr::Borrowed(x) if points(x, &raw, 0, raw.len())));
    match s.as_str() {
        Some(x) => check!(points(x, &raw, 0, raw.len())),
        None => check!(false),
    }
    if let Some(j) = s.as_json_str() {
        cover(1);
        // nothing to encode
        check!(matches!(j, AnyStr::Borrowed(x) if points(x, &raw, 0, raw.len())));
        check!(matches!(s.escape_if_needed(), AnyStr::Borrowed(x) if points(x, &raw, 0, raw.len())));
        check!(allocs() == before);
    } else {
        cover(2);
    }
    observe(s.len() as u64);
    // an owned string is kept as it is
    let o = String::from(t);
    let p = o.as_ptr() as usize;
    let before = allocs();
    let s = JsonString::from(o);
    check!(allocs() == before);
    match s.as_str() {
        Some(x) => check!(x.as_ptr() as usize == p && x.len() == raw.len()),
        None => check!(false),
    }
}
