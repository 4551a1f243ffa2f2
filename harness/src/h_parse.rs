//! C01 acceptance, C02 robustness, C03 structure, C05 text/bytes agreement,
//! C08 nesting limit, C09 configuration, C19 errors.
use crate::gen;
use crate::rt::*;
use crate::spec::{self, K};
use crate::view::*;
use justjson::doc::Document;
use justjson::parser::{JsonKind, Parser, Tokenizer};
use justjson::{JsonNumber, JsonString, Value};

/// p0..p3 generator; p4: 1 = also the text entry points.
pub fn c01_accept() {
    let b = gen::input(0);
    let w = spec::parse(&b, spec::DEFAULT);
    let want = w.err.is_none();
    if want {
        cover(1)
    } else {
        cover(2)
    }
    observe(want as u64);
    check!(Value::from_json_bytes(&b).is_ok() == want);
    check!(Document::from_json_bytes(&b).is_ok() == want);
    check!(Parser::validate_json_bytes(&b).is_ok() == want);
    if param(4) == 1 {
        if spec::utf8_ok(&b) {
            let t = gen::text(&b);
            cover(3);
            check!(Value::from_json(t).is_ok() == want);
            check!(Document::from_json(t).is_ok() == want);
            check!(Parser::validate_json(t).is_ok() == want);
            // the single-kind entry points
            let k = if want { Some(w.nodes[0].k) } else { None };
            check!(JsonString::from_json(t).is_ok() == (k == Some(K::Str)));
            check!(JsonNumber::from_json(t).is_ok() == (k == Some(K::Num)));
        } else {
            // no JSON text contains malformed UTF-8
            check!(!want);
        }
    }
}

fn text_fine(s: &str) {
    check!(spec::utf8_ok(s.as_bytes()));
}
fn use_string(s: &JsonString<'_>, o: &JsonString<'_>) {
    if let Some(t) = s.as_json_str() {
        text_fine(t.as_str());
    }
    if let Some(t) = s.as_str() {
        text_fine(t);
    }
    let d = s.decode_if_needed();
    text_fine(&d);
    let u = utf8_of(s.decoded(), 16);
    check!(spec::utf8_ok(&u));
    let e = s.escape_if_needed();
    text_fine(&e);
    let u = utf8_of(s.as_json(), 16);
    check!(spec::utf8_ok(&u));
    let n = s.len() + s.decoded_len() + s.is_empty() as usize;
    check!(n < 1 << 20);
    check!(s == s);
    let a = s == o;
    let c = s.cmp(o);
    check!(!a | (c == core::cmp::Ordering::Equal));
    let _ = s.partial_cmp(d.as_str());
    let _ = *s == *d;
    let _ = tape(s);
}
fn use_value(v: &Value<'_>, o: &JsonString<'_>) {
    match v {
        Value::String(s) => use_string(s, o),
        Value::Number(n) => {
            text_fine(n.source());
            // the integer accessors fail or succeed, they never panic
            let _ = (v.as_u8(), v.as_i8(), v.as_u64(), v.as_i64(), v.as_u128(), v.as_i128());
            if param(6) == 1 {
                let _ = (v.as_u16(), v.as_i16(), v.as_u32(), v.as_i32(), v.as_usize(), v.as_isize());
                let _ = (v.as_f32(), v.as_f64());
            }
        }
        Value::Array(a) => {
            for x in a.iter() {
                use_value(x, o);
            }
            check!(v.get_index(a.len()).is_none());
        }
        Value::Object(m) => {
            for e in m.iter() {
                use_string(&e.key, o);
                use_value(&e.value, o);
            }
            let _ = v.get("k");
        }
        _ => {}
    }
    let _ = (v.as_bool(), v.is_null(), v.as_str());
}

/// The text of `e` has its offset in it, as a number of its own.
fn names_offset(e: &justjson::Error) -> bool {
    use core::fmt::Write;
    let mut k = Sink::new();
    if write!(k, "{}", e).is_err() {
        return false;
    }
    let (mut d, mut n, mut at) = ([0u8; 20], conc(e.offset()), 20);
    loop {
        at -= 1;
        d[at] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    let d = &d[at..];
    let t = &k.v;
    let mut i = 0;
    while i + d.len() <= t.len() {
        let before = i > 0 && t[i - 1].is_ascii_digit();
        let after = i + d.len() < t.len() && t[i + d.len()].is_ascii_digit();
        if t[i..i + d.len()] == *d && !before && !after {
            return true;
        }
        i += 1;
    }
    false
}
fn use_error(e: &justjson::Error, n: usize) {
    use core::fmt::Write;
    check!(e.offset() <= n);
    let mut k = Sink::new();
    check!(write!(k, "{}", e).is_ok());
    check!(spec::utf8_ok(&k.v));
}
/// p4: config mode; p5: 1 = as text; p6: 1 = every numeric accessor
pub fn c02_robust() {
    let b = gen::input(0);
    let (_, k) = gen::config(4);
    let astext = param(5) == 1;
    let n = b.len();
    // tokenize to the end; errors may be followed by more tokens
    let mut steps = 0;
    macro_rules! tokens {
        ($t:expr) => {{
            let mut t = $t;
            loop {
                let before = t.offset();
                let _ = t.peek();
                match t.next() {
                    None => break,
                    Some(Ok(tok)) => match tok {
                        justjson::parser::Token::String(s) => {
                            if let Some(x) = s.as_json_str() {
                                text_fine(x.as_str());
                            }
                            let u = utf8_of(s.decoded(), 16);
                            check!(spec::utf8_ok(&u));
                        }
                        justjson::parser::Token::Number(x) => text_fine(x.source()),
                        _ => {}
                    },
                    Some(Err(e)) => check!(e.offset() <= n),
                }
                check!(t.offset() > before);
                check!(t.offset() <= n);
                steps += 1;
                check!(steps <= n);
            }
        }};
    }
    let (v, d, k2) = if astext {
        let t = gen::text(&b);
        tokens!(Tokenizer::for_json(t));
        (Value::from_json_with_config(t, k), Document::from_json_with_config(t, k), Parser::validate_json_with_config(t, k))
    } else {
        tokens!(Tokenizer::for_json_bytes(&b));
        (
            Value::from_json_bytes_with_config(&b, k),
            Document::from_json_bytes_with_config(&b, k),
            Parser::validate_json_bytes_with_config(&b, k),
        )
    };
    if let Err(e) = &k2 {
        use_error(e, n);
    }
    match d {
        Ok(d) => {
            cover(1);
            let mut it = d.iter();
            it.skip_next_value();
            check!(it.next().is_none());
            it.skip_next_value();
            check!(it.next_value().is_none());
            let x = Value::from(d);
            observe(x.to_json().len() as u64);
        }
        Err(e) => use_error(&e, n),
    }
    match v {
        Ok(v) => {
            cover(2);
            let o = JsonString::from("\u{e9}\n");
            use_value(&v, &o);
            let s = v.to_json();
            text_fine(&s);
            let p = v.to_json_pretty();
            text_fine(&p);
            observe(p.len() as u64);
            check!(v == v);
        }
        Err(e) => {
            cover(3);
            use_error(&e, n);
            observe(e.offset() as u64);
        }
    }
}

/// p4: config mode; p5: 1 = as text.
pub fn c03_mirror() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let r = if param(5) == 1 {
        Value::from_json_with_config(gen::text(&b), k)
    } else {
        Value::from_json_bytes_with_config(&b, k)
    };
    if let Ok(v) = &r {
        let w = spec::parse(&b, c);
        // whatever was accepted must have a structure to mirror
        check!(w.err.is_none());
        cover(1);
        observe(w.nodes.len() as u64);
        check!(value_is(v, &w.nodes, 0, &b));
        let kind = match w.nodes[0].k {
            K::Null => JsonKind::Null,
            K::True | K::False => JsonKind::Boolean,
            K::Num => JsonKind::Number,
            K::Str | K::Key => JsonKind::String,
            K::Obj => JsonKind::Object,
            K::Arr => JsonKind::Array,
        };
        check!(Parser::validate_json_bytes_with_config(&b, k) == Ok(kind));
        // the typed views of the root agree with its kind
        check!(v.is_null() == (kind == JsonKind::Null));
        check!(v.as_bool() == if kind == JsonKind::Boolean { Some(w.nodes[0].k == K::True) } else { None });
        check!(v.as_string().is_some() == (kind == JsonKind::String));
        check!(v.as_number().is_some() == (kind == JsonKind::Number));
        check!(v.as_array().map(|a| a.len()) == if kind == JsonKind::Array { Some(w.nodes[0].len) } else { None });
        check!(v.as_object().map(|a| a.len()) == if kind == JsonKind::Object { Some(w.nodes[0].len) } else { None });
        if param(5) == 1 {
            let t = gen::text(&b);
            match JsonString::from_json(t) {
                Ok(s) => check!(kind == JsonKind::String && string_is(&s, &w.nodes[0], &b)),
                // a nesting or comma configuration cannot matter for a string
                Err(_) => check!(kind != JsonKind::String),
            }
            match JsonNumber::from_json(t) {
                Ok(s) => check!(kind == JsonKind::Number && number_is(&s, &w.nodes[0], &b)),
                Err(_) => check!(kind != JsonKind::Number),
            }
        }
    } else {
        cover(2);
    }
}

/// p4: config mode
pub fn c05_text_bytes() {
    let b = gen::input(0);
    let t = gen::text(&b);
    let (_, k) = gen::config(4);
    match (Value::from_json_with_config(t, k), Value::from_json_bytes_with_config(&b, k)) {
        (Ok(x), Ok(y)) => {
            cover(1);
            check!(same_value(&x, &y));
            check!(x == y);
            observe(1);
        }
        (Err(x), Err(y)) => {
            cover(2);
            check!((ekind(x.kind()) == ekind(y.kind())) & (x.offset() == y.offset()));
            observe(x.offset() as u64);
        }
        _ => check!(false),
    }
    match (Document::from_json_with_config(t, k), Document::from_json_bytes_with_config(&b, k)) {
        (Ok(x), Ok(y)) => {
            let (mut p, mut q) = (x.iter(), y.iter());
            loop {
                match (p.next(), q.next()) {
                    (None, None) => break,
                    (Some(m), Some(n)) => check!(same_node(&m, &n)),
                    _ => check!(false),
                }
            }
        }
        (Err(x), Err(y)) => check!((ekind(x.kind()) == ekind(y.kind())) & (x.offset() == y.offset())),
        _ => check!(false),
    }
    match (Parser::validate_json_with_config(t, k), Parser::validate_json_bytes_with_config(&b, k)) {
        (Ok(x), Ok(y)) => check!(x == y),
        (Err(x), Err(y)) => check!((ekind(x.kind()) == ekind(y.kind())) & (x.offset() == y.offset())),
        _ => check!(false),
    }
    let (mut p, mut q) = (Tokenizer::for_json(t), Tokenizer::for_json_bytes(&b));
    let mut n = 0;
    loop {
        use justjson::parser::Token as T;
        check!(p.offset() == q.offset());
        match (p.next(), q.next()) {
            (None, None) => break,
            (Some(Ok(T::String(x))), Some(Ok(T::String(y)))) => check!(same_string(&x, &y)),
            (Some(Ok(T::Number(x))), Some(Ok(T::Number(y)))) => {
                check!(same(x.source().as_bytes(), y.source().as_bytes()))
            }
            (Some(Ok(x)), Some(Ok(y))) => check!(x == y),
            (Some(Err(x)), Some(Err(y))) => {
                check!((ekind(x.kind()) == ekind(y.kind())) & (x.offset() == y.offset()));
                // what follows a malformed token is outside the claim
                break;
            }
            _ => check!(false),
        }
        n += 1;
    }
    observe(n);
}

/// p4: config mode; p5: 1 = as text. Exact verdict, error kind and offset of
/// every parsing entry point (used for C08, C09 and C19).
pub fn verdict() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let w = spec::parse(&b, c);
    match &w.err {
        None => cover(1),
        Some(e) => {
            cover(2);
            cover(100 + if e.kind >= spec::UNEXPECTED { 99 } else { e.kind });
            observe(e.kind as u64);
            observe(e.off as u64);
        }
    }
    if param(5) == 1 {
        let t = gen::text(&b);
        check!(agrees(&Value::from_json_with_config(t, k), &w.err));
        check!(agrees(&Document::from_json_with_config(t, k), &w.err));
        check!(agrees(&Parser::validate_json_with_config(t, k), &w.err));
        if param(4) == 0 {
            check!(agrees(&Value::from_json(t), &w.err));
            check!(agrees(&Document::from_json(t), &w.err));
            check!(agrees(&Parser::validate_json(t), &w.err));
        }
    } else {
        let r = Value::from_json_bytes_with_config(&b, k);
        check!(agrees(&r, &w.err));
        if let Err(e) = &r {
            check!(names_offset(e));
        }
        check!(agrees(&Document::from_json_bytes_with_config(&b, k), &w.err));
        check!(agrees(&Parser::validate_json_bytes_with_config(&b, k), &w.err));
        if param(4) == 0 {
            check!(agrees(&Value::from_json_bytes(&b), &w.err));
            check!(agrees(&Document::from_json_bytes(&b), &w.err));
            check!(agrees(&Parser::validate_json_bytes(&b), &w.err));
        }
    }
}

/// C08: limits 0..=b around the actual depth, balance over siblings; only the
/// verdict and the recursion error are at stake. p4: largest limit; p5: the
/// other switches, as for `gen::config`
pub fn c08_limit() {
    use justjson::parser::ParseConfig;
    let b = gen::input(0);
    let top = param(4) as u32;
    let l = choice(top + 2) as usize;
    let (c, k) = if l == top as usize + 1 {
        (spec::Cfg { limit: None, ..spec::DEFAULT }, ParseConfig::new().without_recursion_limit())
    } else {
        (spec::Cfg { limit: Some(l), ..spec::DEFAULT }, ParseConfig::new().with_recursion_limit(l))
    };
    let (c, k) = switches(c, k);
    limit_check(&b, c, k);
}
fn switches(mut c: spec::Cfg, mut k: justjson::parser::ParseConfig) -> (spec::Cfg, justjson::parser::ParseConfig) {
    if param(5) & 1 != 0 && flag() {
        c.trailing = true;
        k = k.allowing_trailing_commas();
    }
    if param(5) & 2 != 0 && flag() {
        c.all = false;
        k = k.allowing_all_types_at_root(false);
    }
    (c, k)
}
/// C08: a fixed limit p4 (0: the default configuration, 1: none); p5: the
/// other switches
pub fn c08_deep() {
    use justjson::parser::ParseConfig;
    let b = gen::input(0);
    let (c, k) = match param(4) {
        0 => (spec::DEFAULT, ParseConfig::default()),
        1 => (spec::Cfg { limit: None, ..spec::DEFAULT }, ParseConfig::new().without_recursion_limit()),
        2 => (spec::DEFAULT, ParseConfig::strict().allowing_all_types_at_root(true)),
        l => (spec::Cfg { limit: Some(l as usize), ..spec::DEFAULT }, ParseConfig::new().with_recursion_limit(l as usize)),
    };
    let (c, k) = switches(c, k);
    limit_check(&b, c, k);
}
fn limit_check(b: &[u8], c: spec::Cfg, k: justjson::parser::ParseConfig) {
    let free = spec::parse(b, spec::Cfg { limit: None, ..c });
    let lim = spec::parse(b, c);
    let v = Value::from_json_bytes_with_config(b, k);
    let d = Document::from_json_bytes_with_config(b, k);
    let p = Parser::validate_json_bytes_with_config(b, k);
    // (a) an otherwise valid input: accepted iff its depth is within the limit
    if free.err.is_none() {
        let ok = match c.limit {
            None => true,
            Some(l) => free.depth <= l,
        };
        if ok {
            cover(1)
        } else {
            cover(2)
        }
        check!(v.is_ok() == ok);
        check!(d.is_ok() == ok);
        check!(p.is_ok() == ok);
    }
    // (b) the recursion error appears exactly when the oracle says so, at the
    // same place, and never otherwise
    let rec = matches!(&lim.err, Some(e) if e.kind == spec::RECURSION);
    if rec {
        cover(3);
        check!(agrees(&v, &lim.err));
        check!(agrees(&d, &lim.err));
        check!(agrees(&p, &lim.err));
    } else {
        check!(!matches!(&v, Err(e) if ekind(e.kind()) == spec::RECURSION));
        check!(!matches!(&d, Err(e) if ekind(e.kind()) == spec::RECURSION));
        check!(!matches!(&p, Err(e) if ekind(e.kind()) == spec::RECURSION));
    }
    observe(free.depth as u64);
}

/// C09: verdicts under every switch, and the value not depending on it.
/// p4: config mode; p5: 1 = as text
pub fn c09_config() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let w = spec::parse(&b, c);
    let want = w.err.is_none();
    let (v, d, p) = if param(5) == 1 {
        let t = gen::text(&b);
        (Value::from_json_with_config(t, k), Document::from_json_with_config(t, k), Parser::validate_json_with_config(t, k))
    } else {
        (
            Value::from_json_bytes_with_config(&b, k),
            Document::from_json_bytes_with_config(&b, k),
            Parser::validate_json_bytes_with_config(&b, k),
        )
    };
    check!(v.is_ok() == want);
    check!(d.is_ok() == want);
    check!(p.is_ok() == want);
    observe(want as u64);
    if let (Ok(v), Ok(d)) = (v, d) {
        cover(1);
        check!(value_is(&v, &w.nodes, 0, &b));
        let mut i = 0;
        for n in d.iter() {
            check!(i < w.nodes.len());
            check!(node_is(&n, &w.nodes[i], &b));
            i += 1;
        }
        check!(i == w.nodes.len());
        // the default configuration, where it accepts, gives the same value
        if let Ok(x) = Value::from_json_bytes(&b) {
            check!(same_value(&x, &v));
        } else {
            cover(2);
        }
    } else {
        cover(3);
        // the errors that belong to a switch only occur under it
        if let Err(e) = p {
            let e = ekind(e.kind());
            check!(e != spec::ROOT || !c.all);
            check!(e != spec::TRAIL_COMMA || !c.trailing);
            check!(e != spec::RECURSION || c.limit.is_some());
        }
    }
}
