//! C24 work stays proportional to the input.
use crate::gen;
use crate::rt::*;
use crate::view::*;
use core::fmt::Write;
use justjson::doc::Document;
use justjson::parser::{ParseConfig, Parser, Token, Tokenizer};
use justjson::{JsonString, Value};

macro_rules! work {
    ($n:expr, $k:expr, $e:expr) => {{
        let limit = ($n as u64 + 64) * $k;
        let (r, ok) = within(limit, || $e);
        check!(ok);
        r
    }};
}

fn strings(s: &JsonString<'_>, k: u64) {
    let n = s.len();
    let text = work!(n, k, {
        let mut c = 0;
        for _ in s.decoded() {
            c += 1;
        }
        c
    });
    observe(text);
    let d = work!(n, k, s.decode_if_needed());
    work!(n, k, s.escape_if_needed());
    work!(n, k, s.decoded_len());
    work!(n, k, s.is_empty());
    check!(work!(n, k, *s == *d.as_str()));
    let raw = JsonString::from(d.as_str());
    check!(work!(n, k, *s == raw));
    check!(work!(n, k, raw == *s));
    check!(work!(n, k, s.cmp(&raw)).is_eq());
    let mut o = Sink { v: Vec::with_capacity(6 * n + 64) };
    check!(work!(n, k, write!(o, "{}", s.decoded())).is_ok());
    o.v.clear();
    check!(work!(n, k, write!(o, "{}", raw.as_json())).is_ok());
    let mut t = Tape { v: Vec::with_capacity(6 * n + 64), cuts: Vec::with_capacity(n + 64) };
    work!(n, k, core::hash::Hash::hash(s, &mut t));
    t.v.clear();
    work!(n, k, core::hash::Hash::hash(&raw, &mut t));
}

fn look(v: &Value<'_>, n: usize, k: u64) {
    // no key of the inputs
    work!(n, k, v.get("?\u{1}").is_none());
    work!(n, k, v.get_index(1 << 20).is_none());
}

/// p4: 0 reading, 1 what is done with the result, 2 and 3 the same with no
/// limit to the nesting; p5: instructions per byte
pub fn c24_work() {
    let b = gen::input(0);
    let n = b.len();
    let k = param(5);
    let free = param(4) & 2 != 0;
    let c = if free { ParseConfig::default().without_recursion_limit() } else { ParseConfig::default() };
    if param(4) & 1 == 0 {
        let a = work!(n, k, Parser::validate_json_bytes_with_config(&b, c).is_ok());
        let v = work!(n, k, Value::from_json_bytes_with_config(&b, c));
        check!(a == v.is_ok());
        work!(n, k, drop(v));
        let d = work!(n, k, Document::from_json_bytes_with_config(&b, c));
        check!(a == d.is_ok());
        work!(n, k, drop(d));
        cover(a as u32);
        if a {
            let s = gen::text(&b);
            check!(work!(n, k, Parser::validate_json_with_config(s, c).is_ok()));
            check!(work!(n, k, Value::from_json_with_config(s, c).is_ok()));
            check!(work!(n, k, Document::from_json_with_config(s, c).is_ok()));
        }
        let seen = work!(n, k, {
            let mut t = Tokenizer::for_json_bytes(&b);
            let mut c = 0u64;
            while let Some(x) = t.next() {
                c += 1;
                if x.is_err() {
                    break;
                }
            }
            c
        });
        observe(seen);
        let p = work!(n, k, {
            let mut t = Tokenizer::for_json_bytes(&b);
            let mut c = 0u64;
            loop {
                t.peek();
                t.peek();
                match t.next() {
                    Some(Ok(_)) => c += 1,
                    Some(Err(_)) => {
                        c += 1;
                        break;
                    }
                    None => break,
                }
            }
            c
        });
        check!(p == seen);
        return;
    }
    let v = match Value::from_json_bytes_with_config(&b, c) {
        Ok(v) => v,
        Err(_) => {
            cover(3);
            return;
        }
    };
    cover(2);
    let mut o = Sink { v: Vec::with_capacity(2 * n + 64) };
    check!(work!(n, k, v.write_json_to(&mut o)).is_ok());
    let out = o.v.len();
    check!(work!(n, k, v.to_json()).len() == out);
    look(&v, n, k);
    // laid out, the text may be longer than what was read
    let pretty = v.to_json_pretty().len();
    check!(work!(n + pretty, k, v.to_json_pretty()).len() == pretty);
    let d = match Document::from_json_bytes_with_config(&b, c) {
        Ok(d) => d,
        Err(_) => fail(999),
    };
    if let (Ok(w), Ok(e)) = (Value::from_json_bytes_with_config(&b, c), Document::from_json_bytes_with_config(&b, c)) {
        check!(work!(n, k, v == w));
        check!(work!(n, k, d == e));
    }
    let c = work!(n, k, d.iter().count());
    observe(c as u64);
    work!(n, k, {
        let mut i = d.iter();
        i.skip_next_value();
        i.next().is_none()
    });
    check!(work!(n, k, d.iter().next_value()).is_some());
    // skipping the members one by one
    work!(n, k, {
        let mut i = d.iter();
        i.next();
        let mut c = 0u64;
        while i.clone().next().is_some() {
            i.skip_next_value();
            c += 1;
        }
        c
    });
    work!(n, k, drop(Value::from(d)));
    work!(n, k, drop(v));
    let mut left = 8;
    for t in Tokenizer::for_json_bytes(&b) {
        if let Ok(Token::String(s)) = t {
            if left > 0 {
                left -= 1;
                strings(&s, k);
            }
        }
    }
}
