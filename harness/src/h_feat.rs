//! C22: the same sources built with other features, side by side.
use crate::gen;
use crate::rt::*;
use crate::view::*;
use core::fmt::Write;

/// What one build shows of one input.
struct Log {
    v: Vec<u64>,
}
impl Log {
    fn new() -> Self {
        Log { v: Vec::with_capacity(512) }
    }
    fn n(&mut self, x: u64) {
        self.v.push(x);
    }
    fn b(&mut self, x: &[u8]) {
        self.v.push(x.len() as u64);
        for &c in x {
            self.v.push(c as u64);
        }
    }
}
impl Write for Log {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            self.v.push(c as u64);
        }
        Ok(())
    }
}
fn same_log(a: &Log, b: &Log) -> bool {
    if a.v.len() != b.v.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.v.len() {
        ok &= a.v[i] == b.v[i];
    }
    ok
}

/// A parse configuration, as numbers.
#[derive(Clone, Copy)]
struct Conf {
    strict: bool,
    trailing: bool,
    all: bool,
    limit: u32,
}
fn conf(p: u32) -> Conf {
    if param(p) == 0 {
        return Conf { strict: false, trailing: false, all: true, limit: 0 };
    }
    Conf { strict: flag(), trailing: flag(), all: flag(), limit: choice(4) }
}

macro_rules! build {
    ($m:ident, $j:ident) => {
        mod $m {
            use super::*;
            use $j::doc::{HeaplessDocument, Node};
            use $j::parser::{JsonKind, ParseConfig, Parser, PeekableTokenKind as P, Token, Tokenizer};
            use $j::{AnyStr, Error, ErrorKind, JsonNumber, JsonString};

            fn config(c: Conf) -> ParseConfig {
                let mut k = if c.strict { ParseConfig::strict() } else { ParseConfig::new() };
                k = k.allowing_all_types_at_root(c.all);
                if c.trailing {
                    k = k.allowing_trailing_commas();
                }
                match c.limit {
                    0 => k,
                    1 => k.without_recursion_limit(),
                    n => k.with_recursion_limit(n as usize - 2),
                }
            }
            fn kind(e: &ErrorKind) -> u64 {
                match e {
                    ErrorKind::Utf8 => 1,
                    ErrorKind::UnexpectedEof => 2,
                    ErrorKind::ExpectedObjectKey => 3,
                    ErrorKind::ExpectedColon => 4,
                    ErrorKind::ExpectedValue => 5,
                    ErrorKind::ExpectedCommaOrEndOfObject => 6,
                    ErrorKind::ExpectedCommaOrEndOfArray => 7,
                    ErrorKind::IllegalTrailingComma => 8,
                    ErrorKind::Unexpected(b) => 0x100 + *b as u64,
                    ErrorKind::TrailingNonWhitespace => 9,
                    ErrorKind::ObjectKeysMustBeStrings => 10,
                    ErrorKind::ExpectedExponent => 11,
                    ErrorKind::ExpectedDecimalDigit => 12,
                    ErrorKind::ExpectedDigit => 13,
                    ErrorKind::InvalidHexadecimal => 14,
                    ErrorKind::InvalidEscape => 15,
                    ErrorKind::UnclosedObject => 16,
                    ErrorKind::UnclosedArray => 17,
                    ErrorKind::UnclosedString => 18,
                    ErrorKind::ExpectedString => 19,
                    ErrorKind::ExpectedNumber => 20,
                    ErrorKind::RecursionLimitReached => 21,
                    ErrorKind::PayloadsShouldBeObjectOrArray => 22,
                    ErrorKind::PaylodTooLarge => 23,
                    _ => 24,
                }
            }
            fn error(l: &mut Log, e: &Error) {
                l.n(1000);
                l.n(kind(e.kind()));
                l.n(e.offset() as u64);
                let r = write!(l, "{}", e);
                l.n(r.is_ok() as u64);
            }
            fn anystr(l: &mut Log, s: Option<&AnyStr<'_>>) {
                match s {
                    Some(s) => {
                        l.b(s.as_str().as_bytes());
                        l.b(s.as_ref().as_bytes());
                    }
                    None => l.n(1),
                }
            }
            fn string(l: &mut Log, s: &JsonString<'_>) {
                l.n(2000);
                l.n(s.len() as u64);
                l.n(s.decoded_len() as u64);
                l.n(s.is_empty() as u64);
                match s.as_str() {
                    Some(t) => l.b(t.as_bytes()),
                    None => l.n(3),
                }
                anystr(l, s.as_json_str());
            }
            /// everything about a string, the iterators included
            fn whole(l: &mut Log, s: &JsonString<'_>, other: &str) {
                string(l, s);
                for c in s.decoded() {
                    l.n(c as u64);
                }
                l.n(4);
                for c in s.as_json() {
                    l.n(c as u64);
                }
                let (a, b) = s.as_json().size_hint();
                l.n(a as u64);
                l.n(b.map_or(77777, |x| x as u64));
                let r = write!(l, "{}{}{}", s, s.decoded(), s.as_json());
                l.n(r.is_ok() as u64);
                l.b(&tape(s));
                let o = JsonString::from(other);
                l.n((*s == o) as u64);
                l.n((*s == *other) as u64);
                l.n((*s == other) as u64);
                l.n((o == *s) as u64);
                l.n(s.cmp(&o) as i32 as u64);
                l.n(o.cmp(s) as i32 as u64);
                l.n(s.partial_cmp(other).map_or(9, |x| x as i32 as u64));
                l.n((s.clone() == *s) as u64);
            }
            fn number(l: &mut Log, n: &JsonNumber<'_>) {
                l.n(3000);
                l.b(n.source().as_bytes());
                l.n(n.as_u8().map_or(999, |x| x as u64));
                l.n(n.as_i16().map_or(99999, |x| x as u64));
                l.n(n.as_u64().map_or(99999, |x| x));
                l.n(n.as_i64().map_or(99999, |x| x as u64));
                l.n(n.as_i128().map_or(99999, |x| x as u64));
                l.n(n.as_usize().map_or(99999, |x| x as u64));
            }
            fn tokens<const G: bool>(l: &mut Log, mut t: Tokenizer<'_, G>) {
                loop {
                    l.n(match t.peek() {
                        None => 0,
                        Some(P::Null) => 1,
                        Some(P::True) => 2,
                        Some(P::False) => 3,
                        Some(P::String) => 4,
                        Some(P::Number) => 5,
                        Some(P::Object) => 6,
                        Some(P::ObjectEnd) => 7,
                        Some(P::Array) => 8,
                        Some(P::ArrayEnd) => 9,
                        Some(P::Colon) => 10,
                        Some(P::Comma) => 11,
                        Some(_) => 12,
                    });
                    l.n(t.offset() as u64);
                    match t.next() {
                        None => break,
                        Some(Err(e)) => {
                            error(l, &e);
                            break;
                        }
                        Some(Ok(t)) => match t {
                            Token::Null => l.n(20),
                            Token::Bool(b) => l.n(21 + b as u64),
                            Token::String(s) => string(l, &s),
                            Token::Number(n) => number(l, &n),
                            Token::Object => l.n(23),
                            Token::ObjectEnd => l.n(24),
                            Token::Array => l.n(25),
                            Token::ArrayEnd => l.n(26),
                            Token::Colon => l.n(27),
                            Token::Comma => l.n(28),
                        },
                    }
                    l.n(t.offset() as u64);
                }
            }
            fn fixed<const N: usize>(l: &mut Log, r: Result<HeaplessDocument<'_, N>, Error>) {
                match r {
                    Err(e) => error(l, &e),
                    Ok(d) => {
                        for n in d.iter() {
                            match n {
                                Node::Null => l.n(30),
                                Node::Boolean(b) => l.n(31 + b as u64),
                                Node::String(s) => string(l, &s),
                                Node::Number(n) => number(l, &n),
                                Node::Object { length } => {
                                    l.n(33);
                                    l.n(length as u64);
                                }
                                Node::Array { length } => {
                                    l.n(34);
                                    l.n(length as u64);
                                }
                            }
                        }
                        let mut i = d.iter();
                        i.skip_next_value();
                        l.n(i.count() as u64);
                    }
                }
            }
            fn verdict(l: &mut Log, r: Result<JsonKind, Error>) {
                match r {
                    Ok(k) => l.n(match k {
                        JsonKind::Null => 40,
                        JsonKind::Boolean => 41,
                        JsonKind::Number => 42,
                        JsonKind::String => 43,
                        JsonKind::Object => 44,
                        JsonKind::Array => 45,
                    }),
                    Err(e) => error(l, &e),
                }
            }
            pub fn parse(b: &[u8], text: Option<&str>, c: Conf) -> Log {
                let mut l = Log::new();
                let k = config(c);
                match text {
                    Some(t) => {
                        tokens(&mut l, Tokenizer::for_json(t));
                        verdict(&mut l, Parser::validate_json_with_config(t, k));
                        fixed::<2>(&mut l, HeaplessDocument::from_json_with_config(t, k));
                        fixed::<6>(&mut l, HeaplessDocument::from_json_with_config(t, k));
                        match JsonString::from_json(t) {
                            Ok(s) => whole(&mut l, &s, "a"),
                            Err(e) => error(&mut l, &e),
                        }
                        match JsonNumber::from_json(t) {
                            Ok(s) => number(&mut l, &s),
                            Err(e) => error(&mut l, &e),
                        }
                    }
                    None => {
                        tokens(&mut l, Tokenizer::for_json_bytes(b));
                        verdict(&mut l, Parser::validate_json_bytes_with_config(b, k));
                        verdict(&mut l, Parser::validate_json_bytes(b));
                        fixed::<2>(&mut l, HeaplessDocument::from_json_bytes_with_config(b, k));
                        fixed::<6>(&mut l, HeaplessDocument::from_json_bytes(b));
                    }
                }
                l
            }
            pub fn strings(raw: &str, json: Option<&str>) -> Log {
                let mut l = Log::new();
                let s = JsonString::from(raw);
                whole(&mut l, &s, "\u{e9}");
                let a = AnyStr::from(raw);
                l.b(a.as_bytes());
                l.b(&tape(&a));
                l.n((a == "a") as u64);
                l.n((a == *"a") as u64);
                l.n(a.partial_cmp("a").map_or(9, |x| x as i32 as u64));
                if let Some(j) = json {
                    match JsonString::from_json(j) {
                        Ok(t) => {
                            whole(&mut l, &t, raw);
                            l.n((t == s) as u64);
                            l.n((s == t) as u64);
                            l.n(s.cmp(&t) as i32 as u64);
                        }
                        Err(e) => error(&mut l, &e),
                    }
                }
                l
            }
        }
    };
}
/// What the builds with allocation have besides.
macro_rules! build_alloc {
    ($m:ident, $j:ident) => {
        mod $m {
            use super::*;
            use $j::doc::{Document, Node};
            use $j::parser::ParseConfig;
            use $j::{Error, JsonString, Object, Value};
            fn config(c: Conf) -> ParseConfig {
                let mut k = if c.strict { ParseConfig::strict() } else { ParseConfig::new() };
                k = k.allowing_all_types_at_root(c.all);
                if c.trailing {
                    k = k.allowing_trailing_commas();
                }
                match c.limit {
                    0 => k,
                    1 => k.without_recursion_limit(),
                    n => k.with_recursion_limit(n as usize - 2),
                }
            }
            fn failed(l: &mut Log, e: &Error) {
                l.n(e.offset() as u64);
                let r = write!(l, "{}", e);
                l.n(r.is_ok() as u64);
            }
            fn value(l: &mut Log, v: &Value<'_>) {
                l.b(v.to_json().as_bytes());
                l.b(v.to_json_pretty().as_bytes());
                l.b(v.to_json_pretty_custom("\t", "").as_bytes());
                let r = write!(l, "{}{:#}", v, v);
                l.n(r.is_ok() as u64);
                l.n(v.get("k").is_some() as u64);
                l.n(v.get_index(1).is_some() as u64);
                l.n(v.as_u8().map_or(999, |x| x as u64));
                if let Some(s) = v.as_string() {
                    l.b(s.decode_if_needed().as_bytes());
                    l.b(s.escape_if_needed().as_bytes());
                }
            }
            pub fn parse(b: &[u8], text: Option<&str>, c: Conf) -> Log {
                let mut l = Log::new();
                let k = config(c);
                let v = match text {
                    Some(t) => Value::from_json_with_config(t, k),
                    None => Value::from_json_bytes_with_config(b, k),
                };
                match v {
                    Ok(v) => value(&mut l, &v),
                    Err(e) => failed(&mut l, &e),
                }
                let d = match text {
                    Some(t) => Document::from_json_with_config(t, k),
                    None => Document::from_json_bytes_with_config(b, k),
                };
                match d {
                    Ok(d) => {
                        for n in d.iter() {
                            match n {
                                Node::Null => l.n(30),
                                Node::Boolean(b) => l.n(31 + b as u64),
                                Node::String(s) => l.b(s.escape_if_needed().as_bytes()),
                                Node::Number(n) => l.b(n.source().as_bytes()),
                                Node::Object { length } => l.n(1000 + length as u64),
                                Node::Array { length } => l.n(2000 + length as u64),
                            }
                        }
                        value(&mut l, &Value::from(d));
                    }
                    Err(e) => failed(&mut l, &e),
                }
                l
            }
            pub fn strings(raw: &str) -> Log {
                let mut l = Log::new();
                let s = JsonString::from(String::from(raw));
                l.b(s.escape_if_needed().as_bytes());
                l.b(s.decode_if_needed().as_bytes());
                l.b(&tape(&s));
                let mut o = Object::new();
                o.push($j::Entry::new(s, Value::from(raw)));
                value(&mut l, &Value::Object(o));
                l
            }
        }
    };
}
build_alloc!(full_more, justjson);
build_alloc!(alloc_more, justjson_alloc);
build!(full, justjson);
build!(core_only, justjson_core);
build!(alloc_only, justjson_alloc);

/// p4: 1 = any configuration; p5: 1 = as text
pub fn c22_parse() {
    let b = gen::input(0);
    let c = conf(4);
    let t = if param(5) == 1 { Some(gen::text(&b)) } else { None };
    let w = full::parse(&b, t, c);
    observe(w.v.len() as u64);
    cover(1);
    check!(same_log(&w, &core_only::parse(&b, t, c)));
    check!(same_log(&w, &alloc_only::parse(&b, t, c)));
    check!(same_log(&full_more::parse(&b, t, c), &alloc_more::parse(&b, t, c)));
}
/// p0: raw size; p1..p4: a generator for a JSON string to go with it, or none
pub fn c22_string() {
    let n = choice(param(0) as u32 + 1) as usize;
    let mut raw = vec![0; n];
    fill(&mut raw);
    let t = gen::text(&raw);
    let src = if param(1) == 99 { Vec::new() } else { gen::input(1) };
    let j = if param(1) == 99 { None } else { Some(gen::text(&src)) };
    let w = full::strings(t, j);
    observe(w.v.len() as u64);
    cover(1);
    check!(same_log(&w, &core_only::strings(t, j)));
    check!(same_log(&w, &alloc_only::strings(t, j)));
    check!(same_log(&full_more::strings(t), &alloc_more::strings(t)));
}
