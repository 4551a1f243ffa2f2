//! Observing what the code under test returned, against the oracle.
use crate::rt::*;
use crate::spec::{self, Node, K};
use justjson::doc::Node as DocNode;
use justjson::{Error, ErrorKind, JsonNumber, JsonString, Value};

macro_rules! check {
    ($c:expr) => {
        if !$c {
            $crate::rt::fail(line!())
        }
    };
}
pub(crate) use check;

pub fn ekind<D>(e: &ErrorKind<D>) -> u32 {
    match e {
        ErrorKind::Utf8 => spec::UTF8,
        ErrorKind::UnexpectedEof => spec::EOF,
        ErrorKind::ExpectedObjectKey => spec::EXP_KEY,
        ErrorKind::ExpectedColon => spec::EXP_COLON,
        ErrorKind::ExpectedValue => spec::EXP_VALUE,
        ErrorKind::ExpectedCommaOrEndOfObject => spec::EXP_COMMA_OBJ,
        ErrorKind::ExpectedCommaOrEndOfArray => spec::EXP_COMMA_ARR,
        ErrorKind::IllegalTrailingComma => spec::TRAIL_COMMA,
        ErrorKind::Unexpected(b) => spec::UNEXPECTED + *b as u32,
        ErrorKind::TrailingNonWhitespace => spec::TRAILING,
        ErrorKind::ObjectKeysMustBeStrings => spec::KEYS_STR,
        ErrorKind::ExpectedExponent => spec::EXP_EXPONENT,
        ErrorKind::ExpectedDecimalDigit => spec::EXP_DECIMAL,
        ErrorKind::ExpectedDigit => spec::EXP_DIGIT,
        ErrorKind::InvalidHexadecimal => spec::BAD_HEX,
        ErrorKind::InvalidEscape => spec::BAD_ESC,
        ErrorKind::UnclosedObject => spec::UNCL_OBJ,
        ErrorKind::UnclosedArray => spec::UNCL_ARR,
        ErrorKind::UnclosedString => spec::UNCL_STR,
        ErrorKind::ExpectedString => spec::EXP_STR,
        ErrorKind::ExpectedNumber => spec::EXP_NUM,
        ErrorKind::RecursionLimitReached => spec::RECURSION,
        ErrorKind::PayloadsShouldBeObjectOrArray => spec::ROOT,
        ErrorKind::PaylodTooLarge => spec::TOO_LARGE,
        ErrorKind::ErrorFromDelegate(_) => spec::DELEGATE,
        _ => spec::OTHER,
    }
}
pub fn same_err<D>(e: &Error<D>, w: &spec::SErr) -> bool {
    (ekind(e.kind()) == w.kind) & (e.offset() >= w.lo) & (e.offset() <= w.off)
}
/// One outcome against the oracle's: same verdict and same error.
pub fn agrees<V, D>(r: &Result<V, Error<D>>, w: &Option<spec::SErr>) -> bool {
    match (r, w) {
        (Ok(_), None) => true,
        (Err(e), Some(w)) => same_err(e, w),
        _ => false,
    }
}

/// Is this parsed string the one written at `n`, verbatim?
pub fn string_is(s: &JsonString<'_>, n: &Node, b: &[u8]) -> bool {
    match s.as_json_str() {
        Some(t) => same(t.as_str().as_bytes(), &b[n.s..n.e]),
        None => false,
    }
}
pub fn number_is(s: &JsonNumber<'_>, n: &Node, b: &[u8]) -> bool {
    same(s.source().as_bytes(), &b[n.s..n.e])
}
/// Byte equality.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a == b
}
/// Is this the value at node `i`, structure and text?
pub fn value_is(v: &Value<'_>, nodes: &[Node], i: usize, b: &[u8]) -> bool {
    let n = &nodes[i];
    match (n.k, v) {
        (K::Null, Value::Null) => true,
        (K::True, Value::Boolean(x)) => *x,
        (K::False, Value::Boolean(x)) => !*x,
        (K::Num, Value::Number(x)) => number_is(x, n, b),
        (K::Str | K::Key, Value::String(x)) => string_is(x, n, b),
        (K::Arr, Value::Array(a)) => {
            if a.len() != n.len {
                return false;
            }
            let mut j = i + 1;
            for x in a.iter() {
                if !value_is(x, nodes, j, b) {
                    return false;
                }
                j += nodes[j].size;
            }
            true
        }
        (K::Obj, Value::Object(o)) => {
            if o.len() != n.len {
                return false;
            }
            let mut j = i + 1;
            for x in o.iter() {
                if nodes[j].k != K::Key || !string_is(&x.key, &nodes[j], b) {
                    return false;
                }
                j += 1;
                if !value_is(&x.value, nodes, j, b) {
                    return false;
                }
                j += nodes[j].size;
            }
            true
        }
        _ => false,
    }
}
/// Is this document node the oracle's?
pub fn node_is(d: &DocNode<'_>, n: &Node, b: &[u8]) -> bool {
    match (n.k, d) {
        (K::Null, DocNode::Null) => true,
        (K::True, DocNode::Boolean(x)) => *x,
        (K::False, DocNode::Boolean(x)) => !*x,
        (K::Num, DocNode::Number(x)) => number_is(x, n, b),
        (K::Str | K::Key, DocNode::String(x)) => string_is(x, n, b),
        (K::Arr, DocNode::Array { length }) => *length == n.len,
        (K::Obj, DocNode::Object { length }) => *length == n.len,
        _ => false,
    }
}

/// Everything observable about a string without changing it.
pub fn same_string(a: &JsonString<'_>, b: &JsonString<'_>) -> bool {
    let t = match (a.as_json_str(), b.as_json_str()) {
        (Some(x), Some(y)) => same(x.as_str().as_bytes(), y.as_str().as_bytes()),
        (None, None) => true,
        _ => false,
    };
    t && a.decoded_len() == b.decoded_len() && a.len() == b.len() && a.as_str().is_some() == b.as_str().is_some()
}
pub fn same_value(a: &Value<'_>, b: &Value<'_>) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Boolean(x), Value::Boolean(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => same(x.source().as_bytes(), y.source().as_bytes()),
        (Value::String(x), Value::String(y)) => same_string(x, y),
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_value(p, q))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len()
                && x.iter().zip(y.iter()).all(|(p, q)| same_string(&p.key, &q.key) && same_value(&p.value, &q.value))
        }
        _ => false,
    }
}
pub fn same_node(a: &DocNode<'_>, b: &DocNode<'_>) -> bool {
    match (a, b) {
        (DocNode::Null, DocNode::Null) => true,
        (DocNode::Boolean(x), DocNode::Boolean(y)) => x == y,
        (DocNode::Number(x), DocNode::Number(y)) => same(x.source().as_bytes(), y.source().as_bytes()),
        (DocNode::String(x), DocNode::String(y)) => same_string(x, y),
        (DocNode::Array { length: x }, DocNode::Array { length: y }) => x == y,
        (DocNode::Object { length: x }, DocNode::Object { length: y }) => x == y,
        _ => false,
    }
}

/// Collects decoded characters as UTF-8 bytes, one at a time, so that a
/// character outside the Unicode scalar values shows as malformed UTF-8.
pub fn utf8_of(it: impl Iterator<Item = char>, cap: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(cap);
    for c in it {
        spec::push_cp(&mut v, c as u32);
    }
    v
}

/// What the short escape `\b` decodes to. The standard says U+0008; the
/// repository's own tests pin U+0007 (known finding KF1).
pub fn bq() -> u8 {
    let s = JsonString::from_json("\"\\b\"").ok();
    match s.as_ref().and_then(|s| s.decoded().next()) {
        Some(c) => c as u32 as u8,
        None => 0,
    }
}

/// A sink which records what it is given.
pub struct Sink {
    pub v: Vec<u8>,
}
impl Sink {
    pub fn new() -> Self {
        Sink { v: Vec::with_capacity(64) }
    }
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.v.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
/// A sink which fails from its `left`-th write on.
pub struct Failing {
    pub v: Vec<u8>,
    pub left: usize,
    pub failed: bool,
}
impl core::fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.failed || self.left == 0 {
            self.failed = true;
            return Err(core::fmt::Error);
        }
        self.left -= 1;
        self.v.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
/// A hasher which records its byte stream, and where each write ends.
pub struct Tape {
    pub v: Vec<u8>,
    pub cuts: Vec<usize>,
}
impl core::hash::Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.v.extend_from_slice(b);
        self.cuts.push(self.v.len());
    }
}
fn taped<T: core::hash::Hash + ?Sized>(t: &T) -> Tape {
    let mut h = Tape { v: Vec::with_capacity(32), cuts: Vec::with_capacity(8) };
    t.hash(&mut h);
    h
}
/// The places at which the writes of `t` to a hasher end.
pub fn writes<T: core::hash::Hash + ?Sized>(t: &T) -> Vec<usize> {
    taped(t).cuts
}
pub fn tape<T: core::hash::Hash + ?Sized>(t: &T) -> Vec<u8> {
    taped(t).v
}
