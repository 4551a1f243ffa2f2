//! C16 numbers.
use crate::gen;
use crate::rt::*;
use crate::spec::{self, K};
use crate::view::*;
use justjson::doc::{Document, Node as DocNode};
use justjson::parser::{Token, Tokenizer};
use justjson::{JsonNumber, Value};

/// The integer a number's text denotes: sign, and decimal digits without
/// leading zeros. None for a fraction or an exponent.
struct Int<'a> {
    neg: bool,
    digits: &'a [u8],
}
fn integer(t: &[u8]) -> Option<Int<'_>> {
    let neg = t[0] == b'-';
    let d = if neg { &t[1..] } else { t };
    for &c in d {
        if !((c >= b'0') & (c <= b'9')) {
            return None;
        }
    }
    Some(Int { neg, digits: d })
}
/// digits <= max, both without leading zeros
fn at_most(d: &[u8], max: &[u8]) -> bool {
    if d.len() != max.len() {
        return d.len() < max.len();
    }
    d <= max
}
fn magnitude(d: &[u8]) -> u128 {
    let mut v: u128 = 0;
    for &c in d {
        v = v.wrapping_mul(10).wrapping_add((c & 15) as u128);
    }
    v
}
/// The value an unsigned accessor must give.
fn unsigned(t: &[u8], max: &[u8]) -> Option<u128> {
    match integer(t) {
        Some(i) if !i.neg && at_most(i.digits, max) => Some(magnitude(i.digits)),
        _ => None,
    }
}
/// The value a signed accessor must give.
fn signed(t: &[u8], min: &[u8], max: &[u8]) -> Option<i128> {
    match integer(t) {
        Some(i) if !i.neg && at_most(i.digits, max) => Some(magnitude(i.digits) as i128),
        Some(i) if i.neg && at_most(i.digits, min) => Some((magnitude(i.digits) as i128).wrapping_neg()),
        _ => None,
    }
}
const U8: &[u8] = b"255";
const U16: &[u8] = b"65535";
const U32: &[u8] = b"4294967295";
const U64: &[u8] = b"18446744073709551615";
const U128: &[u8] = b"340282366920938463463374607431768211455";
const I8: (&[u8], &[u8]) = (b"128", b"127");
const I16: (&[u8], &[u8]) = (b"32768", b"32767");
const I32: (&[u8], &[u8]) = (b"2147483648", b"2147483647");
const I64: (&[u8], &[u8]) = (b"9223372036854775808", b"9223372036854775807");
const I128: (&[u8], &[u8]) =
    (b"170141183460469231731687303715884105728", b"170141183460469231731687303715884105727");

macro_rules! one {
    ($n:ident, $v:ident, $t:ident, $get:ident, $ty:ident, u, $max:expr) => {{
        let want = unsigned($t, $max).map(|x| x as $ty);
        check!($n.$get() == want);
        check!($v.$get() == want);
        check!($n.parse::<$ty>().ok() == want);
        if want.is_some() {
            cover(1);
        } else {
            cover(2);
        }
    }};
    ($n:ident, $v:ident, $t:ident, $get:ident, $ty:ident, s, $r:expr) => {{
        let want = signed($t, $r.0, $r.1).map(|x| x as $ty);
        check!($n.$get() == want);
        check!($v.$get() == want);
        check!($n.parse::<$ty>().ok() == want);
        if want.is_some() {
            cover(3);
        } else {
            cover(4);
        }
    }};
}
fn accessors(n: &JsonNumber<'_>, v: &Value<'_>, t: &[u8], which: u64) {
    check!(same(n.source().as_bytes(), t));
    match which {
        0 => one!(n, v, t, as_u8, u8, u, U8),
        1 => one!(n, v, t, as_u16, u16, u, U16),
        2 => one!(n, v, t, as_u32, u32, u, U32),
        3 => one!(n, v, t, as_u64, u64, u, U64),
        4 => one!(n, v, t, as_u128, u128, u, U128),
        5 => one!(n, v, t, as_usize, usize, u, if cfg!(target_pointer_width = "64") { U64 } else { U32 }),
        6 => one!(n, v, t, as_i8, i8, s, I8),
        7 => one!(n, v, t, as_i16, i16, s, I16),
        8 => one!(n, v, t, as_i32, i32, s, I32),
        9 => one!(n, v, t, as_i64, i64, s, I64),
        10 => one!(n, v, t, as_i128, i128, s, I128),
        11 => one!(n, v, t, as_isize, isize, s, if cfg!(target_pointer_width = "64") { I64 } else { I32 }),
        12 => {
            // the nearest value, as the standard library reads the same text
            let s = unsafe { core::str::from_utf8_unchecked(t) };
            let want = s.parse::<f64>().ok().map(f64::to_bits);
            check!(want.is_some());
            check!(n.as_f64().map(f64::to_bits) == want);
            check!(v.as_f64().map(f64::to_bits) == want);
            cover(5);
        }
        _ => {
            let s = unsafe { core::str::from_utf8_unchecked(t) };
            let want = s.parse::<f32>().ok().map(f32::to_bits);
            check!(want.is_some());
            check!(n.as_f32().map(f32::to_bits) == want);
            check!(v.as_f32().map(f32::to_bits) == want);
            cover(6);
        }
    }
}
fn with_number(b: &[u8], which: u64) {
    let w = spec::parse(b, spec::DEFAULT);
    let v = match Value::from_json_bytes(b) {
        Ok(v) => v,
        Err(_) => {
            check!(w.err.is_some());
            cover(7);
            return;
        }
    };
    check!(w.err.is_none());
    let n = w.nodes[0];
    if n.k != K::Num {
        no_number(&v);
        return;
    }
    let t = &b[n.s..n.e];
    observe(t.len() as u64);
    match &v {
        Value::Number(x) => accessors(x, &v, t, which),
        _ => check!(false),
    }
    // however it is obtained, it is the same text
    match Document::from_json_bytes(b) {
        Ok(d) => match d.iter().next() {
            Some(DocNode::Number(x)) => check!(same(x.source().as_bytes(), t)),
            _ => check!(false),
        },
        _ => check!(false),
    }
    match Tokenizer::for_json_bytes(b).next() {
        Some(Ok(Token::Number(x))) => check!(same(x.source().as_bytes(), t)),
        _ => check!(false),
    }
    match JsonNumber::from_json(unsafe { core::str::from_utf8_unchecked(b) }) {
        Ok(x) => {
            check!(same(x.source().as_bytes(), t));
            if let Value::Number(y) = &v {
                check!(x == *y);
            }
        }
        Err(_) => check!(false),
    }
}
fn no_number(v: &Value<'_>) {
    cover(8);
    check!(v.as_number().is_none());
    check!(v.as_u8().is_none() && v.as_u16().is_none() && v.as_u32().is_none() && v.as_u64().is_none());
    check!(v.as_u128().is_none() && v.as_usize().is_none() && v.as_i8().is_none() && v.as_i16().is_none());
    check!(v.as_i32().is_none() && v.as_i64().is_none() && v.as_i128().is_none() && v.as_isize().is_none());
    check!(v.as_f32().is_none() && v.as_f64().is_none());
}
/// any input; p4: which accessor
pub fn c16_number() {
    let b = gen::input(0);
    if param(0) == gen::ANY {
        // JsonNumber takes text
        gen::text(&b);
    }
    with_number(&b, param(4));
}
const TEMPLATES: &[&[u8]] = &[
    b"1844674407370955",
    b"922337203685477",
    b"34028236692093846346337460743176821",
    b"17014118346046923173168730371588410",
    b"429496",
    b"214748",
    b"65",
    b"32",
    // 1 + 2^-24: between two f32 values, and just past it
    b"1.00000005960464477539062500000000",
    b"1.0000000596046447753906250000000000000000000000000000000000",
    b"9007199254740992",
    b"1797693134862315",
    b"0.000000000000000000000000000000000000000000001",
    // 13..: around the smallest and largest values; ? is any digit
    b"1e??",
    b"1e-??",
    b"1e3??",
    b"1e-3??",
    b"3.402823?e38",
    b"3.4028235?e38",
    b"3402823567797336616375393954581425684?",
    b"1.797693134862315?e308",
    b"1.7976931348623158?e308",
    b"4.9e-32?",
    b"2.470328229206232?e-324",
    b"2.225073858507201?e-308",
    b"1.4e-4?",
    b"7.00649232162408?e-46",
    b"1.175494?e-38",
    b"1.0000000596046447?e0",
    b"0.00000000000000000000000000000000000000000000?",
    b"-0.0000e?",
    b"9007199254740992?",
    b"1677721?",
    b"?.?e-310",
    b"?.?e-40",
];
/// p0: template, p1..=p2: arbitrary bytes after it, p3: which accessor
pub fn c16_edge() {
    let mut b = Vec::with_capacity(48);
    if flag() {
        b.push(b'-');
    }
    for &c in TEMPLATES[param(0) as usize] {
        if c == b'?' {
            let d = gen::any_byte();
            assume((d >= b'0') & (d <= b'9'));
            b.push(d);
        } else {
            b.push(c);
        }
    }
    let n = param(1) as usize + choice((param(2) - param(1) + 1) as u32) as usize;
    let l = b.len();
    b.resize(l + n, 0);
    fill(&mut b[l..]);
    for &x in &b[l..] {
        assume(((x >= b'0') & (x <= b'9')) | (x == b'.') | (x == b'e'));
    }
    with_number(&b, param(3));
}
