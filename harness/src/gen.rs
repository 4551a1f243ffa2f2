//! Input generators. Each turns `sym_choice`s and symbolic bytes into one
//! family of inputs; the parameters bound the family.
use crate::rt::*;
use crate::spec;

pub const ANY: u64 = 0;
pub const STRUCT: u64 = 1;
pub const STR: u64 = 2;
pub const ESC: u64 = 3;
pub const NUM: u64 = 4;
pub const DEEP: u64 = 5;
pub const DOC: u64 = 6;
pub const WIN: u64 = 7;
pub const FLAT: u64 = 8;
pub const LONG: u64 = 9;
pub const TWO: u64 = 10;
pub const WIDE: u64 = 11;

fn put_any(v: &mut Vec<u8>, n: usize) {
    let l = v.len();
    v.resize(l + n, 0);
    fill(&mut v[l..]);
}
pub fn any_byte() -> u8 {
    let b: [u8; 1] = bytes();
    b[0]
}
fn range(lo: u64, hi: u64) -> usize {
    lo as usize + choice((hi - lo + 1) as u32) as usize
}

/// One piece of a string literal's contents.
fn put_piece(v: &mut Vec<u8>, narrow: u64) {
    match choice(5) {
        3 if narrow == 3 => {
            v.extend_from_slice(b"\\ud");
            put_any(v, 1);
            v.extend_from_slice(b"f");
            put_any(v, 1);
            v.extend_from_slice(b"\\uD");
            put_any(v, 1);
            v.extend_from_slice(b"f");
            put_any(v, 1);
        }
        3 if narrow == 2 => {
            v.extend_from_slice(b"\\u");
            put_any(v, 1);
            v.extend_from_slice(b"8");
            put_any(v, 1);
            v.extend_from_slice(b"0\\uD");
            put_any(v, 1);
            v.extend_from_slice(b"0");
            put_any(v, 1);
        }
        0 => put_any(v, 1),
        1 => {
            v.push(b'\\');
            put_any(v, 1);
        }
        2 => {
            v.extend_from_slice(b"\\u");
            put_any(v, 4);
        }
        3 => {
            // a surrogate pair, or nearly one
            v.extend_from_slice(b"\\u");
            put_any(v, 4);
            v.extend_from_slice(b"\\u");
            put_any(v, 4);
        }
        _ => put_any(v, 2),
    }
}

const SEEDS: &[&[u8]] = &[
    b"{\"a\":[1,-2.5e+3,true],\"b\\n\":{\"c\":null,\"d\":\"\\ud83d\\ude00x\"}}",
    b" [ \"\\u00e9\xc3\xa9\" , { \"k\" : [ ] , \"k\" : { } } , 0.10E-7 ] ",
    b"[[[],{\"\":false}],[{\"x\":[null,0]}],\"\"]",
    b"\"\\\"\\\\\\/\\b\\f\\n\\r\\t\\u0041\xe2\x82\xac\xf0\x9f\x98\x80 end\"",
    b"-12345678901234567890.0123456789e-0123",
    b"{\"a\":1,\"a\":2,}",
    b"[1,[2,],]",
    b"{\"a\":{\"b\":[{\"c\":[1,{}]},\"x\"],\"d\":\"\"},\"e\":[[],[0]],\"a\":-0.5e-3}",
    b"[\"\\udbff\\udfff\\ud800\\uDC00\xed\x9f\xbf\xee\x80\x80\xf4\x8f\xbf\xbf\",\"\xc2\x80\xdf\xbf\xe0\xa0\x80\xf0\x90\x80\x80\"]",
    b"\"\\udbff\\udfff\\ud800\\uDC00\xed\x9f\xbf\xee\x80\x80\xf4\x8f\xbf\xbf\xc2\x80\"",
];

/// A grammar-directed document: shape by choice, leaves symbolic.
struct Doc {
    v: Vec<u8>,
    left: usize,
    ws: bool,
    trailing: bool,
    leaf: u64,
}
impl Doc {
    fn ws(&mut self) {
        if self.ws {
            let c = any_byte();
            assume(spec::is_ws(c));
            self.v.push(c);
        }
    }
    fn string(&mut self) {
        self.v.push(b'"');
        match self.leaf {
            0 => {}
            1 => {
                let c = any_byte();
                assume((c >= 0x20) & (c < 0x80) & (c != b'"') & (c != b'\\'));
                self.v.push(c);
            }
            _ => match choice(4) {
                0 => {}
                1 => {
                    let c = any_byte();
                    assume((c >= 0x20) & (c < 0x80) & (c != b'"') & (c != b'\\'));
                    self.v.push(c);
                }
                2 => {
                    self.v.push(b'\\');
                    put_any(&mut self.v, 1);
                }
                _ => {
                    self.v.extend_from_slice(b"\\u00");
                    put_any(&mut self.v, 2);
                }
            },
        }
        self.v.push(b'"');
    }
    fn value(&mut self, depth: usize) {
        self.left -= 1;
        let kinds = if depth > 0 && self.left > 0 { 8 } else { 6 };
        match choice(kinds) {
            0 => self.v.extend_from_slice(b"null"),
            1 => {
                let c = any_byte();
                assume((c >= b'0') & (c <= b'9'));
                self.v.push(c);
            }
            2 => self.string(),
            3 => self.v.extend_from_slice(if flag() { b"true" } else { b"false" }),
            4 => {
                self.v.push(b'[');
                self.ws();
                self.v.push(b']');
            }
            5 => {
                self.v.push(b'{');
                self.ws();
                self.v.push(b'}');
            }
            k => {
                self.v.push(if k == 6 { b'[' } else { b'{' });
                loop {
                    self.ws();
                    if k == 7 {
                        self.string();
                        self.ws();
                        self.v.push(b':');
                        self.ws();
                    }
                    self.value(depth - 1);
                    self.ws();
                    if self.left == 0 || !flag() {
                        break;
                    }
                    self.v.push(b',');
                }
                if self.trailing && flag() {
                    self.v.push(b',');
                    self.ws();
                }
                self.v.push(if k == 6 { b']' } else { b'}' });
            }
        }
    }
}

/// Containers nested `d` deep; `pat` selects arrays, objects or a mix;
/// `comma` puts one after the element of each.
fn deep(v: &mut Vec<u8>, d: usize, pat: u32, close: usize, comma: bool) {
    let is_obj = |i: usize| match pat {
        0 => false,
        1 => true,
        _ => i % 2 == 1,
    };
    for i in 0..d {
        if is_obj(i) {
            v.push(b'{');
            if i + 1 < d {
                v.extend_from_slice(b"\"\":");
            }
        } else {
            v.push(b'[');
        }
    }
    for i in (d - close..d).rev() {
        if comma && i + 1 < d {
            v.push(b',');
        }
        v.push(if is_obj(i) { b'}' } else { b']' });
    }
}

/// Sizes around the powers of two, where counters, chunks and buffers turn.
const SIZES: &[&[usize]] =
    &[&[7, 8, 9, 15, 16, 17], &[31, 32, 33, 63, 64, 65], &[127, 128, 129, 255, 256, 257], &[1023, 1024, 1025], &[65535, 65536, 65537],
        &[4095, 4096, 4097, 8191, 8192, 8193], &[32767, 32768, 32769]];

/// Something repeated `n` times.
fn long(v: &mut Vec<u8>, family: u64, n: usize) {
    fn rep(v: &mut Vec<u8>, x: &[u8], n: usize, sep: bool) {
        for i in 0..n {
            if sep && i > 0 {
                v.push(b',');
            }
            v.extend_from_slice(x);
        }
    }
    let quoted = |v: &mut Vec<u8>, x: &[u8], n: usize| {
        v.push(b'"');
        rep(v, x, n, false);
        v.push(b'"');
    };
    match family {
        0 => quoted(v, b"a", n),
        1 => quoted(v, b"\xc3\xa9", n),
        2 => quoted(v, b"\\n", n),
        3 => quoted(v, b"\\u00e9", n),
        4 => {
            v.push(b'1');
            rep(v, b"0", n - 1, false);
        }
        5 => {
            v.extend_from_slice(b"-0.");
            rep(v, b"5", n, false);
        }
        6 => {
            v.push(b'[');
            rep(v, b" ", n, false);
            v.extend_from_slice(b"0]");
        }
        7 => {
            v.push(b'[');
            rep(v, b"1", n, true);
            v.push(b']');
        }
        8 => {
            v.push(b'{');
            for i in 0..n {
                if i > 0 {
                    v.push(b',');
                }
                v.push(b'"');
                v.push(b'a' + (i % 26) as u8);
                v.push(b'a' + (i / 26 % 26) as u8);
                v.extend_from_slice(b"\":0");
            }
            v.push(b'}');
        }
        9 => {
            v.push(b'[');
            rep(v, b"[]", n, true);
            v.push(b']');
        }
        10 => {
            v.push(b'[');
            rep(v, b"{\"k\":\"v\"}", n, true);
            v.push(b']');
        }
        11 => {
            v.push(b'{');
            quoted(v, b"k", n);
            v.extend_from_slice(b":\"\"}");
        }
        12 => {
            v.extend_from_slice(b"[true");
            rep(v, b"\n", n, false);
            v.extend_from_slice(b",null]");
        }
        // a long container with more after it
        13 => {
            v.extend_from_slice(b"{\"a\":[");
            rep(v, b"1", n, true);
            v.extend_from_slice(b"],\"b\":[0],\"c\":2}");
        }
        // values of every kind in turn
        14 => {
            v.extend_from_slice(b"[[");
            for i in 0..n {
                if i > 0 {
                    v.push(b',');
                }
                v.extend_from_slice(match i % 7 {
                    0 => b"null",
                    1 => b"[7]",
                    2 => b"\"s\"",
                    3 => b"{\"m\":{}}",
                    4 => b"-0.1",
                    5 => b"true",
                    _ => b"\"\\n\"",
                });
            }
            v.extend_from_slice(b"],false]");
        }
        // one key again and again
        15 => {
            v.push(b'{');
            rep(v, b"\"k\":0", n, true);
            v.push(b'}');
        }
        // an exponent's digits
        16 => {
            v.extend_from_slice(b"1e");
            rep(v, b"0", n, false);
            v.push(b'1');
        }
        17 => quoted(v, b"\\ud83d\\ude00", n),
        18 => quoted(v, b"\xf0\x9f\x98\x80", n),
        19 => quoted(v, b"\xe2\x82\xac", n),
        // an object's key, escaped
        20 => {
            v.extend_from_slice(b"[{");
            quoted(v, b"\\t", n);
            v.extend_from_slice(b":\"\"}]");
        }
        // every container with a trailing comma
        21 => {
            v.push(b'[');
            rep(v, b"[0,],{\"k\":1,},", n, false);
            v.push(b']');
        }
        // blanks around everything
        22 => {
            rep(v, b" ", n, false);
            v.push(b'{');
            rep(v, b"\t", n, false);
            v.extend_from_slice(b"\"k\"");
            rep(v, b"\r", n, false);
            v.push(b':');
            rep(v, b"\n", n, false);
            v.push(b'0');
            rep(v, b" ", n, false);
            v.push(b'}');
            rep(v, b" ", n, false);
        }
        // plain and multi-byte characters in turn
        23 => quoted(v, b"a\xc3\xa9", n),
        // plain, escaped and multi-byte characters in turn
        24 => quoted(v, b"a\\n\xc3\xa9\\u0041\xe2\x82\xac\\\"\xf0\x9f\x98\x80\\ud83d\\ude00", n),
        // strings of many lengths
        25 => {
            v.push(b'[');
            for i in 0..n {
                if i > 0 {
                    v.push(b',');
                }
                quoted(v, if i & 1 == 0 { b"x" } else { b"\\t" }, i % 20);
            }
            v.push(b']');
        }
        // members that hold containers of their own
        _ => {
            v.push(b'{');
            for i in 0..n {
                if i > 0 {
                    v.push(b',');
                }
                v.push(b'"');
                v.push(b'a' + (i % 26) as u8);
                v.push(b'a' + (i / 26 % 26) as u8);
                v.extend_from_slice(match i % 3 {
                    0 => b"\":[{\"m\":0},1]",
                    1 => b"\":{\"m\":[],\"n\":2}",
                    _ => b"\":[[]]",
                });
            }
            v.push(b'}');
        }
    }
}

/// The input family named by the parameters from `p` on: kind and bounds.
pub fn input(p: u32) -> Vec<u8> {
    let (kind, a, b, c) = (param(p), param(p + 1), param(p + 2), param(p + 3));
    let mut v = Vec::with_capacity(64);
    match kind {
        // a..=b arbitrary bytes
        ANY => {
            let n = range(a, b);
            put_any(&mut v, n);
        }
        // a..=b bytes from the structural alphabet
        STRUCT => {
            let n = range(a, b);
            put_any(&mut v, n);
            for &x in v.iter() {
                assume(
                    (x == b'[')
                        | (x == b']')
                        | (x == b'{')
                        | (x == b'}')
                        | (x == b',')
                        | (x == b':')
                        | (x == b'"')
                        | (x == b'0')
                        | (x == b' '),
                );
            }
        }
        // a quoted run of a..=b arbitrary bytes, c: anything after it
        STR => {
            let n = range(a, b);
            v.push(b'"');
            put_any(&mut v, n);
            v.push(b'"');
            put_any(&mut v, c as usize);
        }
        // a quoted sequence of a..=b pieces; c: 1 an object's key, 2 and
        // 3 fewer arbitrary digits in surrogate pairs
        ESC => {
            let n = range(a, b);
            if c == 1 {
                v.extend_from_slice(b"{\"");
            } else {
                v.push(b'"');
            }
            for _ in 0..n {
                put_piece(&mut v, c);
            }
            if c == 1 {
                v.extend_from_slice(b"\":0}");
            } else {
                v.push(b'"');
            }
        }
        // a..=b bytes of the number alphabet, c: arbitrary bytes after it
        NUM => {
            let n = range(a, b);
            put_any(&mut v, n);
            for &x in v.iter() {
                assume(
                    ((x >= b'0') & (x <= b'9'))
                        | (x == b'-')
                        | (x == b'+')
                        | (x == b'.')
                        | (x == b'e')
                        | (x == b'E'),
                );
            }
            put_any(&mut v, c as usize);
        }
        // nesting depth a..=b, c % 8 closed siblings before it; c & 8: with
        // trailing commas
        DEEP => {
            let d = range(a, b);
            let pat = choice(3);
            let sib = (c % 8) as usize;
            let comma = c & 8 != 0;
            if sib > 0 {
                v.push(b'[');
                for _ in 0..sib {
                    deep(&mut v, 2, pat, 2, comma);
                    v.push(b',');
                }
                deep(&mut v, d - 1, pat, d - 1, comma);
                v.push(b']');
            } else {
                let open = choice(2) as usize;
                deep(&mut v, d, pat, d - open, comma);
            }
            put_any(&mut v, 1);
        }
        // a valid document of at most b nodes below depth a;
        // c: bit 0 whitespace everywhere, bit 1 trailing commas, bits 2.. leaf
        DOC => {
            let mut d = Doc { v, left: b as usize, ws: c & 1 != 0, trailing: c & 2 != 0, leaf: c >> 2 };
            d.ws();
            d.value(a as usize);
            d.ws();
            v = d.v;
        }
        // a seed document with a window of a bytes overwritten, inserted or
        // removed anywhere, or cut off; b: seed number, c: 1 also cut/remove
        WIN => {
            let s = SEEDS[b as usize];
            let w = a as usize;
            let modes = if c == 1 { 4 } else { 2 };
            match choice(modes) {
                0 => {
                    let p = choice((s.len() - w + 1) as u32) as usize;
                    v.extend_from_slice(&s[..p]);
                    put_any(&mut v, w);
                    v.extend_from_slice(&s[p + w..]);
                }
                1 => {
                    let p = choice(s.len() as u32 + 1) as usize;
                    v.extend_from_slice(&s[..p]);
                    put_any(&mut v, w);
                    v.extend_from_slice(&s[p..]);
                }
                2 => {
                    let p = choice(s.len() as u32 + 1) as usize;
                    v.extend_from_slice(&s[..p]);
                    put_any(&mut v, w - 1);
                }
                _ => {
                    let p = choice((s.len() - w + 1) as u32) as usize;
                    v.extend_from_slice(&s[..p]);
                    v.extend_from_slice(&s[p + w..]);
                }
            }
        }
        // a flat container: a..=b elements; c: 1 object
        FLAT => {
            let n = range(a, b);
            v.push(if c == 1 { b'{' } else { b'[' });
            for i in 0..n {
                if i > 0 {
                    v.push(b',');
                }
                if c == 1 {
                    v.extend_from_slice(b"\"");
                    let x = any_byte();
                    assume((x >= b'a') & (x <= b'z'));
                    v.push(x);
                    v.extend_from_slice(b"\":");
                }
                let x = any_byte();
                assume((x >= b'0') & (x <= b'9'));
                v.push(x);
            }
            v.push(if c == 1 { b'}' } else { b']' });
        }
        // family b, repeated some number of times from list c, with a window
        // of a bytes overwritten near the start, the middle or the end
        LONG => {
            let sizes = SIZES[c as usize];
            let n = sizes[choice(sizes.len() as u32) as usize];
            v.reserve(n * 40 + 16);
            long(&mut v, b, n);
            let w = a as usize;
            let last = v.len() - w;
            let at = match if c < 3 { choice(8) } else { 5 + choice(3) } {
                0 => 0,
                1 => 1,
                2 => last / 2,
                3 => last / 2 + 1,
                4 => last - 3,
                5 if c >= 3 => last / 2,
                5 => last - 2,
                6 => last - 1,
                _ => last,
            };
            fill(&mut v[at..at + w]);
        }
        // about a bytes of one kind (b) with two windows of c bytes each
        // overwritten anywhere
        TWO => {
            let (open, unit, close): (&[u8], &[u8], &[u8]) = match b {
                0 => (b"\"", b"f", b"\""),
                1 => (b"{\"", b"f", b"\":0}"),
                2 => (b"[1", b" ", b"]"),
                3 => (b"[1", b"1", b"]"),
                4 => (b"\"", "\u{e9}".as_bytes(), b"\""),
                5 => (b"\"", b"\\n", b"\""),
                6 => (b"\"", "\u{ffff}".as_bytes(), b"\""),
                7 => (b"[", b"0,", b"0]"),
                8 => (b"", b"[", b""),
                _ => (b"[[", b"],[", b"]]"),
            };
            v.extend_from_slice(open);
            let from = v.len();
            for _ in 0..a as usize / unit.len() {
                v.extend_from_slice(unit);
            }
            let w = c as usize;
            let n = v.len() - from + 1 - 2 * w;
            let i = choice(n as u32) as usize;
            let j = i + w + choice((n - i) as u32) as usize;
            fill(&mut v[from + i..from + i + w]);
            fill(&mut v[from + j..from + j + w]);
            v.extend_from_slice(close);
            if b == 8 {
                for _ in 0..a {
                    v.push(b']');
                }
            }
        }
        // b elements inside a containers, of kind c, with a byte overwritten
        WIDE => {
            let (a, b) = (a as usize, b as usize);
            let kind = choice(3);
            let object = |i: usize| kind == 1 || kind == 2 && i & 1 == 1;
            for i in 0..a {
                v.extend_from_slice(if object(i) { b"{\"k\":" } else { b"[" });
            }
            let from = v.len();
            v.push(b'[');
            for _ in 0..b {
                v.extend_from_slice(match c {
                    0 => b"0,",
                    1 => b"[],",
                    _ => b"\"\\n\",",
                });
            }
            v.extend_from_slice(b"0]");
            let to = v.len();
            // more after each of the containers
            let more = flag();
            for i in (0..a).rev() {
                if more {
                    v.extend_from_slice(if object(i) { b",\"l\":0" } else { b",0" });
                }
                v.push(if object(i) { b'}' } else { b']' });
            }
            let at = match choice(5) {
                0 => 0,
                1 => from,
                2 => from + (to - from) / 2,
                3 => to,
                _ => v.len() - 1,
            };
            fill(&mut v[at..at + 1]);
        }
        _ => fail(9999),
    }
    v
}

/// A size from list `list`.
pub fn size(list: u64) -> usize {
    let sizes = SIZES[list as usize];
    sizes[choice(sizes.len() as u32) as usize]
}
/// Text of one character over and over, with a window of `w` arbitrary bytes
/// near its start, middle or end.
pub fn long_text(list: u64, w: usize) -> Vec<u8> {
    let unit: &[u8] = match choice(4) {
        0 => b"a",
        1 => b"\n",
        2 => b"\xc3\xa9",
        _ => b"\xf0\x9f\x98\x80",
    };
    let n = size(list);
    let mut v = Vec::with_capacity(n * unit.len() + 8);
    for _ in 0..n {
        v.extend_from_slice(unit);
    }
    let last = v.len() - w;
    let at = match choice(4) {
        0 => 0,
        1 => last / 2,
        2 => last - 1,
        _ => last,
    };
    fill(&mut v[at..at + w]);
    v
}

/// Only well-formed UTF-8 goes on, as text.
pub fn text(b: &[u8]) -> &str {
    assume(spec::utf8_ok(b));
    unsafe { core::str::from_utf8_unchecked(b) }
}

/// A parse configuration, chosen when parameter `p` is 1, else the default.
pub fn config(p: u32) -> (spec::Cfg, justjson::parser::ParseConfig) {
    use justjson::parser::ParseConfig;
    let mode = param(p);
    if mode == 0 {
        return (spec::DEFAULT, ParseConfig::default());
    }
    let mut c = spec::DEFAULT;
    let mut k = if flag() { ParseConfig::new() } else { ParseConfig::strict().allowing_all_types_at_root(true) };
    if mode & 1 != 0 && flag() {
        c.trailing = true;
        k = k.allowing_trailing_commas();
    }
    if mode & 2 != 0 && flag() {
        c.all = false;
        k = k.allowing_all_types_at_root(false);
    }
    if mode & 4 != 0 {
        match choice(5) {
            0 => {}
            1 => {
                c.limit = None;
                k = k.without_recursion_limit();
            }
            n => {
                let l = n as usize - 2;
                c.limit = Some(l);
                k = k.with_recursion_limit(l);
            }
        }
    }
    (c, k)
}
