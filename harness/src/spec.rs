//! The oracle: RFC 8259 (and RFC 3629) written down independently of the code
//! under test, plus the documented error and configuration behaviour.

#[derive(Clone, Copy)]
pub struct Cfg {
    pub trailing: bool,
    pub limit: Option<usize>,
    pub all: bool,
}
pub const DEFAULT: Cfg = Cfg { trailing: false, limit: Some(128), all: true };

// Error kinds, numbered; `Unexpected(b)` is UNEXPECTED + b.
pub const UTF8: u32 = 1;
pub const EOF: u32 = 2;
pub const EXP_KEY: u32 = 3;
pub const EXP_COLON: u32 = 4;
pub const EXP_VALUE: u32 = 5;
pub const EXP_COMMA_OBJ: u32 = 6;
pub const EXP_COMMA_ARR: u32 = 7;
pub const TRAIL_COMMA: u32 = 8;
pub const TRAILING: u32 = 9;
pub const KEYS_STR: u32 = 10;
pub const EXP_EXPONENT: u32 = 11;
pub const EXP_DECIMAL: u32 = 12;
pub const EXP_DIGIT: u32 = 13;
pub const BAD_HEX: u32 = 14;
pub const BAD_ESC: u32 = 15;
pub const UNCL_OBJ: u32 = 16;
pub const UNCL_ARR: u32 = 17;
pub const UNCL_STR: u32 = 18;
pub const EXP_STR: u32 = 19;
pub const EXP_NUM: u32 = 20;
pub const RECURSION: u32 = 21;
pub const ROOT: u32 = 22;
pub const TOO_LARGE: u32 = 23;
pub const DELEGATE: u32 = 24;
pub const OTHER: u32 = 25;
pub const UNEXPECTED: u32 = 0x100;

/// An error and where it may be reported: `lo..=off`. A malformed token has
/// one position; a token that does not fit is reported at its start or in the
/// whitespace right before it.
#[derive(Clone, Copy)]
pub struct SErr {
    pub kind: u32,
    pub lo: usize,
    pub off: usize,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum T {
    Null,
    True,
    False,
    Str,
    Num,
    LBrace,
    RBrace,
    LBrack,
    RBrack,
    Colon,
    Comma,
}

/// A token; `s..e` is its source text, quotes included.
#[derive(Clone, Copy)]
pub struct Tok {
    pub t: T,
    pub s: usize,
    pub e: usize,
    /// strings: length of the decoded text, and whether anything is escaped
    pub dec: usize,
    pub esc: bool,
}

#[inline(always)]
pub fn at(b: &[u8], i: usize) -> Option<u8> {
    if i < b.len() {
        Some(b[i])
    } else {
        None
    }
}
pub fn is_ws(c: u8) -> bool {
    (c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r')
}
pub fn skip_ws(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && is_ws(b[i]) {
        i += 1;
    }
    i
}
fn digit(c: u8) -> bool {
    (c >= b'0') & (c <= b'9')
}
fn hexdigit(c: u8) -> bool {
    digit(c) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'))
}
/// value of a hexadecimal digit
pub fn hexval(c: u8) -> u32 {
    ((c & 15) as u32) + ((c >> 6) as u32) * 9
}
fn cont(c: u8) -> bool {
    c & 0xC0 == 0x80
}
/// Length of the well-formed UTF-8 sequence at `i`, 0 if there is none
/// (RFC 3629, section 4).
pub fn utf8_seq(b: &[u8], i: usize) -> usize {
    let c = b[i];
    if c < 0x80 {
        return 1;
    }
    if c < 0xC2 {
        return 0;
    }
    let n = b.len();
    if c < 0xE0 {
        return if i + 1 < n && cont(b[i + 1]) { 2 } else { 0 };
    }
    if c < 0xF0 {
        if i + 2 >= n {
            return 0;
        }
        let d = b[i + 1];
        // no overlong forms, no surrogates
        let ok = cont(d) & !((c == 0xE0) & (d < 0xA0)) & !((c == 0xED) & (d >= 0xA0)) & cont(b[i + 2]);
        return if ok { 3 } else { 0 };
    }
    if c < 0xF5 {
        if i + 3 >= n {
            return 0;
        }
        let d = b[i + 1];
        let ok = cont(d)
            & !((c == 0xF0) & (d < 0x90))
            & !((c == 0xF4) & (d >= 0x90))
            & cont(b[i + 2])
            & cont(b[i + 3]);
        return if ok { 4 } else { 0 };
    }
    0
}
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let k = utf8_seq(b, i);
        if k == 0 {
            return false;
        }
        i += k;
    }
    true
}
/// Number of bytes of the UTF-8 form of a code point.
fn cp_len(c: u32) -> usize {
    if c < 0x80 {
        1
    } else if c < 0x800 {
        2
    } else if c < 0x10000 {
        3
    } else {
        4
    }
}
pub fn push_cp(out: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        out.push(c as u8);
    } else if c < 0x800 {
        out.push(0xC0 | (c >> 6) as u8);
        out.push(0x80 | (c & 63) as u8);
    } else if c < 0x10000 {
        out.push(0xE0 | (c >> 12) as u8);
        out.push(0x80 | ((c >> 6) & 63) as u8);
        out.push(0x80 | (c & 63) as u8);
    } else {
        out.push(0xF0 | (c >> 18) as u8);
        out.push(0x80 | ((c >> 12) & 63) as u8);
        out.push(0x80 | ((c >> 6) & 63) as u8);
        out.push(0x80 | (c & 63) as u8);
    }
}

fn err<X>(kind: u32, off: usize) -> Result<X, SErr> {
    Err(SErr { kind, lo: off, off })
}

/// Four hexadecimal digits starting at `i`.
fn hex4(b: &[u8], i: usize) -> Result<u32, SErr> {
    let mut v = 0u32;
    let mut k = 0;
    while k < 4 {
        match at(b, i + k) {
            None => return err(EOF, b.len()),
            Some(c) => {
                if !hexdigit(c) {
                    return err(BAD_HEX, i + k);
                }
                v = v * 16 + hexval(c);
            }
        }
        k += 1;
    }
    Ok(v)
}

/// A string token whose opening quote is at `s`.
fn lex_string(b: &[u8], s: usize) -> Result<Tok, SErr> {
    let mut i = s + 1;
    let mut dec = 0;
    let mut esc = false;
    loop {
        let c = match at(b, i) {
            None => return err(UNCL_STR, b.len()),
            Some(c) => c,
        };
        if c == b'"' {
            return Ok(Tok { t: T::Str, s, e: i + 1, dec, esc });
        }
        if c == b'\\' {
            esc = true;
            let d = match at(b, i + 1) {
                None => return err(EOF, b.len()),
                Some(d) => d,
            };
            if d == b'u' {
                let u = i + 1;
                let mut cp = hex4(b, u + 1)?;
                i += 6;
                if cp >= 0xD800 && cp <= 0xDFFF {
                    if cp >= 0xDC00 {
                        return err(UTF8, u);
                    }
                    match at(b, i) {
                        None => return err(EOF, b.len()),
                        Some(b'\\') => {}
                        Some(_) => return err(UTF8, u),
                    }
                    match at(b, i + 1) {
                        None => return err(EOF, b.len()),
                        Some(b'u') => {}
                        Some(_) => return err(UTF8, u),
                    }
                    let lo = hex4(b, i + 2)?;
                    if lo < 0xDC00 || lo > 0xDFFF {
                        return err(UTF8, u);
                    }
                    cp = 0x10000 + (cp - 0xD800) * 0x400 + (lo - 0xDC00);
                    i += 6;
                }
                dec += cp_len(cp);
            } else {
                let ok = (d == b'"')
                    | (d == b'\\')
                    | (d == b'/')
                    | (d == b'b')
                    | (d == b'f')
                    | (d == b'n')
                    | (d == b'r')
                    | (d == b't');
                if !ok {
                    return err(BAD_ESC, i + 1);
                }
                dec += 1;
                i += 2;
            }
            continue;
        }
        if c < 0x20 {
            return err(UNEXPECTED + c as u32, i);
        }
        if c < 0x80 {
            dec += 1;
            i += 1;
            continue;
        }
        // a run of non-ASCII bytes
        let mut e = i;
        while e < b.len() && b[e] >= 0x80 {
            e += 1;
        }
        let mut k = i;
        while k < e {
            let l = utf8_seq(&b[..e], k);
            if l == 0 {
                return err(UTF8, i);
            }
            k += l;
        }
        dec += e - i;
        i = e;
    }
}

fn lex_number(b: &[u8], s: usize) -> Result<Tok, SErr> {
    let mut i = s;
    if b[i] == b'-' {
        i += 1;
    }
    // one length at a time
    let mut i = crate::rt::conc(i);
    match at(b, i) {
        Some(b'0') => i += 1,
        Some(c) if digit(c) => {
            while i < b.len() && digit(b[i]) {
                i += 1;
            }
        }
        _ => return err(EXP_DIGIT, i),
    }
    if at(b, i) == Some(b'.') {
        i += 1;
        let d = i;
        while i < b.len() && digit(b[i]) {
            i += 1;
        }
        if i == d {
            return err(EXP_DECIMAL, i);
        }
    }
    if i < b.len() && (b[i] | 0x20) == b'e' {
        i += 1;
        if i < b.len() && ((b[i] == b'+') | (b[i] == b'-')) {
            i += 1;
        }
        i = crate::rt::conc(i);
        let d = i;
        while i < b.len() && digit(b[i]) {
            i += 1;
        }
        if i == d {
            return err(EXP_EXPONENT, i);
        }
    }
    Ok(Tok { t: T::Num, s, e: i, dec: 0, esc: false })
}

/// The token that starts at or after `i` (whitespace skipped); None at the end.
pub fn lex(b: &[u8], i: usize) -> Result<Option<Tok>, SErr> {
    let s = skip_ws(b, i);
    let c = match at(b, s) {
        None => return Ok(None),
        Some(c) => c,
    };
    let one = |t| Ok(Some(Tok { t, s, e: s + 1, dec: 0, esc: false }));
    match c {
        b'{' => return one(T::LBrace),
        b'}' => return one(T::RBrace),
        b'[' => return one(T::LBrack),
        b']' => return one(T::RBrack),
        b':' => return one(T::Colon),
        b',' => return one(T::Comma),
        b'"' => return lex_string(b, s).map(Some),
        _ => {}
    }
    if (c == b'-') | digit(c) {
        return lex_number(b, s).map(Some);
    }
    let (w, t): (&[u8], T) = match c {
        b't' => (b"true", T::True),
        b'f' => (b"false", T::False),
        b'n' => (b"null", T::Null),
        _ => return err(UNEXPECTED + c as u32, s),
    };
    let mut k = 1;
    while k < w.len() {
        match at(b, s + k) {
            None => return err(EOF, b.len()),
            Some(x) => {
                if x != w[k] {
                    return err(UNEXPECTED + x as u32, s + k);
                }
            }
        }
        k += 1;
    }
    Ok(Some(Tok { t, s, e: s + w.len(), dec: 0, esc: false }))
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Null,
    True,
    False,
    Num,
    Str,
    Key,
    Obj,
    Arr,
}
/// One node of the document in depth-first order.
#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    /// source text; strings without their quotes
    pub s: usize,
    pub e: usize,
    /// containers: members or elements
    pub len: usize,
    /// strings: decoded length, any escape
    pub dec: usize,
    pub esc: bool,
    /// nodes in the subtree, this one included
    pub size: usize,
}
impl Node {
    pub fn container(&self) -> bool {
        self.k == K::Obj || self.k == K::Arr
    }
}

pub struct Parse {
    /// the nodes seen before the parse ended, with or without an error
    pub nodes: Vec<Node>,
    pub err: Option<SErr>,
    pub depth: usize,
}

enum Want {
    Value,
    /// after `[`
    FirstElem,
    /// after a comma in an array
    Elem,
    /// after `{` or a comma in an object
    Key,
    Colon,
    /// after a member or element
    Next,
}

pub fn parse(b: &[u8], cfg: Cfg) -> Parse {
    let mut nodes: Vec<Node> = Vec::with_capacity(b.len() + 1);
    let mut depth = 0;
    let err = parse_into(b, cfg, &mut nodes, &mut depth);
    Parse { nodes, err, depth }
}

fn parse_into(b: &[u8], cfg: Cfg, nodes: &mut Vec<Node>, depth: &mut usize) -> Option<SErr> {
    // open containers, by node index
    let mut open: Vec<usize> = Vec::with_capacity(b.len() + 1);
    let mut pos = 0;
    let mut want = Want::Value;
    loop {
        let lo = pos;
        let tok = match lex(b, pos) {
            Ok(Some(t)) => Ok(t),
            Ok(None) => Err(SErr { kind: EOF, lo: b.len(), off: b.len() }),
            Err(e) => Err(e),
        };
        let tok = match tok {
            Ok(t) => t,
            Err(mut e) => {
                if let Want::Colon = want {
                    e.kind = EXP_COLON;
                } else if e.kind == EOF {
                    // the input ran out: the innermost open container says so
                    if let Some(&o) = open.last() {
                        e.kind = if nodes[o].k == K::Obj { UNCL_OBJ } else { UNCL_ARR };
                    }
                }
                return Some(e);
            }
        };
        pos = tok.e;
        macro_rules! fail {
            ($k:expr) => {
                return Some(SErr { kind: $k, lo, off: tok.s })
            };
        }
        let mut closed = false;
        match want {
            Want::Value | Want::FirstElem | Want::Elem => {
                let leaf = |k, s, e| Node { k, s, e, len: 0, dec: tok.dec, esc: tok.esc, size: 1 };
                match tok.t {
                    T::Null => nodes.push(leaf(K::Null, tok.s, tok.e)),
                    T::True => nodes.push(leaf(K::True, tok.s, tok.e)),
                    T::False => nodes.push(leaf(K::False, tok.s, tok.e)),
                    T::Num => nodes.push(leaf(K::Num, tok.s, tok.e)),
                    T::Str => nodes.push(leaf(K::Str, tok.s + 1, tok.e - 1)),
                    T::LBrace | T::LBrack => {
                        let obj = tok.t == T::LBrace;
                        if let Some(l) = cfg.limit {
                            if open.len() >= l {
                                fail!(RECURSION);
                            }
                        }
                        open.push(nodes.len());
                        if open.len() > *depth {
                            *depth = open.len();
                        }
                        nodes.push(leaf(if obj { K::Obj } else { K::Arr }, tok.s, tok.e));
                        want = if obj { Want::Key } else { Want::FirstElem };
                        continue;
                    }
                    T::RBrack => match want {
                        Want::FirstElem => closed = true,
                        Want::Elem => {
                            if !cfg.trailing {
                                fail!(TRAIL_COMMA);
                            }
                            closed = true;
                        }
                        _ => fail!(UNEXPECTED + b']' as u32),
                    },
                    T::RBrace => fail!(UNEXPECTED + b'}' as u32),
                    T::Colon => fail!(UNEXPECTED + b':' as u32),
                    T::Comma => fail!(UNEXPECTED + b',' as u32),
                }
            }
            Want::Key => match tok.t {
                T::RBrace => {
                    let o = open[open.len() - 1];
                    if nodes[o].len != 0 && !cfg.trailing {
                        fail!(TRAIL_COMMA);
                    }
                    closed = true;
                }
                T::Str => {
                    nodes.push(Node {
                        k: K::Key,
                        s: tok.s + 1,
                        e: tok.e - 1,
                        len: 0,
                        dec: tok.dec,
                        esc: tok.esc,
                        size: 1,
                    });
                    want = Want::Colon;
                    continue;
                }
                T::LBrack | T::LBrace | T::True | T::False | T::Null | T::Num => fail!(KEYS_STR),
                _ => fail!(EXP_KEY),
            },
            Want::Colon => {
                if tok.t != T::Colon {
                    fail!(EXP_COLON);
                }
                want = Want::Value;
                continue;
            }
            Want::Next => {
                let o = open[open.len() - 1];
                if nodes[o].k == K::Obj {
                    match tok.t {
                        T::RBrace => closed = true,
                        T::Comma => {
                            want = Want::Key;
                            continue;
                        }
                        _ => fail!(EXP_COMMA_OBJ),
                    }
                } else {
                    match tok.t {
                        T::RBrack => closed = true,
                        T::Comma => {
                            want = Want::Elem;
                            continue;
                        }
                        _ => fail!(EXP_COMMA_ARR),
                    }
                }
            }
        }
        if closed {
            let o = open.pop().unwrap();
            nodes[o].size = nodes.len() - o;
            nodes[o].e = tok.e;
        }
        // a value is complete
        match open.last() {
            Some(&o) => {
                nodes[o].len += 1;
                want = Want::Next;
            }
            None => {
                let k = nodes[0].k;
                if !cfg.all && k != K::Obj && k != K::Arr {
                    return Some(SErr { kind: ROOT, lo: 0, off: 0 });
                }
                let t = skip_ws(b, pos);
                if t < b.len() {
                    return Some(SErr { kind: TRAILING, lo: t, off: t });
                }
                return None;
            }
        }
    }
}

/// The text a well-formed string's contents denote, as UTF-8. `bq` is what the
/// escape `\b` stands for (8 in the standard).
pub fn decode(c: &[u8], bq: u8, out: &mut Vec<u8>) {
    let mut i = 0;
    while i < c.len() {
        if c[i] != b'\\' {
            out.push(c[i]);
            i += 1;
            continue;
        }
        let d = c[i + 1];
        if d == b'u' {
            let mut cp = h4(c, i + 2);
            i += 6;
            if cp >= 0xD800 && cp < 0xDC00 {
                cp = 0x10000 + (cp - 0xD800) * 0x400 + (h4(c, i + 2) - 0xDC00);
                i += 6;
            }
            push_cp(out, cp);
            continue;
        }
        out.push(match d {
            b'b' => bq,
            b'f' => 0x0C,
            b'n' => 0x0A,
            b'r' => 0x0D,
            b't' => 0x09,
            o => o,
        });
        i += 2;
    }
}
fn h4(c: &[u8], i: usize) -> u32 {
    (hexval(c[i]) << 12) | (hexval(c[i + 1]) << 8) | (hexval(c[i + 2]) << 4) | hexval(c[i + 3])
}
pub fn decoded(c: &[u8], bq: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(c.len());
    decode(c, bq, &mut v);
    v
}
/// Does the escape `\b` occur in the contents of a well-formed string?
pub fn has_b(c: &[u8]) -> bool {
    let mut i = 0;
    while i < c.len() {
        if c[i] == b'\\' {
            if c[i + 1] == b'b' {
                return true;
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    false
}
/// Could these bytes be the contents of a JSON string literal?
pub fn contents_ok(c: &[u8]) -> Option<Tok> {
    let mut v = Vec::with_capacity(c.len() + 2);
    v.push(b'"');
    v.extend_from_slice(c);
    v.push(b'"');
    match lex_string(&v, 0) {
        Ok(t) if t.e == v.len() => Some(t),
        _ => None,
    }
}
