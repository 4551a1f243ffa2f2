//! C17 tokens, C18 callbacks.
use crate::gen;
use crate::rt::*;
use crate::spec::{self, K, T};
use crate::view::*;
use justjson::parser::{JsonKind, ParseDelegate, Parser, PeekableTokenKind as P, Token, Tokenizer};
use justjson::{Error, ErrorKind, JsonNumber, JsonString};

fn token_is(t: &Token<'_>, w: &spec::Tok, b: &[u8]) -> bool {
    match (t, w.t) {
        (Token::Null, T::Null)
        | (Token::Bool(true), T::True)
        | (Token::Bool(false), T::False)
        | (Token::Object, T::LBrace)
        | (Token::ObjectEnd, T::RBrace)
        | (Token::Array, T::LBrack)
        | (Token::ArrayEnd, T::RBrack)
        | (Token::Colon, T::Colon)
        | (Token::Comma, T::Comma) => true,
        (Token::Number(n), T::Num) => same(n.source().as_bytes(), &b[w.s..w.e]),
        (Token::String(s), T::Str) => match s.as_json_str() {
            Some(t) => {
                same(t.as_str().as_bytes(), &b[w.s + 1..w.e - 1])
                    && s.decoded_len() == w.dec
                    && s.as_str().is_none() == w.esc
            }
            None => false,
        },
        _ => false,
    }
}
fn kind_is(p: P, t: T) -> bool {
    matches!(
        (p, t),
        (P::Null, T::Null)
            | (P::True, T::True)
            | (P::False, T::False)
            | (P::String, T::Str)
            | (P::Number, T::Num)
            | (P::Object, T::LBrace)
            | (P::ObjectEnd, T::RBrace)
            | (P::Array, T::LBrack)
            | (P::ArrayEnd, T::RBrack)
            | (P::Colon, T::Colon)
            | (P::Comma, T::Comma)
    )
}
fn run<const G: bool>(mut tk: Tokenizer<'_, G>, b: &[u8], mode: u32) {
    let mut pos = 0;
    let mut n = 0;
    check!(tk.offset() == 0);
    loop {
        let w = spec::lex(b, pos);
        let start = spec::skip_ws(b, pos);
        // looking ahead any number of times
        let looks = match mode {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => n % 2,
            _ => choice(2),
        };
        for _ in 0..looks {
            let k = tk.peek();
            check!(k.is_none() == (start == b.len()));
            if let (Some(k), Ok(Some(t))) = (k, &w) {
                check!(kind_is(k, t.t));
                cover(3);
            }
            check!(tk.offset() >= pos && tk.offset() <= start);
        }
        let or_eof = mode == 2 || mode == 3 && n % 3 == 1;
        let got = if or_eof { Some(tk.next_or_eof()) } else { tk.next() };
        match (got, w) {
            (None, Ok(None)) => {
                cover(1);
                check!(!or_eof);
                check!(tk.next().is_none() && tk.peek().is_none());
                check!(tk.offset() == b.len());
                break;
            }
            (Some(Err(e)), Ok(None)) => {
                check!(or_eof);
                check!(ekind(e.kind()) == spec::EOF && e.offset() == b.len());
                check!(tk.next().is_none() && tk.peek().is_none());
                break;
            }
            (Some(Ok(t)), Ok(Some(w))) => {
                check!(token_is(&t, &w, b));
                check!(tk.offset() == w.e);
                pos = w.e;
            }
            (Some(Err(e)), Err(w)) => {
                cover(2);
                check!(same_err(&e, &w));
                // it goes on, and ends
                let mut at = tk.offset();
                check!(at > pos && at <= b.len());
                while let Some(_) = tk.next() {
                    check!(tk.offset() > at && tk.offset() <= b.len());
                    at = tk.offset();
                }
                check!(tk.next().is_none());
                break;
            }
            _ => check!(false),
        }
        n += 1;
    }
    observe(n as u64);
}
/// p4: how to look ahead (0 never, 1 once, 2 twice, 3 in turn, 4 free); p5: 1 = as text
pub fn c17_tokens() {
    let b = gen::input(0);
    if param(5) == 1 {
        run(Tokenizer::for_json(gen::text(&b)), &b, param(4) as u32)
    } else {
        run(Tokenizer::for_json_bytes(&b), &b, param(4) as u32)
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Cb {
    Null,
    Bool(bool),
    Num,
    Str,
    BeginObj,
    Key,
    Member,
    EndObj,
    BeginArr,
    Elem,
    EndArr,
}
/// One callback: what, on which container, with which key or value, and the
/// text it carried.
#[derive(Clone, Copy)]
struct Ev {
    cb: Cb,
    on: usize,
    key: usize,
    val: usize,
    s: usize,
    n: usize,
}
const NO: usize = usize::MAX;

/// Records callbacks; the one numbered `fault` returns an error. What a
/// callback returns is the number of the callback.
struct Recorder<'l> {
    log: &'l mut Vec<Ev>,
    fault: usize,
}
struct Val {
    id: usize,
    kind: JsonKind,
}
struct Held {
    id: usize,
    count: usize,
}
impl Recorder<'_> {
    fn ev(&mut self, cb: Cb, on: usize, key: usize, val: usize, t: &[u8]) -> Result<usize, u64> {
        let id = self.log.len();
        // nothing happens after the failure
        check!(id <= self.fault);
        self.log.push(Ev { cb, on, key, val, s: t.as_ptr() as usize, n: t.len() });
        if id == self.fault {
            return Err(7700 + id as u64);
        }
        Ok(id)
    }
}
impl<'a> ParseDelegate<'a> for Recorder<'_> {
    type Value = Val;
    type Object = Held;
    type Array = Held;
    type Key = usize;
    type Error = u64;
    fn null(&mut self) -> Result<Val, u64> {
        Ok(Val { id: self.ev(Cb::Null, NO, NO, NO, b"")?, kind: JsonKind::Null })
    }
    fn boolean(&mut self, v: bool) -> Result<Val, u64> {
        Ok(Val { id: self.ev(Cb::Bool(v), NO, NO, NO, b"")?, kind: JsonKind::Boolean })
    }
    fn number(&mut self, v: JsonNumber<'a>) -> Result<Val, u64> {
        Ok(Val { id: self.ev(Cb::Num, NO, NO, NO, text_of(v.source()))?, kind: JsonKind::Number })
    }
    fn string(&mut self, v: JsonString<'a>) -> Result<Val, u64> {
        Ok(Val { id: self.ev(Cb::Str, NO, NO, NO, json_of(&v))?, kind: JsonKind::String })
    }
    fn begin_object(&mut self) -> Result<Held, u64> {
        Ok(Held { id: self.ev(Cb::BeginObj, NO, NO, NO, b"")?, count: 0 })
    }
    fn object_key(&mut self, o: &mut Held, k: JsonString<'a>) -> Result<usize, u64> {
        self.ev(Cb::Key, o.id, NO, NO, json_of(&k))
    }
    fn object_value(&mut self, o: &mut Held, k: usize, v: Val) -> Result<(), u64> {
        o.count += 1;
        self.ev(Cb::Member, o.id, k, v.id, b"").map(|_| ())
    }
    fn object_is_empty(&self, o: &Held) -> bool {
        o.count == 0
    }
    fn end_object(&mut self, o: Held) -> Result<Val, u64> {
        Ok(Val { id: self.ev(Cb::EndObj, o.id, NO, NO, b"")?, kind: JsonKind::Object })
    }
    fn begin_array(&mut self) -> Result<Held, u64> {
        Ok(Held { id: self.ev(Cb::BeginArr, NO, NO, NO, b"")?, count: 0 })
    }
    fn array_value(&mut self, a: &mut Held, v: Val) -> Result<(), u64> {
        a.count += 1;
        self.ev(Cb::Elem, a.id, NO, v.id, b"").map(|_| ())
    }
    fn array_is_empty(&self, a: &Held) -> bool {
        a.count == 0
    }
    fn end_array(&mut self, a: Held) -> Result<Val, u64> {
        Ok(Val { id: self.ev(Cb::EndArr, a.id, NO, NO, b"")?, kind: JsonKind::Array })
    }
    fn kind_of(&self, v: &Val) -> JsonKind {
        v.kind
    }
}
// the input outlives the parse
fn text_of(s: &str) -> &'static [u8] {
    unsafe { core::slice::from_raw_parts(s.as_ptr(), s.len()) }
}
fn json_of(s: &JsonString<'_>) -> &'static [u8] {
    match s.as_json_str() {
        Some(t) => text_of(t.as_str()),
        None => {
            check!(false);
            b""
        }
    }
}

/// The callbacks the document prescribes. Containers which were not closed are
/// not ended, and what follows them in the input never happened.
struct Plan<'n> {
    nodes: &'n [spec::Node],
    at: usize,
    log: Vec<Ev>,
}
impl Plan<'_> {
    fn ev(&mut self, cb: Cb, on: usize, key: usize, val: usize, s: usize, n: usize) -> usize {
        self.log.push(Ev { cb, on, key, val, s, n });
        self.log.len() - 1
    }
    /// None when the input ended inside this value
    fn value(&mut self) -> Option<usize> {
        if self.at >= self.nodes.len() {
            return None;
        }
        let n = self.nodes[self.at];
        self.at += 1;
        Some(match n.k {
            K::Null => self.ev(Cb::Null, NO, NO, NO, 0, 0),
            K::True => self.ev(Cb::Bool(true), NO, NO, NO, 0, 0),
            K::False => self.ev(Cb::Bool(false), NO, NO, NO, 0, 0),
            K::Num => self.ev(Cb::Num, NO, NO, NO, n.s, n.e - n.s),
            K::Str | K::Key => self.ev(Cb::Str, NO, NO, NO, n.s, n.e - n.s),
            K::Arr => {
                let on = self.ev(Cb::BeginArr, NO, NO, NO, 0, 0);
                for _ in 0..n.len {
                    let v = self.value()?;
                    self.ev(Cb::Elem, on, NO, v, 0, 0);
                }
                if n.e == n.s + 1 {
                    // still open: at most one unfinished element is left
                    self.value();
                    return None;
                }
                self.ev(Cb::EndArr, on, NO, NO, 0, 0)
            }
            K::Obj => {
                let on = self.ev(Cb::BeginObj, NO, NO, NO, 0, 0);
                for _ in 0..n.len {
                    let k = self.key(on)?;
                    let v = self.value()?;
                    self.ev(Cb::Member, on, k, v, 0, 0);
                }
                if n.e == n.s + 1 {
                    self.key(on)?;
                    self.value();
                    return None;
                }
                self.ev(Cb::EndObj, on, NO, NO, 0, 0)
            }
        })
    }
    fn key(&mut self, on: usize) -> Option<usize> {
        if self.at >= self.nodes.len() {
            return None;
        }
        let n = self.nodes[self.at];
        self.at += 1;
        Some(self.ev(Cb::Key, on, NO, NO, n.s, n.e - n.s))
    }
}
fn same_ev(a: &Ev, w: &Ev, b: &[u8]) -> bool {
    if a.cb != w.cb || a.on != w.on || a.key != w.key || a.val != w.val || a.n != w.n {
        return false;
    }
    a.n == 0 || same(unsafe { core::slice::from_raw_parts(a.s as *const u8, a.n) }, &b[w.s..w.s + w.n])
}
/// p4: config mode; p5: 1 = as text; p6: 1 = one callback fails; p7: 1 = the
/// entry points which take no configuration
pub fn c18_delegate() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let w = spec::parse(&b, c);
    let mut plan = Plan { nodes: &w.nodes, at: 0, log: Vec::with_capacity(64) };
    let root = plan.value();
    let plan = plan.log;
    let fault = if param(6) == 1 && !plan.is_empty() { choice(plan.len() as u32) as usize } else { NO };
    let mut log = Vec::with_capacity(64);
    let d = Recorder { log: &mut log, fault };
    let r: Result<Val, Error<u64>> = if param(7) == 1 {
        if param(5) == 1 {
            Parser::parse_json(gen::text(&b), d)
        } else {
            Parser::parse_json_bytes(&b, d)
        }
    } else if param(5) == 1 {
        Parser::parse_json_with_config(gen::text(&b), k, d)
    } else {
        Parser::parse_json_bytes_with_config(&b, k, d)
    };
    observe(log.len() as u64);
    let end = if fault == NO { plan.len() } else { fault + 1 };
    check!(log.len() == end);
    for i in 0..end {
        check!(same_ev(&log[i], &plan[i], &b));
    }
    if fault != NO {
        cover(3);
        match r {
            Err(e) => match e.kind() {
                ErrorKind::ErrorFromDelegate(x) => check!(*x == 7700 + fault as u64),
                _ => check!(false),
            },
            Ok(_) => check!(false),
        }
        return;
    }
    match (&r, &w.err) {
        (Ok(v), None) => {
            cover(1);
            // the parse hands back what the last callback returned
            check!(Some(v.id) == root);
        }
        (Err(_), Some(_)) => {
            cover(2);
            check!(agrees(&r, &w.err));
        }
        _ => check!(false),
    }
}
