//! Reader for textual LLVM IR: indexes a module and decodes functions lazily
//! into a register machine whose registers are scalars (aggregates and vectors
//! are flattened into consecutive registers).
use crate::expr::{mask64, Map, Op, Val};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Other,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (t.size() * *n as u64).next_power_of_two(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(v, p) => {
                let mut o = 0;
                for t in v.iter() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *p {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (*n as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(v, p) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(v, _) => v[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn scalar_w(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("scalar width of {:?}", self),
        }
    }
    /// (width, byte offset) of every scalar
    pub fn flat(&self) -> Vec<(u32, u64)> {
        let mut v = vec![];
        self.flat_into(0, &mut v);
        v
    }
    fn flat_into(&self, o: u64, v: &mut Vec<(u32, u64)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.flat_into(o + self.field_off(i), v);
                }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.flat_into(o + i * t.size(), v);
                }
            }
            Ty::Vec(n, t) => {
                for i in 0..*n as u64 {
                    t.flat_into(o + i * t.size(), v);
                }
            }
            t => v.push((t.scalar_w(), o)),
        }
    }
    pub fn nflat(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Struct(f, _) => f.iter().map(|t| t.nflat()).sum(),
            Ty::Arr(n, t) => *n as usize * t.nflat(),
            Ty::Vec(n, t) => *n as usize * t.nflat(),
            _ => 1,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
    /// 128-bit constant (index in the function's table)
    Big(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Assume,
    Fshl,
    Fshr,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ctpop,
    Cttz,
    Ctlz,
    Ucmp,
    Scmp,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    Bswap,
    Bitrev,
    IsConst,
    TlsAddr,
    Trap,
    Expect,
    Fabs,
    Copysign,
    FptouiSat,
    FptosiSat,
    Fround(u32),
    IsFpclass,
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Intr(Intr, u32),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub d: u32,
    pub nret: u32,
    pub callee: Callee,
    pub args: Vec<Opd>,
    /// widths of the flattened arguments
    pub aw: Vec<u32>,
    pub rw: u32,
    /// edge to take afterwards (invoke)
    pub next: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, w: u32, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    Zext { fw: u32, w: u32, d: u32, a: Opd },
    Sext { fw: u32, w: u32, d: u32, a: Opd },
    Trunc { fw: u32, w: u32, d: u32, a: Opd },
    Mov { d: u32, a: Opd },
    Select { w: u32, d: u32, c: Opd, a: Opd, b: Opd },
    Gep { d: u32, base: Opd, off: u64, terms: Box<[(Opd, u64, u32)]> },
    Load { d: u32, w: u32, p: Opd, off: u64 },
    Store { w: u32, p: Opd, off: u64, v: Opd },
    Alloca { d: u32, size: u64 },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, cases: Box<[(u64, u32)]>, def: u32 },
    Call(Box<CallI>),
    Ret(Box<[Opd]>),
    Unreachable,
    /// pack `n` scalars of width `ew` (little endian) into one integer
    Pack { d: u32, ew: u32, src: Box<[Opd]> },
    Unpack { d: u32, ew: u32, n: u32, a: Opd, w: u32 },
    Rmw { d: u32, w: u32, op: u8, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u32, p: Opd, c: Opd, n: Opd },
    Float { d: u32, code: u32, w: u32, aw: u32, a: Opd, b: Option<Opd> },
    Bad(Box<str>),
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32,
    pub copies: Box<[(u32, Opd)]>,
    pub overlap: bool,
}

#[derive(Debug)]
pub struct Func {
    pub idx: u32,
    pub nregs: u32,
    pub nargs: u32,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub bigs: Vec<u128>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Special {
    None,
    SymBytes,
    SymChoice,
    SymAssume,
    SymFail,
    SymKnown,
    SymObserve,
    SymCover,
    SymDone,
    SymExpectPanic,
    SymAllocs,
    SymSteps,
    SymParam,
    SymConc,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    NoAllocShim,
    Bcmp,
    Strlen,
    Panic,
    /// ends the process
    Abort,
}

pub struct FnInfo {
    pub name: String,
    pub pretty: String,
    pub body: Option<(usize, usize)>,
    pub special: Special,
    pub code: RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: String,
    pub ro: bool,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
}

pub struct Module {
    pub text: Vec<u8>,
    pub fns: Vec<FnInfo>,
    pub fidx: Map<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: Map<String, u32>,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0x2000_0000;
pub const HEAP_BASE: u64 = 0x1000_0000;
pub fn gaddr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}
pub fn faddr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}

struct P<'a> {
    m: &'a Module,
    s: &'a [u8],
    i: usize,
    bigs: Vec<u128>,
}

fn isw(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
        if self.i < self.s.len() && self.s[self.i] == b';' {
            while self.i < self.s.len() && self.s[self.i] != b'\n' {
                self.i += 1;
            }
            self.ws();
        } else if self.s.get(self.i..).is_some_and(|r| r.starts_with(b"/*")) {
            self.i += 2;
            while self.i < self.s.len() && !self.s[..self.i].ends_with(b"*/") {
                self.i += 1;
            }
            self.ws();
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c as char, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 60).min(self.s.len());
        format!(
            "{}<HERE>{}",
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i.min(b)..b])
        )
    }
    fn word(&mut self) -> &'a [u8] {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && isw(self.s[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let st = self.i;
        if self.word() == w.as_bytes() {
            true
        } else {
            self.i = st;
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && isw(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let c = self.peek();
        match c {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty());
                        if self.eat(b'}') {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                Some(Ty::Struct(Rc::new(v), false))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut v = vec![];
                    if !self.eat(b'}') {
                        loop {
                            v.push(self.ty());
                            if self.eat(b'}') {
                                break;
                            }
                            self.expect(b',');
                        }
                    }
                    self.expect(b'>');
                    return Some(Ty::Struct(Rc::new(v), true));
                }
                let n: u32 = std::str::from_utf8(self.word()).unwrap().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b'>');
                Some(Ty::Vec(n, Rc::new(t)))
            }
            b'[' => {
                self.i += 1;
                let n: u64 = std::str::from_utf8(self.word()).unwrap().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Some(Ty::Arr(n, Rc::new(t)))
            }
            _ => {
                let st = self.i;
                let w = self.word();
                let r = match w {
                    b"void" => Some(Ty::Void),
                    b"ptr" => Some(Ty::Ptr),
                    b"float" => Some(Ty::F32),
                    b"double" => Some(Ty::F64),
                    b"label" | b"metadata" | b"token" | b"half" | b"fp128" | b"x86_fp80" => Some(Ty::Other),
                    _ if w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) => {
                        Some(Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap()))
                    }
                    _ => None,
                };
                if r.is_none() {
                    self.i = st;
                }
                r
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => panic!("type expected at {}", self.ctx()),
        }
    }
    /// skip attribute words until a type
    fn attrs_then_ty(&mut self) -> Ty {
        loop {
            if let Some(t) = self.try_ty() {
                return t;
            }
            self.attr();
        }
    }
    fn attr(&mut self) {
        let c = self.peek();
        if c == b'#' {
            self.i += 1;
            self.word();
            return;
        }
        if c == b'"' {
            self.i += 1;
            self.name_tail();
            if self.i < self.s.len() && self.s[self.i] == b'=' {
                self.i += 2;
                self.name_tail();
            }
            return;
        }
        let w = self.word();
        if w.is_empty() {
            panic!("attr at {}", self.ctx());
        }
        if self.i < self.s.len() && self.s[self.i] == b'(' {
            self.parens();
        } else if w == b"align" {
            self.word();
        }
    }
    fn name_tail(&mut self) {
        while self.s[self.i] != b'"' {
            self.i += 1;
        }
        self.i += 1;
    }
    /// skip parameter attributes
    fn param_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.attr();
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            match w {
                b"noundef" | b"nonnull" | b"noalias" | b"nofree" | b"readonly" | b"writeonly" | b"readnone"
                | b"zeroext" | b"signext" | b"inreg" | b"nocapture" | b"returned" | b"immarg" | b"dead_on_return"
                | b"dead_on_unwind" | b"writable" | b"allocalign" | b"allocptr" | b"nest" | b"noext" | b"swiftself" => {
                    self.word();
                    if self.s.get(self.i) == Some(&b'(') {
                        self.parens();
                    }
                }
                b"align" => {
                    self.word();
                    if self.s.get(self.i) == Some(&b'(') {
                        self.parens();
                    } else {
                        self.word();
                    }
                }
                _ => {
                    let st = self.i;
                    self.word();
                    if self.s.get(self.i) == Some(&b'(') {
                        // attribute with arguments, unless it is a constant expression
                        if matches!(
                            w,
                            b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"sub" | b"add" | b"trunc" | b"splat" | b"xor"
                        ) {
                            self.i = st;
                            return;
                        }
                        self.parens();
                    } else {
                        self.i = st;
                        return;
                    }
                }
            }
        }
    }
    fn int_lit(&mut self, w: &[u8]) -> Option<u128> {
        let s = std::str::from_utf8(w).ok()?;
        if let Some(x) = s.strip_prefix('-') {
            return x.parse::<u128>().ok().map(|v| v.wrapping_neg());
        }
        s.parse::<u128>().ok()
    }
    fn kval(&mut self, w: u32, v: u128) -> Opd {
        if w <= 64 {
            Opd::K(Val::C(v as u64 & mask64(w)))
        } else {
            self.bigs.push(v & crate::expr::mask(w));
            Opd::Big(self.bigs.len() as u32 - 1)
        }
    }
    /// constant as integer (addresses included)
    fn kint(o: &Opd, bigs: &[u128]) -> u128 {
        match o {
            Opd::K(Val::C(v)) => *v as u128,
            Opd::Big(i) => bigs[*i as usize],
            _ => panic!("constant expected"),
        }
    }
    fn symbol_addr(&mut self) -> u64 {
        // at '@'
        self.expect(b'@');
        let n = self.name();
        if let Some(&g) = self.m.gidx.get(&n) {
            return gaddr(g);
        }
        if let Some(&f) = self.m.fidx.get(&n) {
            return faddr(f);
        }
        panic!("unknown symbol {}", n);
    }
    fn value(&mut self, ty: &Ty, slots: &mut dyn FnMut(String, usize) -> u32) -> Vec<Opd> {
        let c = self.peek();
        match c {
            b'%' => {
                self.i += 1;
                let n = self.name();
                let k = ty.nflat();
                let b = slots(n, k);
                return (0..k as u32).map(|i| Opd::R(b + i)).collect();
            }
            b'@' => {
                let a = self.symbol_addr();
                return vec![Opd::K(Val::C(a))];
            }
            b'{' | b'[' | b'<' => {
                // aggregate constant; may be packed "<{"
                let mut close = vec![];
                self.i += 1;
                if c == b'<' && self.peek() == b'{' {
                    self.i += 1;
                    close.push(b'>');
                    close.push(b'}');
                } else {
                    close.push(match c {
                        b'{' => b'}',
                        b'[' => b']',
                        _ => b'>',
                    });
                }
                let mut v = vec![];
                let last = *close.last().unwrap();
                if !self.eat(last) {
                    loop {
                        let t = self.ty();
                        v.extend(self.value(&t, slots));
                        if self.eat(last) {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                if close.len() == 2 {
                    self.expect(b'>');
                }
                return v;
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                        v.push(Opd::K(Val::C(b'\\' as u64)));
                        self.i += 2;
                    } else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(Opd::K(Val::C(u64::from_str_radix(h, 16).unwrap())));
                        self.i += 3;
                    } else {
                        v.push(Opd::K(Val::C(self.s[self.i] as u64)));
                        self.i += 1;
                    }
                }
                self.i += 1;
                return v;
            }
            _ => {}
        }
        let w = self.word();
        match w {
            b"null" => return vec![Opd::K(Val::C(0))],
            b"true" => return vec![Opd::K(Val::C(1))],
            b"false" => return vec![Opd::K(Val::C(0))],
            b"undef" | b"poison" | b"zeroinitializer" => {
                let f = ty.flat();
                return f.iter().map(|(w, _)| self.kval(*w, 0)).collect();
            }
            b"splat" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.value(&t, slots);
                self.expect(b')');
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => panic!("splat"),
                };
                return (0..n).map(|_| v[0]).collect();
            }
            b"getelementptr" => {
                while self.peek() != b'(' {
                    self.attr_word();
                }
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.value(&pt, slots);
                let mut addr = Self::kint(&base[0], &self.bigs) as u64;
                let mut cur = t.clone();
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let v = self.value(&it, slots);
                    let x = Self::kint(&v[0], &self.bigs) as u64;
                    let x = crate::expr::sx(x as u128, it.scalar_w()) as i64;
                    if first {
                        addr = addr.wrapping_add((x as u64).wrapping_mul(t.size()));
                        first = false;
                    } else {
                        addr = addr.wrapping_add(cur.field_off(x as usize));
                        cur = cur.elem(x as usize);
                    }
                }
                self.expect(b')');
                return vec![Opd::K(Val::C(addr))];
            }
            b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"ptrtoaddr" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.value(&t, slots);
                assert!(self.eat_word("to"));
                let t2 = self.ty();
                self.expect(b')');
                let x = Self::kint(&v[0], &self.bigs);
                return vec![self.kval(t2.scalar_w(), x)];
            }
            b"add" | b"sub" | b"xor" | b"and" | b"mul" => {
                while self.peek() != b'(' {
                    self.attr_word();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.value(&t, slots);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.value(&t2, slots);
                self.expect(b')');
                let (x, y) = (Self::kint(&a[0], &self.bigs), Self::kint(&b[0], &self.bigs));
                let r = match w {
                    b"add" => x.wrapping_add(y),
                    b"sub" => x.wrapping_sub(y),
                    b"mul" => x.wrapping_mul(y),
                    b"and" => x & y,
                    _ => x ^ y,
                };
                return vec![self.kval(t.scalar_w(), r)];
            }
            _ => {}
        }
        if let Some(x) = self.int_lit(w) {
            return vec![self.kval(ty.scalar_w(), x)];
        }
        // float literals: hex or decimal
        let s = std::str::from_utf8(w).unwrap_or("?").to_string();
        let mut full = s.clone();
        if self.s.get(self.i) == Some(&b'+') {
            self.i += 1;
            full.push('+');
            full += std::str::from_utf8(self.word()).unwrap();
        }
        let bits = if full.ends_with("qnan") {
            Some(if full.starts_with('-') { 0xfff8_0000_0000_0000 } else { 0x7ff8_0000_0000_0000 })
        } else if let Some(h) = full.strip_prefix("0x") {
            u64::from_str_radix(h, 16).ok()
        } else {
            full.parse::<f64>().ok().map(|f| f.to_bits())
        };
        if let Some(b) = bits {
            let v = match ty {
                Ty::F32 => (f64::from_bits(b) as f32).to_bits() as u64,
                _ => b,
            };
            return vec![Opd::K(Val::C(v))];
        }
        panic!("value {:?} at {}", s, self.ctx());
    }
    fn attr_word(&mut self) {
        let w = self.word();
        if w == b"inrange" {
            self.parens();
        }
        if w.is_empty() {
            panic!("attr word at {}", self.ctx());
        }
    }
    fn tval(&mut self, slots: &mut dyn FnMut(String, usize) -> u32) -> (Ty, Vec<Opd>) {
        let t = self.ty();
        let v = self.value(&t, slots);
        (t, v)
    }
}

fn special_of(n: &str) -> Special {
    use Special::*;
    match n {
        "sym_bytes" => return SymBytes,
        "sym_choice" => return SymChoice,
        "sym_assume" => return SymAssume,
        "sym_fail" => return SymFail,
        "sym_known" => return SymKnown,
        "sym_observe" => return SymObserve,
        "sym_cover" => return SymCover,
        "sym_done" => return SymDone,
        "sym_expect_panic" => return SymExpectPanic,
        "sym_allocs" => return SymAllocs,
        "sym_steps" => return SymSteps,
        "sym_param" => return SymParam,
        "sym_concretize" => return SymConc,
        "bcmp" | "memcmp" => return Bcmp,
        "strlen" => return Strlen,
        _ => {}
    }
    if n.ends_with("___rust_alloc") {
        return Alloc;
    }
    if n.ends_with("___rust_alloc_zeroed") {
        return AllocZeroed;
    }
    if n.ends_with("___rust_dealloc") {
        return Dealloc;
    }
    if n.ends_with("___rust_realloc") {
        return Realloc;
    }
    if n.contains("___rust_no_alloc_shim_is_unstable") {
        return NoAllocShim;
    }
    if n.contains("9panicking14panic_nounwind")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("9panicking26panic_nounwind_nobacktrace")
        || n.contains("9panicking19panic_cannot_unwind")
        || n.contains("9panicking16panic_in_cleanup")
        || n.contains("7process5abort")
        || n == "abort"
    {
        return Abort;
    }
    if n.contains("9panicking9panic_fmt")
        || n.contains("9panicking11begin_panic")
        || n.contains("18handle_alloc_error")
        || n.contains("9panicking18panic_bounds_check")
        || n.contains("9panicking5panic")
        || n.contains("6option13expect_failed")
        || n.contains("6result13unwrap_failed")
    {
        return Panic;
    }
    None
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("cannot read the IR file");
        let mut m = Module {
            text: vec![],
            fns: vec![],
            fidx: Map::default(),
            globals: vec![],
            gidx: Map::default(),
        };
        let mut i = 0;
        let mut comment: Option<(usize, usize)> = None;
        let n = text.len();
        let mut graw: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        while i < n {
            let e = text[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"; ") {
                comment = Some((i + 2, e));
            } else if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let mut j = at + 1;
                let name = if line[j] == b'"' {
                    j += 1;
                    let st = j;
                    while line[j] != b'"' {
                        j += 1;
                    }
                    &line[st..j]
                } else {
                    let st = j;
                    while isw(line[j]) {
                        j += 1;
                    }
                    &line[st..j]
                };
                let name = String::from_utf8_lossy(name).to_string();
                let mut end = e;
                let mut body = None;
                if line.starts_with(b"define ") {
                    // body runs to a line "}"
                    let mut k = e + 1;
                    loop {
                        let e2 = text[k..].iter().position(|c| *c == b'\n').map(|p| k + p).unwrap();
                        if e2 == k + 1 && text[k] == b'}' {
                            end = e2;
                            break;
                        }
                        k = e2 + 1;
                    }
                    body = Some((i, end));
                }
                let pretty = match comment {
                    Some((a, b)) if body.is_some() => {
                        let s = String::from_utf8_lossy(&text[a..b]).to_string();
                        if s.starts_with("Function Attrs") {
                            name.clone()
                        } else {
                            s
                        }
                    }
                    _ => name.clone(),
                };
                let sp = special_of(&name);
                let idx = m.fns.len() as u32;
                m.fidx.insert(name.clone(), idx);
                m.fns.push(FnInfo { name, pretty, body, special: sp, code: RefCell::new(None) });
                comment = None;
                i = end + 1;
                continue;
            } else if line.starts_with(b"@") {
                let mut j = 1;
                let name = if line[j] == b'"' {
                    j += 1;
                    let st = j;
                    while line[j] != b'"' {
                        j += 1;
                    }
                    let r = &line[st..j];
                    j += 1;
                    r
                } else {
                    let st = j;
                    while isw(line[j]) {
                        j += 1;
                    }
                    &line[st..j]
                };
                let nm = String::from_utf8_lossy(name).to_string();
                if line.windows(7).any(|w| w == b" alias ") && !line.windows(8).any(|w| w == b" global " ) {
                    aliases.push((nm, i + j, e));
                } else {
                    m.gidx.insert(nm.clone(), graw.len() as u32);
                    graw.push((nm, i + j, e));
                }
            } else if line.is_empty() {
            } else {
                if !line.starts_with(b";") {
                    comment = None;
                }
            }
            i = e + 1;
        }
        m.text = text;
        for (nm, a, b) in graw {
            let mut p = P { m: &m, s: &m.text[a..b], i: 0, bigs: vec![] };
            p.expect(b'=');
            let ro;
            let ext = {
                let mut ext = false;
                loop {
                    let w = p.word();
                    if w == b"global" {
                        ro = false;
                        break;
                    }
                    if w == b"constant" {
                        ro = true;
                        break;
                    }
                    if w == b"external" || w == b"extern_weak" {
                        ext = true;
                    }
                    if p.s.get(p.i) == Some(&b'(') {
                        p.parens();
                    }
                    assert!(!w.is_empty(), "global {}", p.ctx());
                }
                ext
            };
            let ty = p.ty();
            let init = if ext { None } else { Some((a + p.i, b)) };
            let g = Global { name: nm, ro, ty, init };
            m.globals.push(g);
        }
        for (nm, a, b) in aliases {
            // alias to a function or global
            let s = &m.text[a..b];
            if let Some(at) = s.iter().rposition(|c| *c == b'@') {
                let mut p = P { m: &m, s, i: at + 1, bigs: vec![] };
                let t = p.name();
                if let Some(&f) = m.fidx.get(&t) {
                    m.fidx.insert(nm, f);
                } else if let Some(&g) = m.gidx.get(&t) {
                    m.gidx.insert(nm, g);
                }
            }
        }
        m
    }
    /// Initial bytes of a global.
    pub fn global_bytes(&self, g: u32) -> Vec<u8> {
        let gl = &self.globals[g as usize];
        let mut out = vec![0u8; gl.ty.size() as usize];
        if let Some((a, b)) = gl.init {
            let mut p = P { m: self, s: &self.text[a..b], i: 0, bigs: vec![] };
            let v = p.value(&gl.ty, &mut |_, _| panic!("register in a global"));
            let fl = gl.ty.flat();
            assert_eq!(v.len(), fl.len(), "global {}", gl.name);
            for (o, (w, off)) in v.iter().zip(fl) {
                let x = P::kint(o, &p.bigs);
                let nb = (w as usize + 7) / 8;
                for k in 0..nb {
                    out[off as usize + k] = (x >> (8 * k)) as u8;
                }
            }
        }
        out
    }

    pub fn func(&self, idx: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.fns[idx as usize].code.borrow().as_ref() {
            return Some(f.clone());
        }
        let (a, b) = self.fns[idx as usize].body?;
        let f = Rc::new(self.decode(idx, a, b));
        *self.fns[idx as usize].code.borrow_mut() = Some(f.clone());
        Some(f)
    }

    fn decode(&self, idx: u32, a: usize, b: usize) -> Func {
        let mut p = P { m: self, s: &self.text[a..b], i: 0, bigs: vec![] };
        let mut regs: Map<String, u32> = Map::default();
        let mut nregs = 0u32;
        // header
        assert!(p.eat_word("define"));
        let _ret = p.attrs_then_ty();
        p.param_attrs();
        p.expect(b'@');
        p.name();
        p.expect(b'(');
        let mut unnamed = 0;
        let mut nargs = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.word();
                    p.expect(b')');
                    break;
                }
                let t = p.ty();
                // attributes up to the name
                loop {
                    let c = p.peek();
                    if c == b'%' || c == b',' || c == b')' {
                        break;
                    }
                    p.attr();
                }
                let nm = if p.eat(b'%') {
                    p.name()
                } else {
                    let s = unnamed.to_string();
                    s
                };
                if nm.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                let k = t.nflat() as u32;
                regs.insert(nm, nregs);
                nregs += k;
                nargs += k;
                if p.eat(b')') {
                    break;
                }
                p.expect(b',');
            }
        }
        // to the end of the header line
        while p.s[p.i] != b'\n' {
            p.i += 1;
        }
        p.i += 1;
        // split into blocks
        let body = &p.s[p.i..];
        let mut blocks: Vec<(String, Vec<&[u8]>)> = vec![];
        let lines: Vec<&[u8]> = body.split(|c| *c == b'\n').collect();
        let mut k = 0;
        while k < lines.len() {
            let l = lines[k];
            if l.is_empty() || l == b"}" {
                k += 1;
                continue;
            }
            if l[0] != b' ' {
                // label
                if l[0] == b';' {
                    k += 1;
                    continue;
                }
                let lab = if l[0] == b'"' {
                    let e = l[1..].iter().position(|c| *c == b'"').unwrap();
                    &l[1..1 + e]
                } else {
                    let e = l.iter().position(|c| *c == b':').unwrap();
                    &l[..e]
                };
                blocks.push((String::from_utf8_lossy(lab).to_string(), vec![]));
                k += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push((unnamed.to_string(), vec![]));
            }
            blocks.last_mut().unwrap().1.push(l);
            k += 1;
        }
        let mut bidx: Map<String, u32> = Map::default();
        for (i, b) in blocks.iter().enumerate() {
            bidx.insert(b.0.clone(), i as u32);
        }
        let mut code: Vec<Inst> = vec![];
        let mut bstart: Vec<u32> = vec![];
        // edges: (from block, to block) -> edge index
        let mut edges: Vec<(u32, u32)> = vec![];
        // phis[block] = list of (dst base, n, [(from, opds)])
        let mut phis: Vec<Vec<(u32, Vec<(u32, Vec<Opd>)>)>> = vec![];
        let mut bigs: Vec<u128> = vec![];
        for (bi, (_, ls)) in blocks.iter().enumerate() {
            bstart.push(code.len() as u32);
            phis.push(vec![]);
            // join multi-line instructions (switch, invoke, landingpad)
            let mut k = 0;
            while k < ls.len() {
                let mut text: Vec<u8> = ls[k].to_vec();
                strip_comment(&mut text);
                k += 1;
                let t0 = trim(&text);
                if t0.starts_with(b"switch ") && !contains(&text, b"]") {
                    loop {
                        let mut t = ls[k].to_vec();
                        strip_comment(&mut t);
                        text.push(b' ');
                        text.extend_from_slice(&t);
                        k += 1;
                        if trim(&t).starts_with(b"]") {
                            break;
                        }
                    }
                }
                while k < ls.len() && ls[k].starts_with(b"   ") {
                    let mut t = ls[k].to_vec();
                    strip_comment(&mut t);
                    text.push(b' ');
                    text.extend_from_slice(&t);
                    k += 1;
                }
                let mut q = P { m: self, s: &text, i: 0, bigs: std::mem::take(&mut bigs) };
                let mut slots = |n: String, k: usize| -> u32 {
                    if let Some(&r) = regs.get(&n) {
                        return r;
                    }
                    let r = nregs;
                    nregs += k as u32;
                    regs.insert(n, r);
                    r
                };
                let mut edge = |to: u32| -> u32 {
                    let e = (bi as u32, to);
                    edges.push(e);
                    edges.len() as u32 - 1
                };
                let mut lbl = |q: &mut P| -> u32 {
                    assert!(q.eat_word("label"));
                    q.expect(b'%');
                    let n = q.name();
                    *bidx.get(&n).unwrap_or_else(|| panic!("label {}", n))
                };
                decode_inst(self, &mut q, &mut slots, &mut edge, &mut lbl, &bidx, &mut code, &mut phis[bi]);
                bigs = q.bigs;
            }
        }
        let edges = edges
            .into_iter()
            .map(|(from, to)| {
                let mut copies = vec![];
                for (d, inc) in &phis[to as usize] {
                    let src = &inc.iter().find(|(f, _)| *f == from).expect("phi edge").1;
                    for (j, o) in src.iter().enumerate() {
                        copies.push((d + j as u32, *o));
                    }
                }
                let overlap = copies
                    .iter()
                    .any(|(_, o)| matches!(o, Opd::R(r) if copies.iter().any(|(d, _)| d == r)));
                Edge { target: bstart[to as usize], copies: copies.into_boxed_slice(), overlap }
            })
            .collect();
        Func { idx, nregs, nargs, code, edges, bigs }
    }
}

fn contains(a: &[u8], b: &[u8]) -> bool {
    a.windows(b.len()).any(|w| w == b)
}
fn trim(a: &[u8]) -> &[u8] {
    let s = a.iter().position(|c| *c != b' ').unwrap_or(a.len());
    &a[s..]
}
fn strip_comment(t: &mut Vec<u8>) {
    let mut q = false;
    for i in 0..t.len() {
        if t[i] == b'"' {
            q = !q;
        }
        if t[i] == b';' && !q {
            t.truncate(i);
            return;
        }
    }
}

fn intr_of(n: &str) -> Intr {
    use Intr::*;
    let b = &n[5..];
    let is = |p: &str| b == p || b.starts_with(&format!("{}.", p));
    if is("lifetime") || is("experimental.noalias") || is("dbg") || is("prefetch") || is("donothing") || is("invariant") || is("sideeffect") {
        return Nop;
    }
    for (p, i) in [
        ("memcpy", Memcpy),
        ("memmove", Memmove),
        ("memset", Memset),
        ("assume", Assume),
        ("fshl", Fshl),
        ("fshr", Fshr),
        ("umax", Umax),
        ("umin", Umin),
        ("smax", Smax),
        ("smin", Smin),
        ("abs", Abs),
        ("uadd.with.overflow", UaddO),
        ("usub.with.overflow", UsubO),
        ("umul.with.overflow", UmulO),
        ("sadd.with.overflow", SaddO),
        ("ssub.with.overflow", SsubO),
        ("smul.with.overflow", SmulO),
        ("ctpop", Ctpop),
        ("cttz", Cttz),
        ("ctlz", Ctlz),
        ("ucmp", Ucmp),
        ("scmp", Scmp),
        ("usub.sat", UsubSat),
        ("uadd.sat", UaddSat),
        ("ssub.sat", SsubSat),
        ("sadd.sat", SaddSat),
        ("bswap", Bswap),
        ("bitreverse", Bitrev),
        ("is.constant", IsConst),
        ("threadlocal.address", TlsAddr),
        ("trap", Trap),
        ("expect", Expect),
        ("fabs", Fabs),
        ("copysign", Copysign),
        ("fptoui.sat", FptouiSat),
        ("fptosi.sat", FptosiSat),
        ("trunc", Fround(50)),
        ("floor", Fround(51)),
        ("ceil", Fround(52)),
        ("round", Fround(53)),
        ("roundeven", Fround(54)),
        ("rint", Fround(54)),
        ("is.fpclass", IsFpclass),
    ] {
        if is(p) {
            return i;
        }
    }
    Unsupported
}

#[allow(clippy::too_many_arguments)]
fn decode_inst(
    m: &Module,
    q: &mut P,
    slots: &mut dyn FnMut(String, usize) -> u32,
    edge: &mut dyn FnMut(u32) -> u32,
    lbl: &mut dyn FnMut(&mut P) -> u32,
    bidx: &Map<String, u32>,
    code: &mut Vec<Inst>,
    phis: &mut Vec<(u32, Vec<(u32, Vec<Opd>)>)>,
) {
    let mut dname: Option<String> = None;
    if q.peek() == b'%' {
        q.i += 1;
        dname = Some(q.name());
        q.expect(b'=');
    }
    let mut w = q.word();
    if matches!(w, b"tail" | b"musttail" | b"notail") {
        w = q.word();
    }
    macro_rules! dst {
        ($n:expr) => {
            slots(dname.clone().unwrap(), $n)
        };
    }
    let binop = |w: &[u8]| -> Option<Op> {
        Some(match w {
            b"add" => Op::Add,
            b"sub" => Op::Sub,
            b"mul" => Op::Mul,
            b"udiv" => Op::UDiv,
            b"urem" => Op::URem,
            b"sdiv" => Op::SDiv,
            b"srem" => Op::SRem,
            b"and" => Op::And,
            b"or" => Op::Or,
            b"xor" => Op::Xor,
            b"shl" => Op::Shl,
            b"lshr" => Op::LShr,
            b"ashr" => Op::AShr,
            _ => return None,
        })
    };
    if let Some(op) = binop(w) {
        let t = q.attrs_then_ty();
        let a = q.value(&t, slots);
        q.expect(b',');
        let b = q.value(&t, slots);
        let d = dst!(t.nflat());
        let fl = t.flat();
        for i in 0..a.len() {
            code.push(Inst::Bin { op, w: fl[i].0, d: d + i as u32, a: a[i], b: b[i] });
        }
        return;
    }
    match w {
        b"ret" => {
            let t = q.ty();
            let v = if t == Ty::Void { vec![] } else { q.value(&t, slots) };
            code.push(Inst::Ret(v.into_boxed_slice()));
        }
        b"unreachable" => code.push(Inst::Unreachable),
        b"br" => {
            if q.peek_word() == b"label" {
                let b = lbl(q);
                let e = edge(b);
                code.push(Inst::Br(e));
            } else {
                let (_, c) = q.tval(slots);
                q.expect(b',');
                let t = lbl(q);
                q.expect(b',');
                let f = lbl(q);
                let (t, f) = (edge(t), edge(f));
                code.push(Inst::CondBr { c: c[0], t, f });
            }
        }
        b"switch" => {
            let (t, v) = q.tval(slots);
            q.expect(b',');
            let d = lbl(q);
            let def = edge(d);
            q.expect(b'[');
            let mut cases = vec![];
            let mut bybl: Vec<(u32, u32)> = vec![(d, def)];
            while !q.eat(b']') {
                let (_, k) = q.tval(slots);
                q.expect(b',');
                let b = lbl(q);
                let e = match bybl.iter().find(|x| x.0 == b) {
                    Some(x) => x.1,
                    None => {
                        let e = edge(b);
                        bybl.push((b, e));
                        e
                    }
                };
                if let Opd::K(Val::C(k)) = k[0] {
                    cases.push((k, e));
                } else {
                    code.push(Inst::Bad("wide switch".into()));
                    return;
                }
            }
            code.push(Inst::Switch { w: t.scalar_w(), v: v[0], cases: cases.into_boxed_slice(), def });
        }
        b"icmp" => {
            let mut pw = q.word();
            if pw == b"samesign" {
                pw = q.word();
            }
            let p = match pw {
                b"eq" => Pred::Eq,
                b"ne" => Pred::Ne,
                b"ult" => Pred::Ult,
                b"ule" => Pred::Ule,
                b"ugt" => Pred::Ugt,
                b"uge" => Pred::Uge,
                b"slt" => Pred::Slt,
                b"sle" => Pred::Sle,
                b"sgt" => Pred::Sgt,
                b"sge" => Pred::Sge,
                _ => panic!("icmp {}", q.ctx()),
            };
            let t = q.ty();
            let a = q.value(&t, slots);
            q.expect(b',');
            let b = q.value(&t, slots);
            let d = dst!(a.len());
            let fl = t.flat();
            for i in 0..a.len() {
                code.push(Inst::Icmp { p, w: fl[i].0, d: d + i as u32, a: a[i], b: b[i] });
            }
        }
        b"zext" | b"sext" | b"trunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"ptrtoaddr" => {
            let t = q.attrs_then_ty();
            let a = q.value(&t, slots);
            assert!(q.eat_word("to"));
            let t2 = q.ty();
            let d = dst!(t2.nflat());
            let (f1, f2) = (t.flat(), t2.flat());
            if f1.len() != f2.len() {
                // bitcast between vectors and integers
                if f2.len() == 1 {
                    code.push(Inst::Pack { d, ew: f1[0].0, src: a.into_boxed_slice() });
                } else if f1.len() == 1 {
                    code.push(Inst::Unpack { d, ew: f2[0].0, n: f2.len() as u32, a: a[0], w: f1[0].0 });
                } else {
                    code.push(Inst::Bad("vector bitcast".into()));
                }
                return;
            }
            for i in 0..a.len() {
                let (fw, tw) = (f1[i].0, f2[i].0);
                let d = d + i as u32;
                let a = a[i];
                code.push(if fw == tw {
                    Inst::Mov { d, a }
                } else if fw > tw {
                    Inst::Trunc { fw, w: tw, d, a }
                } else if w == b"sext" {
                    Inst::Sext { fw, w: tw, d, a }
                } else {
                    Inst::Zext { fw, w: tw, d, a }
                });
            }
        }
        b"freeze" => {
            let (t, a) = q.tval(slots);
            let d = dst!(t.nflat());
            for (i, a) in a.iter().enumerate() {
                code.push(Inst::Mov { d: d + i as u32, a: *a });
            }
        }
        b"select" => {
            let ct = q.attrs_then_ty();
            let c = q.value(&ct, slots);
            q.expect(b',');
            let (t, a) = q.tval(slots);
            q.expect(b',');
            let (_, b) = q.tval(slots);
            let d = dst!(t.nflat());
            let fl = t.flat();
            for i in 0..a.len() {
                let c = if c.len() > 1 { c[i] } else { c[0] };
                code.push(Inst::Select { w: fl[i].0, d: d + i as u32, c, a: a[i], b: b[i] });
            }
        }
        b"phi" => {
            let t = q.attrs_then_ty();
            let n = t.nflat();
            let d = dst!(n);
            let mut inc = vec![];
            loop {
                q.expect(b'[');
                let v = q.value(&t, slots);
                q.expect(b',');
                q.expect(b'%');
                let l = q.name();
                q.expect(b']');
                inc.push((bidx[&l], v));
                if !q.eat(b',') {
                    break;
                }
                if q.peek() == b'!' {
                    break;
                }
            }
            phis.push((d, inc));
        }
        b"getelementptr" => {
            let t = q.attrs_then_ty();
            q.expect(b',');
            let (_, base) = q.tval(slots);
            let d = dst!(1);
            let mut off = 0u64;
            let mut terms = vec![];
            let mut cur = t.clone();
            let mut first = true;
            while q.eat(b',') {
                if q.peek() == b'!' {
                    break;
                }
                let it = q.ty();
                let v = q.value(&it, slots)[0];
                let iw = it.scalar_w();
                let (scale, next) = if first {
                    (t.size(), cur.clone())
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            if let Opd::K(Val::C(k)) = v {
                                off = off.wrapping_add(cur.field_off(k as usize));
                                cur = cur.elem(k as usize);
                                continue;
                            }
                            panic!("struct gep");
                        }
                        _ => (cur.elem(0).size(), cur.elem(0)),
                    }
                };
                first = false;
                cur = next;
                match v {
                    Opd::K(Val::C(k)) => {
                        let x = crate::expr::sx(k as u128, iw) as i64 as u64;
                        off = off.wrapping_add(x.wrapping_mul(scale));
                    }
                    v => terms.push((v, scale, iw)),
                }
            }
            code.push(Inst::Gep { d, base: base[0], off, terms: terms.into_boxed_slice() });
        }
        b"alloca" => {
            let t = q.attrs_then_ty();
            let mut n = 1;
            if q.eat(b',') && q.peek_word() != b"align" {
                let (_, v) = q.tval(slots);
                n = P::kint(&v[0], &q.bigs) as u64;
            }
            let d = dst!(1);
            code.push(Inst::Alloca { d, size: t.size() * n });
        }
        b"load" => {
            let t = q.attrs_then_ty();
            q.expect(b',');
            let (_, p) = q.tval(slots);
            let d = dst!(t.nflat());
            if let Ty::Vec(_, e) = &t {
                if **e == Ty::Int(1) {
                    code.push(Inst::Bad("load of <n x i1>".into()));
                    return;
                }
            }
            for (i, (w, off)) in t.flat().iter().enumerate() {
                code.push(Inst::Load { d: d + i as u32, w: *w, p: p[0], off: *off });
            }
        }
        b"store" => {
            let t = q.attrs_then_ty();
            let v = q.value(&t, slots);
            q.expect(b',');
            let (_, p) = q.tval(slots);
            for (i, (w, off)) in t.flat().iter().enumerate() {
                code.push(Inst::Store { w: *w, p: p[0], off: *off, v: v[i] });
            }
        }
        b"fence" => {}
        b"extractvalue" => {
            let (t, a) = q.tval(slots);
            let mut cur = t.clone();
            let mut base = 0;
            while q.eat(b',') {
                if q.peek() == b'!' {
                    break;
                }
                let k: usize = std::str::from_utf8(q.word()).unwrap().parse().unwrap();
                for j in 0..k {
                    base += cur.elem(j).nflat();
                }
                cur = cur.elem(k);
            }
            let n = cur.nflat();
            let d = dst!(n);
            for i in 0..n {
                code.push(Inst::Mov { d: d + i as u32, a: a[base + i] });
            }
        }
        b"insertvalue" => {
            let (t, a) = q.tval(slots);
            q.expect(b',');
            let (_, v) = q.tval(slots);
            let mut cur = t.clone();
            let mut base = 0;
            while q.eat(b',') {
                if q.peek() == b'!' {
                    break;
                }
                let k: usize = std::str::from_utf8(q.word()).unwrap().parse().unwrap();
                for j in 0..k {
                    base += cur.elem(j).nflat();
                }
                cur = cur.elem(k);
            }
            let d = dst!(t.nflat());
            for i in 0..a.len() {
                let o = if i >= base && i < base + v.len() { v[i - base] } else { a[i] };
                code.push(Inst::Mov { d: d + i as u32, a: o });
            }
        }
        b"extractelement" | b"insertelement" | b"shufflevector" => {
            let (t, a) = q.tval(slots);
            q.expect(b',');
            let (t2, b) = q.tval(slots);
            if w == b"extractelement" {
                let d = dst!(1);
                match b[0] {
                    Opd::K(Val::C(k)) => code.push(Inst::Mov { d, a: a[k as usize] }),
                    _ => code.push(Inst::Bad("extractelement".into())),
                }
                return;
            }
            q.expect(b',');
            let (t3, c) = q.tval(slots);
            if w == b"insertelement" {
                let d = dst!(t.nflat());
                match c[0] {
                    Opd::K(Val::C(k)) => {
                        for i in 0..a.len() {
                            code.push(Inst::Mov { d: d + i as u32, a: if i == k as usize { b[0] } else { a[i] } });
                        }
                    }
                    _ => code.push(Inst::Bad("insertelement".into())),
                }
                return;
            }
            let _ = t2;
            let d = dst!(t3.nflat());
            for (i, s) in c.iter().enumerate() {
                if let Opd::K(Val::C(k)) = s {
                    let k = *k as usize;
                    let o = if k < a.len() { a[k] } else { b[k - a.len()] };
                    code.push(Inst::Mov { d: d + i as u32, a: o });
                }
            }
        }
        b"call" | b"invoke" => {
            let invoke = w == b"invoke";
            let rt = q.attrs_then_ty();
            // function type "(ptr, ...)" for varargs
            if q.peek() == b'(' {
                q.parens();
            }
            q.param_attrs();
            let mut callee = None;
            let mut iname = String::new();
            match q.peek() {
                b'@' => {
                    q.i += 1;
                    let n = q.name();
                    if n.starts_with("llvm.") {
                        iname = n;
                    } else {
                        match m.fidx.get(&n) {
                            Some(&f) => callee = Some(Callee::Fn(f)),
                            None => panic!("callee {}", n),
                        }
                    }
                }
                b'%' => {
                    let v = q.value(&Ty::Ptr, slots);
                    callee = Some(Callee::Ind(v[0]));
                }
                _ => {
                    if q.peek_word() == b"asm" {
                        // an empty template is an optimisation barrier
                        let from = q.i;
                        let line = &q.s[from..];
                        if let Some(k) = line.iter().position(|&c| c == b'"') {
                            if line.get(k + 1) == Some(&b'"') && dname.is_none() && !invoke {
                                return;
                            }
                        }
                        code.push(Inst::Bad("asm".into()));
                        if let Some(n) = dname {
                            slots(n, rt.nflat());
                        }
                        return;
                    }
                    let v = q.value(&Ty::Ptr, slots);
                    callee = Some(Callee::Ind(v[0]));
                }
            }
            q.expect(b'(');
            let mut args = vec![];
            let mut aw = vec![];
            if !q.eat(b')') {
                loop {
                    let t = q.ty();
                    q.param_attrs();
                    if t == Ty::Other {
                        // metadata argument: skip
                        let mut d = 0;
                        loop {
                            match q.s[q.i] {
                                b'(' => d += 1,
                                b')' if d == 0 => break,
                                b')' => d -= 1,
                                b',' if d == 0 => break,
                                _ => {}
                            }
                            q.i += 1;
                        }
                    } else {
                        let v = q.value(&t, slots);
                        args.extend(v);
                        aw.extend(t.flat().iter().map(|x| x.0));
                    }
                    if q.eat(b')') {
                        break;
                    }
                    q.expect(b',');
                }
            }
            let nret = rt.nflat() as u32;
            let d = match &dname {
                Some(n) => slots(n.clone(), nret as usize),
                None => u32::MAX,
            };
            let mut next = None;
            if invoke {
                // attributes, then "to label %x unwind label %y"
                loop {
                    let c = q.peek();
                    if c == b'#' {
                        q.i += 1;
                        q.word();
                        continue;
                    }
                    if c == b'[' {
                        while q.s[q.i] != b']' {
                            q.i += 1;
                        }
                        q.i += 1;
                        continue;
                    }
                    let ww = q.word();
                    if ww == b"to" {
                        break;
                    }
                    if ww.is_empty() {
                        panic!("invoke {}", q.ctx());
                    }
                    if q.s.get(q.i) == Some(&b'(') {
                        q.parens();
                    }
                }
                let b = lbl(q);
                next = Some(edge(b));
            }
            let fl = rt.flat();
            let rw = fl.first().map(|x| x.0).unwrap_or(0);
            let callee = match callee {
                Some(c) => c,
                None => {
                    let it = intr_of(&iname);
                    if it == Intr::Nop {
                        if let Some(e) = next {
                            code.push(Inst::Br(e));
                        }
                        return;
                    }
                    if it == Intr::Unsupported {
                        code.push(Inst::Bad(iname.into()));
                        return;
                    }
                    if let Ty::Vec(n, _) = &rt {
                        // element-wise
                        let n = *n;
                        for i in 0..n {
                            let mut a2 = vec![];
                            let mut w2 = vec![];
                            let mut pos = 0;
                            while pos < args.len() {
                                if pos + n as usize <= args.len() && aw[pos] == rw {
                                    a2.push(args[pos + i as usize]);
                                    w2.push(rw);
                                    pos += n as usize;
                                } else {
                                    a2.push(args[pos]);
                                    w2.push(aw[pos]);
                                    pos += 1;
                                }
                            }
                            code.push(Inst::Call(Box::new(CallI {
                                d: d + i,
                                nret: 1,
                                callee: Callee::Intr(it, rw),
                                args: a2,
                                aw: w2,
                                rw,
                                next: None,
                            })));
                        }
                        return;
                    }
                    if matches!(it, Intr::Umax | Intr::Umin) && iname.contains("reduce") {
                        code.push(Inst::Bad(iname.into()));
                        return;
                    }
                    Callee::Intr(it, rw)
                }
            };
            code.push(Inst::Call(Box::new(CallI { d, nret, callee, args, aw, rw, next })));
        }
        b"landingpad" => {
            // never reached: panics end the path
            let t = q.ty();
            dst!(t.nflat());
            code.push(Inst::Bad("landingpad".into()));
        }
        b"resume" => code.push(Inst::Bad("resume".into())),
        b"atomicrmw" => {
            if q.peek_word() == b"volatile" {
                q.word();
            }
            let op = match q.word() {
                b"xchg" => 0,
                b"add" => 1,
                b"sub" => 2,
                b"and" => 3,
                b"or" => 4,
                b"xor" => 5,
                _ => 99,
            };
            let (_, p) = q.tval(slots);
            q.expect(b',');
            let (t, v) = q.tval(slots);
            let d = dst!(1);
            code.push(Inst::Rmw { d, w: t.scalar_w(), op, p: p[0], v: v[0] });
        }
        b"cmpxchg" => {
            while matches!(q.peek_word(), b"weak" | b"volatile") {
                q.word();
            }
            let (_, p) = q.tval(slots);
            q.expect(b',');
            let (t, c) = q.tval(slots);
            q.expect(b',');
            let (_, n) = q.tval(slots);
            let d = dst!(2);
            code.push(Inst::CmpXchg { d, w: t.scalar_w(), p: p[0], c: c[0], n: n[0] });
        }
        b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" | b"fcmp" => {
            let mut code_n = match w {
                b"fadd" => 1u32,
                b"fsub" => 2,
                b"fmul" => 3,
                b"fdiv" => 4,
                b"frem" => 5,
                _ => 16,
            };
            if w == b"fcmp" {
                loop {
                    let pw = q.word();
                    let k = match pw {
                        b"oeq" => 0,
                        b"ogt" => 1,
                        b"oge" => 2,
                        b"olt" => 3,
                        b"ole" => 4,
                        b"one" => 5,
                        b"ord" => 6,
                        b"ueq" => 7,
                        b"ugt" => 8,
                        b"uge" => 9,
                        b"ult" => 10,
                        b"ule" => 11,
                        b"une" => 12,
                        b"uno" => 13,
                        _ => continue,
                    };
                    code_n += k;
                    break;
                }
            }
            let t = q.attrs_then_ty();
            let a = q.value(&t, slots);
            q.expect(b',');
            let b = q.value(&t, slots);
            let aw = t.scalar_w();
            let d = dst!(1);
            code.push(Inst::Float {
                d,
                code: code_n,
                w: if w == b"fcmp" { 1 } else { aw },
                aw,
                a: a[0],
                b: Some(b[0]),
            });
        }
        b"fneg" => {
            let t = q.attrs_then_ty();
            let a = q.value(&t, slots);
            let d = dst!(1);
            let w = t.scalar_w();
            let k = q.kval(w, 1u128 << (w - 1));
            code.push(Inst::Bin { op: Op::Xor, w, d, a: a[0], b: k });
        }
        b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"fpext" | b"fptrunc" => {
            let t = q.attrs_then_ty();
            let a = q.value(&t, slots);
            assert!(q.eat_word("to"));
            let t2 = q.ty();
            let d = dst!(1);
            let c = match w {
                b"uitofp" => 40,
                b"sitofp" => 41,
                b"fptoui" => 42,
                b"fptosi" => 43,
                b"fpext" => 44,
                _ => 45,
            };
            code.push(Inst::Float { d, code: c, w: t2.scalar_w(), aw: t.scalar_w(), a: a[0], b: None });
        }
        _ => {
            let s = String::from_utf8_lossy(q.s).to_string();
            code.push(Inst::Bad(s.into()));
        }
    }
}
