//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    /// expression of each byte (0 = concrete); empty when all concrete
    pub sym: Vec<Id>,
    pub ro: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<Val>,
    pub ip: u32,
    ret_d: u32,
    ret_n: u32,
    ret_edge: Option<u32>,
    sbase: u32,
}

pub struct Group {
    vs: u32,
    cons: Rc<Vec<Id>>,
    list: u32,
    model: Model,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub callers: Vec<Rc<Frame>>,
    stack: Vec<Rc<Obj>>,
    heap: Vec<Option<Rc<Obj>>>,
    gmut: Vec<(u32, Rc<Obj>)>,
    groups: Vec<Option<Rc<Group>>>,
    pub trail: Vec<u32>,
    pending: Option<u32>,
    obs: Vec<Val>,
    covers: Vec<u32>,
    steps: u64,
    allocs: u64,
    /// a Rust panic ends the path well
    expect_panic: bool,
    pub job: u32,
}

pub enum Stop {
    Done,
    Pruned,
    Known(u32),
    Yield,
    Viol(String, String),
    Err(String),
}
type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct JobStat {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub branches: u64,
    pub known: BTreeMap<u32, u64>,
    pub viols: u64,
    pub errors: u64,
    pub incomplete: u64,
    pub covers: BTreeSet<u32>,
    pub samples: u64,
    pub maxvars: u64,
    pub maxsteps: u64,
}

pub struct Job {
    pub name: String,
    pub entry: String,
    pub params: Vec<u64>,
}

pub struct Exec {
    pub m: Module,
    pub e: Exprs,
    pub s: Solver,
    gobj: Vec<Option<Rc<Obj>>>,
    pub work: VecDeque<State>,
    pub jobs: Vec<Job>,
    pub stats: Vec<JobStat>,
    pub out: Vec<String>,
    pub stop_on_fork: bool,
    yield_now: bool,
    pub visited: Vec<bool>,
    pub step_limit: u64,
    pub max_viol: u64,
    pub sample_every: u64,
    pub max_samples: u64,
    pub seed: u64,
    table_memo: Map<(Id, u32), Option<Val>>,
    pub instrs: u64,
}

fn viol<T>(k: &str, m: impl Into<String>) -> R<T> {
    Err(Stop::Viol(k.to_string(), m.into()))
}
fn eerr<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Err(m.into()))
}

impl Exec {
    pub fn new(m: Module, jobs: Vec<Job>) -> Self {
        let n = m.globals.len();
        let nf = m.fns.len();
        let stats = jobs.iter().map(|_| JobStat::default()).collect();
        Exec {
            m,
            e: Exprs::new(),
            s: Solver::new(),
            gobj: vec![None; n],
            work: VecDeque::new(),
            jobs,
            stats,
            out: vec![],
            stop_on_fork: false,
            yield_now: false,
            visited: vec![false; nf],
            step_limit: 4_000_000,
            max_viol: 3,
            sample_every: 1,
            max_samples: 4,
            seed: 1,
            table_memo: Map::default(),
            instrs: 0,
        }
    }
    pub fn init_state(&mut self, job: u32) -> State {
        let en = self.jobs[job as usize].entry.clone();
        let idx = *self.m.fidx.get(&en).unwrap_or_else(|| {
            eprintln!("symx: no entry function {}", en);
            std::process::exit(3)
        });
        let f = self.m.func(idx).expect("entry body");
        self.visited[idx as usize] = true;
        let regs = vec![Val::C(0); f.nregs as usize];
        State {
            top: Frame { func: f, regs, ip: 0, ret_d: u32::MAX, ret_n: 0, ret_edge: None, sbase: 0 },
            callers: vec![],
            stack: vec![],
            heap: vec![],
            gmut: vec![],
            groups: vec![],
            trail: vec![],
            pending: None,
            obs: vec![],
            covers: vec![],
            steps: 0,
            allocs: 0,
            expect_panic: false,
            job,
        }
    }

    // ---------------------------------------------------------------- solver
    fn look(&mut self, st: &State, cond: Id) -> (Rc<Verdict>, u32, Vec<Rc<Group>>) {
        let cv = self.e.vs(cond);
        let mut u = cv;
        let mut gs: Vec<Rc<Group>> = vec![];
        let nv = self.e.varsets[cv as usize].len();
        for k in 0..nv {
            let v = self.e.varsets[cv as usize][k];
            if let Some(g) = &st.groups[v as usize] {
                if !gs.iter().any(|x| Rc::ptr_eq(x, g)) {
                    gs.push(g.clone());
                    u = self.e.union(u, g.vs);
                }
            }
        }
        let n = self.e.varsets[u as usize].len();
        let (list, model);
        if gs.len() == 1 && gs[0].vs == u {
            list = gs[0].list;
            model = gs[0].model.clone();
        } else if gs.is_empty() {
            list = 0;
            model = Rc::new(vec![0u8; n]);
        } else {
            let mut l: Vec<Id> = vec![];
            let mut md = vec![0u8; n];
            for g in &gs {
                for &c in g.cons.iter() {
                    let c = self.e.canon(c, u);
                    l.push(c);
                }
                for (r, v) in self.e.varsets[g.vs as usize].iter().enumerate() {
                    let p = self.e.varsets[u as usize].binary_search(v).unwrap();
                    md[p] = g.model[r];
                }
            }
            l.sort_unstable();
            l.dedup();
            list = self.s.intern_list(l);
            model = Rc::new(md);
        }
        let cc = self.e.canon(cond, u);
        let v = self.s.decide(&mut self.e, list, cc, n, &model);
        (v, u, gs)
    }
    fn add(&mut self, st: &mut State, cond: Id, side: bool, v: &Verdict, u: u32, gs: &[Rc<Group>]) {
        let mut cons: Vec<Id> = vec![];
        for g in gs {
            cons.extend_from_slice(&g.cons);
        }
        cons.push(if side { cond } else { self.e.not(cond) });
        let g = Rc::new(Group {
            vs: u,
            cons: Rc::new(cons),
            list: if side { v.t_list } else { v.f_list },
            model: if side { v.t.clone().unwrap() } else { v.f.clone().unwrap() },
        });
        for &x in &self.e.varsets[u as usize] {
            st.groups[x as usize] = Some(g.clone());
        }
    }
    /// Decides a boolean; forks the state when both outcomes are possible (the
    /// clone takes the negative side and executes the instruction again).
    fn branch(&mut self, st: &mut State, cond: Val) -> R<bool> {
        let c = match cond {
            Val::C(k) => return Ok(k & 1 == 1),
            Val::S(c) => c,
        };
        let (v, u, gs) = self.look(st, c);
        self.stats[st.job as usize].branches += 1;
        match (v.t.is_some(), v.f.is_some()) {
            (true, false) => Ok(true),
            (false, true) => Ok(false),
            (false, false) => eerr("inconsistent path"),
            (true, true) => {
                let mut alt = st.clone();
                self.add(&mut alt, c, false, &v, u, &gs);
                self.push(alt);
                self.add(st, c, true, &v, u, &gs);
                Ok(true)
            }
        }
    }
    fn push(&mut self, alt: State) {
        self.stats[alt.job as usize].forks += 1;
        self.work.push_back(alt);
        if self.stop_on_fork {
            self.yield_now = true;
        }
    }
    fn byte(st: &State, e: &Exprs, i: u32) -> u8 {
        match &st.groups[i as usize] {
            None => 0,
            Some(g) => {
                let r = e.varsets[g.vs as usize].binary_search(&i).unwrap();
                g.model[r]
            }
        }
    }
    pub fn model(&self, st: &State) -> Vec<u8> {
        (0..st.groups.len() as u32).map(|i| Self::byte(st, &self.e, i)).collect()
    }
    fn concretize(&mut self, st: &mut State, v: Val, w: u32) -> R<u64> {
        let mut x = match v {
            Val::C(k) => return Ok(k),
            Val::S(x) => x,
        };
        // resolve if-then-else structure first
        loop {
            let n = self.e.n(x);
            if n.op == Op::Ite {
                x = if self.branch(st, self.e.to_val(n.a))? { n.b } else { n.c };
                continue;
            }
            break;
        }
        if let Some(k) = self.e.cst(x) {
            return Ok(k as u64);
        }
        let md = self.model(st);
        let k = match self.e.eval(x, &|i| md[i as usize]) {
            Some(k) => k,
            None => return eerr("cannot concretise an uninterpreted value"),
        };
        let kc = self.e.konst(w, k);
        let c = self.e.cmp(Op::Eq, x, kc);
        let c = self.e.to_val(c);
        if self.branch(st, c)? {
            Ok(k as u64)
        } else {
            eerr("concretisation lost its witness")
        }
    }

    // ---------------------------------------------------------------- memory
    fn gobject(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.gobj[g as usize] {
            return o.clone();
        }
        let o = Rc::new(Obj { data: self.m.global_bytes(g), sym: vec![], ro: self.m.globals[g as usize].ro });
        self.gobj[g as usize] = Some(o.clone());
        o
    }
    fn find(&mut self, st: &State, addr: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let o = if id >= FN_BASE {
            return viol("memory", format!("access to code address {:x}", addr));
        } else if id >= STACK_BASE {
            match st.stack.get((id - STACK_BASE) as usize) {
                Some(o) => o.clone(),
                None => return viol("memory", "dead stack object"),
            }
        } else if id >= HEAP_BASE {
            match st.heap.get((id - HEAP_BASE) as usize) {
                Some(Some(o)) => o.clone(),
                _ => return viol("memory", "freed or unknown heap object"),
            }
        } else if id >= 1 && (id as usize) <= self.gobj.len() {
            let g = id as u32 - 1;
            match st.gmut.iter().find(|x| x.0 == g) {
                Some(x) => x.1.clone(),
                None => self.gobject(g),
            }
        } else {
            return viol("memory", format!("access to invalid address {:#x}", addr));
        };
        if off + n > o.data.len() as u64 {
            return viol("memory", format!("out-of-bounds access at offset {} (+{}) of an object of {} bytes", off, n, o.data.len()));
        }
        Ok((o, off as usize))
    }
    fn find_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let o: &mut Rc<Obj> = if id >= FN_BASE {
            return viol("memory", "write to code");
        } else if id >= STACK_BASE {
            match st.stack.get_mut((id - STACK_BASE) as usize) {
                Some(o) => o,
                None => return viol("memory", "dead stack object"),
            }
        } else if id >= HEAP_BASE {
            match st.heap.get_mut((id - HEAP_BASE) as usize) {
                Some(Some(o)) => o,
                _ => return viol("memory", "freed or unknown heap object"),
            }
        } else if id >= 1 && (id as usize) <= self.gobj.len() {
            let g = id as u32 - 1;
            let p = match st.gmut.iter().position(|x| x.0 == g) {
                Some(p) => p,
                None => {
                    let o = self.gobject(g);
                    if o.ro {
                        return viol("memory", "write to a constant");
                    }
                    st.gmut.push((g, o));
                    st.gmut.len() - 1
                }
            };
            &mut st.gmut[p].1
        } else {
            return viol("memory", format!("write to invalid address {:#x}", addr));
        };
        if off + n > o.data.len() as u64 {
            return viol("memory", format!("out-of-bounds write at offset {} (+{}) of an object of {} bytes", off, n, o.data.len()));
        }
        Ok((Rc::make_mut(o), off as usize))
    }
    fn load_obj(&mut self, o: &Obj, off: usize, w: u32) -> Val {
        let n = (w as usize + 7) / 8;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Val::C(u64::from_le_bytes(b) & mask64(w));
            }
            let mut k = 0u128;
            for i in (0..n).rev() {
                k = (k << 8) | o.data[off + i] as u128;
            }
            let i = self.e.konst(w, k);
            return self.e.to_val(i);
        }
        let mut e = 0;
        for i in (0..n).rev() {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.e.konst(8, o.data[off + i] as u128) };
            e = if e == 0 { b } else { self.e.concat(e, b) };
        }
        if n as u32 * 8 != w {
            e = self.e.extract(e, 0, w);
        }
        self.e.to_val(e)
    }
    fn store_obj(e: &mut Exprs, o: &mut Obj, off: usize, w: u32, v: Val) {
        let n = (w as usize + 7) / 8;
        match v {
            Val::C(k) => {
                let b = k.to_le_bytes();
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    for i in 0..n {
                        o.data[off + i] = if i < 8 { b[i] } else { 0 };
                    }
                }
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0;
                    }
                }
            }
            Val::S(x) => {
                let x = if n as u32 * 8 != w { e.zext(x, n as u32 * 8) } else { x };
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    let b = e.extract(x, i as u32 * 8, 8);
                    match e.cst(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
        }
    }
    /// Load through a symbolic address into a constant table.
    fn table_load(&mut self, st: &mut State, x: Id, w: u32) -> R<Option<Val>> {
        if let Some(Some(v)) = self.table_memo.get(&(x, w)) {
            // bounds were checked when the entry was made; they depend on the
            // path, so check again
            let v = *v;
            self.table_bounds(st, x, w)?;
            return Ok(Some(v));
        }
        let n = self.e.n(x);
        if n.op != Op::Add {
            return Ok(None);
        }
        let base = match self.e.cst(n.b) {
            Some(b) => b as u64,
            None => return Ok(None),
        };
        // the constant part may lie (a little) before the table
        let id = base.wrapping_add(1 << 31) >> 32;
        if id == 0 || id as usize > self.gobj.len() {
            return Ok(None);
        }
        let g = id as u32 - 1;
        if !self.m.globals[g as usize].ro {
            return Ok(None);
        }
        let o = self.gobject(g);
        let boff = (base & 0xffff_ffff) as i64;
        let boff = if boff > 0x7fff_ffff { boff - (1 << 32) } else { boff };
        // idx * scale
        let (idx, scale) = {
            let k = self.e.n(n.a);
            match (k.op, if k.b != 0 { self.e.cst(k.b) } else { None }) {
                (Op::Mul, Some(c)) => (k.a, c as i64),
                (Op::Shl, Some(c)) if c < 16 => (k.a, 1i64 << c),
                _ => (n.a, 1),
            }
        };
        let um = self.e.umax(idx);
        if um > 70000 || scale <= 0 {
            return Ok(None);
        }
        let nb = (w as i64 + 7) / 8;
        let iw = self.e.w(idx);
        let mut vals: Vec<(u64, Val)> = vec![];
        for k in 0..=um as i64 {
            let off = boff + k * scale;
            if off < 0 || off + nb > o.data.len() as i64 {
                continue;
            }
            let v = self.load_obj(&o, off as usize, w);
            vals.push((k as u64, v));
        }
        if vals.is_empty() {
            return Ok(None);
        }
        // runs of equal values, then a balanced tree
        let mut runs: Vec<(u64, Val)> = vec![];
        for (k, v) in vals {
            if runs.last().map(|r| r.1) != Some(v) {
                runs.push((k, v));
            }
        }
        if runs.len() > 600 {
            return Ok(None);
        }
        let t = self.tree(idx, iw, w, &runs);
        let v = self.e.to_val(t);
        self.table_memo.insert((x, w), Some(v));
        self.table_bounds(st, x, w)?;
        Ok(Some(v))
    }
    fn tree(&mut self, idx: Id, iw: u32, w: u32, r: &[(u64, Val)]) -> Id {
        if r.len() == 1 {
            return self.e.to_id(r[0].1, w);
        }
        let m = r.len() / 2;
        let k = self.e.konst(iw, r[m].0 as u128);
        let c = self.e.cmp(Op::Ult, idx, k);
        let a = self.tree(idx, iw, w, &r[..m]);
        let b = self.tree(idx, iw, w, &r[m..]);
        self.e.ite(c, a, b)
    }
    fn table_bounds(&mut self, st: &mut State, x: Id, w: u32) -> R<()> {
        let n = self.e.n(x);
        let base = self.e.cst(n.b).unwrap() as u64;
        let g = (base.wrapping_add(1 << 31) >> 32) as u32 - 1;
        let size = self.gobject(g).data.len() as u64;
        let nb = (w as u64 + 7) / 8;
        let lo = gaddr(g);
        if size < nb {
            return viol("memory", "table too small");
        }
        let span = size - nb;
        let lok = self.e.konst(64, (lo as u128).wrapping_neg());
        let rel = self.e.bin(Op::Add, x, lok);
        let k = self.e.konst(64, span as u128);
        let c = self.e.cmp(Op::Ule, rel, k);
        let c = self.e.to_val(c);
        if self.branch(st, c)? {
            Ok(())
        } else {
            viol("memory", "out-of-bounds table access")
        }
    }
    fn load(&mut self, st: &mut State, p: Val, off: u64, w: u32) -> R<Val> {
        let a = match p {
            Val::C(a) => a.wrapping_add(off),
            Val::S(x) => {
                let x2 = if off != 0 {
                    let k = self.e.konst(64, off as u128);
                    self.e.bin(Op::Add, x, k)
                } else {
                    x
                };
                match self.e.to_val(x2) {
                    Val::C(a) => a,
                    Val::S(x) => {
                        if let Some(v) = self.table_load(st, x, w)? {
                            return Ok(v);
                        }
                        self.concretize(st, Val::S(x), 64)?
                    }
                }
            }
        };
        let (o, i) = self.find(st, a, (w as u64 + 7) / 8)?;
        Ok(self.load_obj(&o, i, w))
    }
    fn store(&mut self, st: &mut State, p: Val, off: u64, w: u32, v: Val) -> R<()> {
        let a = match p {
            Val::C(a) => a,
            p => self.concretize(st, p, 64)?,
        }
        .wrapping_add(off);
        let (o, i) = self.find_mut(st, a, (w as u64 + 7) / 8)?;
        Self::store_obj(&mut self.e, o, i, w, v);
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        // block operations count as the work they do
        st.steps += n / 8;
        let (o, so) = self.find(st, s, n)?;
        let n = n as usize;
        let data = o.data[so..so + n].to_vec();
        let sym: Vec<Id> = if o.sym.is_empty() { vec![] } else { o.sym[so..so + n].to_vec() };
        drop(o);
        let (t, to) = self.find_mut(st, d, n as u64)?;
        t.data[to..to + n].copy_from_slice(&data);
        let has = sym.iter().any(|x| *x != 0);
        if has && t.sym.is_empty() {
            t.sym = vec![0; t.data.len()];
        }
        if !t.sym.is_empty() {
            if has {
                t.sym[to..to + n].copy_from_slice(&sym);
            } else {
                for x in &mut t.sym[to..to + n] {
                    *x = 0;
                }
            }
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size > 64 << 20 {
            return viol("alloc", format!("allocation of {} bytes", size));
        }
        st.allocs += 1;
        let id = st.heap.len() as u64;
        st.heap.push(Some(Rc::new(Obj { data: vec![0; size as usize], sym: vec![], ro: false })));
        Ok((HEAP_BASE + id) << 32)
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        let id = (p >> 32).wrapping_sub(HEAP_BASE);
        if p & 0xffff_ffff != 0 {
            return viol("memory", "free of an interior pointer");
        }
        match st.heap.get_mut(id as usize) {
            Some(x @ Some(_)) => {
                *x = None;
                Ok(())
            }
            _ => viol("memory", "invalid free"),
        }
    }

    // ------------------------------------------------------------ arithmetic
    fn bin(&mut self, op: Op, w: u32, a: Val, b: Val) -> Val {
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let m = mask64(w);
                let r = match op {
                    Op::Add => x.wrapping_add(y),
                    Op::Sub => x.wrapping_sub(y),
                    Op::Mul => x.wrapping_mul(y),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    _ => Exprs::fold(op, w, x as u128, y as u128) as u64,
                };
                return Val::C(r & m);
            }
        }
        let x = self.e.to_id(a, w);
        let y = self.e.to_id(b, w);
        let r = self.e.bin(op, x, y);
        self.e.to_val(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if w <= 64 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let s = |v: u64| sx(v as u128, w) as i64;
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => s(x) < s(y),
                    Pred::Sle => s(x) <= s(y),
                    Pred::Sgt => s(x) > s(y),
                    Pred::Sge => s(x) >= s(y),
                };
                return Val::C(r as u64);
            }
        }
        let x = self.e.to_id(a, w);
        let y = self.e.to_id(b, w);
        let r = match p {
            Pred::Eq => self.e.cmp(Op::Eq, x, y),
            Pred::Ne => {
                let t = self.e.cmp(Op::Eq, x, y);
                self.e.not(t)
            }
            Pred::Ult => self.e.cmp(Op::Ult, x, y),
            Pred::Ule => self.e.cmp(Op::Ule, x, y),
            Pred::Ugt => self.e.cmp(Op::Ult, y, x),
            Pred::Uge => self.e.cmp(Op::Ule, y, x),
            Pred::Slt => self.e.cmp(Op::Slt, x, y),
            Pred::Sle => self.e.cmp(Op::Sle, x, y),
            Pred::Sgt => self.e.cmp(Op::Slt, y, x),
            Pred::Sge => self.e.cmp(Op::Sle, y, x),
        };
        self.e.to_val(r)
    }
    fn zext(&mut self, w: u32, fw: u32, a: Val) -> Val {
        if w <= 64 {
            if let Val::C(x) = a {
                return Val::C(x);
            }
        }
        let x = self.e.to_id(a, fw);
        let r = self.e.zext(x, w);
        self.e.to_val(r)
    }
    fn sext(&mut self, w: u32, fw: u32, a: Val) -> Val {
        if w <= 64 {
            if let Val::C(x) = a {
                return Val::C(sx(x as u128, fw) as u64 & mask64(w));
            }
        }
        let x = self.e.to_id(a, fw);
        let r = self.e.sext(x, w);
        self.e.to_val(r)
    }
    fn trunc(&mut self, w: u32, fw: u32, a: Val) -> Val {
        match a {
            Val::C(x) => Val::C(x & mask64(w)),
            Val::S(x) => {
                debug_assert_eq!(self.e.w(x), fw);
                let r = self.e.extract(x, 0, w);
                self.e.to_val(r)
            }
        }
    }
    fn select(&mut self, w: u32, c: Val, a: Val, b: Val) -> Val {
        match c {
            Val::C(k) => {
                if k & 1 == 1 {
                    a
                } else {
                    b
                }
            }
            Val::S(c) => {
                if a == b {
                    return a;
                }
                let x = self.e.to_id(a, w);
                let y = self.e.to_id(b, w);
                let r = self.e.ite(c, x, y);
                self.e.to_val(r)
            }
        }
    }

    // -------------------------------------------------------------- the loop
    #[inline(always)]
    fn get(&mut self, st: &State, o: Opd) -> Val {
        match o {
            Opd::R(r) => st.top.regs[r as usize],
            Opd::K(v) => v,
            Opd::Big(i) => {
                let k = st.top.func.bigs[i as usize];
                let x = self.e.konst(128, k);
                self.e.to_val(x)
            }
        }
    }
    fn jump(&mut self, st: &mut State, f: &Func, e: u32) {
        let ed = &f.edges[e as usize];
        if ed.overlap {
            let vals: Vec<Val> = ed.copies.iter().map(|(_, o)| self.get(st, *o)).collect();
            for ((d, _), v) in ed.copies.iter().zip(vals) {
                st.top.regs[*d as usize] = v;
            }
        } else {
            for (d, o) in ed.copies.iter() {
                let v = self.get(st, *o);
                st.top.regs[*d as usize] = v;
            }
        }
        st.top.ip = ed.target;
    }
    pub fn stack_trace(&self, st: &State) -> String {
        let mut v = vec![self.m.fns[st.top.func.idx as usize].pretty.clone()];
        for f in st.callers.iter().rev() {
            v.push(self.m.fns[f.func.idx as usize].pretty.clone());
        }
        v.truncate(12);
        v.join(" < ")
    }

    /// Runs the state until its path ends (or until it forks, when asked to).
    pub fn run(&mut self, st: &mut State) -> Stop {
        let s0 = st.steps;
        let u0 = self.s.stats.z3_unknown;
        // what this engine cannot execute is an error of this path only
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_inner(st))) {
            Ok(Ok(s)) => s,
            Ok(Err(s)) => s,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                Stop::Err(format!("not executable: {}", m.unwrap_or_default()).replace(['\n', '\t'], " "))
            }
        };
        self.instrs += st.steps - s0;
        self.stats[st.job as usize].incomplete += self.s.stats.z3_unknown - u0;
        r
    }
    fn run_inner(&mut self, st: &mut State) -> R<Stop> {
        let mut func = st.top.func.clone();
        self.yield_now = false;
        loop {
            if self.yield_now {
                self.yield_now = false;
                return Ok(Stop::Yield);
            }
            st.steps += 1;
            let inst = &func.code[st.top.ip as usize];
            match inst {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (self.get(st, *a), self.get(st, *b));
                    st.top.regs[*d as usize] = self.bin(*op, *w, x, y);
                    st.top.ip += 1;
                }
                Inst::Icmp { p, w, d, a, b } => {
                    let (x, y) = (self.get(st, *a), self.get(st, *b));
                    st.top.regs[*d as usize] = self.icmp(*p, *w, x, y);
                    st.top.ip += 1;
                }
                Inst::Zext { fw, w, d, a } => {
                    let x = self.get(st, *a);
                    st.top.regs[*d as usize] = self.zext(*w, *fw, x);
                    st.top.ip += 1;
                }
                Inst::Sext { fw, w, d, a } => {
                    let x = self.get(st, *a);
                    st.top.regs[*d as usize] = self.sext(*w, *fw, x);
                    st.top.ip += 1;
                }
                Inst::Trunc { fw, w, d, a } => {
                    let x = self.get(st, *a);
                    st.top.regs[*d as usize] = self.trunc(*w, *fw, x);
                    st.top.ip += 1;
                }
                Inst::Mov { d, a } => {
                    let x = self.get(st, *a);
                    st.top.regs[*d as usize] = x;
                    st.top.ip += 1;
                }
                Inst::Select { w, d, c, a, b } => {
                    let (c, x, y) = (self.get(st, *c), self.get(st, *a), self.get(st, *b));
                    st.top.regs[*d as usize] = self.select(*w, c, x, y);
                    st.top.ip += 1;
                }
                Inst::Gep { d, base, off, terms } => {
                    let mut v = self.get(st, *base);
                    if *off != 0 {
                        v = self.bin(Op::Add, 64, v, Val::C(*off));
                    }
                    for (o, sc, w) in terms.iter() {
                        let mut x = self.get(st, *o);
                        if *w < 64 {
                            x = self.sext(64, *w, x);
                        }
                        if *sc != 1 {
                            x = self.bin(Op::Mul, 64, x, Val::C(*sc));
                        }
                        v = self.bin(Op::Add, 64, v, x);
                    }
                    st.top.regs[*d as usize] = v;
                    st.top.ip += 1;
                }
                Inst::Load { d, w, p, off } => {
                    let p = self.get(st, *p);
                    let v = self.load(st, p, *off, *w)?;
                    st.top.regs[*d as usize] = v;
                    st.top.ip += 1;
                }
                Inst::Store { w, p, off, v } => {
                    let (p, v) = (self.get(st, *p), self.get(st, *v));
                    self.store(st, p, *off, *w, v)?;
                    st.top.ip += 1;
                }
                Inst::Alloca { d, size } => {
                    let id = st.stack.len() as u64;
                    st.stack.push(Rc::new(Obj { data: vec![0; *size as usize], sym: vec![], ro: false }));
                    st.top.regs[*d as usize] = Val::C((STACK_BASE + id) << 32);
                    st.top.ip += 1;
                }
                Inst::Br(e) => {
                    if st.steps > self.step_limit {
                        return viol("hang", format!("more than {} steps", self.step_limit));
                    }
                    self.jump(st, &func, *e)
                }
                Inst::CondBr { c, t, f } => {
                    if st.steps > self.step_limit {
                        return viol("hang", format!("more than {} steps", self.step_limit));
                    }
                    let c = self.get(st, *c);
                    let b = self.branch(st, c)?;
                    self.jump(st, &func, if b { *t } else { *f });
                }
                Inst::Switch { w, v, cases, def } => {
                    let v = self.get(st, *v);
                    let mut tgt = *def;
                    match v {
                        Val::C(k) => {
                            for (c, e) in cases.iter() {
                                if *c == k {
                                    tgt = *e;
                                    break;
                                }
                            }
                        }
                        Val::S(x) => {
                            // one decision per distinct target
                            let mut edges: Vec<u32> = vec![];
                            for (_, e) in cases.iter() {
                                if *e != *def && !edges.contains(e) {
                                    edges.push(*e);
                                }
                            }
                            for e in edges {
                                let mut ks: Vec<u64> = cases.iter().filter(|c| c.1 == e).map(|c| c.0).collect();
                                ks.sort_unstable();
                                let mut cond = self.e.konst(1, 0);
                                let mut i = 0;
                                while i < ks.len() {
                                    let mut j = i;
                                    while j + 1 < ks.len() && ks[j + 1] == ks[j] + 1 {
                                        j += 1;
                                    }
                                    let lo = self.e.konst(*w, (ks[i] as u128).wrapping_neg());
                                    let c = if i == j {
                                        let k = self.e.konst(*w, ks[i] as u128);
                                        self.e.cmp(Op::Eq, x, k)
                                    } else {
                                        let t = self.e.bin(Op::Add, x, lo);
                                        let n = self.e.konst(*w, (ks[j] - ks[i]) as u128);
                                        self.e.cmp(Op::Ule, t, n)
                                    };
                                    cond = self.e.bin(Op::Or, cond, c);
                                    i = j + 1;
                                }
                                let cond = self.e.to_val(cond);
                                if self.branch(st, cond)? {
                                    tgt = e;
                                    break;
                                }
                            }
                        }
                    }
                    self.jump(st, &func, tgt);
                }
                Inst::Ret(vs) => {
                    let vals: Vec<Val> = vs.iter().map(|o| self.get(st, *o)).collect();
                    match st.callers.pop() {
                        None => return Ok(Stop::Done),
                        Some(fr) => {
                            let (d, n, e, sb) = (st.top.ret_d, st.top.ret_n, st.top.ret_edge, st.top.sbase);
                            st.stack.truncate(sb as usize);
                            st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            func = st.top.func.clone();
                            if d != u32::MAX {
                                for (i, v) in vals.iter().take(n as usize).enumerate() {
                                    st.top.regs[d as usize + i] = *v;
                                }
                            }
                            match e {
                                Some(e) => self.jump(st, &func, e),
                                None => st.top.ip += 1,
                            }
                        }
                    }
                }
                Inst::Unreachable => return viol("unreachable", "reached an `unreachable` instruction (undefined behaviour)"),
                Inst::Pack { d, ew, src } => {
                    let mut r = 0;
                    for o in src.iter().rev() {
                        let v = self.get(st, *o);
                        let x = self.e.to_id(v, *ew);
                        r = if r == 0 { x } else { self.e.concat(r, x) };
                    }
                    st.top.regs[*d as usize] = self.e.to_val(r);
                    st.top.ip += 1;
                }
                Inst::Unpack { d, ew, n, a, w } => {
                    let v = self.get(st, *a);
                    let x = self.e.to_id(v, *w);
                    for i in 0..*n {
                        let r = self.e.extract(x, i * ew, *ew);
                        st.top.regs[(*d + i) as usize] = self.e.to_val(r);
                    }
                    st.top.ip += 1;
                }
                Inst::Rmw { d, w, op, p, v } => {
                    let (p, v) = (self.get(st, *p), self.get(st, *v));
                    let old = self.load(st, p, 0, *w)?;
                    let new = match op {
                        0 => v,
                        1 => self.bin(Op::Add, *w, old, v),
                        2 => self.bin(Op::Sub, *w, old, v),
                        3 => self.bin(Op::And, *w, old, v),
                        4 => self.bin(Op::Or, *w, old, v),
                        5 => self.bin(Op::Xor, *w, old, v),
                        _ => return eerr("atomicrmw"),
                    };
                    self.store(st, p, 0, *w, new)?;
                    st.top.regs[*d as usize] = old;
                    st.top.ip += 1;
                }
                Inst::CmpXchg { d, w, p, c, n } => {
                    let (p, c, n) = (self.get(st, *p), self.get(st, *c), self.get(st, *n));
                    let old = self.load(st, p, 0, *w)?;
                    let eq = self.icmp(Pred::Eq, *w, old, c);
                    let ok = self.branch(st, eq)?;
                    if ok {
                        self.store(st, p, 0, *w, n)?;
                    }
                    st.top.regs[*d as usize] = old;
                    st.top.regs[*d as usize + 1] = Val::C(ok as u64);
                    st.top.ip += 1;
                }
                Inst::Float { d, code, w, aw, a, b } => {
                    let x = self.get(st, *a);
                    let y = b.map(|b| self.get(st, b));
                    let r = self.float(*code, *w, *aw, x, y)?;
                    st.top.regs[*d as usize] = r;
                    st.top.ip += 1;
                }
                Inst::Bad(s) => return eerr(format!("unsupported instruction: {}", s)),
                Inst::Call(c) => {
                    let c: &CallI = c;
                    let fi = match &c.callee {
                        Callee::Fn(i) => *i,
                        Callee::Ind(o) => {
                            let v = self.get(st, *o);
                            let a = self.concretize(st, v, 64)?;
                            let id = (a >> 32).wrapping_sub(FN_BASE);
                            if a >> 32 < FN_BASE || id as usize >= self.m.fns.len() {
                                return viol("memory", format!("indirect call to {:x}", a));
                            }
                            id as u32
                        }
                        Callee::Intr(it, w) => {
                            let args: Vec<Val> = c.args.iter().map(|o| self.get(st, *o)).collect();
                            let r = self.intrinsic(st, *it, *w, c, &args)?;
                            for (i, v) in r.iter().enumerate() {
                                if c.d != u32::MAX {
                                    st.top.regs[c.d as usize + i] = *v;
                                }
                            }
                            match c.next {
                                Some(e) => self.jump(st, &func, e),
                                None => st.top.ip += 1,
                            }
                            continue;
                        }
                    };
                    let sp = self.m.fns[fi as usize].special;
                    if sp != Special::None {
                        let args: Vec<Val> = c.args.iter().map(|o| self.get(st, *o)).collect();
                        let r = self.special(st, fi, sp, &args)?;
                        if let (Some(v), true) = (r, c.d != u32::MAX) {
                            st.top.regs[c.d as usize] = v;
                        }
                        match c.next {
                            Some(e) => self.jump(st, &func, e),
                            None => st.top.ip += 1,
                        }
                        continue;
                    }
                    let f = match self.m.func(fi) {
                        Some(f) => f,
                        None => return eerr(format!("call to external function {}", self.m.fns[fi as usize].name)),
                    };
                    self.visited[fi as usize] = true;
                    if st.callers.len() > 4000 {
                        return viol("hang", "call depth exceeds 4000");
                    }
                    let mut regs = vec![Val::C(0); f.nregs as usize];
                    for (i, o) in c.args.iter().enumerate() {
                        if i < f.nargs as usize {
                            regs[i] = self.get(st, *o);
                        }
                    }
                    let fr = Frame {
                        func: f.clone(),
                        regs,
                        ip: 0,
                        ret_d: c.d,
                        ret_n: c.nret,
                        ret_edge: c.next,
                        sbase: st.stack.len() as u32,
                    };
                    let old = std::mem::replace(&mut st.top, fr);
                    st.callers.push(Rc::new(old));
                    func = f;
                }
            }
        }
    }

    fn float(&mut self, code: u32, w: u32, aw: u32, a: Val, b: Option<Val>) -> R<Val> {
        if let (Val::C(x), y) = (a, b) {
            let y = match y {
                None => Some(0),
                Some(Val::C(y)) => Some(y),
                _ => None,
            };
            if let Some(y) = y {
                return match crate::float::eval(code, w, aw, x, y) {
                    Some(r) => Ok(Val::C(r)),
                    None => eerr("float operation"),
                };
            }
        }
        // symbolic floating point: the solver's theory says what it is
        if w > 64 || aw > 64 || code == 5 {
            return eerr("symbolic float operation");
        }
        let x = self.e.to_id(a, aw);
        let y = match b {
            Some(b) => self.e.to_id(b, aw),
            None => 0,
        };
        let r = self.e.uf(code as u128 * 1000 + aw as u128, w, x, y);
        Ok(Val::S(r))
    }

    /// Overflow arithmetic on integers too wide to double.
    fn wide_overflow(&mut self, it: Intr, w: u32, a: Val, b: Val) -> R<Vec<Val>> {
        if it == Intr::SaddO || it == Intr::SsubO {
            let op = if it == Intr::SaddO { Op::Add } else { Op::Sub };
            let r = self.bin(op, w, a, b);
            let (ri, ai, bi) = (self.e.to_id(r, w), self.e.to_id(a, w), self.e.to_id(b, w));
            let x = self.e.bin(Op::Xor, ai, ri);
            let y = if it == Intr::SaddO { self.e.bin(Op::Xor, bi, ri) } else { self.e.bin(Op::Xor, ai, bi) };
            let z = self.e.bin(Op::And, x, y);
            let o = self.e.extract(z, w - 1, 1);
            return Ok(vec![r, self.e.to_val(o)]);
        }
        let r = self.bin(Op::Mul, w, a, b);
        let (ai, bi) = (self.e.to_id(a, w), self.e.to_id(b, w));
        // one factor is a constant in everything that is encoded
        let (x, k) = match (self.e.cst(ai), self.e.cst(bi)) {
            (_, Some(k)) => (ai, k),
            (Some(k), _) => (bi, k),
            _ => return eerr("wide overflow arithmetic"),
        };
        if k == 0 || k == 1 {
            return Ok(vec![r, Val::C(0)]);
        }
        let o = if it == Intr::UmulO {
            let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            let q = self.e.konst(w, m / k);
            self.e.cmp(Op::Ult, q, x)
        } else {
            let k = ((k << (128 - w)) as i128) >> (128 - w);
            if k < 0 {
                return eerr("wide overflow arithmetic");
            }
            let max = i128::MAX >> (128 - w);
            let min = i128::MIN >> (128 - w);
            let mask = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            let hi = self.e.konst(w, (max / k) as u128 & mask);
            let lo = self.e.konst(w, (min / k) as u128 & mask);
            let over = self.e.cmp(Op::Slt, hi, x);
            let under = self.e.cmp(Op::Slt, x, lo);
            self.e.bin(Op::Or, over, under)
        };
        Ok(vec![r, self.e.to_val(o)])
    }

    fn intrinsic(&mut self, st: &mut State, it: Intr, w: u32, c: &CallI, a: &[Val]) -> R<Vec<Val>> {
        let one = |v: Val| Ok(vec![v]);
        match it {
            Intr::Memcpy | Intr::Memmove => {
                let d = self.concretize(st, a[0], 64)?;
                let s = self.concretize(st, a[1], 64)?;
                let n = self.concretize(st, a[2], c.aw[2])?;
                self.copy(st, d, s, n)?;
                Ok(vec![])
            }
            Intr::Memset => {
                let d = self.concretize(st, a[0], 64)?;
                let n = self.concretize(st, a[2], c.aw[2])?;
                st.steps += n / 8;
                if n > 0 {
                    let (o, off) = self.find_mut(st, d, n)?;
                    for i in 0..n as usize {
                        Self::store_obj(&mut self.e, o, off + i, 8, a[1]);
                    }
                }
                Ok(vec![])
            }
            Intr::Assume => {
                match a[0] {
                    Val::C(1) => {}
                    Val::C(_) => return viol("assume", "a compiler assumption is false (undefined behaviour)"),
                    v => {
                        if !self.branch(st, v)? {
                            return viol("assume", "a compiler assumption is false (undefined behaviour)");
                        }
                    }
                }
                Ok(vec![])
            }
            Intr::Expect => one(a[0]),
            Intr::IsConst => one(Val::C(0)),
            Intr::TlsAddr => one(a[0]),
            Intr::Trap => viol("panic", "trap"),
            Intr::Fshl | Intr::Fshr => {
                let k = match a[2] {
                    Val::C(k) => (k % w as u64) as u32,
                    v => self.concretize(st, v, w)? as u32 % w,
                };
                let (hi, lo) = (self.e.to_id(a[0], w), self.e.to_id(a[1], w));
                let k = if it == Intr::Fshl { k } else { (w - k) % w };
                if k == 0 {
                    return one(if it == Intr::Fshl { a[0] } else { a[1] });
                }
                let h = self.e.extract(hi, 0, w - k);
                let l = self.e.extract(lo, w - k, k);
                let r = self.e.concat(h, l);
                one(self.e.to_val(r))
            }
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let p = match it {
                    Intr::Umax => Pred::Ugt,
                    Intr::Umin => Pred::Ult,
                    Intr::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let cc = self.icmp(p, w, a[0], a[1]);
                one(self.select(w, cc, a[0], a[1]))
            }
            Intr::Abs => {
                let n = self.bin(Op::Sub, w, Val::C(0), a[0]);
                let cc = self.icmp(Pred::Slt, w, a[0], Val::C(0));
                one(self.select(w, cc, n, a[0]))
            }
            Intr::UaddO => {
                let r = self.bin(Op::Add, w, a[0], a[1]);
                let o = self.icmp(Pred::Ult, w, r, a[0]);
                Ok(vec![r, o])
            }
            Intr::UsubO => {
                let r = self.bin(Op::Sub, w, a[0], a[1]);
                let o = self.icmp(Pred::Ult, w, a[0], a[1]);
                Ok(vec![r, o])
            }
            Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => {
                if 2 * w > 128 {
                    return self.wide_overflow(it, w, a[0], a[1]);
                }
                let w2 = if it == Intr::UmulO || it == Intr::SmulO { 2 * w } else { w + 1 };
                let (x, y) = if it == Intr::UmulO {
                    (self.zext(w2, w, a[0]), self.zext(w2, w, a[1]))
                } else {
                    (self.sext(w2, w, a[0]), self.sext(w2, w, a[1]))
                };
                let op = match it {
                    Intr::UmulO | Intr::SmulO => Op::Mul,
                    Intr::SaddO => Op::Add,
                    _ => Op::Sub,
                };
                let wide = self.bin(op, w2, x, y);
                let wi = self.e.to_id(wide, w2);
                let r = self.e.extract(wi, 0, w);
                let r = self.e.to_val(r);
                let back = if it == Intr::UmulO { self.zext(w2, w, r) } else { self.sext(w2, w, r) };
                let o = self.icmp(Pred::Ne, w2, wide, back);
                Ok(vec![r, o])
            }
            Intr::UaddSat => {
                let r = self.bin(Op::Add, w, a[0], a[1]);
                let o = self.icmp(Pred::Ult, w, r, a[0]);
                one(self.select(w, o, Val::C(mask64(w)), r))
            }
            Intr::UsubSat => {
                let r = self.bin(Op::Sub, w, a[0], a[1]);
                let o = self.icmp(Pred::Ult, w, a[0], a[1]);
                one(self.select(w, o, Val::C(0), r))
            }
            Intr::SaddSat | Intr::SsubSat => eerr("signed saturation"),
            Intr::Ucmp | Intr::Scmp => {
                let aw = c.aw[0];
                let (p, q) = if it == Intr::Ucmp { (Pred::Ult, Pred::Eq) } else { (Pred::Slt, Pred::Eq) };
                let lt = self.icmp(p, aw, a[0], a[1]);
                let eq = self.icmp(q, aw, a[0], a[1]);
                let t = self.select(w, eq, Val::C(0), Val::C(1));
                one(self.select(w, lt, Val::C(mask64(w)), t))
            }
            Intr::Bswap => {
                let x = self.e.to_id(a[0], w);
                let mut r = 0;
                for i in 0..w / 8 {
                    let b = self.e.extract(x, i * 8, 8);
                    r = if r == 0 { b } else { self.e.concat(r, b) };
                }
                one(self.e.to_val(r))
            }
            Intr::Ctpop | Intr::Cttz | Intr::Ctlz | Intr::Bitrev => {
                if let Val::C(x) = a[0] {
                    let r = match it {
                        Intr::Ctpop => x.count_ones() as u64,
                        Intr::Cttz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        Intr::Ctlz => (x.leading_zeros() as u64).wrapping_sub(64 - w as u64),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    return one(Val::C(r & mask64(w)));
                }
                let x = self.e.to_id(a[0], w);
                let mut r = self.e.konst(w, if it == Intr::Ctpop || it == Intr::Bitrev { 0 } else { w as u128 });
                match it {
                    Intr::Ctpop => {
                        for i in 0..w {
                            let b = self.e.extract(x, i, 1);
                            let b = self.e.zext(b, w);
                            r = self.e.bin(Op::Add, r, b);
                        }
                    }
                    Intr::Cttz => {
                        for i in (0..w).rev() {
                            let b = self.e.extract(x, i, 1);
                            let k = self.e.konst(w, i as u128);
                            r = self.e.ite(b, k, r);
                        }
                    }
                    Intr::Ctlz => {
                        for i in 0..w {
                            let b = self.e.extract(x, i, 1);
                            let k = self.e.konst(w, (w - 1 - i) as u128);
                            r = self.e.ite(b, k, r);
                        }
                    }
                    _ => return eerr("bitreverse"),
                }
                one(self.e.to_val(r))
            }
            Intr::Fabs => one(self.bin(Op::And, w, a[0], Val::C(mask64(w - 1)))),
            Intr::Copysign => {
                let m = self.bin(Op::And, w, a[0], Val::C(mask64(w - 1)));
                let g = self.bin(Op::And, w, a[1], Val::C(1 << (w - 1)));
                one(self.bin(Op::Or, w, m, g))
            }
            Intr::FptouiSat => {
                let r = self.float(46, w, c.aw[0], a[0], None)?;
                one(r)
            }
            Intr::FptosiSat => {
                let r = self.float(47, w, c.aw[0], a[0], None)?;
                one(r)
            }
            Intr::Fround(k) => {
                let r = self.float(k, w, w, a[0], None)?;
                one(r)
            }
            Intr::IsFpclass => {
                let aw = c.aw[0];
                let Val::C(want) = a[1] else { return eerr("float class") };
                let (eb, mb) = if aw == 64 { (11, 52) } else { (8, 23) };
                let x = self.e.to_id(a[0], aw);
                let neg = self.e.extract(x, aw - 1, 1);
                let ex = self.e.extract(x, mb, eb);
                let fr = self.e.extract(x, 0, mb);
                let quiet = self.e.extract(x, mb - 1, 1);
                let (k0, k1, f0) = (self.e.konst(eb, 0), self.e.konst(eb, mask64(eb) as u128), self.e.konst(mb, 0));
                let (top, low, zero) = (self.e.cmp(Op::Eq, ex, k1), self.e.cmp(Op::Eq, ex, k0), self.e.cmp(Op::Eq, fr, f0));
                let (nt, nl, nz, pos, ns) = (self.e.not(top), self.e.not(low), self.e.not(zero), self.e.not(neg), self.e.not(quiet));
                let mut r = self.e.konst(1, 0);
                let nan = self.e.bin(Op::And, top, nz);
                let norm = self.e.bin(Op::And, nt, nl);
                let inf = self.e.bin(Op::And, top, zero);
                let sub = self.e.bin(Op::And, low, nz);
                let zer = self.e.bin(Op::And, low, zero);
                for (bit, p, q) in [
                    (0, nan, ns),
                    (1, nan, quiet),
                    (2, inf, neg),
                    (3, norm, neg),
                    (4, sub, neg),
                    (5, zer, neg),
                    (6, zer, pos),
                    (7, sub, pos),
                    (8, norm, pos),
                    (9, inf, pos),
                ] {
                    if want >> bit & 1 == 1 {
                        let t = self.e.bin(Op::And, p, q);
                        r = self.e.bin(Op::Or, r, t);
                    }
                }
                let v = self.e.to_val(r);
                one(v)
            }
            Intr::Nop | Intr::Unsupported => eerr("intrinsic"),
        }
    }

    fn cstr(&mut self, st: &State, p: u64, n: u64) -> Option<String> {
        if n > 400 {
            return None;
        }
        let (o, i) = self.find(st, p, n).ok()?;
        Some(String::from_utf8_lossy(&o.data[i..i + n as usize]).to_string())
    }
    fn panic_msg(&mut self, st: &mut State, fi: u32, a: &[Val]) -> String {
        let mut s = self.m.fns[fi as usize].pretty.clone();
        if s.contains("panicking") {
            s = s.rsplit("::").next().unwrap_or("panic").to_string();
        }
        // &'static Location is the last argument
        if let Some(Val::C(p)) = a.last() {
            let p = *p;
            let rd = |x: &mut Self, off: u64, w: u32| -> Option<u64> {
                let (o, i) = x.find(st, p.wrapping_add(off), w as u64 / 8).ok()?;
                match x.load_obj(&o, i, w) {
                    Val::C(k) => Some(k),
                    _ => None,
                }
            };
            if let (Some(fp), Some(n), Some(l)) = (rd(self, 0, 64), rd(self, 8, 64), rd(self, 16, 32)) {
                if let Some(f) = self.cstr(st, fp, n) {
                    s += &format!(" at {}:{}", f, l);
                }
            }
        }
        if a.len() >= 2 {
            if let (Val::C(p), Val::C(n)) = (a[0], a[1]) {
                if n < 200 {
                    if let Some(m) = self.cstr(st, p, n) {
                        s += &format!(" `{}`", m);
                    }
                }
            }
        }
        s
    }

    fn special(&mut self, st: &mut State, fi: u32, sp: Special, a: &[Val]) -> R<Option<Val>> {
        match sp {
            Special::SymBytes => {
                let p = self.concretize(st, a[0], 64)?;
                let n = self.concretize(st, a[1], 64)?;
                for i in 0..n {
                    let v = st.groups.len() as u32;
                    st.groups.push(None);
                    let x = self.e.var(v);
                    let (o, off) = self.find_mut(st, p + i, 1)?;
                    Self::store_obj(&mut self.e, o, off, 8, Val::S(x));
                }
                Ok(None)
            }
            Special::SymChoice => {
                let n = match a[0] {
                    Val::C(k) => k as u32,
                    v => self.concretize(st, v, 32)? as u32,
                };
                if n == 0 {
                    return Err(Stop::Pruned);
                }
                let k = match st.pending.take() {
                    Some(k) => k,
                    None => {
                        for k in (1..n).rev() {
                            let mut alt = st.clone();
                            alt.pending = Some(k);
                            self.push(alt);
                        }
                        0
                    }
                };
                st.trail.push(k);
                Ok(Some(Val::C(k as u64)))
            }
            Special::SymAssume => {
                if self.assume(st, a[0])? {
                    Ok(None)
                } else {
                    Err(Stop::Pruned)
                }
            }
            Special::SymFail => {
                let id = self.concretize(st, a[0], 32)?;
                viol("check", format!("{}", id))
            }
            Special::SymKnown => {
                let id = self.concretize(st, a[0], 32)?;
                Err(Stop::Known(id as u32))
            }
            Special::SymObserve => {
                st.obs.push(a[0]);
                Ok(None)
            }
            Special::SymCover => {
                let id = self.concretize(st, a[0], 32)? as u32;
                if !st.covers.contains(&id) {
                    st.covers.push(id);
                }
                Ok(None)
            }
            Special::SymExpectPanic => {
                let v = self.concretize(st, a[0], 1)?;
                st.expect_panic = v & 1 == 1;
                Ok(None)
            }
            Special::SymDone => Err(Stop::Done),
            Special::SymAllocs => Ok(Some(Val::C(st.allocs))),
            Special::SymSteps => Ok(Some(Val::C(st.steps))),
            Special::SymParam => {
                let i = self.concretize(st, a[0], 32)? as usize;
                let v = self.jobs[st.job as usize].params.get(i).copied().unwrap_or(0);
                Ok(Some(Val::C(v)))
            }
            Special::SymConc => {
                let v = self.concretize(st, a[0], 64)?;
                Ok(Some(Val::C(v)))
            }
            Special::Alloc | Special::AllocZeroed => {
                let n = self.concretize(st, a[0], 64)?;
                Ok(Some(Val::C(self.alloc(st, n)?)))
            }
            Special::Dealloc => {
                let p = self.concretize(st, a[0], 64)?;
                self.free(st, p)?;
                Ok(None)
            }
            Special::Realloc => {
                let p = self.concretize(st, a[0], 64)?;
                let old = self.concretize(st, a[1], 64)?;
                let new = self.concretize(st, a[3], 64)?;
                let q = self.alloc(st, new)?;
                self.copy(st, q, p, old.min(new))?;
                self.free(st, p)?;
                Ok(Some(Val::C(q)))
            }
            Special::NoAllocShim => Ok(None),
            Special::Bcmp => {
                let n = self.concretize(st, a[2], 64)?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.concretize(st, a[0], 64)?;
                let q = self.concretize(st, a[1], 64)?;
                st.steps += n / 8;
                let (o1, i1) = self.find(st, p, n)?;
                let (o2, i2) = self.find(st, q, n)?;
                let n = n as usize;
                if o1.sym.is_empty() && o2.sym.is_empty() {
                    let r = o1.data[i1..i1 + n].cmp(&o2.data[i2..i2 + n]) as i32;
                    return Ok(Some(Val::C(r as u32 as u64)));
                }
                let ordered = self.m.fns[fi as usize].name == "memcmp";
                let mut r = self.e.konst(32, 0);
                let one = self.e.konst(32, 1);
                let neg = self.e.konst(32, u32::MAX as u128);
                let mut alleq = self.e.konst(1, 1);
                for k in (0..n).rev() {
                    let x = self.load_obj(&o1, i1 + k, 8);
                    let y = self.load_obj(&o2, i2 + k, 8);
                    let (x, y) = (self.e.to_id(x, 8), self.e.to_id(y, 8));
                    let eq = self.e.cmp(Op::Eq, x, y);
                    if ordered {
                        let lt = self.e.cmp(Op::Ult, x, y);
                        let d = self.e.ite(lt, neg, one);
                        r = self.e.ite(eq, r, d);
                    } else {
                        alleq = self.e.bin(Op::And, eq, alleq);
                    }
                }
                if !ordered {
                    r = self.e.ite(alleq, r, one);
                }
                Ok(Some(self.e.to_val(r)))
            }
            Special::Strlen => {
                let p = self.concretize(st, a[0], 64)?;
                let mut n = 0;
                loop {
                    let v = self.load(st, Val::C(p + n), 0, 8)?;
                    let v = self.concretize(st, v, 8)?;
                    if v == 0 {
                        return Ok(Some(Val::C(n)));
                    }
                    n += 1;
                }
            }
            Special::Panic => {
                if st.expect_panic {
                    return Err(Stop::Done);
                }
                let m = self.panic_msg(st, fi, a);
                viol("panic", m)
            }
            Special::Abort => {
                let m = self.panic_msg(st, fi, a);
                viol("panic", m)
            }
            Special::None => unreachable!(),
        }
    }
    /// Adds a condition without exploring its negation.
    fn assume(&mut self, st: &mut State, c: Val) -> R<bool> {
        match c {
            Val::C(k) => Ok(k & 1 == 1),
            Val::S(c) => {
                let c = if self.e.w(c) == 1 { c } else { self.e.extract(c, 0, 1) };
                let (v, u, gs) = self.look(st, c);
                match (v.t.is_some(), v.f.is_some()) {
                    (true, true) => {
                        self.add(st, c, true, &v, u, &gs);
                        Ok(true)
                    }
                    (t, _) => Ok(t),
                }
            }
        }
    }

    // ------------------------------------------------------------- reporting
    fn record(&mut self, st: &State, tag: &str, kind: &str, msg: &str) {
        let md = self.model(st);
        let hex: String = md.iter().map(|b| format!("{:02x}", b)).collect();
        let tr: Vec<String> = st.trail.iter().map(|x| x.to_string()).collect();
        let mut obs = vec![];
        for v in &st.obs {
            let x = match v {
                Val::C(k) => Some(*k as u128),
                Val::S(x) => self.e.eval(*x, &|i| md[i as usize]),
            };
            obs.push(match x {
                Some(k) => (k as u64).to_string(),
                None => "?".into(),
            });
        }
        let stk = if tag == "viol" || tag == "err" { self.stack_trace(st) } else { String::new() };
        let line = format!(
            "{}\t{}\t{}\t{}\tchoices={}\tbytes={}\tobs={}\tstack={}",
            tag,
            self.jobs[st.job as usize].name,
            kind,
            msg.replace(['\t', '\n'], " "),
            tr.join(","),
            hex,
            obs.join(","),
            stk
        );
        self.out.push(line);
    }
    /// Handles the end of a path.  Returns false when exploration should stop.
    pub fn finish(&mut self, st: &mut State, stop: Stop) -> bool {
        let j = st.job as usize;
        self.stats[j].steps += st.steps;
        self.stats[j].maxvars = self.stats[j].maxvars.max(st.groups.len() as u64);
        match stop {
            Stop::Yield => unreachable!(),
            Stop::Pruned => self.stats[j].pruned += 1,
            Stop::Done => {
                self.stats[j].paths += 1;
                self.stats[j].maxsteps = self.stats[j].maxsteps.max(st.steps);
                let cv = std::mem::take(&mut st.covers);
                self.stats[j].covers.extend(cv);
                // deterministic sampling with growing stride
                let n = self.stats[j].paths;
                let pick = n == 1 || (n.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(self.seed) >> 20) % self.sample_every == 0;
                if pick && self.stats[j].samples < self.max_samples {
                    self.stats[j].samples += 1;
                    self.record(st, "sample", "path", "");
                }
            }
            Stop::Known(id) => {
                let c = self.stats[j].known.entry(id).or_insert(0);
                *c += 1;
                if *c <= 2 {
                    self.record(st, "known", &id.to_string(), "");
                }
            }
            Stop::Viol(k, m) => {
                self.stats[j].viols += 1;
                self.record(st, "viol", &k, &m);
                return self.stats[j].viols < self.max_viol;
            }
            Stop::Err(m) => {
                self.stats[j].errors += 1;
                if self.stats[j].errors <= 3 {
                    self.record(st, "err", "engine", &m);
                }
            }
        }
        true
    }
}

