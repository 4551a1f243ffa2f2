//! z3 (C API) behind a cache of canonicalised queries.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, rng: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_benchmark_to_smtlib_string(
        c: P,
        name: *const c_char,
        logic: *const c_char,
        status: *const c_char,
        attr: *const c_char,
        n: c_uint,
        a: *const P,
        f: P,
    ) -> *const c_char;
}

pub type Model = Rc<Vec<u8>>;

#[derive(Clone)]
pub struct Verdict {
    pub t: Option<Model>,
    pub f: Option<Model>,
    pub t_list: u32,
    pub f_list: u32,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub z3_ns: u64,
}

pub struct Solver {
    ctx: P,
    solver: P,
    asts: Vec<P>,
    /// the same, with floating-point operations given their meaning
    asts_fp: Vec<P>,
    fp: bool,
    uf_solver: Option<P>,
    fp_solver: Option<P>,
    has_uf: Vec<u8>,
    pub lists: Vec<Rc<Vec<Id>>>,
    list_tab: Map<Vec<Id>, u32>,
    memo: Map<(u32, Id), Rc<Verdict>>,
    pub stats: Stats,
    pub dump: Option<(String, usize, u64)>,
    pub unsat_seen: u64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let (k, v) = (CString::new("timeout").unwrap(), CString::new("30000").unwrap());
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let mut s = Solver {
                ctx,
                solver,
                asts: vec![],
                asts_fp: vec![],
                fp: false,
                uf_solver: None,
                fp_solver: None,
                has_uf: vec![],
                lists: vec![],
                list_tab: Map::default(),
                memo: Map::default(),
                stats: Stats::default(),
                dump: None,
                unsat_seen: 0,
            };
            s.intern_list(vec![]);
            s
        }
    }
    pub fn intern_list(&mut self, v: Vec<Id>) -> u32 {
        if let Some(&i) = self.list_tab.get(&v) {
            return i;
        }
        let i = self.lists.len() as u32;
        self.lists.push(Rc::new(v.clone()));
        self.list_tab.insert(v, i);
        i
    }
    fn bv(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.ctx, w) }
    }
    fn num(&self, w: u32, k: u128) -> P {
        unsafe {
            if w == 1 {
                return if k == 1 { Z3_mk_true(self.ctx) } else { Z3_mk_false(self.ctx) };
            }
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, k as u64, self.bv(w))
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, s.as_ptr(), self.bv(w))
            }
        }
    }
    /// as a bit-vector even when the width is one
    fn asbv(&mut self, e: &Exprs, i: Id) -> P {
        let a = self.ast(e, i);
        if e.w(i) == 1 {
            unsafe {
                let s = self.bv(1);
                Z3_mk_ite(self.ctx, a, Z3_mk_unsigned_int64(self.ctx, 1, s), Z3_mk_unsigned_int64(self.ctx, 0, s))
            }
        } else {
            a
        }
    }
    fn ast(&mut self, e: &Exprs, i: Id) -> P {
        if self.asts.len() <= i as usize {
            self.asts.resize(e.nodes.len() + 256, std::ptr::null_mut());
        }
        let r = self.asts[i as usize];
        if !r.is_null() {
            return r;
        }
        let n = e.n(i);
        let w = n.w as u32;
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(w, n.k),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), self.bv(8)),
                Op::Not => Z3_mk_not(c, self.ast(e, n.a)),
                Op::Ite => {
                    let (x, y, z) = (self.ast(e, n.a), self.ast(e, n.b), self.ast(e, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let v = [self.ast(e, n.a), self.ast(e, n.b)];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, v[0], v[1]),
                    }
                }
                Op::ZExt => {
                    let a = self.asbv(e, n.a);
                    Z3_mk_zero_ext(c, w - e.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.asbv(e, n.a);
                    Z3_mk_sign_ext(c, w - e.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.asbv(e, n.a);
                    let lo = n.k as u32;
                    let x = Z3_mk_extract(c, lo + w - 1, lo, a);
                    if w == 1 {
                        Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, self.bv(1)))
                    } else {
                        x
                    }
                }
                Op::Concat => {
                    let (a, b) = (self.asbv(e, n.a), self.asbv(e, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.ast(e, n.a), self.ast(e, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Uf if self.fp => self.fpa(e, i),
                Op::Uf => {
                    let mut dom = vec![];
                    let mut args = vec![];
                    let mut name = format!("uf{}_{}", n.k, w);
                    for x in [n.a, n.b] {
                        if x != 0 {
                            args.push(self.asbv(e, x));
                            dom.push(self.bv(e.w(x)));
                            name += &format!("_{}", e.w(x));
                        }
                    }
                    let s = CString::new(name).unwrap();
                    let rng = if w == 1 { Z3_mk_bool_sort(c) } else { self.bv(w) };
                    let d = Z3_mk_func_decl(
                        c,
                        Z3_mk_string_symbol(c, s.as_ptr()),
                        dom.len() as c_uint,
                        dom.as_ptr(),
                        rng,
                    );
                    Z3_mk_app(c, d, args.len() as c_uint, args.as_ptr())
                }
                _ => {
                    let (a, b) = (self.asbv(e, n.a), self.asbv(e, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.asts[i as usize] = r;
        r
    }

    /// A floating-point operation in the solver's theory.
    fn fpa(&mut self, e: &Exprs, i: Id) -> P {
        let n = e.n(i);
        let (w, aw, code) = (n.w as u32, e.w(n.a), (n.k / 1000) as u32);
        let a = self.asbv(e, n.a);
        let b = if n.b != 0 { Some(self.asbv(e, n.b)) } else { None };
        let c = self.ctx;
        unsafe {
            let sort = |w: u32| if w == 64 { Z3_mk_fpa_sort(c, 11, 53) } else { Z3_mk_fpa_sort(c, 8, 24) };
            let fl = |x: P| Z3_mk_fpa_to_fp_bv(c, x, sort(aw));
            let rne = Z3_mk_fpa_rne(c);
            let bits = |x: P| Z3_mk_fpa_to_ieee_bv(c, x);
            match code {
                1..=4 => {
                    let (x, y) = (fl(a), fl(b.unwrap()));
                    bits(match code {
                        1 => Z3_mk_fpa_add(c, rne, x, y),
                        2 => Z3_mk_fpa_sub(c, rne, x, y),
                        3 => Z3_mk_fpa_mul(c, rne, x, y),
                        _ => Z3_mk_fpa_div(c, rne, x, y),
                    })
                }
                16..=29 => {
                    let (x, y) = (fl(a), fl(b.unwrap()));
                    let un = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                    let un = Z3_mk_or(c, 2, un.as_ptr());
                    let or = |p: P, q: P| Z3_mk_or(c, 2, [p, q].as_ptr());
                    let eq = Z3_mk_fpa_eq(c, x, y);
                    let (lt, gt) = (Z3_mk_fpa_lt(c, x, y), Z3_mk_fpa_lt(c, y, x));
                    let (le, ge) = (Z3_mk_fpa_leq(c, x, y), Z3_mk_fpa_leq(c, y, x));
                    match code - 16 {
                        0 => eq,
                        1 => gt,
                        2 => ge,
                        3 => lt,
                        4 => le,
                        5 => Z3_mk_not(c, or(un, eq)),
                        6 => Z3_mk_not(c, un),
                        7 => or(un, eq),
                        8 => or(un, gt),
                        9 => or(un, ge),
                        10 => or(un, lt),
                        11 => or(un, le),
                        12 => Z3_mk_not(c, eq),
                        _ => un,
                    }
                }
                40 => bits(Z3_mk_fpa_to_fp_unsigned(c, rne, a, sort(w))),
                41 => bits(Z3_mk_fpa_to_fp_signed(c, rne, a, sort(w))),
                44 | 45 => bits(Z3_mk_fpa_to_fp_float(c, rne, fl(a), sort(w))),
                42 => Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fl(a), w),
                43 => Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fl(a), w),
                46 | 47 => {
                    let x = fl(a);
                    let signed = code == 47;
                    let (lo, hi) = if signed { (1u128 << (w - 1), (1u128 << (w - 1)) - 1) } else { (0, u128::MAX >> (128 - w)) };
                    let from = |v: P| {
                        if signed {
                            Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rtz(c), v, sort(aw))
                        } else {
                            Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rtz(c), v, sort(aw))
                        }
                    };
                    let (l, h, z) = (self.num(w, lo), self.num(w, hi), self.num(w, 0));
                    let r = if signed { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w) };
                    let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, from(h), x), h, r);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, x, from(l)), l, r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), z, r)
                }
                _ => {
                    let m = match code {
                        50 => Z3_mk_fpa_rtz(c),
                        51 => Z3_mk_fpa_rtn(c),
                        52 => Z3_mk_fpa_rtp(c),
                        53 => Z3_mk_fpa_rna(c),
                        _ => rne,
                    };
                    bits(Z3_mk_fpa_round_to_integral(c, m, fl(a)))
                }
            }
        }
    }
    /// Does an expression contain a floating-point operation?
    fn floats(&mut self, e: &Exprs, i: Id) -> bool {
        if i == 0 {
            return false;
        }
        if self.has_uf.len() <= i as usize {
            self.has_uf.resize(e.nodes.len() + 256, 0);
        }
        match self.has_uf[i as usize] {
            0 => {
                let n = e.n(i);
                let r = n.op == Op::Uf || self.floats(e, n.a) || self.floats(e, n.b) || self.floats(e, n.c);
                self.has_uf[i as usize] = 1 + r as u8;
                r
            }
            x => x == 2,
        }
    }
    fn for_logic(&self, l: &str) -> P {
        unsafe {
            let l = CString::new(l).unwrap();
            let s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, s);
            s
        }
    }

    /// Satisfiability of a conjunction over variables 0..nvars. Floating-point
    /// operations are first left open: no model then is none at all. A model
    /// counts when it holds under their meaning; otherwise the solver's theory
    /// of floating point decides.
    fn z3(&mut self, e: &mut Exprs, cons: &[Id], extra: Id, nvars: usize) -> Option<Model> {
        let mut fl = self.floats(e, extra);
        for &x in cons {
            fl |= self.floats(e, x);
        }
        if !fl {
            let s = self.solver;
            return self.z3_with(e, cons, extra, nvars, s, "QF_BV");
        }
        if self.uf_solver.is_none() {
            self.uf_solver = Some(self.for_logic("QF_UFBV"));
        }
        let s = self.uf_solver.unwrap();
        let m = self.z3_with(e, cons, extra, nvars, s, "QF_UFBV")?;
        let mut all = true;
        for &x in cons.iter().chain([&extra]) {
            all &= e.eval(x, &|i| m[i as usize]) == Some(1);
        }
        if all {
            return Some(m);
        }
        if self.fp_solver.is_none() {
            self.fp_solver = Some(self.for_logic("QF_FPBV"));
        }
        let s = self.fp_solver.unwrap();
        std::mem::swap(&mut self.asts, &mut self.asts_fp);
        self.fp = true;
        let r = self.z3_with(e, cons, extra, nvars, s, "QF_FPBV");
        self.fp = false;
        std::mem::swap(&mut self.asts, &mut self.asts_fp);
        r
    }
    fn z3_with(&mut self, e: &Exprs, cons: &[Id], extra: Id, nvars: usize, solver: P, logic: &str) -> Option<Model> {
        let mut asts: Vec<P> = Vec::with_capacity(cons.len() + 1);
        for &x in cons {
            asts.push(self.ast(e, x));
        }
        asts.push(self.ast(e, extra));
        let vars: Vec<P> = (0..nvars)
            .map(|i| unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, i as c_int), self.bv(8)) })
            .collect();
        let t0 = Instant::now();
        let (c, s) = (self.ctx, solver);
        let r;
        unsafe {
            Z3_solver_push(c, s);
            for a in &asts {
                Z3_solver_assert(c, s, *a);
            }
            let v = Z3_solver_check(c, s);
            if v == 1 {
                self.stats.z3_sat += 1;
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = Vec::with_capacity(nvars);
                for x in vars {
                    let mut q: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(c, m, x, true, &mut q) {
                        Z3_get_numeral_uint64(c, q, &mut u);
                    }
                    out.push(u as u8);
                }
                Z3_model_dec_ref(c, m);
                r = Some(Rc::new(out));
            } else {
                if v == 0 {
                    // out of time: this side is left out, and counted
                    self.stats.z3_unknown += 1;
                } else {
                    self.stats.z3_unsat += 1;
                }
                r = None;
            }
            Z3_solver_pop(c, s, 1);
            self.stats.z3_ns += t0.elapsed().as_nanos() as u64;
            if v == -1 {
                self.unsat_seen += 1;
                let every = match &self.dump {
                    Some((_, max, every)) if *max > 0 => *every,
                    _ => 0,
                };
                if every > 0 && self.unsat_seen % every == 1 % every {
                    let (dir, max, _) = self.dump.as_mut().unwrap();
                    *max -= 1;
                    let name = CString::new("q").unwrap();
                    let st = CString::new("unsat").unwrap();
                    let lg = CString::new(logic).unwrap();
                    let at = CString::new("").unwrap();
                    let p = Z3_benchmark_to_smtlib_string(
                        c,
                        name.as_ptr(),
                        lg.as_ptr(),
                        st.as_ptr(),
                        at.as_ptr(),
                        (asts.len() - 1) as c_uint,
                        asts.as_ptr(),
                        *asts.last().unwrap(),
                    );
                    let txt = CStr::from_ptr(p).to_string_lossy().to_string();
                    let _ = std::fs::write(
                        format!("{}/q{}_{}.smt2", dir, std::process::id(), self.unsat_seen),
                        txt,
                    );
                }
            }
        }
        r
    }

    /// Which outcomes of `cond` are possible under list `l`?  All expressions
    /// are canonical; `model` satisfies the list.
    pub fn decide(&mut self, e: &mut Exprs, l: u32, cond: Id, nvars: usize, model: &Model) -> Rc<Verdict> {
        if let Some(v) = self.memo.get(&(l, cond)) {
            self.stats.cache_hits += 1;
            return v.clone();
        }
        let cons = self.lists[l as usize].clone();
        let neg = e.not(cond);
        let ev = e.eval(cond, &|i| model[i as usize]);
        let (t, f);
        match ev {
            Some(1) => {
                self.stats.model_hits += 1;
                t = Some(model.clone());
                f = self.z3(e, &cons, neg, nvars);
            }
            Some(_) => {
                self.stats.model_hits += 1;
                f = Some(model.clone());
                t = self.z3(e, &cons, cond, nvars);
            }
            None => {
                t = self.z3(e, &cons, cond, nvars);
                f = self.z3(e, &cons, neg, nvars);
            }
        }
        let (mut tl, mut fl) = (l, l);
        if t.is_some() && f.is_some() {
            tl = self.extend(e, &cons, cond);
            fl = self.extend(e, &cons, neg);
        }
        let v = Rc::new(Verdict { t, f, t_list: tl, f_list: fl });
        self.memo.insert((l, cond), v.clone());
        v
    }
    fn extend(&mut self, e: &Exprs, cons: &[Id], c: Id) -> u32 {
        let mut v = cons.to_vec();
        let mut st = vec![c];
        while let Some(x) = st.pop() {
            let n = e.n(x);
            if n.op == Op::And && n.w == 1 {
                st.push(n.a);
                st.push(n.b);
            } else {
                v.push(x);
            }
        }
        v.sort_unstable();
        v.dedup();
        self.intern_list(v)
    }
}
