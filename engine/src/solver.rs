//! Z3 (C API) back end: incremental assertion stack mirroring a path condition.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        eprintln!("z3 error: {}", m);
        std::process::exit(3);
    }
}

pub enum Res {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    /// bit-vector translation (width 1 nodes: boolean translation)
    ast: Vec<P>,
    sorts: Vec<P>,
    pub stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    pub brief: bool,
    vars: Vec<P>,
    fresh_mode: bool,
    cache: FxMap<(u64, E), bool>,
    pub cache_hits: u64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new(timeout_ms: u32, seed: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver {
                c,
                s: std::ptr::null_mut(),
                ast: vec![],
                sorts: vec![std::ptr::null_mut(); 129],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                brief: false,
                vars: vec![],
                fresh_mode: std::env::var("RSYM_FRESH").is_ok(),
                cache: Default::default(),
                cache_hits: 0,
            };
            s.s = s.make(seed);
            s
        }
    }
    unsafe fn sym(&self, s: &str) -> P {
        let k = CString::new(s).unwrap();
        Z3_mk_string_symbol(self.c, k.as_ptr())
    }
    unsafe fn make(&mut self, seed: u32) -> P {
        let s = Z3_mk_solver_for_logic(self.c, self.sym("QF_BV"));
        Z3_solver_inc_ref(self.c, s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        Z3_params_set_uint(self.c, p, self.sym("timeout"), self.timeout_ms);
        Z3_params_set_uint(self.c, p, self.sym("random_seed"), seed);
        Z3_solver_set_params(self.c, s, p);
        s
    }
    /// answer within a second or not at all
    pub fn set_brief(&mut self, on: bool) {
        if self.brief == on {
            return;
        }
        self.brief = on;
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, self.sym("timeout"), if on { 1000 } else { self.timeout_ms });
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    unsafe fn sort(&mut self, w: u32) -> P {
        if self.sorts[w as usize].is_null() {
            self.sorts[w as usize] = Z3_mk_bv_sort(self.c, w);
        }
        self.sorts[w as usize]
    }
    unsafe fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    unsafe fn b2v(&mut self, a: P) -> P {
        let (o, z) = (self.num(1, 1), self.num(0, 1));
        Z3_mk_ite(self.c, a, o, z)
    }
    /// bit-vector view of a translated node
    unsafe fn bv(&mut self, p: &Pool, e: E) -> P {
        let a = self.ast[e as usize];
        if p.w(e) == 1 {
            self.b2v(a)
        } else {
            a
        }
    }
    unsafe fn tr(&mut self, p: &Pool, root: E) -> P {
        if self.ast.len() < p.n.len() {
            self.ast.resize(p.n.len() + 1024, std::ptr::null_mut());
        }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if !self.ast[e as usize].is_null() {
                st.pop();
                continue;
            }
            let node = &p.n[e as usize];
            let w = node.w;
            let mut miss = false;
            let mut kid = |x: E, st: &mut Vec<E>| {
                if self.ast[x as usize].is_null() {
                    st.push(x);
                    miss = true;
                }
            };
            match &node.k {
                K::Const(_) | K::Var(_) => {}
                K::Sum(ts, _) => {
                    for (t, _) in ts.iter() {
                        kid(*t, &mut st);
                    }
                }
                K::Mul(a, b)
                | K::UDiv(a, b)
                | K::URem(a, b)
                | K::SDiv(a, b)
                | K::SRem(a, b)
                | K::And(a, b)
                | K::Or(a, b)
                | K::Xor(a, b)
                | K::Shl(a, b)
                | K::LShr(a, b)
                | K::AShr(a, b)
                | K::Concat(a, b)
                | K::Eq(a, b)
                | K::Ult(a, b)
                | K::Slt(a, b) => {
                    kid(*a, &mut st);
                    kid(*b, &mut st);
                }
                K::Extract(_, a) | K::ZExt(a) | K::SExt(a) | K::Bnd(a, _) => kid(*a, &mut st),
                K::Ite(a, b, d) => {
                    kid(*a, &mut st);
                    kid(*b, &mut st);
                    kid(*d, &mut st);
                }
            }
            if miss {
                continue;
            }
            let c = self.c;
            let one_bit = w == 1;
            let r = match &node.k {
                K::Const(v) => {
                    if one_bit {
                        if *v != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(*v, w)
                    }
                }
                K::Var(i) => {
                    let s = self.sym(&format!("x{}", i));
                    let t = self.sort(8);
                    let v = Z3_mk_const(c, s, t);
                    let i = *i as usize;
                    if self.vars.len() <= i {
                        self.vars.resize(i + 1, std::ptr::null_mut());
                    }
                    self.vars[i] = v;
                    v
                }
                K::Sum(ts, k) => {
                    let mut acc: P = std::ptr::null_mut();
                    let half = mask(w) >> 1;
                    let mut neg: Vec<(E, u128)> = vec![];
                    for (t, co) in ts.iter() {
                        if *co > half {
                            neg.push((*t, co.wrapping_neg() & mask(w)));
                            continue;
                        }
                        let mut x = self.bv(p, *t);
                        if *co != 1 {
                            let n = self.num(*co, w);
                            x = Z3_mk_bvmul(c, n, x);
                        }
                        acc = if acc.is_null() { x } else { Z3_mk_bvadd(c, acc, x) };
                    }
                    if *k != 0 || acc.is_null() {
                        let n = self.num(*k, w);
                        acc = if acc.is_null() { n } else { Z3_mk_bvadd(c, acc, n) };
                    }
                    for (t, co) in neg {
                        let mut x = self.bv(p, t);
                        if co != 1 {
                            let n = self.num(co, w);
                            x = Z3_mk_bvmul(c, n, x);
                        }
                        acc = Z3_mk_bvsub(c, acc, x);
                    }
                    acc
                }
                K::Ite(a, b, d) => Z3_mk_ite(c, self.ast[*a as usize], self.ast[*b as usize], self.ast[*d as usize]),
                K::Eq(a, b) => Z3_mk_eq(c, self.ast[*a as usize], self.ast[*b as usize]),
                K::And(a, b) if one_bit => Z3_mk_and(c, 2, [self.ast[*a as usize], self.ast[*b as usize]].as_ptr()),
                K::Or(a, b) if one_bit => Z3_mk_or(c, 2, [self.ast[*a as usize], self.ast[*b as usize]].as_ptr()),
                K::Xor(a, b) if one_bit => {
                    if p.is_c(*b) == Some(1) {
                        Z3_mk_not(c, self.ast[*a as usize])
                    } else {
                        Z3_mk_xor(c, self.ast[*a as usize], self.ast[*b as usize])
                    }
                }
                k => {
                    let bin = |s: &mut Solver, f: unsafe extern "C" fn(P, P, P) -> P, a: E, b: E| {
                        let x = s.bv(p, a);
                        let y = s.bv(p, b);
                        f(c, x, y)
                    };
                    let mut is_bool = false;
                    let v = match k {
                        K::Mul(a, b) => bin(self, Z3_mk_bvmul, *a, *b),
                        K::UDiv(a, b) => bin(self, Z3_mk_bvudiv, *a, *b),
                        K::URem(a, b) => bin(self, Z3_mk_bvurem, *a, *b),
                        K::SDiv(a, b) => bin(self, Z3_mk_bvsdiv, *a, *b),
                        K::SRem(a, b) => bin(self, Z3_mk_bvsrem, *a, *b),
                        K::And(a, b) => bin(self, Z3_mk_bvand, *a, *b),
                        K::Or(a, b) => bin(self, Z3_mk_bvor, *a, *b),
                        K::Xor(a, b) => bin(self, Z3_mk_bvxor, *a, *b),
                        K::Shl(a, b) => bin(self, Z3_mk_bvshl, *a, *b),
                        K::LShr(a, b) => bin(self, Z3_mk_bvlshr, *a, *b),
                        K::AShr(a, b) => bin(self, Z3_mk_bvashr, *a, *b),
                        K::Concat(a, b) => bin(self, Z3_mk_concat, *a, *b),
                        K::Ult(a, b) => {
                            is_bool = true;
                            bin(self, Z3_mk_bvult, *a, *b)
                        }
                        K::Slt(a, b) => {
                            is_bool = true;
                            bin(self, Z3_mk_bvslt, *a, *b)
                        }
                        K::Extract(lo, a) => {
                            let x = self.bv(p, *a);
                            Z3_mk_extract(c, lo + w - 1, *lo, x)
                        }
                        K::Bnd(a, _) => self.bv(p, *a),
                        K::ZExt(a) => {
                            let x = self.bv(p, *a);
                            Z3_mk_zero_ext(c, w - p.w(*a), x)
                        }
                        K::SExt(a) => {
                            let x = self.bv(p, *a);
                            Z3_mk_sign_ext(c, w - p.w(*a), x)
                        }
                        _ => unreachable!(),
                    };
                    if one_bit && !is_bool {
                        let o = self.num(1, 1);
                        Z3_mk_eq(c, v, o)
                    } else {
                        v
                    }
                }
            };
            self.ast[e as usize] = r;
            st.pop();
        }
        self.ast[root as usize]
    }

    /// is pc /\ extra satisfiable
    pub fn check(&mut self, p: &Pool, pc: &[E], extra: E) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe { self.check_inner(p, pc, extra) };
        let d = t0.elapsed().as_secs_f64();
        self.time += d;
        if d > self.max_time {
            self.max_time = d;
        }
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }
    unsafe fn check_inner(&mut self, p: &Pool, pc: &[E], extra: E) -> Res {
        let key = {
            use std::hash::Hasher;
            let mut h = Fx::default();
            for e in pc {
                h.write_u32(*e);
            }
            (h.finish(), extra)
        };
        if self.cache.contains_key(&key) {
            self.cache_hits += 1;
            return Res::Unsat;
        }
        let mut n = 0;
        while n < self.stack.len() && n < pc.len() && self.stack[n] == pc[n] {
            n += 1;
        }
        if self.stack.len() > n {
            Z3_solver_pop(self.c, self.s, (self.stack.len() - n) as c_uint);
            self.stack.truncate(n);
        }
        for e in &pc[n..] {
            let a = self.tr(p, *e);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            self.stack.push(*e);
        }
        let a = self.tr(p, extra);
        Z3_solver_push(self.c, self.s);
        Z3_solver_assert(self.c, self.s, a);
        let mut r = Z3_solver_check(self.c, self.s);
        let mut model: P = std::ptr::null_mut();
        if r == 1 {
            model = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, model);
        }
        Z3_solver_pop(self.c, self.s, 1);
        if !self.brief && (r == 0 || (self.fresh_mode && r != 1)) {
            // retry with a fresh one-shot solver
            let t = CString::new("qfbv").unwrap();
            let ta = Z3_mk_tactic(self.c, t.as_ptr());
            let s2 = Z3_mk_solver_from_tactic(self.c, ta);
            Z3_solver_inc_ref(self.c, s2);
            let pp = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, pp);
            Z3_params_set_uint(self.c, pp, self.sym("timeout"), self.timeout_ms * 3);
            Z3_solver_set_params(self.c, s2, pp);
            for e in pc {
                let x = self.tr(p, *e);
                Z3_solver_assert(self.c, s2, x);
            }
            Z3_solver_assert(self.c, s2, a);
            r = Z3_solver_check(self.c, s2);
            if r == 1 {
                model = Z3_solver_get_model(self.c, s2);
                Z3_model_inc_ref(self.c, model);
            }
            Z3_solver_dec_ref(self.c, s2);
        }
        match r {
            1 => {
                let mut m = vec![0u8; p.vars as usize];
                for i in 0..m.len() {
                    let v = self.vars.get(i).copied().unwrap_or(std::ptr::null_mut());
                    if v.is_null() {
                        continue;
                    }
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, model, v, true, &mut out) {
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(self.c, out, &mut x);
                        m[i] = x as u8;
                    }
                }
                Z3_model_dec_ref(self.c, model);
                Res::Sat(m)
            }
            -1 => {
                self.cache.insert(key, true);
                Res::Unsat
            }
            _ => Res::Unknown,
        }
    }
}
