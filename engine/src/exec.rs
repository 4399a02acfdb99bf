//! Path-based symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}
#[derive(Clone)]
pub enum Ent {
    O(Rc<Obj>),
    Part(u64),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret_dst: u32,
    pub ret_ty: Rc<Ty>,
    pub inv: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub over: FxMap<u64, Ent>,
    pub free: Vec<u64>,
    pub next_slot: u64,
    pub pc: Vec<E>,
    pub known: FxMap<E, bool>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub obs: Vec<(String, Val, u32)>,
    pub reach: Vec<u32>,
    pub steps: u64,
    pub errno: u64,
    pub forks: u32,
}

pub enum Stop {
    /// path finished normally (returned from the entry)
    Done,
    Returned,
    AssumeFail,
    Violation(String, String),
    StepLimit,
    Error(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum H {
    Body,
    Panic,
    Any,
    Assume,
    Bound,
    Fail,
    Param,
    Observe,
    Reach,
    Merge,
    IsSym,
    Concretize,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    Write,
    Writev,
    Ret0,
    Ret1,
    KeyCreate,
    Errno,
    Getrandom,
    Syscall,
    Abort,
    Exit,
    Sysconf,
    Nop,
    IAssume,
    IExpect,
    Ovf(Bin, bool),
    MinMax(u8),
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Sat(Bin, bool),
    Tls,
    IsConst,
    ObjSize,
    Cmp3(bool),
    VReduce(u8),
    PtrMask,
    Ucmp,
    Unsupported,
}

pub struct Violation {
    pub msg: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub input: Vec<u8>,
    pub kind: String,
}
pub struct Trace {
    pub input: Vec<u8>,
    pub obs: Vec<(String, u64)>,
}

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    base: Vec<Option<Ent>>,
    base_slots: FxMap<u64, u32>,
    handlers: Vec<Option<H>>,
    pub params: std::collections::HashMap<String, u64>,
    pub work: Vec<State>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub traces: Vec<Trace>,
    pub paths: u64,
    pub assume_failed: u64,
    pub forks: u64,
    pub steps: u64,
    pub branches_sym: u64,
    pub reach: std::collections::BTreeMap<u32, u64>,
    pub blocks_hit: Vec<bool>,
    pub max_steps_path: u64,
    pub deadline: Option<Instant>,
    pub max_paths: u64,
    /// truth value of the branch condition being decided that leads to a failed assertion
    pub fail_side: Option<bool>,
    pub fail_blocks: std::collections::HashMap<(u32, u32), bool>,
    pub rng: u64,
    pub max_viol: usize,
    pub max_traces: usize,
    pub complete: bool,
    pub used_params: std::collections::BTreeMap<String, u64>,
    pub merges: u64,
    pub merged_states: u64,
    pub verbose: bool,
    pub max_vars: u32,
    cur_stop_depth: usize,
    hot: FxMap<(u32, u32, u32), u64>,
}

fn cval(v: &Val) -> Option<u64> {
    if let Val::C(x) = v {
        Some(*x)
    } else {
        None
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32, seed: u32) -> Engine {
        let nslots = m.first_free_slot() as usize + 1;
        let mut base_slots: FxMap<u64, u32> = Default::default();
        let mut base: Vec<Option<Ent>> = vec![None; nslots];
        for (i, g) in m.globals.iter().enumerate() {
            let s = g.addr >> 16;
            base_slots.insert(s, i as u32);
            for k in 1..=(g.size >> 16) {
                base[(s + k) as usize] = Some(Ent::Part(s));
            }
        }
        let nf = m.funcs.len();
        Engine {
            m,
            p: Pool::new(),
            s: Solver::new(timeout_ms, seed),
            base,
            base_slots,
            handlers: vec![None; nf],
            params: Default::default(),
            work: vec![],
            violations: vec![],
            errors: vec![],
            traces: vec![],
            paths: 0,
            assume_failed: 0,
            forks: 0,
            steps: 0,
            branches_sym: 0,
            reach: Default::default(),
            blocks_hit: vec![],
            max_steps_path: 400_000_000,
            deadline: None,
            max_paths: u64::MAX,
            max_viol: 12,
            max_traces: 24,
            complete: true,
            used_params: Default::default(),
            merges: 0,
            merged_states: 0,
            verbose: false,
            max_vars: 0,
            cur_stop_depth: 0,
            hot: Default::default(),
            fail_side: None,
            fail_blocks: Default::default(),
            rng: seed as u64 * 0x9e3779b97f4a7c15 + 1,
        }
    }

    // ---------- values
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.p.c(*x as u128, w),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn norm(&self, e: E) -> Val {
        if self.p.w(e) <= 64 {
            if let Some(c) = self.p.is_c(e) {
                return Val::C(c as u64);
            }
        }
        Val::S(e)
    }
    fn get(&self, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::V(v) => v.clone(),
        }
    }

    // ---------- memory
    fn base_obj(&mut self, slot: u64) -> Option<Rc<Obj>> {
        if let Some(Ent::O(o)) = self.base.get(slot as usize)?.as_ref() {
            return Some(o.clone());
        }
        let gi = *self.base_slots.get(&slot)?;
        let data = self.m.global_bytes(gi);
        let g = &self.m.globals[gi as usize];
        let o = Rc::new(Obj { size: g.size, data, sym: None, ro: g.constant });
        self.base[slot as usize] = Some(Ent::O(o.clone()));
        Some(o)
    }
    /// (base slot, object)
    fn find(&mut self, st: &State, addr: u64) -> Option<(u64, Rc<Obj>)> {
        let slot = addr >> 16;
        if let Some(e) = st.over.get(&slot) {
            match e {
                Ent::O(o) => return Some((slot, o.clone())),
                Ent::Part(b) => {
                    if let Some(Ent::O(o)) = st.over.get(b) {
                        return Some((*b, o.clone()));
                    }
                    return None;
                }
            }
        }
        if let Some(Some(Ent::Part(b))) = self.base.get(slot as usize) {
            let b = *b;
            if let Some(Ent::O(o)) = st.over.get(&b) {
                return Some((b, o.clone()));
            }
            return self.base_obj(b).map(|o| (b, o));
        }
        self.base_obj(slot).map(|o| (slot, o))
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let n = (size >> 16) + 1;
        let slot = if n == 1 {
            match st.free.pop() {
                Some(s) => s,
                None => {
                    let s = st.next_slot;
                    st.next_slot += 1;
                    s
                }
            }
        } else {
            let s = st.next_slot;
            st.next_slot += n;
            s
        };
        for k in 1..n {
            st.over.insert(slot + k, Ent::Part(slot));
        }
        st.over.insert(slot, Ent::O(Rc::new(Obj { size, data: vec![0; size as usize], sym: None, ro: false })));
        slot << 16
    }
    fn free(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let slot = addr >> 16;
        match st.over.get(&slot) {
            Some(Ent::O(o)) if addr & 0xffff == 0 => {
                let n = (o.size >> 16) + 1;
                st.over.remove(&slot);
                for k in 1..n {
                    st.over.remove(&(slot + k));
                }
                if n == 1 {
                    st.free.push(slot);
                }
                Ok(())
            }
            _ => Err(Stop::Violation("memory: invalid free".into(), "mem".into())),
        }
    }
    fn obj_at(&mut self, st: &State, addr: u64, n: u64) -> R<(u64, Rc<Obj>)> {
        match self.find(st, addr) {
            Some((b, o)) => {
                let off = addr - (b << 16);
                if off + n <= o.size {
                    Ok((off, o))
                } else {
                    Err(Stop::Violation(format!("memory: out of bounds access of {} bytes at offset {} of object of {} bytes", n, off, o.size), "mem".into()))
                }
            }
            None => Err(Stop::Violation(format!("memory: access of {} bytes at invalid address {:#x}", n, addr), "mem".into())),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> R<(u64, &'a mut Obj)> {
        let slot = addr >> 16;
        if !matches!(st.over.get(&slot), Some(Ent::O(_))) {
            // find and bring global into the overlay
            match self.find(st, addr) {
                Some((b, o)) => {
                    if !st.over.contains_key(&b) {
                        if o.ro {
                            return Err(Stop::Violation("memory: write to constant".into(), "mem".into()));
                        }
                        st.over.insert(b, Ent::O(o));
                    }
                    let off = addr - (b << 16);
                    match st.over.get_mut(&b) {
                        Some(Ent::O(o)) => {
                            if off + n > o.size {
                                return Err(Stop::Violation(format!("memory: out of bounds write of {} bytes at offset {} of object of {} bytes", n, off, o.size), "mem".into()));
                            }
                            return Ok((off, Rc::make_mut(o)));
                        }
                        _ => unreachable!(),
                    }
                }
                None => return Err(Stop::Violation(format!("memory: write of {} bytes at invalid address {:#x}", n, addr), "mem".into())),
            }
        }
        match st.over.get_mut(&slot) {
            Some(Ent::O(o)) => {
                let off = addr & 0xffff;
                if off + n > o.size {
                    return Err(Stop::Violation(format!("memory: out of bounds write of {} bytes at offset {} of object of {} bytes", n, off, o.size), "mem".into()));
                }
                Ok((off, Rc::make_mut(o)))
            }
            _ => unreachable!(),
        }
    }
    fn obj_val(&mut self, o: &Obj, off: u64, n: u64) -> Val {
        let off = off as usize;
        let n = n as usize;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|x| *x != 0) {
                let mut acc: E = 0;
                if n > 1 && n <= 16 && s[off..off + n].iter().any(|x| *x == 0) {
                    let mut key = vec![];
                    for i in 0..n {
                        key.push(if s[off + i] != 0 { s[off + i] } else { self.p.c(o.data[off + i] as u128, 8) });
                    }
                    if let Some(e) = self.p.wide.get(&key[..]) {
                        return Val::S(*e);
                    }
                }
                if n > 1 && s[off..off + n].iter().all(|x| *x != 0) {
                    // bytes written as one wide value read back as that value
                    if let Some(e) = self.p.wide.get(&s[off..off + n]) {
                        return Val::S(*e);
                    }
                }
                for i in 0..n {
                    let b = if s[off + i] != 0 { s[off + i] } else { self.p.c(o.data[off + i] as u128, 8) };
                    acc = if i == 0 { b } else { self.p.concat(b, acc) };
                }
                return self.norm(acc);
            }
        }
        if n <= 8 {
            let mut v = 0u64;
            for i in 0..n {
                v |= (o.data[off + i] as u64) << (8 * i);
            }
            Val::C(v)
        } else {
            let mut v = 0u128;
            for i in 0..n {
                v |= (o.data[off + i] as u128) << (8 * i);
            }
            Val::S(self.p.c(v, 8 * n as u32))
        }
    }
    fn read(&mut self, st: &State, addr: u64, n: u64) -> R<Val> {
        let (off, o) = self.obj_at(st, addr, n)?;
        Ok(self.obj_val(&o, off, n))
    }
    fn put(p: &mut Pool, o: &mut Obj, off: u64, n: u64, v: &Val) {
        let off = off as usize;
        let n = n as usize;
        match v {
            Val::C(x) => {
                for i in 0..n {
                    o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s[off + i] = 0;
                    }
                }
            }
            Val::S(e) => {
                let w = p.w(*e);
                let e = if w < 8 * n as u32 { p.zext(*e, 8 * n as u32) } else { *e };
                if o.sym.is_none() {
                    o.sym = Some(vec![0; o.size as usize]);
                }
                for i in 0..n {
                    let b = p.extract(e, 8 * i as u32, 8);
                    match p.is_c(b) {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym.as_mut().unwrap()[off + i] = 0;
                        }
                        None => o.sym.as_mut().unwrap()[off + i] = b,
                    }
                }
                let sy = &o.sym.as_ref().unwrap()[off..off + n];
                if n > 1 && n <= 16 && matches!(p.n[e as usize].k, K::Sum(..)) && sy.iter().any(|x| *x != 0) && sy.iter().any(|x| *x == 0) {
                    // some bytes are constant: the concatenation of the others would hide the sum
                    let mut key = vec![];
                    for i in 0..n {
                        let b = o.sym.as_ref().unwrap()[off + i];
                        key.push(if b != 0 { b } else { p.c(o.data[off + i] as u128, 8) });
                    }
                    p.wide.insert(key.into(), e);
                } else if n > 1 && n <= 16 && sy.iter().all(|x| *x != 0) {
                    if !p.wide.contains_key(sy) {
                        p.wide.insert(sy.into(), e);
                    }
                }
            }
            Val::Agg(_) => panic!("put agg"),
        }
    }
    fn write(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> R<()> {
        let (off, o) = self.obj_mut(st, addr, n)?;
        // o borrows st only
        let o: *mut Obj = o;
        unsafe { Self::put(&mut self.p, &mut *o, off, n, v) };
        Ok(())
    }
    fn byte(&mut self, o: &Obj, off: u64) -> E {
        if let Some(s) = &o.sym {
            let e = s[off as usize];
            if e != 0 {
                return e;
            }
        }
        self.p.c(o.data[off as usize] as u128, 8)
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, s) = self.obj_at(st, src, n)?;
        let (so, n2) = (so as usize, n as usize);
        let data = s.data[so..so + n2].to_vec();
        let sym = s.sym.as_ref().map(|x| x[so..so + n2].to_vec());
        drop(s);
        let (d, o) = self.obj_mut(st, dst, n)?;
        let d = d as usize;
        o.data[d..d + n2].copy_from_slice(&data);
        match sym {
            Some(sy) => {
                if sy.iter().any(|x| *x != 0) {
                    if o.sym.is_none() {
                        o.sym = Some(vec![0; o.size as usize]);
                    }
                    o.sym.as_mut().unwrap()[d..d + n2].copy_from_slice(&sy);
                } else if let Some(x) = &mut o.sym {
                    x[d..d + n2].fill(0);
                }
            }
            None => {
                if let Some(x) = &mut o.sym {
                    x[d..d + n2].fill(0);
                }
            }
        }
        Ok(())
    }

    // ---------- path conditions
    fn model_val(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        self.p.eval(e, &m)
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        // split conjunctions
        if let K::And(a, b) = self.p.n[c as usize].k {
            self.add_pc(st, a);
            self.add_pc(st, b);
            return;
        }
        if self.p.is_c(c).is_some() {
            return;
        }
        if st.known.get(&c) == Some(&true) {
            return;
        }
        st.known.insert(c, true);
        st.pc.push(c);
    }
    fn known(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.p.is_c(c) {
            return Some(v != 0);
        }
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        match self.p.n[c as usize].k {
            K::Xor(a, b) if self.p.is_c(b) == Some(1) => self.known(st, a).map(|x| !x),
            K::And(a, b) => {
                let (x, y) = (self.known(st, a), self.known(st, b));
                match (x, y) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                }
            }
            K::Or(a, b) => {
                let (x, y) = (self.known(st, a), self.known(st, b));
                match (x, y) {
                    (Some(true), _) | (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(false),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn learn(&mut self, st: &mut State, c: E, v: bool) {
        st.known.insert(c, v);
    }
    /// decide a branch condition; forks when both sides are feasible. The other
    /// side is pushed with the current instruction re-executed.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        self.branches_sym += 1;
        let v = self.model_val(st, c) != 0;
        let nc = self.p.not(c);
        let (same, other) = if v { (c, nc) } else { (nc, c) };
        let tq = std::time::Instant::now();
        let failing = self.fail_side == Some(v);
        let mut rq = None;
        if self.fail_side == Some(!v) {
            rq = self.guess(st, other).map(Res::Sat);
        }
        let rq = match rq {
            Some(r) => r,
            None => {
                // the current model already violates the assertion: whether another input meets it is secondary
                self.s.set_brief(failing);
                let r = self.s.check(&self.p, &st.pc, other);
                self.s.set_brief(false);
                r
            }
        };
        self.note_slow(st, tq, "branch", c, v);
        match rq {
            Res::Unsat => {
                self.learn(st, c, v);
                Ok(v)
            }
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = Rc::new(m);
                o.forks += 1;
                self.add_pc(&mut o, other);
                o.known.insert(c, !v);
                self.forks += 1;
                self.note_fork(st);
                self.work.push(o);
                st.forks += 1;
                self.add_pc(st, same);
                st.known.insert(c, v);
                Ok(v)
            }
            Res::Unknown if failing => {
                self.complete = false;
                self.errors.push("the inputs that meet a violated assertion were not followed further".into());
                self.add_pc(st, same);
                st.known.insert(c, v);
                Ok(v)
            }
            Res::Unknown => Err(Stop::Error("solver returned unknown".into())),
        }
    }
    /// a few concrete inputs that satisfy the path condition, tried before the solver is asked for a violation
    fn guess(&mut self, st: &State, bad: E) -> Option<Vec<u8>> {
        let n = self.p.vars as usize;
        for k in 0..6 {
            let mut m: Vec<u8> = (*st.model).clone();
            m.resize(n, 0);
            for i in 0..n {
                self.rng ^= self.rng << 13;
                self.rng ^= self.rng >> 7;
                self.rng ^= self.rng << 17;
                if k < 2 || (self.rng >> 40) % n as u64 == 0 {
                    m[i] = (self.rng >> 20) as u8;
                }
            }
            if self.p.eval(bad, &m) != 0 && st.pc.iter().all(|c| self.p.eval(*c, &m) != 0) {
                return Some(m);
            }
        }
        None
    }
    /// does a block lead straight to a failed assertion or a panic
    fn fails(&mut self, f: &Rc<Func>, mut b: u32) -> bool {
        if let Some(r) = self.fail_blocks.get(&(f.idx, b)) {
            return *r;
        }
        let b0 = b;
        let mut r = false;
        for _ in 0..4 {
            let mut next = None;
            for i in f.blocks[b as usize].ins.iter() {
                match &i.i {
                    I::Call(Callee::Fn(k), ..) => {
                        let n = &self.m.funcs[*k as usize].name;
                        if n.contains("4vsym4fail") || n.contains("rsym_fail") || n.contains("9panicking") || n.contains("unwrap_failed") || n.contains("expect_failed") {
                            r = true;
                        }
                    }
                    I::Br(t) => next = Some(*t),
                    _ => {}
                }
            }
            match next {
                Some(t) if !r => b = t,
                _ => break,
            }
        }
        self.fail_blocks.insert((f.idx, b0), r);
        r
    }
    /// 64-bit division by a constant where the operand's range allows only a few quotients:
    /// decide which (forking), so that quotient and remainder stay linear
    fn div_fork(&mut self, st: &mut State, op: Bin, a: &Val, b: &Val, w: u32) -> R<Option<Val>> {
        let (e, y) = match (op, a, b) {
            (Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem, Val::S(e), Val::C(y)) if w == 64 && *y > 1 && *y < 1 << 62 => (*e, *y as u128),
            _ => return Ok(None),
        };
        let signed = matches!(op, Bin::SDiv | Bin::SRem);
        let (lo, hi) = match self.p.srange(e) {
            Some(r) if r.0 >= 0 || signed => r,
            _ => return Ok(None),
        };
        if !signed && y.is_power_of_two() {
            return Ok(None);
        }
        let zero = self.p.c(0, w);
        let (q, r) = self.p.divide(e, y).unwrap_or((zero, e));
        let (rl, rh) = match self.p.srange(r) {
            Some(x) if x.0 >= 0 && x.1 < i64::MAX as i128 / 2 => (x.0 as u128, x.1 as u128),
            _ => return Ok(None),
        };
        let (kl, kh) = (rl / y, rh / y);
        if kh - kl > 4 {
            return Ok(None);
        }
        let mut k = kl;
        while k < kh {
            let t = self.p.c((k + 1) * y, w);
            let c = self.p.ult(r, t);
            if self.decide(st, c)? {
                break;
            }
            k += 1;
        }
        let t = self.p.c(k * y, w);
        let mut rem = self.p.sub(r, t);
        if kh > kl {
            rem = self.p.bnd(rem, y);
        }
        let kc = self.p.c(k, w);
        let mut quo = self.p.add(q, kc);
        if lo < 0 {
            let neg = if hi < 0 {
                true
            } else {
                let c = self.p.slt(e, zero);
                self.decide(st, c)?
            };
            let c = self.p.eq(rem, zero);
            if neg && !self.decide(st, c)? {
                let one = self.p.c(1, w);
                quo = self.p.add(quo, one);
                let t = self.p.c(y, w);
                rem = self.p.sub(rem, t);
            }
        }
        let v = if matches!(op, Bin::UDiv | Bin::SDiv) { quo } else { rem };
        Ok(Some(self.norm(v)))
    }
    fn note_slow(&self, st: &State, t: std::time::Instant, what: &str, c: E, v: bool) {
        if self.verbose && t.elapsed().as_secs_f64() > std::env::var("RSYM_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.5) {
            eprintln!("slow {} {:.2}s pc={} v={} {} at {}", what, t.elapsed().as_secs_f64(), st.pc.len(), v, self.p.show(c, std::env::var("RSYM_SHOW").ok().and_then(|x| x.parse().ok()).unwrap_or(4)), self.backtrace(st).join(" <- "));
        }
    }
    fn note_fork(&mut self, st: &State) {
        if self.verbose {
            let f = st.frames.last().unwrap();
            *self.hot.entry((f.f.idx, f.block, f.ip)).or_insert(0) += 1;
        }
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::S(e) => *e,
            Val::Agg(_) => return Err(Stop::Error("concretize aggregate".into())),
        };
        if let Some(c) = self.p.is_c(e) {
            return Ok(c as u64);
        }
        let x = self.model_val(st, e);
        let k = self.p.c(x, w);
        let c = self.p.eq(e, k);
        if let Some(true) = self.known(st, c) {
            return Ok(x as u64);
        }
        let nc = self.p.not(c);
        let tq = std::time::Instant::now();
        let rq = self.s.check(&self.p, &st.pc, nc);
        self.note_slow(st, tq, "concretize", c, true);
        match rq {
            Res::Unsat => {
                self.learn(st, c, true);
            }
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = Rc::new(m);
                o.forks += 1;
                self.add_pc(&mut o, nc);
                o.known.insert(c, false);
                self.forks += 1;
                self.note_fork(st);
                self.work.push(o);
                self.add_pc(st, c);
                st.known.insert(c, true);
                st.forks += 1;
            }
            Res::Unknown => return Err(Stop::Error("solver returned unknown (concretize)".into())),
        }
        Ok(x as u64)
    }

    // ---------- symbolic addresses
    /// resolve ite structure of a pointer by deciding its conditions
    fn simplify_ptr(&mut self, st: &mut State, mut e: E) -> R<E> {
        loop {
            match self.p.n[e as usize].k.clone() {
                K::Ite(c, a, b) => {
                    let v = self.decide(st, c)?;
                    e = if v { a } else { b };
                }
                K::Sum(ts, k) => {
                    let mut hit = None;
                    for (t, co) in ts.iter() {
                        if *co == 1 && matches!(self.p.n[*t as usize].k, K::Ite(..)) && self.p.n[*t as usize].hi >= (16 << 16) && k < (16 << 16) {
                            hit = Some(*t);
                            break;
                        }
                    }
                    match hit {
                        Some(t) => {
                            if let K::Ite(c, a, b) = self.p.n[t as usize].k {
                                let v = self.decide(st, c)?;
                                let nt = if v { a } else { b };
                                let r = self.p.sub(e, t);
                                e = self.p.add(r, nt);
                            }
                        }
                        None => return Ok(e),
                    }
                }
                _ => return Ok(e),
            }
        }
    }
    /// pick the object a symbolic address points to; constrain to in bounds; returns base slot, obj, offset expr
    fn resolve(&mut self, st: &mut State, e: E, n: u64) -> R<(u64, Rc<Obj>, E)> {
        let a0 = self.model_val(st, e) as u64;
        let (b, o) = match self.find(st, a0) {
            Some(x) => x,
            None => return Err(Stop::Violation(format!("memory: symbolic access of {} bytes can reach invalid address {:#x}", n, a0), "mem".into())),
        };
        let base = b << 16;
        if a0 - base + n > o.size {
            return Err(Stop::Violation(format!("memory: symbolic access of {} bytes can reach offset {} of object of {} bytes", n, a0 - base, o.size), "mem".into()));
        }
        let bc = self.p.c(base as u128, 64);
        let off = self.p.sub(e, bc);
        let lim = self.p.c((o.size - n) as u128, 64);
        let inb = self.p.ule(off, lim);
        if !self.decide(st, inb)? {
            return Err(Stop::Error("resolve inconsistent".into()));
        }
        Ok((b, o, off))
    }
    /// candidate index set of an offset expression: (index expr, list of (index value, offset))
    fn candidates(&mut self, off: E, max_off: u64) -> (E, u64, u64, u64, u64) {
        // returns (idx, c0, stride, ilo, ihi): offset = c0 + stride*idx (mod 2^64)
        if let K::Sum(ts, c) = self.p.n[off as usize].k.clone() {
            if ts.len() == 1 {
                let (t, co) = ts[0];
                let co = co as u64;
                let (tl, th) = (self.p.n[t as usize].lo as u64, self.p.n[t as usize].hi as u64);
                // c0 + co*t must not wrap around (unless t is a small signed value, see below)
                let nowrap = th as u128 * co as u128 + 0x1_0000_0000 < 1 << 63 && (c as u64 as i64).unsigned_abs() < 1 << 62;
                let small = matches!(self.p.n[t as usize].k, K::SExt(x) if self.p.w(x) <= 16);
                if co < (1 << 32) && co > 0 && (nowrap || small) {
                    let c0 = c as u64;
                    // clip to in bounds: c0 + co*i in [0,max_off] (mod 2^64)
                    let c0s = c0 as i64;
                    let lo = if c0s < 0 { ((-(c0s as i128)) as u128 + co as u128 - 1) / co as u128 } else { 0 };
                    let hi = (max_off as i128 - c0s as i128).div_euclid(co as i128);
                    if let K::SExt(x) = self.p.n[t as usize].k.clone() {
                        let wx = self.p.w(x);
                        if wx <= 16 {
                            // negative half: c0 + co * (x - 2^wx)
                            let c1 = c0s as i128 - co as i128 * (1i128 << wx);
                            let half = 1i128 << (wx - 1);
                            let nlo = ((-c1).max(0) + co as i128 - 1).div_euclid(co as i128).max(half);
                            let nhi = (max_off as i128 - c1).div_euclid(co as i128).min(2 * half - 1);
                            if hi < 0 || hi < lo as i128 {
                                return (x, c1 as i64 as u64, co, nlo.max(0) as u64, nhi.max(0) as u64);
                            }
                            if nhi < nlo {
                                return (x, c0, co, lo as u64, hi.min(half - 1) as u64);
                            }
                            // both halves are possible: let the caller split by value
                            return (t, c0, co, 0, 1 << 40);
                        }
                    }
                    let ilo = tl.max(lo as u64);
                    let ihi = th.min(hi.max(0) as u64);
                    return (t, c0, co, ilo, ihi);
                }
            }
            // common power of two stride
            let tz = self.p.tz(off);
            if tz > 0 && tz < 16 {
                let idx = self.p.extract(off, tz, 64 - tz);
                let (l, h) = (self.p.n[off as usize].lo as u64, self.p.n[off as usize].hi as u64);
                return (idx, 0, 1 << tz, l >> tz, h.min(max_off) >> tz);
            }
        }
        let (l, h) = (self.p.n[off as usize].lo as u64, self.p.n[off as usize].hi as u64);
        let tz = self.p.tz(off).min(6);
        if tz > 0 {
            let idx = self.p.extract(off, tz, 64 - tz);
            return (idx, 0, 1 << tz, l >> tz, h.min(max_off) >> tz);
        }
        (off, 0, 1, l, h.min(max_off))
    }
    fn mux(&mut self, idx: E, bit: u32, base: u64, lo: u64, hi: u64, leaf: &mut dyn FnMut(&mut Engine, u64) -> E) -> Option<E> {
        let span = 1u64 << bit;
        if base > hi || base + (span - 1) < lo {
            return None;
        }
        if bit == 0 {
            return Some(leaf(self, base));
        }
        let half = span >> 1;
        let z = self.mux(idx, bit - 1, base, lo, hi, leaf);
        let o = self.mux(idx, bit - 1, base + half, lo, hi, leaf);
        match (z, o) {
            (Some(z), Some(o)) => {
                if z == o {
                    return Some(z);
                }
                let w = self.p.w(idx);
                if bit - 1 >= w {
                    return Some(z);
                }
                let b = self.p.extract(idx, bit - 1, 1);
                Some(self.p.ite(b, o, z))
            }
            (Some(z), None) => Some(z),
            (None, o) => o,
        }
    }
    fn sym_read(&mut self, st: &mut State, e: E, n: u64) -> R<Val> {
        let e = self.simplify_ptr(st, e)?;
        if let Some(a) = self.p.is_c(e) {
            return self.read(st, a as u64, n);
        }
        let (_b, o, off) = self.resolve(st, e, n)?;
        if let Some(c) = self.p.is_c(off) {
            return Ok(self.obj_val(&o, c as u64, n));
        }
        let (idx, c0, stride, ilo, ihi) = self.candidates(off, o.size - n);
        if ihi < ilo {
            return Err(Stop::Error("symbolic read: empty candidate range".into()));
        }
        if ihi - ilo > 70000 {
            let a = self.concretize(st, &Val::S(e), 64)?;
            return self.read(st, a, n);
        }
        let bits = 64 - ihi.leading_zeros();
        let w = 8 * n as u32;
        if c0.wrapping_add(stride.wrapping_mul(ilo)).checked_add(n).map_or(true, |x| x > o.size) || c0.wrapping_add(stride.wrapping_mul(ihi)).checked_add(n).map_or(true, |x| x > o.size) {
            return Err(Stop::Error(format!("symbolic read: candidates {}..{} * {} + {} outside object of {} bytes: {}", ilo, ihi, stride, c0, o.size, self.p.show(off, 6))));
        }
        let r = self.mux(idx, bits, 0, ilo, ihi, &mut |en, i| {
            let of = c0.wrapping_add(stride.wrapping_mul(i));
            let v = en.obj_val(&o, of, n);
            en.e(&v, w)
        });
        match r {
            Some(e) => Ok(self.norm(e)),
            None => Err(Stop::Error("symbolic read: no leaf".into())),
        }
    }
    fn sym_write(&mut self, st: &mut State, e: E, n: u64, v: &Val) -> R<()> {
        let e = self.simplify_ptr(st, e)?;
        if let Some(a) = self.p.is_c(e) {
            return self.write(st, a as u64, n, v);
        }
        let (b, o, off) = self.resolve(st, e, n)?;
        if let Some(c) = self.p.is_c(off) {
            return self.write(st, (b << 16) + c as u64, n, v);
        }
        let (idx, c0, stride, ilo, ihi) = self.candidates(off, o.size - n);
        if ihi < ilo || ihi - ilo > 300 {
            let a = self.concretize(st, &Val::S(e), 64)?;
            return self.write(st, a, n, v);
        }
        drop(o);
        let ve = self.e(v, 8 * n as u32);
        let w = self.p.w(ve);
        let ve = if w < 8 * n as u32 { self.p.zext(ve, 8 * n as u32) } else { ve };
        let iw = self.p.w(idx);
        for i in ilo..=ihi {
            let of = c0.wrapping_add(stride.wrapping_mul(i));
            let ic = self.p.c(i as u128, iw);
            let cond = self.p.eq(idx, ic);
            if self.p.is_c(cond) == Some(0) {
                continue;
            }
            for k in 0..n {
                let addr = (b << 16) + of + k;
                let nb = self.p.extract(ve, 8 * k as u32, 8);
                let (oo, ob) = self.obj_at(st, addr, 1)?;
                let old = self.byte(&ob, oo);
                drop(ob);
                let x = self.p.ite(cond, nb, old);
                let x = self.norm(x);
                self.write(st, addr, 1, &x)?;
            }
        }
        Ok(())
    }
    fn load_n(&mut self, st: &mut State, a: &Val, n: u64) -> R<Val> {
        match a {
            Val::C(x) => self.read(st, *x, n),
            Val::S(e) => self.sym_read(st, *e, n),
            _ => Err(Stop::Error("aggregate address".into())),
        }
    }
    fn store_n(&mut self, st: &mut State, a: &Val, n: u64, v: &Val) -> R<()> {
        match a {
            Val::C(x) => self.write(st, *x, n, v),
            Val::S(e) => self.sym_write(st, *e, n, v),
            _ => Err(Stop::Error("aggregate address".into())),
        }
    }
    fn addr_add(&mut self, a: &Val, o: u64) -> Val {
        if o == 0 {
            return a.clone();
        }
        match a {
            Val::C(x) => Val::C(x.wrapping_add(o)),
            Val::S(e) => {
                let c = self.p.c(o as u128, 64);
                let r = self.p.add(*e, c);
                self.norm(r)
            }
            _ => panic!(),
        }
    }
    fn trunc_val(&mut self, v: Val, w: u32) -> Val {
        match v {
            Val::C(x) => Val::C(x & m64(w)),
            Val::S(e) => {
                if self.p.w(e) > w {
                    let r = self.p.extract(e, 0, w);
                    self.norm(r)
                } else {
                    Val::S(e)
                }
            }
            v => v,
        }
    }
    fn load_ty(&mut self, st: &mut State, t: &Ty, a: &Val) -> R<Val> {
        match t {
            Ty::Int(w) => {
                let v = self.load_n(st, a, t.store_size())?;
                if w % 8 != 0 {
                    Ok(self.trunc_val(v, *w))
                } else {
                    Ok(v)
                }
            }
            Ty::Flt(_) | Ty::Ptr => self.load_n(st, a, t.store_size()),
            Ty::Vec(n, e) => {
                if e.bits() < 8 {
                    let v = self.load_n(st, a, t.store_size())?;
                    return Ok(self.split_vec(&v, *n as u32, e.bits()));
                }
                // symbolic vector address: single wide read keeps it simple
                let mut v = Vec::with_capacity(*n as usize);
                let es = e.store_size();
                for i in 0..*n {
                    let ad = self.addr_add(a, i * es);
                    v.push(self.load_n(st, &ad, es)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, _) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    let ad = self.addr_add(a, t.field_off(i));
                    v.push(self.load_ty(st, &t.field(i), &ad)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let ad = self.addr_add(a, t.field_off(i));
                    v.push(self.load_ty(st, &f[i], &ad)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Stop::Error(format!("load of {:?}", t))),
        }
    }
    fn store_ty(&mut self, st: &mut State, t: &Ty, a: &Val, v: &Val) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Flt(_) | Ty::Ptr => self.store_n(st, a, t.store_size(), v),
            Ty::Vec(n, e) => {
                let vs = match v {
                    Val::Agg(x) => x.clone(),
                    _ => return Err(Stop::Error("vector store".into())),
                };
                if e.bits() < 8 {
                    let x = self.join_vec(&vs, e.bits());
                    return self.store_n(st, a, t.store_size(), &x);
                }
                let es = e.store_size();
                for i in 0..*n {
                    let ad = self.addr_add(a, i * es);
                    self.store_n(st, &ad, es, &vs[i as usize])?;
                }
                Ok(())
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let vs = match v {
                    Val::Agg(x) => x.clone(),
                    _ => return Err(Stop::Error("aggregate store".into())),
                };
                for i in 0..vs.len() {
                    let ad = self.addr_add(a, t.field_off(i));
                    self.store_ty(st, &t.field(i), &ad, &vs[i])?;
                }
                Ok(())
            }
            _ => Err(Stop::Error(format!("store of {:?}", t))),
        }
    }
    fn split_vec(&mut self, v: &Val, n: u32, ew: u32) -> Val {
        let mut out = Vec::with_capacity(n as usize);
        for i in 0..n {
            out.push(match v {
                Val::C(x) => Val::C(if i * ew >= 64 { 0 } else { (x >> (i * ew)) & m64(ew) }),
                Val::S(e) => {
                    let r = self.p.extract(*e, i * ew, ew);
                    self.norm(r)
                }
                _ => panic!(),
            });
        }
        Val::Agg(Rc::new(out))
    }
    fn join_vec(&mut self, vs: &[Val], ew: u32) -> Val {
        let tot = ew * vs.len() as u32;
        if tot <= 64 && vs.iter().all(|v| cval(v).is_some()) {
            let mut x = 0u64;
            for (i, v) in vs.iter().enumerate() {
                x |= cval(v).unwrap() << (i as u32 * ew);
            }
            return Val::C(x);
        }
        let mut acc: E = 0;
        for (i, v) in vs.iter().enumerate() {
            let e = self.e(v, ew);
            acc = if i == 0 { e } else { self.p.concat(e, acc) };
        }
        self.norm(acc)
    }

    // ---------- arithmetic
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sx64(x, w) >> y.min(w as u64 - 1)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return Err(Stop::Violation("division by zero".into(), "ub".into()));
                    }
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sx64(x, w).wrapping_div(sx64(y, w)) as u64,
                        _ => sx64(x, w).wrapping_rem(sx64(y, w)) as u64,
                    }
                }
            };
            return Ok(Val::C(r & m));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let p = &mut self.p;
        let r = match op {
            Bin::Add => p.add(x, y),
            Bin::Sub => p.sub(x, y),
            Bin::Mul => p.mul(x, y),
            Bin::And => p.and(x, y),
            Bin::Or => p.or(x, y),
            Bin::Xor => p.xor(x, y),
            Bin::Shl => p.shl(x, y),
            Bin::LShr => p.lshr(x, y),
            Bin::AShr => p.ashr(x, y),
            Bin::UDiv => p.udiv(x, y),
            Bin::URem => p.urem(x, y),
            Bin::SDiv => p.sdiv(x, y),
            Bin::SRem => p.srem(x, y),
        };
        Ok(self.norm(r))
    }
    fn cmp(&mut self, pr: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx64(x, w), sx64(y, w));
            let r = match pr {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s < t,
                Pred::Sle => s <= t,
                Pred::Sgt => s > t,
                Pred::Sge => s >= t,
            };
            return Val::C(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let p = &mut self.p;
        let r = match pr {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => p.ne(x, y),
            Pred::Ult => p.ult(x, y),
            Pred::Ule => p.ule(x, y),
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => p.ule(y, x),
            Pred::Slt => p.slt(x, y),
            Pred::Sle => p.sle(x, y),
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => p.sle(y, x),
        };
        self.norm(r)
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, v: &Val) -> Val {
        match (k, v) {
            (Cast::Nop, v) => v.clone(),
            (Cast::Trunc, Val::C(x)) => Val::C(x & m64(tw)),
            (Cast::ZExt, Val::C(x)) if tw <= 64 => Val::C(*x),
            (Cast::SExt, Val::C(x)) if tw <= 64 => Val::C(sx64(*x, fw) as u64 & m64(tw)),
            (k, v) => {
                let e = self.e(v, fw);
                let r = match k {
                    Cast::Trunc => self.p.extract(e, 0, tw),
                    Cast::ZExt => self.p.zext(e, tw),
                    _ => self.p.sext(e, tw),
                };
                self.norm(r)
            }
        }
    }
    fn ite_val(&mut self, c: E, t: &Ty, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.ite_val(c, &t.field(i), &x[i], &y[i]));
                }
                Val::Agg(Rc::new(v))
            }
            _ => {
                let w = t.bits();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.p.ite(c, x, y);
                self.norm(r)
            }
        }
    }

    // ---------- handlers
    fn handler(&mut self, fi: u32) -> H {
        if let Some(h) = self.handlers[fi as usize] {
            return h;
        }
        let n = self.m.funcs[fi as usize].name.clone();
        let has_body = self.m.funcs[fi as usize].body.is_some();
        let mut h = Self::classify(&n, has_body);
        // Hash maps hash every key to the same value: look-ups then compare the key with each stored one,
        // which a symbolic key can do. What a map holds does not depend on the hash function.
        if self.params.get("hashconst") == Some(&1) && n.ends_with("5write") | n.contains("6Hasher5write") && (n.contains("6random") && n.contains("13DefaultHasher") || n.contains("4hash3sip")) {
            h = H::Nop;
        }
        self.handlers[fi as usize] = Some(h);
        h
    }
    fn classify(n: &str, has_body: bool) -> H {
        if let Some(r) = n.strip_prefix("rsym_") {
            return match r {
                "any" => H::Any,
                "assume" => H::Assume,
                "bound" => H::Bound,
                "fail" => H::Fail,
                "param" => H::Param,
                "observe" => H::Observe,
                "reach" => H::Reach,
                "is_sym" => H::IsSym,
                "concretize" => H::Concretize,
                "merge" => H::Merge,
                _ => H::Unsupported,
            };
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            let pre = |s: &str| r.starts_with(s);
            let ovf = |b: Bin, s: bool| H::Ovf(b, s);
            return if pre("memcpy") || pre("memmove") {
                H::Memcpy
            } else if pre("memset") {
                H::Memset
            } else if pre("assume") {
                H::IAssume
            } else if pre("expect") || pre("launder") || pre("strip.invariant") || pre("ssa.copy") {
                H::IExpect
            } else if pre("uadd.with") {
                ovf(Bin::Add, false)
            } else if pre("usub.with") {
                ovf(Bin::Sub, false)
            } else if pre("umul.with") {
                ovf(Bin::Mul, false)
            } else if pre("sadd.with") {
                ovf(Bin::Add, true)
            } else if pre("ssub.with") {
                ovf(Bin::Sub, true)
            } else if pre("smul.with") {
                ovf(Bin::Mul, true)
            } else if pre("umin.") {
                H::MinMax(0)
            } else if pre("umax.") {
                H::MinMax(1)
            } else if pre("smin.") {
                H::MinMax(2)
            } else if pre("smax.") {
                H::MinMax(3)
            } else if pre("abs.") {
                H::Abs
            } else if pre("ctpop") {
                H::Ctpop
            } else if pre("ctlz") {
                H::Ctlz
            } else if pre("cttz") {
                H::Cttz
            } else if pre("bswap") {
                H::Bswap
            } else if pre("bitreverse") {
                H::Bitrev
            } else if pre("fshl") {
                H::Fshl
            } else if pre("fshr") {
                H::Fshr
            } else if pre("uadd.sat") {
                H::Sat(Bin::Add, false)
            } else if pre("usub.sat") {
                H::Sat(Bin::Sub, false)
            } else if pre("sadd.sat") {
                H::Sat(Bin::Add, true)
            } else if pre("ssub.sat") {
                H::Sat(Bin::Sub, true)
            } else if pre("threadlocal.address") {
                H::Tls
            } else if pre("is.constant") {
                H::IsConst
            } else if pre("objectsize") {
                H::ObjSize
            } else if pre("ucmp") {
                H::Cmp3(false)
            } else if pre("scmp") {
                H::Cmp3(true)
            } else if pre("vector.reduce.add") {
                H::VReduce(0)
            } else if pre("vector.reduce.or") {
                H::VReduce(1)
            } else if pre("vector.reduce.and") {
                H::VReduce(2)
            } else if pre("vector.reduce.xor") {
                H::VReduce(3)
            } else if pre("vector.reduce.umax") {
                H::VReduce(4)
            } else if pre("vector.reduce.umin") {
                H::VReduce(5)
            } else if pre("ptrmask") {
                H::PtrMask
            } else if pre("trap") || pre("debugtrap") || pre("ubsantrap") {
                H::Abort
            } else if pre("lifetime") || pre("experimental.noalias") || pre("x86.sse2.pause") || pre("prefetch") || pre("invariant") || pre("dbg.") || pre("donothing") || pre("sideeffect") || pre("fake.use") {
                H::Nop
            } else {
                H::Unsupported
            };
        }
        let is_panic = (n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("begin_panic") || n.contains("rust_begin_unwind") || n.contains("rust_panic") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow"))
            && !n.contains("panic_count");
        if is_panic {
            return H::Panic;
        }
        match n {
            "malloc" => H::Malloc,
            "calloc" => H::Calloc,
            "realloc" => H::Realloc,
            "free" => H::Free,
            "posix_memalign" => H::PosixMemalign,
            "memcpy" | "memmove" => H::Memcpy,
            "memset" => H::Memset,
            "memcmp" => H::Memcmp,
            "bcmp" => H::Bcmp,
            "strlen" => H::Strlen,
            "memchr" => H::Memchr,
            "write" => H::Write,
            "writev" => H::Writev,
            "getenv" | "pthread_key_delete" | "pthread_setspecific" | "close" | "sigaction" | "sched_yield" | "pthread_attr_destroy" | "__cxa_thread_atexit_impl" => H::Ret0,
            "pthread_key_create" => H::KeyCreate,
            "pthread_self" => H::Ret1,
            "__errno_location" => H::Errno,
            "getrandom" => H::Getrandom,
            "syscall" => H::Syscall,
            "abort" => H::Abort,
            "exit" | "_exit" => H::Exit,
            "sysconf" => H::Sysconf,
            _ => {
                if has_body {
                    H::Body
                } else {
                    H::Unsupported
                }
            }
        }
    }

    // ---------- entry points
    pub fn init_state(&mut self, fi: u32) -> State {
        let f = self.m.func(fi, &mut self.p);
        State {
            frames: vec![Frame { regs: vec![Val::C(0); f.nregs as usize], f, block: 0, ip: 0, allocas: vec![], ret_dst: u32::MAX, ret_ty: Rc::new(Ty::Void), inv: None }],
            over: Default::default(),
            free: vec![],
            next_slot: self.m.first_free_slot() + 16,
            pc: vec![],
            known: Default::default(),
            model: Rc::new(vec![]),
            nvars: 0,
            obs: vec![],
            reach: vec![],
            steps: 0,
            errno: 0,
            forks: 0,
        }
    }
    pub fn explore_all(&mut self, fi: u32) {
        let st = self.init_state(fi);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.over_budget() {
                self.complete = false;
                self.errors.push("budget exhausted before all paths were explored".into());
                break;
            }
            let r = self.run(&mut st, 0);
            self.finish(st, r);
            if self.errors.len() > 5 || self.violations.len() >= self.max_viol {
                self.complete = false;
                break;
            }
        }
    }
    fn over_budget(&self) -> bool {
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                return true;
            }
        }
        self.paths >= self.max_paths
    }
    fn input_of(&self, st: &State) -> Vec<u8> {
        let mut v = vec![0u8; st.nvars as usize];
        for i in 0..v.len() {
            v[i] = *st.model.get(i).unwrap_or(&0);
        }
        v
    }
    fn finish(&mut self, st: State, r: Stop) {
        self.max_vars = self.max_vars.max(st.nvars);
        match r {
            Stop::Done | Stop::Returned => {
                self.paths += 1;
                for x in &st.reach {
                    *self.reach.entry(*x).or_insert(0) += 1;
                }
                let n = self.traces.len();
                let take = n < self.max_traces / 2 || (n < self.max_traces && self.paths % 17 == 0);
                if take {
                    let mut obs = vec![];
                    for (t, v, w) in st.obs.clone() {
                        let x = match v {
                            Val::C(x) => x,
                            Val::S(e) => self.model_val(&st, e) as u64,
                            _ => 0,
                        };
                        let _ = w;
                        obs.push((t, x));
                    }
                    let input = self.input_of(&st);
                    self.traces.push(Trace { input, obs });
                }
            }
            Stop::AssumeFail => self.assume_failed += 1,
            Stop::Violation(msg, kind) => {
                self.paths += 1;
                let stack = self.backtrace(&st);
                let loc = stack.iter().find(|s| !s.contains("/rustc/") && !s.contains("rustlib")).cloned().unwrap_or_default();
                if self.violations.iter().any(|v| v.msg == msg && v.loc == loc) {
                    return;
                }
                let input = self.input_of(&st);
                self.violations.push(Violation { msg, loc, stack, input, kind });
            }
            Stop::StepLimit => {
                self.paths += 1;
                let stack = self.backtrace(&st);
                let loc = stack.iter().find(|s| !s.contains("/rustc/") && !s.contains("rustlib")).cloned().unwrap_or_default();
                let input = self.input_of(&st);
                if self.violations.iter().any(|v| v.kind == "steplimit") {
                    self.complete = false;
                    return;
                }
                self.violations.push(Violation { msg: format!("no termination within {} steps", self.max_steps_path), loc, stack, input, kind: "steplimit".into() });
            }
            Stop::Error(e) => {
                let stack = self.backtrace(&st);
                self.complete = false;
                self.errors.push(format!("{} at {}", e, stack.join(" <- ")));
            }
        }
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let ins = fr.f.blocks[fr.block as usize].ins.get(fr.ip as usize);
            let d = ins.map(|i| i.dbg).unwrap_or(0);
            let l = self.m.loc(d);
            if l.is_empty() {
                out.push(fr.f.name.clone());
            }
            for (n, f, ln) in l {
                out.push(format!("{} ({}:{})", short(&n), f, ln));
            }
            if out.len() > 12 {
                break;
            }
        }
        out
    }
    pub fn hot_report(&self) {
        let mut v: Vec<_> = self.hot.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b, i), n) in v.into_iter().take(15) {
            if let Some(func) = self.m.parsed.get(f) {
                let d = func.blocks[*b as usize].ins.get(*i as usize).map(|x| x.dbg).unwrap_or(0);
                let l = self.m.loc(d);
                let s: Vec<String> = l.iter().map(|(n, f, l)| format!("{}({}:{})", short(n), f.rsplit('/').next().unwrap_or(""), l)).collect();
                eprintln!("  forks {:6} {} b{} i{} {}", n, short(&func.name), b, i, s.join(" <- "));
            }
        }
    }
    /// executed source functions of the code under test
    pub fn functions_hit(&self) -> std::collections::BTreeSet<String> {
        let mut dbgs: FxSet<u32> = Default::default();
        let mut out = std::collections::BTreeSet::new();
        for f in self.m.parsed.values() {
            for (bi, b) in f.blocks.iter().enumerate() {
                if *self.blocks_hit.get(f.gblock as usize + bi).unwrap_or(&false) {
                    for i in &b.ins {
                        if i.dbg != 0 {
                            dbgs.insert(i.dbg);
                        }
                    }
                }
            }
        }
        for d in dbgs {
            for (n, file, _) in self.m.loc(d) {
                if file.contains("keramics") || n.contains("keramics") {
                    out.insert(short(&n));
                }
            }
        }
        out
    }

    /// the value under the branch decisions of the path: loop counters are often built from the loop condition
    fn settle(&mut self, known: &FxMap<E, bool>, e: E) -> E {
        let n = self.p.n[e as usize].clone();
        match n.k {
            K::Sum(ts, c) => {
                let mut hit = false;
                let mut acc = self.p.c(c, n.w);
                let mut rest = vec![];
                for (t, k) in ts.iter() {
                    let s = match self.p.n[*t as usize].k {
                        K::ZExt(x) | K::Ite(x, ..) if known.contains_key(&x) => self.settle(known, *t),
                        _ => *t,
                    };
                    if s == *t {
                        rest.push((*t, *k));
                        continue;
                    }
                    hit = true;
                    let kc = self.p.c(*k, n.w);
                    let m = self.p.mul(s, kc);
                    acc = self.p.add(acc, m);
                }
                if !hit {
                    return e;
                }
                for (t, k) in rest {
                    let kc = self.p.c(k, n.w);
                    let m = self.p.mul(t, kc);
                    acc = self.p.add(acc, m);
                }
                acc
            }
            K::ZExt(x) if self.p.w(x) == 1 => match known.get(&x) {
                Some(v) => self.p.c(*v as u128, n.w),
                None => e,
            },
            K::Ite(x, a, b) => match known.get(&x) {
                Some(true) => self.settle(known, a),
                Some(false) => self.settle(known, b),
                None => e,
            },
            _ => e,
        }
    }
    fn settle_val(&mut self, st: &State, v: Val) -> Val {
        match v {
            Val::S(e) if !st.known.is_empty() => {
                // only what becomes a number: anything else keeps its form (and the answers cached for it)
                let x = self.settle(&st.known, e);
                match self.norm(x) {
                    Val::C(c) => Val::C(c),
                    _ => Val::S(e),
                }
            }
            v => v,
        }
    }
    fn jump(&mut self, st: &mut State, target: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let prev = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let mut found = false;
                for (pb, o) in inc {
                    if *pb == prev {
                        let v = match o {
                            Op::R(r) => fr.regs[*r as usize].clone(),
                            Op::V(v) => v.clone(),
                        };
                        let v = self.settle_val(st, v);
                        st.frames.last_mut().unwrap().regs[*d as usize] = v;
                        found = true;
                        break;
                    }
                }
                if !found {
                    return Err(Stop::Error("phi without matching edge".into()));
                }
            } else {
                let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    let mut found = false;
                    let fr = st.frames.last().unwrap();
                    for (pb, o) in inc {
                        if *pb == prev {
                            let v = match o {
                                Op::R(r) => fr.regs[*r as usize].clone(),
                                Op::V(v) => v.clone(),
                            };
                            let v = self.settle_val(st, v);
                            vals.push((*d, v));
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        return Err(Stop::Error("phi without matching edge".into()));
                    }
                }
                let fr = st.frames.last_mut().unwrap();
                for (d, v) in vals {
                    fr.regs[d as usize] = v;
                }
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = target;
        fr.ip = 0;
        let g = (f.gblock + target) as usize;
        if self.blocks_hit.len() <= g {
            self.blocks_hit.resize(g + 1024, false);
        }
        self.blocks_hit[g] = true;
        Ok(())
    }

    pub fn run(&mut self, st: &mut State, stop_depth: usize) -> Stop {
        let saved = self.cur_stop_depth;
        self.cur_stop_depth = stop_depth;
        let r = loop {
            // entry block coverage
            {
                let fr = st.frames.last().unwrap();
                let g = (fr.f.gblock + fr.block) as usize;
                if self.blocks_hit.len() <= g {
                    self.blocks_hit.resize(g + 1024, false);
                }
                self.blocks_hit[g] = true;
            }
            match self.run_frame(st, stop_depth) {
                Ok(()) => continue,
                Err(s) => break s,
            }
        };
        self.cur_stop_depth = saved;
        r
    }
    /// execute until the top frame changes
    fn run_frame(&mut self, st: &mut State, stop_depth: usize) -> R<()> {
        let f = st.frames.last().unwrap().f.clone();
        loop {
            let (blk, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.block, fr.ip)
            };
            let ins = &f.blocks[blk as usize].ins[ip as usize];
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.max_steps_path {
                return Err(Stop::StepLimit);
            }
            if self.steps & 0xffff == 0 && self.over_budget() {
                self.complete = false;
                return Err(Stop::Error("time budget exhausted".into()));
            }
            macro_rules! fr {
                () => {
                    st.frames.last_mut().unwrap()
                };
            }
            macro_rules! g {
                ($o:expr) => {
                    match $o {
                        Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                        Op::V(v) => v.clone(),
                    }
                };
            }
            macro_rules! set {
                ($v:expr) => {{
                    let v = $v;
                    let fr = fr!();
                    fr.regs[ins.dst as usize] = v;
                    fr.ip += 1;
                }};
            }
            match &ins.i {
                I::Bin(op, w, n, a, b) => {
                    let (x, y) = (g!(a), g!(b));
                    let d = if *n == 0 { self.div_fork(st, *op, &x, &y, *w)? } else { None };
                    let r = if let Some(d) = d {
                        d
                    } else if *n == 0 {
                        self.bin(*op, *w, &x, &y)?
                    } else {
                        let (x, y) = (agg(&x), agg(&y));
                        let mut v = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            v.push(self.bin(*op, *w, &x[i], &y[i])?);
                        }
                        Val::Agg(Rc::new(v))
                    };
                    set!(r);
                }
                I::Icmp(p, w, n, a, b) => {
                    let (x, y) = (g!(a), g!(b));
                    let r = if *n == 0 {
                        self.cmp(*p, *w, &x, &y)
                    } else {
                        let (x, y) = (agg(&x), agg(&y));
                        let v = (0..x.len()).map(|i| self.cmp(*p, *w, &x[i], &y[i])).collect();
                        Val::Agg(Rc::new(v))
                    };
                    set!(r);
                }
                I::Cast(k, fw, tw, n, a) => {
                    let x = g!(a);
                    let r = if *n == 0 {
                        self.cast(*k, *fw, *tw, &x)
                    } else {
                        let x = agg(&x);
                        let v = x.iter().map(|y| self.cast(*k, *fw, *tw, y)).collect();
                        Val::Agg(Rc::new(v))
                    };
                    set!(r);
                }
                I::Load(t, a) => {
                    let ad = g!(a);
                    let v = self.load_ty(st, t, &ad)?;
                    set!(v);
                }
                I::Store(t, v, a) => {
                    let (v, ad) = (g!(v), g!(a));
                    self.store_ty(st, t, &ad, &v)?;
                    fr!().ip += 1;
                }
                I::Gep(b, off, terms) => {
                    let bv = g!(b);
                    let mut k = *off as u64;
                    let mut symv: Vec<(E, u64)> = vec![];
                    for (o, w, sc) in terms {
                        match g!(o) {
                            Val::C(x) => k = k.wrapping_add((sx64(x, *w) as u64).wrapping_mul(*sc)),
                            Val::S(e) => {
                                let e = if *w < 64 {
                                    self.p.sext(e, 64)
                                } else if *w > 64 {
                                    self.p.extract(e, 0, 64)
                                } else {
                                    e
                                };
                                symv.push((e, *sc));
                            }
                            _ => return Err(Stop::Error("gep agg".into())),
                        }
                    }
                    let mut r = self.addr_add(&bv, k);
                    for (e, sc) in symv {
                        let c = self.p.c(sc as u128, 64);
                        let t = self.p.mul(e, c);
                        let be = self.e(&r, 64);
                        let x = self.p.add(be, t);
                        r = self.norm(x);
                    }
                    set!(r);
                }
                I::Alloca(sz, n, _) => {
                    let nv = g!(n);
                    let n = self.concretize(st, &nv, 64)?;
                    let a = self.alloc(st, (sz * n).max(1));
                    fr!().allocas.push(a);
                    set!(Val::C(a));
                }
                I::Select(t, vc, c, a, b) => {
                    let (c, x, y) = (g!(c), g!(a), g!(b));
                    let r = if *vc {
                        let (c, x, y) = (agg(&c), agg(&x), agg(&y));
                        let mut v = vec![];
                        for i in 0..c.len() {
                            v.push(match &c[i] {
                                Val::C(0) => y[i].clone(),
                                Val::C(_) => x[i].clone(),
                                Val::S(e) => self.ite_val(*e, &t.field(i), &x[i], &y[i]),
                                _ => panic!(),
                            });
                        }
                        Val::Agg(Rc::new(v))
                    } else {
                        match c {
                            Val::C(0) => y,
                            Val::C(_) => x,
                            Val::S(e) => match self.known(st, e) {
                                Some(true) => x,
                                Some(false) => y,
                                None => self.ite_val(e, t, &x, &y),
                            },
                            _ => panic!(),
                        }
                    };
                    set!(r);
                }
                I::Br(b) => self.jump(st, *b)?,
                I::CondBr(c, a, b) => {
                    let c = g!(c);
                    let v = match c {
                        Val::C(x) => x != 0,
                        Val::S(e) => {
                            let f = st.frames.last().unwrap().f.clone();
                            self.fail_side = match (self.fails(&f, *a), self.fails(&f, *b)) {
                                (true, false) => Some(true),
                                (false, true) => Some(false),
                                _ => None,
                            };
                            let r = self.decide(st, e);
                            self.fail_side = None;
                            r?
                        }
                        _ => panic!(),
                    };
                    self.jump(st, if v { *a } else { *b })?;
                }
                I::Switch(w, c, d, mp, list) => {
                    let c = g!(c);
                    let t = match c {
                        Val::C(x) => *mp.get(&x).unwrap_or(d),
                        Val::S(e) => self.switch(st, e, *w, *d, list)?,
                        _ => panic!(),
                    };
                    self.jump(st, t)?;
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| g!(o));
                    let done = st.frames.pop().unwrap();
                    for a in done.allocas {
                        let _ = self.free(st, a);
                    }
                    if st.frames.is_empty() {
                        // keep a frame for reporting
                        return Err(Stop::Done);
                    }
                    let fr = fr!();
                    if let Some(v) = v {
                        if done.ret_dst != u32::MAX {
                            fr.regs[done.ret_dst as usize] = v;
                        }
                    }
                    match done.inv {
                        Some(b) => self.jump(st, b)?,
                        None => fr!().ip += 1,
                    }
                    if st.frames.len() == stop_depth {
                        return Err(Stop::Returned);
                    }
                    return Ok(());
                }
                I::Unreachable => return Err(Stop::Violation("reached unreachable code".into(), "ub".into())),
                I::Copy(o) => {
                    let v = g!(o);
                    set!(v);
                }
                I::ExtractValue(a, ix) => {
                    let mut v = g!(a);
                    for i in ix {
                        v = agg(&v)[*i as usize].clone();
                    }
                    set!(v);
                }
                I::InsertValue(a, b, ix) => {
                    let (x, y) = (g!(a), g!(b));
                    let r = insert(&x, &y, ix);
                    set!(r);
                }
                I::ExtractElem(a, i) => {
                    let (x, i) = (g!(a), g!(i));
                    let i = self.concretize(st, &i, 64)?;
                    let v = agg(&x)[i as usize].clone();
                    set!(v);
                }
                I::InsertElem(a, b, i) => {
                    let (x, y, i) = (g!(a), g!(b), g!(i));
                    let i = self.concretize(st, &i, 64)?;
                    let r = insert(&x, &y, &[i as u32]);
                    set!(r);
                }
                I::Shuffle(a, b, mk, len) => {
                    let (x, y) = (g!(a), g!(b));
                    let (x, y) = (agg(&x), agg(&y));
                    let v = mk
                        .iter()
                        .map(|i| {
                            if (*i as u64) < *len {
                                x[*i as usize].clone()
                            } else {
                                y[(*i as u64 - *len) as usize % y.len()].clone()
                            }
                        })
                        .collect();
                    set!(Val::Agg(Rc::new(v)));
                }
                I::BitcastVec(t, t2, a) => {
                    let x = g!(a);
                    let flat = match &**t {
                        Ty::Vec(_, e) => {
                            let v = agg(&x);
                            let b = e.bits();
                            self.join_vec(&v, b)
                        }
                        _ => x,
                    };
                    let r = match &**t2 {
                        Ty::Vec(n, e) => {
                            // wide constant
                            self.split_vec(&flat, *n as u32, e.bits())
                        }
                        _ => flat,
                    };
                    set!(r);
                }
                I::Nop => {
                    if ins.dst != u32::MAX {
                        fr!().regs[ins.dst as usize] = Val::C(0);
                    }
                    fr!().ip += 1;
                }
                I::Fence => fr!().ip += 1,
                I::CmpXchg(t, p, c, n) => {
                    let (p, c, n) = (g!(p), g!(c), g!(n));
                    let old = self.load_ty(st, t, &p)?;
                    let w = t.bits();
                    let eq = self.cmp(Pred::Eq, w, &old, &c);
                    let ok = match eq {
                        Val::C(x) => x != 0,
                        Val::S(e) => self.decide(st, e)?,
                        _ => panic!(),
                    };
                    if ok {
                        self.store_ty(st, t, &p, &n)?;
                    }
                    set!(Val::Agg(Rc::new(vec![old, Val::C(ok as u64)])));
                }
                I::Rmw(op, t, p, v) => {
                    let (p, v) = (g!(p), g!(v));
                    let old = self.load_ty(st, t, &p)?;
                    let w = t.bits();
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(Bin::Add, w, &old, &v)?,
                        "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                        "and" => self.bin(Bin::And, w, &old, &v)?,
                        "or" => self.bin(Bin::Or, w, &old, &v)?,
                        "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                        _ => return Err(Stop::Error(format!("atomicrmw {}", op))),
                    };
                    self.store_ty(st, t, &p, &nv)?;
                    set!(old);
                }
                I::FBin(op, w, a, b) => {
                    let (x, y) = (g!(a), g!(b));
                    match (x, y) {
                        (Val::C(x), Val::C(y)) => {
                            let r = if *w == 64 {
                                let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                                match op.as_str() {
                                    "fadd" => p + q,
                                    "fsub" => p - q,
                                    "fmul" => p * q,
                                    "fdiv" => p / q,
                                    _ => p % q,
                                }
                                .to_bits()
                            } else {
                                let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                                match op.as_str() {
                                    "fadd" => p + q,
                                    "fsub" => p - q,
                                    "fmul" => p * q,
                                    "fdiv" => p / q,
                                    _ => p % q,
                                }
                                .to_bits() as u64
                            };
                            set!(Val::C(r));
                        }
                        _ => return Err(Stop::Error("symbolic floating point".into())),
                    }
                }
                I::FCmp(pr, w, a, b) => {
                    let (x, y) = (g!(a), g!(b));
                    match (x, y) {
                        (Val::C(x), Val::C(y)) => {
                            let (p, q) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                            let un = p.is_nan() || q.is_nan();
                            let r = match pr.as_str() {
                                "oeq" => p == q,
                                "ogt" => p > q,
                                "oge" => p >= q,
                                "olt" => p < q,
                                "ole" => p <= q,
                                "one" => !un && p != q,
                                "ord" => !un,
                                "uno" => un,
                                "ueq" => un || p == q,
                                "ugt" => un || p > q,
                                "uge" => un || p >= q,
                                "ult" => un || p < q,
                                "ule" => un || p <= q,
                                "une" => p != q,
                                _ => return Err(Stop::Error("fcmp".into())),
                            };
                            set!(Val::C(r as u64));
                        }
                        _ => return Err(Stop::Error("symbolic floating point".into())),
                    }
                }
                I::FCast(op, t, t2, a) => {
                    let x = match g!(a) {
                        Val::C(x) => x,
                        _ => return Err(Stop::Error("symbolic floating point".into())),
                    };
                    let fin = |x: u64| if t.bits() == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    let fout = |f: f64| if t2.bits() == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                    let r = match op.as_str() {
                        "uitofp" => fout(x as f64),
                        "sitofp" => fout(sx64(x, t.bits()) as f64),
                        "fptoui" => fin(x) as u64 & m64(t2.bits()),
                        "fptosi" => (fin(x) as i64) as u64 & m64(t2.bits()),
                        _ => fout(fin(x)),
                    };
                    set!(Val::C(r));
                }
                I::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction: {}", &s[..s.len().min(160)]))),
                I::Call(c, args, rt, inv) => {
                    let fi = match c {
                        Callee::Fn(i) => *i,
                        Callee::Ind(o) => {
                            let v = g!(o);
                            let mut a = match v {
                                Val::C(a) => a,
                                Val::S(e) => {
                                    let e = self.simplify_ptr(st, e)?;
                                    self.concretize(st, &Val::S(e), 64)?
                                }
                                _ => panic!(),
                            };
                            if a >= FUNC_BASE && (a - FUNC_BASE) % 16 == 0 && ((a - FUNC_BASE) / 16) < self.m.funcs.len() as u64 {
                                a = (a - FUNC_BASE) / 16;
                                a as u32
                            } else {
                                return Err(Stop::Violation(format!("indirect call to invalid address {:#x}", a), "mem".into()));
                            }
                        }
                    };
                    let h = self.handler(fi);
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for (o, _) in args {
                        av.push(g!(o));
                    }
                    if h == H::Body {
                        let nf = self.m.func(fi, &mut self.p);
                        if st.frames.len() > 2000 {
                            return Err(Stop::Violation("call depth limit (stack overflow)".into(), "stack".into()));
                        }
                        let mut regs = vec![Val::C(0); nf.nregs as usize];
                        for (i, r) in nf.params.iter().enumerate() {
                            if i < av.len() {
                                regs[*r as usize] = av[i].clone();
                            }
                        }
                        st.frames.push(Frame { regs, f: nf, block: 0, ip: 0, allocas: vec![], ret_dst: ins.dst, ret_ty: rt.clone(), inv: inv.map(|x| x.0) });
                        let fr = st.frames.last().unwrap();
                        let gb = fr.f.gblock as usize;
                        if self.blocks_hit.len() <= gb {
                            self.blocks_hit.resize(gb + 1024, false);
                        }
                        self.blocks_hit[gb] = true;
                        return Ok(());
                    }
                    if h == H::Merge {
                        // rsym_merge(fnptr, data): call fnptr(data) and merge the resulting states
                        self.merge_call(st, &av)?;
                    } else {
                        let r = self.builtin(st, h, fi, &av, args, rt)?;
                        if ins.dst != u32::MAX {
                            match r {
                                Some(v) => fr!().regs[ins.dst as usize] = v,
                                None => return Err(Stop::Error("builtin without result".into())),
                            }
                        }
                    }
                    match inv {
                        Some((b, _)) => self.jump(st, *b)?,
                        None => fr!().ip += 1,
                    }
                }
            }
        }
    }

    fn switch(&mut self, st: &mut State, e: E, w: u32, d: u32, list: &[(u64, u32)]) -> R<u32> {
        self.branches_sym += 1;
        // group by destination
        let mut dests: Vec<(u32, Vec<u64>)> = vec![];
        for (k, b) in list {
            if *b == d {
                continue;
            }
            match dests.iter_mut().find(|x| x.0 == *b) {
                Some(x) => x.1.push(*k),
                None => dests.push((*b, vec![*k])),
            }
        }
        let mut conds: Vec<(u32, E)> = vec![];
        let mut any = self.p.fls();
        for (b, ks) in dests {
            let mut c = self.p.fls();
            // contiguous runs become range checks
            let mut ks = ks;
            ks.sort_unstable();
            let mut i = 0;
            while i < ks.len() {
                let mut j = i;
                while j + 1 < ks.len() && ks[j + 1] == ks[j] + 1 {
                    j += 1;
                }
                let t = if j - i >= 3 {
                    let lo = self.p.c(ks[i] as u128, w);
                    let hi = self.p.c(ks[j] as u128, w);
                    let a = self.p.ule(lo, e);
                    let b = self.p.ule(e, hi);
                    self.p.and(a, b)
                } else {
                    let mut t = self.p.fls();
                    for x in i..=j {
                        let k = self.p.c(ks[x] as u128, w);
                        let q = self.p.eq(e, k);
                        t = self.p.or(t, q);
                    }
                    t
                };
                c = self.p.or(c, t);
                i = j + 1;
            }
            any = self.p.or(any, c);
            conds.push((b, c));
        }
        let dc = self.p.not(any);
        conds.push((d, dc));
        // known?
        for (b, c) in &conds {
            if self.known(st, *c) == Some(true) {
                return Ok(*b);
            }
        }
        let mut mine = None;
        for (b, c) in &conds {
            if mine.is_none() && self.model_val(st, *c) != 0 {
                mine = Some((*b, *c));
                continue;
            }
            if self.known(st, *c) == Some(false) {
                continue;
            }
            match self.s.check(&self.p, &st.pc, *c) {
                Res::Unsat => {}
                Res::Sat(m) => {
                    let mut o = st.clone();
                    o.model = Rc::new(m);
                    o.forks += 1;
                    self.add_pc(&mut o, *c);
                    o.known.insert(*c, true);
                    self.forks += 1;
                    self.note_fork(st);
                    self.work.push(o);
                }
                Res::Unknown => return Err(Stop::Error("solver returned unknown (switch)".into())),
            }
        }
        let (b, c) = mine.ok_or_else(|| Stop::Error("switch: model matches no case".into()))?;
        self.add_pc(st, c);
        st.known.insert(c, true);
        Ok(b)
    }

    // ---------- merging
    fn merge_call(&mut self, st: &mut State, av: &[Val]) -> R<()> {
        let a = cval(&av[0]).ok_or(Stop::Error("merge fn".into()))?;
        let fi = ((a - FUNC_BASE) / 16) as u32;
        let nf = self.m.func(fi, &mut self.p);
        let depth = st.frames.len();
        let mut s0 = st.clone();
        let mut regs = vec![Val::C(0); nf.nregs as usize];
        for (i, r) in nf.params.iter().enumerate() {
            if i + 1 < av.len() {
                regs[*r as usize] = av[i + 1].clone();
            }
        }
        s0.frames.push(Frame { regs, f: nf, block: 0, ip: 0, allocas: vec![], ret_dst: u32::MAX, ret_ty: Rc::new(Ty::Void), inv: None });
        let npc = st.pc.len();
        let saved = std::mem::take(&mut self.work);
        self.work.push(s0);
        let mut ends: Vec<State> = vec![];
        let mut err = None;
        let mut partial = false;
        while let Some(mut s) = self.work.pop() {
            if self.over_budget() {
                err = Some(Stop::Error("budget exhausted inside a merge region".into()));
                break;
            }
            match self.run(&mut s, depth) {
                Stop::Returned => {
                    // undo the ip increment done by the return: the caller advances it
                    s.frames.last_mut().unwrap().ip -= 1;
                    ends.push(s);
                }
                Stop::Error(e) => {
                    let bt = self.backtrace(&s).join(" <- ");
                    err = Some(Stop::Error(format!("{} at {}", e, bt)));
                    break;
                }
                o => {
                    partial = true;
                    self.finish(s, o);
                    if self.violations.len() >= self.max_viol {
                        err = Some(Stop::Error("too many violations".into()));
                        break;
                    }
                }
            }
        }
        self.work = saved;
        if let Some(e) = err {
            return Err(e);
        }
        if ends.is_empty() {
            return Err(Stop::AssumeFail);
        }
        self.merges += 1;
        self.merged_states += ends.len() as u64;
        // merge progressively
        let mut groups: Vec<(State, E)> = vec![];
        for s in ends {
            let mut c = self.p.tru();
            for x in &s.pc[npc..] {
                c = self.p.and(c, *x);
            }
            let mut done = false;
            for g in groups.iter_mut() {
                if self.merge_into(&mut g.0, g.1, &s, c) {
                    g.1 = self.p.or(g.1, c);
                    done = true;
                    break;
                }
            }
            if !done {
                groups.push((s, c));
            }
        }
        let single = groups.len() == 1 && !partial;
        let mut first = None;
        for (mut s, c) in groups {
            let pc0 = st.pc.clone();
            s.pc = pc0;
            s.known = st.known.clone();
            if !single {
                self.add_pc(&mut s, c);
            }
            if first.is_none() {
                first = Some(s);
            } else {
                // other groups continue after this call
                let mut s = s;
                s.forks += 1;
                self.forks += 1;
                s.frames.last_mut().unwrap().ip += 1;
                self.work.push(s);
            }
        }
        *st = first.unwrap();
        Ok(())
    }
    fn merge_val(&mut self, ca: E, a: &Val, b: &Val) -> Option<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) if x == y => Some(a.clone()),
            (Val::S(x), Val::S(y)) if x == y => Some(a.clone()),
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.merge_val(ca, &x[i], &y[i])?);
                }
                Some(Val::Agg(Rc::new(v)))
            }
            (Val::S(x), Val::S(y)) if self.p.w(*x) == self.p.w(*y) => {
                let r = self.p.ite(ca, *x, *y);
                Some(self.norm(r))
            }
            _ => None,
        }
    }
    fn merge_into(&mut self, a: &mut State, ca: E, b: &State, _cb: E) -> bool {
        if a.frames.len() != b.frames.len() || a.nvars != b.nvars || a.obs.len() != b.obs.len() || a.reach != b.reach {
            return false;
        }
        // registers of the top frame must be equal (merge regions communicate through memory)
        for i in 0..a.obs.len() {
            let (x, y) = (a.obs[i].1.clone(), b.obs[i].1.clone());
            if a.obs[i].0 != b.obs[i].0 {
                return false;
            }
            let w = a.obs[i].2;
            let (x, y) = (self.e(&x, w), self.e(&y, w));
            let r = self.p.ite(ca, x, y);
            a.obs[i].1 = self.norm(r);
        }
        // sizes must agree where both have an object
        for (k, ea) in a.over.iter() {
            if let Some(eb) = b.over.get(k) {
                match (ea, eb) {
                    (Ent::O(x), Ent::O(y)) => {
                        if x.size != y.size {
                            return false;
                        }
                    }
                    (Ent::Part(x), Ent::Part(y)) if x == y => {}
                    _ => return false,
                }
            }
        }
        let mut upd: Vec<(u64, Ent)> = vec![];
        for (k, eb) in b.over.iter() {
            match a.over.get(k) {
                None => {
                    // object only in b: when it is a global, a still holds its base content
                    if let (true, Ent::O(y)) = (self.base_slots.contains_key(k), eb) {
                        let x = self.base_obj(*k).unwrap();
                        let m = self.merge_obj(ca, &x, y);
                        upd.push((*k, Ent::O(Rc::new(m))));
                    } else {
                        upd.push((*k, eb.clone()));
                    }
                }
                Some(Ent::O(x)) => {
                    if let Ent::O(y) = eb {
                        if !Rc::ptr_eq(x, y) {
                            let x = x.clone();
                            let m = self.merge_obj(ca, &x, y);
                            upd.push((*k, Ent::O(Rc::new(m))));
                        }
                    }
                }
                _ => {}
            }
        }
        let only_a: Vec<u64> = a.over.keys().filter(|k| !b.over.contains_key(k) && self.base_slots.contains_key(k)).cloned().collect();
        for k in only_a {
            let y = self.base_obj(k).unwrap();
            if let Some(Ent::O(x)) = a.over.get(&k).cloned() {
                let m = self.merge_obj(ca, &x, &y);
                upd.push((k, Ent::O(Rc::new(m))));
            }
        }
        for (k, e) in upd {
            a.over.insert(k, e);
        }
        a.next_slot = a.next_slot.max(b.next_slot);
        let over = &a.over;
        let mut fr: Vec<u64> = a.free.iter().chain(b.free.iter()).cloned().filter(|k| !over.contains_key(k)).collect();
        fr.sort_unstable();
        fr.dedup();
        a.free = fr;
        a.steps = a.steps.max(b.steps);
        true
    }
    fn merge_obj(&mut self, ca: E, x: &Obj, y: &Obj) -> Obj {
        let mut o = x.clone();
        for i in 0..x.size {
            let (p, q) = (self.byte(x, i), self.byte(y, i));
            if p != q {
                let r = self.p.ite(ca, p, q);
                let v = self.norm(r);
                Self::put(&mut self.p, &mut o, i, 1, &v);
            }
        }
        o
    }

    fn cstr(&mut self, st: &State, a: u64, n: u64) -> String {
        let mut s = String::new();
        for i in 0..n.min(300) {
            match self.read(st, a + i, 1) {
                Ok(Val::C(c)) => s.push(c as u8 as char),
                Ok(_) => s.push('?'),
                Err(_) => break,
            }
        }
        s
    }
    /// decode a core::panic::Location from a pointer argument if it looks like one
    fn location(&mut self, st: &State, a: u64) -> Option<String> {
        let p = cval(&self.read(st, a, 8).ok()?)?;
        let n = cval(&self.read(st, a + 8, 8).ok()?)?;
        let line = cval(&self.read(st, a + 16, 4).ok()?)?;
        let col = cval(&self.read(st, a + 20, 4).ok()?)?;
        if n == 0 || n > 300 || line == 0 || line > 100000 || col > 1000 {
            return None;
        }
        let s = self.cstr(st, p, n);
        if s.contains(".rs") {
            Some(format!("{}:{}:{}", s, line, col))
        } else {
            None
        }
    }

    fn any_ptr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => {
                let e = self.simplify_ptr(st, *e)?;
                let v = self.norm(e);
                self.concretize(st, &v, 64)
            }
            _ => Err(Stop::Error("pointer".into())),
        }
    }

    fn builtin(&mut self, st: &mut State, h: H, fi: u32, a: &[Val], args: &[(Op, Rc<Ty>)], rt: &Rc<Ty>) -> R<Option<Val>> {
        let none = Ok(None);
        match h {
            H::Nop => {
                return match &**rt {
                    Ty::Void => none,
                    _ => Ok(Some(Val::C(0))),
                }
            }
            H::Any => {
                let p = self.any_ptr(st, &a[0])?;
                let n = self.concretize(st, &a[1], 64)?;
                for i in 0..n {
                    let e = self.p.var(st.nvars);
                    st.nvars += 1;
                    self.write(st, p + i, 1, &Val::S(e))?;
                }
                none
            }
            H::Assume => {
                let e = self.e(&a[0], args[0].1.bits());
                let w = self.p.w(e);
                let z = self.p.c(0, w);
                let c = self.p.ne(e, z);
                match self.known(st, c) {
                    Some(true) => return none,
                    Some(false) => return Err(Stop::AssumeFail),
                    None => {}
                }
                if self.model_val(st, c) == 0 {
                    match self.s.check(&self.p, &st.pc, c) {
                        Res::Sat(m) => st.model = Rc::new(m),
                        Res::Unsat => return Err(Stop::AssumeFail),
                        Res::Unknown => return Err(Stop::Error("solver unknown (assume)".into())),
                    }
                }
                self.add_pc(st, c);
                none
            }
            H::Bound => {
                let n = self.concretize(st, &a[1], 64)? as u128;
                let e = self.e(&a[0], 64);
                let k = self.p.c(n, 64);
                let c = self.p.ult(e, k);
                if self.known(st, c) == Some(false) || n == 0 {
                    return Err(Stop::AssumeFail);
                }
                if self.known(st, c).is_none() {
                    if self.model_val(st, c) == 0 {
                        match self.s.check(&self.p, &st.pc, c) {
                            Res::Sat(m) => st.model = Rc::new(m),
                            Res::Unsat => return Err(Stop::AssumeFail),
                            Res::Unknown => return Err(Stop::Error("solver unknown (bound)".into())),
                        }
                    }
                    self.add_pc(st, c);
                }
                let r = self.p.bnd(e, n);
                Ok(Some(self.p.is_c(r).map(|c| Val::C(c as u64)).unwrap_or(Val::S(r))))
            }
            H::IAssume => none,
            H::Fail => {
                let p = self.any_ptr(st, &a[0])?;
                let n = self.concretize(st, &a[1], 64)?;
                let s = self.cstr(st, p, n);
                Err(Stop::Violation(s, "assert".into()))
            }
            H::Param => {
                let p = self.any_ptr(st, &a[0])?;
                let n = self.concretize(st, &a[1], 64)?;
                let s = self.cstr(st, p, n);
                let d = self.concretize(st, &a[2], 64)?;
                let v = *self.params.get(&s).unwrap_or(&d);
                self.used_params.insert(s, v);
                Ok(Some(Val::C(v)))
            }
            H::Observe => {
                let p = self.any_ptr(st, &a[0])?;
                let n = self.concretize(st, &a[1], 64)?;
                let s = self.cstr(st, p, n);
                if st.obs.len() < 4096 {
                    st.obs.push((s, a[2].clone(), 64));
                }
                none
            }
            H::Reach => {
                let id = self.concretize(st, &a[0], 32)? as u32;
                if !st.reach.contains(&id) {
                    st.reach.push(id);
                }
                none
            }
            H::IsSym => Ok(Some(Val::C(1))),
            H::Concretize => {
                let v = self.concretize(st, &a[0], 64)?;
                Ok(Some(Val::C(v)))
            }
            H::Panic => {
                let n = self.m.funcs[fi as usize].name.clone();
                let mut loc = String::new();
                for (i, (_, t)) in args.iter().enumerate().rev() {
                    if **t == Ty::Ptr {
                        if let Val::C(x) = a[i] {
                            if let Some(l) = self.location(st, x) {
                                loc = l;
                                break;
                            }
                        }
                    }
                }
                let mut m = short(&n);
                // literal message when the first argument is a string
                if a.len() >= 2 {
                    if let (Val::C(p), Val::C(l)) = (&a[0], &a[1]) {
                        if *l < 200 && **&args[0].1 == Ty::Ptr && args[1].1.bits() == 64 {
                            let s = self.cstr(st, *p, *l);
                            m = format!("{}: {}", m, s);
                        }
                    }
                }
                Err(Stop::Violation(format!("panic {} at {}", m, loc), "panic".into()))
            }
            H::Malloc => {
                let n = self.concretize(st, &a[0], 64)?;
                if n > (1 << 26) {
                    return Err(Stop::Violation(format!("allocation of {} bytes", n), "alloc".into()));
                }
                Ok(Some(Val::C(self.alloc(st, n))))
            }
            H::Calloc => {
                let n = self.concretize(st, &a[0], 64)?;
                let m = self.concretize(st, &a[1], 64)?;
                let t = n.saturating_mul(m);
                if t > (1 << 26) {
                    return Err(Stop::Violation(format!("allocation of {} bytes", t), "alloc".into()));
                }
                Ok(Some(Val::C(self.alloc(st, t))))
            }
            H::PosixMemalign => {
                let p = self.any_ptr(st, &a[0])?;
                let n = self.concretize(st, &a[2], 64)?;
                if n > (1 << 26) {
                    return Err(Stop::Violation(format!("allocation of {} bytes", n), "alloc".into()));
                }
                let x = self.alloc(st, n);
                self.write(st, p, 8, &Val::C(x))?;
                Ok(Some(Val::C(0)))
            }
            H::Realloc => {
                let p = self.any_ptr(st, &a[0])?;
                let n = self.concretize(st, &a[1], 64)?;
                if n > (1 << 26) {
                    return Err(Stop::Violation(format!("allocation of {} bytes", n), "alloc".into()));
                }
                let old = match self.find(st, p) {
                    Some((_, o)) => o.size,
                    None => return Err(Stop::Violation("realloc of invalid pointer".into(), "mem".into())),
                };
                let x = self.alloc(st, n);
                self.copy(st, x, p, old.min(n))?;
                self.free(st, p)?;
                Ok(Some(Val::C(x)))
            }
            H::Free => {
                let p = self.any_ptr(st, &a[0])?;
                self.free(st, p)?;
                none
            }
            H::Memcpy => {
                let n = self.concretize(st, &a[2], 64)?;
                if n > 0 {
                    let src = a[1].clone();
                    let dst = a[0].clone();
                    if n <= 16 && (cval(&src).is_none() || cval(&dst).is_none()) && matches!(n, 1 | 2 | 4 | 8 | 16 | 3 | 12) {
                        let v = self.load_n(st, &src, n)?;
                        self.store_n(st, &dst, n, &v)?;
                    } else {
                        let s = self.any_ptr(st, &src)?;
                        let d = self.any_ptr(st, &dst)?;
                        self.copy(st, d, s, n)?;
                    }
                }
                match &**rt {
                    Ty::Void => none,
                    _ => Ok(Some(a[0].clone())),
                }
            }
            H::Memset => {
                let n = self.concretize(st, &a[2], 64)?;
                if n > 0 {
                    let d = self.any_ptr(st, &a[0])?;
                    let b = self.trunc_val(a[1].clone(), 8);
                    let (off, o) = self.obj_mut(st, d, n)?;
                    let off = off as usize;
                    let n = n as usize;
                    match b {
                        Val::C(x) => {
                            o.data[off..off + n].fill(x as u8);
                            if let Some(s) = &mut o.sym {
                                s[off..off + n].fill(0);
                            }
                        }
                        Val::S(e) => {
                            if o.sym.is_none() {
                                o.sym = Some(vec![0; o.size as usize]);
                            }
                            o.sym.as_mut().unwrap()[off..off + n].fill(e);
                        }
                        _ => {}
                    }
                }
                match &**rt {
                    Ty::Void => none,
                    _ => Ok(Some(a[0].clone())),
                }
            }
            H::Memcmp | H::Bcmp => {
                let n = self.concretize(st, &a[2], 64)?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.any_ptr(st, &a[0])?;
                let q = self.any_ptr(st, &a[1])?;
                let (po, pobj) = self.obj_at(st, p, n)?;
                let (qo, qobj) = self.obj_at(st, q, n)?;
                if h == H::Bcmp {
                    let mut c = self.p.tru();
                    for i in 0..n {
                        let (x, y) = (self.byte(&pobj, po + i), self.byte(&qobj, qo + i));
                        let t = self.p.eq(x, y);
                        c = self.p.and(t, c);
                        if self.p.is_c(c) == Some(0) {
                            break;
                        }
                    }
                    let nc = self.p.not(c);
                    let r = self.p.zext(nc, 32);
                    return Ok(Some(self.norm(r)));
                }
                let mut r = self.p.c(0, 32);
                let m1 = self.p.c(0xffff_ffff, 32);
                let p1 = self.p.c(1, 32);
                for i in (0..n).rev() {
                    let (x, y) = (self.byte(&pobj, po + i), self.byte(&qobj, qo + i));
                    let lt = self.p.ult(x, y);
                    let eq = self.p.eq(x, y);
                    let t = self.p.ite(lt, m1, p1);
                    r = self.p.ite(eq, r, t);
                }
                Ok(Some(self.norm(r)))
            }
            H::Strlen => {
                let p = self.any_ptr(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.read(st, p + n, 1)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return Err(Stop::Error("strlen symbolic".into())),
                    }
                }
                Ok(Some(Val::C(n)))
            }
            H::Memchr => {
                let n = self.concretize(st, &a[2], 64)?;
                let p = self.any_ptr(st, &a[0])?;
                let c = self.trunc_val(a[1].clone(), 8);
                for i in 0..n {
                    let b = self.read(st, p + i, 1)?;
                    let hit = match self.cmp(Pred::Eq, 8, &b, &c) {
                        Val::C(x) => x != 0,
                        Val::S(e) => self.decide(st, e)?,
                        _ => false,
                    };
                    if hit {
                        return Ok(Some(Val::C(p + i)));
                    }
                }
                Ok(Some(Val::C(0)))
            }
            H::Write => Ok(Some(a[2].clone())),
            H::Writev => {
                let p = self.any_ptr(st, &a[1])?;
                let n = self.concretize(st, &a[2], 32)?;
                let mut t = 0;
                for i in 0..n {
                    let v = self.read(st, p + 16 * i + 8, 8)?;
                    t += self.concretize(st, &v, 64)?;
                }
                Ok(Some(Val::C(t)))
            }
            H::Ret0 => Ok(Some(Val::C(0))),
            H::Ret1 => Ok(Some(Val::C(1))),
            H::KeyCreate => {
                // destructors of thread-locals never run: one key is as good as any
                let p = self.any_ptr(st, &a[0])?;
                self.write(st, p, 4, &Val::C(1))?;
                Ok(Some(Val::C(0)))
            }
            H::Errno => {
                if st.errno == 0 {
                    st.errno = self.alloc(st, 8);
                }
                Ok(Some(Val::C(st.errno)))
            }
            H::Getrandom => {
                let p = self.any_ptr(st, &a[0])?;
                let n = self.concretize(st, &a[1], 64)?;
                for i in 0..n {
                    self.write(st, p + i, 1, &Val::C((i * 37 + 11) & 0xff))?;
                }
                Ok(Some(Val::C(n)))
            }
            H::Syscall => {
                let k = self.concretize(st, &a[0], 64)?;
                if k == 318 {
                    let p = self.any_ptr(st, &a[1])?;
                    let n = self.concretize(st, &a[2], 64)?;
                    for i in 0..n {
                        self.write(st, p + i, 1, &Val::C((i * 37 + 11) & 0xff))?;
                    }
                    return Ok(Some(Val::C(n)));
                }
                if k == 202 {
                    // futex: single threaded, nothing to wait for
                    return Ok(Some(Val::C(0)));
                }
                Err(Stop::Error(format!("syscall {}", k)))
            }
            H::Abort => Err(Stop::Violation("abort".into(), "panic".into())),
            H::Exit => Err(Stop::Done),
            H::Sysconf => Ok(Some(Val::C(4096))),
            H::IExpect => Ok(Some(a[0].clone())),
            H::Tls => Ok(Some(a[0].clone())),
            H::IsConst => Ok(Some(Val::C(0))),
            H::ObjSize => Ok(Some(Val::C(u64::MAX))),
            H::PtrMask => {
                let r = self.bin(Bin::And, 64, &a[0], &a[1])?;
                Ok(Some(r))
            }
            H::Ucmp | H::Cmp3(_) => {
                let signed = h == H::Cmp3(true);
                let w = args[0].1.bits();
                let rw = rt.bits();
                let lt = self.cmp(if signed { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
                let eq = self.cmp(Pred::Eq, w, &a[0], &a[1]);
                let (l, q) = (self.e(&lt, 1), self.e(&eq, 1));
                let m1 = self.p.c(mask(rw), rw);
                let p1 = self.p.c(1, rw);
                let z = self.p.c(0, rw);
                let t = self.p.ite(q, z, p1);
                let r = self.p.ite(l, m1, t);
                Ok(Some(self.norm(r)))
            }
            H::Ovf(op, signed) => {
                let w = args[0].1.bits();
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let (r, o) = if signed {
                        let (x, y) = (sx64(*x, w) as i128, sx64(*y, w) as i128);
                        let t = match op {
                            Bin::Add => x + y,
                            Bin::Sub => x - y,
                            _ => x * y,
                        };
                        let r = (t as u64) & m64(w);
                        (r, sx64(r, w) as i128 != t)
                    } else {
                        let (x, y) = (*x as u128, *y as u128);
                        match op {
                            Bin::Add => {
                                let t = x + y;
                                ((t as u64) & m64(w), t > mask(w))
                            }
                            Bin::Sub => ((x.wrapping_sub(y) as u64) & m64(w), x < y),
                            _ => {
                                let t = x * y;
                                ((t as u64) & m64(w), t > mask(w))
                            }
                        }
                    };
                    return Ok(Some(Val::Agg(Rc::new(vec![Val::C(r), Val::C(o as u64)]))));
                }
                if signed && w >= 8 {
                    // no overflow by the ranges of the operands
                    let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                    if let (Some(p), Some(q)) = (self.p.srange(x), self.p.srange(y)) {
                        let (r, l, h) = match op {
                            Bin::Add => (self.p.add(x, y), p.0 + q.0, p.1 + q.1),
                            Bin::Sub => (self.p.sub(x, y), p.0 - q.1, p.1 - q.0),
                            _ => {
                                let c = [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1];
                                (self.p.mul(x, y), *c.iter().min().unwrap(), *c.iter().max().unwrap())
                            }
                        };
                        let m = (mask(w) >> 1) as i128;
                        if l >= -m - 1 && h <= m {
                            let r = self.p.is_c(r).map(|c| Val::C(c as u64)).unwrap_or(Val::S(r));
                            return Ok(Some(Val::Agg(Rc::new(vec![r, Val::C(0)]))));
                        }
                    }
                }
                let r = self.bin(op, w, &a[0], &a[1])?;
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let re = self.e(&r, w);
                let o = match (op, signed) {
                    (Bin::Add, false) => {
                        // interval shortcut: no wrap possible
                        let (hx, hy) = (self.p.n[x as usize].hi, self.p.n[y as usize].hi);
                        if hx.checked_add(hy).map(|t| t <= mask(w)).unwrap_or(false) {
                            self.p.fls()
                        } else {
                            self.p.ult(re, x)
                        }
                    }
                    (Bin::Sub, false) => self.p.ult(x, y),
                    (Bin::Mul, false) => {
                        let (hx, hy) = (self.p.n[x as usize].hi, self.p.n[y as usize].hi);
                        if hx.checked_mul(hy).map(|t| t <= mask(w)).unwrap_or(false) {
                            self.p.fls()
                        } else if let Some(c) = self.p.is_c(y).or(self.p.is_c(x)) {
                            let v = if self.p.is_c(y).is_some() { x } else { y };
                            if c == 0 {
                                self.p.fls()
                            } else {
                                let k = self.p.c(mask(w) / c, w);
                                self.p.ult(k, v)
                            }
                        } else {
                            if w > 64 {
                                return Err(Stop::Error("wide symbolic mul overflow".into()));
                            }
                            let (xx, yy) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
                            let t = self.p.mul(xx, yy);
                            let hi = self.p.extract(t, w, w);
                            let z = self.p.c(0, w);
                            self.p.ne(hi, z)
                        }
                    }
                    (_, true) => {
                        let ww = if op == Bin::Mul { 2 * w } else { w + 1 };
                        if ww > 128 {
                            return Err(Stop::Error("wide signed overflow".into()));
                        }
                        let (xx, yy) = (self.p.sext(x, ww), self.p.sext(y, ww));
                        let t = match op {
                            Bin::Add => self.p.add(xx, yy),
                            Bin::Sub => self.p.sub(xx, yy),
                            _ => self.p.mul(xx, yy),
                        };
                        let rr = self.p.sext(re, ww);
                        self.p.ne(t, rr)
                    }
                    _ => return Err(Stop::Error("overflow op".into())),
                };
                let o = self.norm(o);
                Ok(Some(Val::Agg(Rc::new(vec![r, o]))))
            }
            H::Sat(op, signed) => {
                let vecn = match &**rt {
                    Ty::Vec(n, _) => Some(*n),
                    _ => None,
                };
                if signed {
                    return Err(Stop::Error("signed saturating".into()));
                }
                let mut one = |x: &Val, y: &Val, w: u32| -> R<Val> {
                    let r = self.bin(op, w, x, y)?;
                    let (xe, ye) = (self.e(x, w), self.e(y, w));
                    let re = self.e(&r, w);
                    let res = match op {
                        Bin::Add => {
                            let o = self.p.ult(re, xe);
                            let m = self.p.c(mask(w), w);
                            self.p.ite(o, m, re)
                        }
                        _ => {
                            let o = self.p.ult(xe, ye);
                            let z = self.p.c(0, w);
                            self.p.ite(o, z, re)
                        }
                    };
                    Ok(self.norm(res))
                };
                match vecn {
                    None => {
                        let w = rt.bits();
                        Ok(Some(one(&a[0], &a[1], w)?))
                    }
                    Some(n) => {
                        let w = rt.field(0).bits();
                        let (x, y) = (agg(&a[0]), agg(&a[1]));
                        let mut v = vec![];
                        for i in 0..n as usize {
                            v.push(one(&x[i], &y[i], w)?);
                        }
                        Ok(Some(Val::Agg(Rc::new(v))))
                    }
                }
            }
            H::MinMax(_) | H::Abs | H::Ctpop | H::Ctlz | H::Cttz | H::Bswap | H::Bitrev | H::Fshl | H::Fshr => {
                if let Ty::Vec(n, et) = &**rt {
                    let w = et.bits();
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let mut aa = vec![];
                        for (k, x) in a.iter().enumerate() {
                            aa.push(match (&*args[k].1, x) {
                                (Ty::Vec(..), Val::Agg(v)) => v[i].clone(),
                                (_, x) => x.clone(),
                            });
                        }
                        out.push(self.bitop(st, h, w, &aa)?);
                    }
                    return Ok(Some(Val::Agg(Rc::new(out))));
                }
                let w = rt.bits();
                Ok(Some(self.bitop(st, h, w, a)?))
            }
            H::VReduce(k) => {
                let v = agg(&a[0]);
                let w = rt.bits();
                let mut acc = v[0].clone();
                for x in &v[1..] {
                    acc = match k {
                        0 => self.bin(Bin::Add, w, &acc, x)?,
                        1 => self.bin(Bin::Or, w, &acc, x)?,
                        2 => self.bin(Bin::And, w, &acc, x)?,
                        3 => self.bin(Bin::Xor, w, &acc, x)?,
                        4 => self.bitop(st, H::MinMax(1), w, &[acc.clone(), x.clone()])?,
                        _ => self.bitop(st, H::MinMax(0), w, &[acc.clone(), x.clone()])?,
                    };
                }
                Ok(Some(acc))
            }
            H::Body | H::Merge => unreachable!(),
            H::Unsupported => Err(Stop::Error(format!("call of unsupported function {}", self.m.funcs[fi as usize].name))),
        }
    }

    fn bitop(&mut self, _st: &mut State, h: H, w: u32, a: &[Val]) -> R<Val> {
        let conc = a.iter().all(|x| cval(x).is_some());
        let r = match h {
            H::MinMax(k) => {
                let pr = match k {
                    0 => Pred::Ult,
                    1 => Pred::Ugt,
                    2 => Pred::Slt,
                    _ => Pred::Sgt,
                };
                match self.cmp(pr, w, &a[0], &a[1]) {
                    Val::C(0) => a[1].clone(),
                    Val::C(_) => a[0].clone(),
                    Val::S(c) => {
                        let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                        let r = self.p.ite(c, x, y);
                        self.norm(r)
                    }
                    _ => panic!(),
                }
            }
            H::Abs => {
                let x = self.e(&a[0], w);
                let z = self.p.c(0, w);
                let neg = self.p.slt(x, z);
                let n = self.p.sub(z, x);
                let r = self.p.ite(neg, n, x);
                self.norm(r)
            }
            H::Ctpop => {
                if conc {
                    Val::C(cval(&a[0]).unwrap().count_ones() as u64)
                } else {
                    let x = self.e(&a[0], w);
                    let mut acc = self.p.c(0, w);
                    for i in 0..w {
                        let b = self.p.extract(x, i, 1);
                        let b = self.p.zext(b, w);
                        acc = self.p.add(acc, b);
                    }
                    self.norm(acc)
                }
            }
            H::Ctlz | H::Cttz => {
                if conc && w <= 64 {
                    let x = cval(&a[0]).unwrap();
                    let r = if x == 0 {
                        w
                    } else if h == H::Ctlz {
                        x.leading_zeros() - (64 - w)
                    } else {
                        x.trailing_zeros()
                    };
                    Val::C(r as u64)
                } else {
                    let x = self.e(&a[0], w);
                    let mut acc = self.p.c(w as u128, w);
                    for k in 0..w {
                        // for ctlz iterate from low bit to high; last hit wins (outermost)
                        let i = if h == H::Ctlz { k } else { w - 1 - k };
                        let b = self.p.extract(x, i, 1);
                        let val = if h == H::Ctlz { w - 1 - i } else { i };
                        let c = self.p.c(val as u128, w);
                        acc = self.p.ite(b, c, acc);
                    }
                    self.norm(acc)
                }
            }
            H::Bswap => {
                let x = self.e(&a[0], w);
                let mut acc = self.p.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.p.extract(x, 8 * i, 8);
                    acc = self.p.concat(acc, b);
                }
                self.norm(acc)
            }
            H::Bitrev => {
                let x = self.e(&a[0], w);
                let mut acc = self.p.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.p.extract(x, i, 1);
                    acc = self.p.concat(acc, b);
                }
                self.norm(acc)
            }
            H::Fshl | H::Fshr => {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let s = match &a[2] {
                    Val::C(s) => *s % w as u64,
                    Val::S(e) => {
                        // symbolic shift: build with shifts
                        let wc = self.p.c(w as u128, w);
                        let s = self.p.urem(*e, wc);
                        let inv = self.p.sub(wc, s);
                        let z = self.p.c(0, w);
                        let is0 = self.p.eq(s, z);
                        let r = if h == H::Fshl {
                            let l = self.p.shl(x, s);
                            let rr = self.p.lshr(y, inv);
                            let o = self.p.or(l, rr);
                            self.p.ite(is0, x, o)
                        } else {
                            let l = self.p.shl(x, inv);
                            let rr = self.p.lshr(y, s);
                            let o = self.p.or(l, rr);
                            self.p.ite(is0, y, o)
                        };
                        return Ok(self.norm(r));
                    }
                    _ => panic!(),
                } as u32;
                let r = if h == H::Fshl {
                    if s == 0 {
                        x
                    } else {
                        let hi = self.p.extract(x, 0, w - s);
                        let lo = self.p.extract(y, w - s, s);
                        self.p.concat(hi, lo)
                    }
                } else if s == 0 {
                    y
                } else {
                    let hi = self.p.extract(x, 0, s);
                    let lo = self.p.extract(y, s, w - s);
                    self.p.concat(hi, lo)
                };
                self.norm(r)
            }
            _ => unreachable!(),
        };
        Ok(r)
    }
}

fn agg(v: &Val) -> Rc<Vec<Val>> {
    match v {
        Val::Agg(x) => x.clone(),
        _ => panic!("aggregate expected"),
    }
}
fn insert(a: &Val, b: &Val, ix: &[u32]) -> Val {
    let mut v = (*agg(a)).clone();
    if ix.len() == 1 {
        v[ix[0] as usize] = b.clone();
    } else {
        v[ix[0] as usize] = insert(&v[ix[0] as usize], b, &ix[1..]);
    }
    Val::Agg(Rc::new(v))
}

/// very small v0/legacy demangler: keeps the identifiers
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s[base62]_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j > i + 1 || (j < b.len() && j == i + 1 && b[j] == b'_') {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut l = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && j + l <= b.len() {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
