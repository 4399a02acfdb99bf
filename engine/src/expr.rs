//! Hash-consed bit-vector terms with constant folding, linear sums, interval
//! analysis and a handful of structural rewrites.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    /// sum of coef*term + const, modulo 2^w; terms sorted by id; coef != 0
    Sum(Box<[(E, u128)]>, u128),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Concat(E, E),
    Extract(u32, E), // low bit; width = node width
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    /// a term the path condition bounds: its value is below the number
    Bnd(E, u128),
}

#[derive(Clone)]
pub struct Node {
    pub k: K,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    /// number of constant leaves if the node is an ite tree over constants, else 0
    pub leaves: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w == 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Sup {
    l: [E; 4],
    n: u8,
    tt: u16,
}
const TT: [u16; 4] = [0xaaaa, 0xcccc, 0xf0f0, 0xff00];

pub struct Pool {
    /// byte terms of wide values that were stored -> the value
    pub wide: std::collections::HashMap<Box<[E]>, E>,
    pub n: Vec<Node>,
    /// bitwise support of And/Or/Xor nodes: at most four leaves and the truth table over them
    sup: Vec<Sup>,
    kz: Vec<u128>,
    trace: bool,
    mb: FxMap<E, (Vec<(E, u128)>, u128)>,
    unmoebius: FxMap<(Vec<(E, u128)>, u128, u32), E>,
    tzs: Vec<u8>,
    bitwise: FxMap<(Sup, u32), E>,
    xmemo: FxMap<(E, u32, u32), E>,
    map: FxMap<(K, u32), E>,
    // evaluation memo
    memo: Vec<u128>,
    stamp: Vec<u32>,
    gen: u32,
    pub vars: u32,
    pub var_node: Vec<E>,
    cmp_memo: FxMap<(E, u128, u8), E>,
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: vec![],
            sup: vec![],
            kz: vec![],
            trace: std::env::var("RSYM_DIFF").is_ok(),
            mb: Default::default(),
            unmoebius: Default::default(),
            tzs: vec![],
            bitwise: Default::default(),
            wide: Default::default(),
            map: Default::default(),
            xmemo: Default::default(),
            memo: vec![],
            stamp: vec![],
            gen: 0,
            vars: 0,
            var_node: vec![],
            cmp_memo: Default::default(),
        };
        p.c(0, 1); // id 0 reserved
        p.c(0, 1);
        p.c(1, 1);
        p
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    fn mk(&mut self, k: K, w: u32) -> E {
        if let Some(e) = self.map.get(&(k.clone(), w)) {
            return *e;
        }
        let mut sup = Sup::default();
        if w > 1 {
            match k {
                K::And(a, b) | K::Or(a, b) | K::Xor(a, b) => {
                    let op = match k {
                        K::And(..) => 0,
                        K::Or(..) => 1,
                        _ => 2,
                    };
                    if let Some(s) = self.join_sup(op, a, b, w) {
                        if s.tt == 0 {
                            return self.c(0, w);
                        }
                        if s.tt == 0xffff {
                            return self.c(mask(w), w);
                        }
                        for i in 0..s.n as usize {
                            if s.tt == TT[i] {
                                return s.l[i];
                            }
                        }
                        if let Some(e) = self.bitwise.get(&(s, w)) {
                            return *e;
                        }
                        sup = s;
                    }
                }
                _ => {}
            }
        }
        let (lo, hi) = self.interval(&k, w);
        let leaves = match &k {
            K::Const(_) => 1,
            K::Ite(_, a, b) => {
                let (x, y) = (self.n[*a as usize].leaves, self.n[*b as usize].leaves);
                if x > 0 && y > 0 {
                    x.saturating_add(y)
                } else {
                    0
                }
            }
            _ => 0,
        };
        // interval collapse to a constant
        if lo == hi && !matches!(k, K::Const(_)) {
            return self.c(lo, w);
        }
        let id = self.n.len() as E;
        let z = self.known_zero(&k, w, hi);
        self.kz.push(z);
        self.n.push(Node { k: k.clone(), w, lo, hi, leaves });
        if sup.n == 0 {
            sup.l[0] = id;
            sup.n = 1;
            sup.tt = TT[0];
        } else {
            self.bitwise.insert((sup, w), id);
        }
        self.sup.push(sup);
        let t = self.tz_(id) as u8;
        self.tzs.push(t);
        self.map.insert((k, w), id);
        id
    }
    /// truth table of `a op b` over the union of their leaves, if at most four
    fn join_sup(&self, op: u32, a: E, b: E, w: u32) -> Option<Sup> {
        let get = |e: E| {
            if let K::Const(c) = self.n[e as usize].k {
                if c == 0 {
                    return Sup { l: [0; 4], n: 0, tt: 0 };
                }
                if c == mask(w) {
                    return Sup { l: [0; 4], n: 0, tt: 0xffff };
                }
            }
            self.sup[e as usize]
        };
        let try_join = |x: Sup, y: Sup| -> Option<Sup> {
            let mut l = [0; 4];
            let mut n = 0;
            let (mut i, mut j) = (0, 0);
            while i < x.n as usize || j < y.n as usize {
                let p = if i < x.n as usize { x.l[i] } else { E::MAX };
                let q = if j < y.n as usize { y.l[j] } else { E::MAX };
                if n == 4 {
                    return None;
                }
                l[n] = p.min(q);
                n += 1;
                if p <= q {
                    i += 1;
                }
                if q <= p {
                    j += 1;
                }
            }
            let ex = |s: Sup| {
                let mut r = 0u16;
                for k in 0..16usize {
                    let mut ix = 0;
                    for m in 0..s.n as usize {
                        let pos = l[..n].iter().position(|z| *z == s.l[m]).unwrap();
                        ix |= ((k >> pos) & 1) << m;
                    }
                    r |= ((s.tt >> ix) & 1) << k;
                }
                r
            };
            let (t, u) = (ex(x), ex(y));
            let tt = match op {
                0 => t & u,
                1 => t | u,
                _ => t ^ u,
            };
            // drop leaves the function does not depend on
            let mut r = Sup { l: [0; 4], n: 0, tt: 0 };
            let mut keep = vec![];
            for m in 0..n {
                let d = (0..16usize).any(|k| (tt >> k) & 1 != (tt >> (k ^ (1 << m))) & 1);
                if d {
                    keep.push(m);
                }
            }
            for k in 0..16usize {
                let mut full = 0;
                for (z, m) in keep.iter().enumerate() {
                    full |= ((k >> z) & 1) << m;
                }
                r.tt |= ((tt >> full) & 1) << k;
            }
            for (z, m) in keep.iter().enumerate() {
                r.l[z] = l[*m];
            }
            r.n = keep.len() as u8;
            Some(r)
        };
        let leaf = |e: E| Sup { l: [e, 0, 0, 0], n: 1, tt: TT[0] };
        let (x, y) = (get(a), get(b));
        try_join(x, y).or_else(|| try_join(leaf(a), y)).or_else(|| try_join(x, leaf(b))).or_else(|| try_join(leaf(a), leaf(b)))
    }
    fn interval(&self, k: &K, w: u32) -> (u128, u128) {
        let m = mask(w);
        let iv = |e: &E| {
            let n = &self.n[*e as usize];
            (n.lo, n.hi)
        };
        match k {
            K::Const(c) => (*c, *c),
            K::Var(_) => (0, m),
            K::Sum(ts, c) => {
                // unsigned non wrapping sum when everything fits
                let mut lo = *c;
                let mut hi = *c;
                for (t, co) in ts.iter() {
                    let (a, b) = iv(t);
                    let (x, y) = match (a.checked_mul(*co), b.checked_mul(*co)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return (0, m),
                    };
                    match (lo.checked_add(x), hi.checked_add(y)) {
                        (Some(l), Some(h)) => {
                            lo = l;
                            hi = h
                        }
                        _ => return (0, m),
                    }
                }
                if hi <= m {
                    return (lo, hi);
                }
                // signed view: coefficients as signed numbers
                let mut lo = sx(*c, w);
                let mut hi = lo;
                for (t, co) in ts.iter() {
                    let (a, b) = iv(t);
                    if b > (i128::MAX as u128) {
                        return (0, m);
                    }
                    let co = sx(*co, w);
                    let (x, y) = match ((a as i128).checked_mul(co), (b as i128).checked_mul(co)) {
                        (Some(x), Some(y)) => (x.min(y), x.max(y)),
                        _ => return (0, m),
                    };
                    match (lo.checked_add(x), hi.checked_add(y)) {
                        (Some(l), Some(h)) => {
                            lo = l;
                            hi = h
                        }
                        _ => return (0, m),
                    }
                }
                if lo >= 0 && (hi as u128) <= m {
                    return (lo as u128, hi as u128);
                }
                if w < 127 && hi < 0 && lo >= -(1i128 << w) {
                    return ((lo as u128) & m, (hi as u128) & m);
                }
                (0, m)
            }
            K::Mul(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                match b.checked_mul(d) {
                    Some(x) if x <= m => (a * c, x),
                    _ => (0, m),
                }
            }
            K::UDiv(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                if c > 0 {
                    (a / d, b / c)
                } else {
                    (0, m)
                }
            }
            K::URem(a, b) => {
                let ((_, ah), (c, d)) = (iv(a), iv(b));
                if c > 0 {
                    (0, (d - 1).min(ah))
                } else {
                    (0, m)
                }
            }
            K::SDiv(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                let half = m >> 1;
                if b <= half && d <= half && c > 0 {
                    (a / d, b / c)
                } else {
                    (0, m)
                }
            }
            K::SRem(a, b) => {
                let ((_, b), (c, d)) = (iv(a), iv(b));
                let half = m >> 1;
                if b <= half && d <= half && c > 0 {
                    (0, (d - 1).min(b))
                } else {
                    (0, m)
                }
            }
            K::And(a, b) => {
                let ((_, b), (_, d)) = (iv(a), iv(b));
                (0, b.min(d))
            }
            K::Or(a, b) | K::Xor(a, b) => {
                let ((a0, b), (c0, d)) = (iv(a), iv(b));
                let top = b.max(d);
                let hi = if top == 0 { 0 } else { (u128::MAX >> top.leading_zeros()) & m };
                if let K::Or(..) = k {
                    (a0.max(c0), hi)
                } else {
                    (0, hi)
                }
            }
            K::Shl(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                if d < 128 && c < 128 && (b.leading_zeros() as u128) >= d {
                    let x = b << d;
                    if x <= m {
                        return (a << c, x);
                    }
                }
                (0, m)
            }
            K::LShr(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                (if d >= 128 { 0 } else { a >> d }, if c >= 128 { 0 } else { b >> c })
            }
            K::AShr(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                if b <= m >> 1 {
                    (if d >= 128 { 0 } else { a >> d }, if c >= 128 { 0 } else { b >> c })
                } else {
                    (0, m)
                }
            }
            K::Concat(a, b) => {
                let wl = self.n[*b as usize].w;
                let ((a, b), (c, d)) = (iv(a), iv(b));
                ((a << wl) | c, (b << wl) | d)
            }
            K::Extract(lo, a) => {
                let (a, b) = iv(a);
                if *lo == 0 {
                    if b <= m {
                        (a, b)
                    } else {
                        (0, m)
                    }
                } else {
                    let (x, y) = (a >> lo, b >> lo);
                    if y <= m {
                        (x, y)
                    } else {
                        (0, m)
                    }
                }
            }
            K::ZExt(a) => iv(a),
            K::Bnd(a, n) => {
                let (a, b) = iv(a);
                (a.min(*n - 1), b.min(*n - 1))
            }
            K::SExt(a) => {
                let wa = self.n[*a as usize].w;
                let (a, b) = iv(a);
                let half = mask(wa) >> 1;
                if b <= half {
                    (a, b)
                } else if a > half {
                    (sx(a, wa) as u128 & m, sx(b, wa) as u128 & m)
                } else {
                    (0, m)
                }
            }
            K::Ite(_, a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                (a.min(c), b.max(d))
            }
            K::Eq(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                if b < c || d < a {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            K::Ult(a, b) => {
                let ((a, b), (c, d)) = (iv(a), iv(b));
                if b < c {
                    (1, 1)
                } else if a >= d {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            K::Slt(a, b) => {
                let wa = self.n[*a as usize].w;
                let ((a, b), (c, d)) = (iv(a), iv(b));
                let half = mask(wa) >> 1;
                let s = |l: u128, h: u128| {
                    if h <= half {
                        Some((l as i128, h as i128))
                    } else if l > half {
                        Some((sx(l, wa), sx(h, wa)))
                    } else {
                        None
                    }
                };
                if let (Some((a, b)), Some((c, d))) = (s(a, b), s(c, d)) {
                    if b < c {
                        return (1, 1);
                    }
                    if a >= d {
                        return (0, 0);
                    }
                }
                (0, 1)
            }
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128, "width {}", w);
        let v = v & mask(w);
        let key = (K::Const(v), w);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let id = self.n.len() as E;
        self.n.push(Node { k: K::Const(v), w, lo: v, hi: v, leaves: 1 });
        self.sup.push(Sup { l: [id, 0, 0, 0], n: 1, tt: TT[0] });
        self.tzs.push(v.trailing_zeros().min(w) as u8);
        self.kz.push(!v & mask(w));
        self.map.insert(key, id);
        id
    }
    pub fn tru(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn var(&mut self, i: u32) -> E {
        let e = self.mk(K::Var(i), 8);
        if i >= self.vars {
            self.vars = i + 1;
        }
        while self.var_node.len() <= i as usize {
            self.var_node.push(0);
        }
        self.var_node[i as usize] = e;
        e
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if let K::Const(v) = n.k {
            Some(v)
        } else {
            None
        }
    }
    fn k(&self, e: E) -> &K {
        &self.n[e as usize].k
    }

    // ---- linear sums
    fn lin(&self, e: E, out: &mut Vec<(E, u128)>, c: &mut u128, co: u128, w: u32) {
        let m = mask(w);
        match self.k(e) {
            K::Const(v) => *c = c.wrapping_add(v.wrapping_mul(co)) & m,
            K::Sum(ts, k) => {
                *c = c.wrapping_add(k.wrapping_mul(co)) & m;
                for (t, x) in ts.iter() {
                    out.push((*t, x.wrapping_mul(co) & m));
                }
            }
            _ => out.push((e, co)),
        }
    }
    /// a bitwise function that is not a plain conjunction
    fn boolean_mix(&self, e: E) -> bool {
        let s = &self.sup[e as usize];
        if s.n < 2 || !matches!(self.k(e), K::And(..) | K::Or(..) | K::Xor(..)) {
            return false;
        }
        let consts = s.l[..s.n as usize].iter().filter(|l| self.is_c(**l).is_some()).count();
        if s.n == 2 && consts > 0 && !matches!(self.k(e), K::And(..)) {
            return false;
        }
        let n = 1u32 << s.n;
        // sums of parities do not get split by the compiler
        let par = |i: u32| i.count_ones() & 1;
        if consts == 0 && (0..n).all(|i| ((s.tt >> i) & 1) as u32 == par(i)) {
            return false;
        }
        (0..n).any(|i| ((s.tt >> i) & 1 == 1) != (i == n - 1))
    }
    /// f(x, y, ..) as an integer combination of conjunctions of its leaves
    fn moebius(&mut self, e: E) -> (Vec<(E, u128)>, u128) {
        if let Some(r) = self.mb.get(&e) {
            return r.clone();
        }
        let w = self.w(e);
        let s = self.sup[e as usize];
        let n = s.n as usize;
        let mut f: Vec<i32> = (0..1usize << n).map(|i| ((s.tt >> i) & 1) as i32).collect();
        for b in 0..n {
            for i in 0..1usize << n {
                if i >> b & 1 == 1 {
                    f[i] -= f[i ^ (1 << b)];
                }
            }
        }
        // the empty conjunction is all ones, that is -1
        let mut c = (-f[0]) as i128 as u128 & mask(w);
        let mut ts = vec![];
        for i in 1..1usize << n {
            if f[i] == 0 {
                continue;
            }
            let mut t = None;
            for b in 0..n {
                if i >> b & 1 == 1 {
                    t = Some(match t {
                        None => s.l[b],
                        Some(x) => self.and(x, s.l[b]),
                    });
                }
            }
            self.lin(t.unwrap(), &mut ts, &mut c, f[i] as i128 as u128 & mask(w), w);
        }
        let r = (ts.clone(), c);
        self.mb.insert(e, r.clone());
        let m = mask(w);
        ts.sort_unstable_by_key(|t| t.0);
        let mut o: Vec<(E, u128)> = vec![];
        for (t, k) in ts {
            match o.last_mut() {
                Some(l) if l.0 == t => l.1 = l.1.wrapping_add(k) & m,
                _ => o.push((t, k & m)),
            }
        }
        o.retain(|t| t.1 != 0);
        self.unmoebius.insert((o, c, w), e);
        r
    }
    fn mk_sum(&mut self, mut ts: Vec<(E, u128)>, c: u128, w: u32) -> E {
        let m = mask(w);
        ts.sort_unstable_by_key(|t| t.0);
        let mut o: Vec<(E, u128)> = Vec::with_capacity(ts.len());
        for (t, k) in ts {
            if let Some(l) = o.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(k) & m;
                    continue;
                }
            }
            o.push((t, k & m));
        }
        o.retain(|t| t.1 != 0);
        let c = c & m;
        if w >= 16 && (o.len() >= 2 || c != 0) && o.iter().any(|t| self.boolean_mix(t.0)) {
            let mut q = vec![];
            let mut c = c;
            for (t, k) in o {
                if !self.boolean_mix(t) {
                    q.push((t, k));
                    continue;
                }
                let (ts, c1) = self.moebius(t);
                c = c.wrapping_add(c1.wrapping_mul(k));
                q.extend(ts.iter().map(|(e, x)| (*e, x.wrapping_mul(k))));
            }
            return self.mk_sum(q, c, w);
        }
        if let Some(e) = self.unmoebius.get(&(o.clone(), c, w)) {
            return *e;
        }
        if o.is_empty() {
            return self.c(c, w);
        }
        if o.len() == 1 && o[0].1 == 1 && c == 0 {
            return o[0].0;
        }
        self.mk(K::Sum(o.into_boxed_slice(), c), w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if self.ite_c(a) && self.is_c(b).is_some() {
            return self.map_ite(a, &mut |p, x| p.add(x, b));
        }
        if self.ite_c(b) && self.is_c(a).is_some() {
            return self.map_ite(b, &mut |p, x| p.add(x, a));
        }
        let mut ts = vec![];
        let mut c = 0;
        self.lin(a, &mut ts, &mut c, 1, w);
        self.lin(b, &mut ts, &mut c, 1, w);
        self.mk_sum(ts, c, w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let mut ts = vec![];
        let mut c = 0;
        self.lin(a, &mut ts, &mut c, 1, w);
        self.lin(b, &mut ts, &mut c, mask(w), w);
        self.mk_sum(ts, c, w)
    }
    fn scale(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let mut ts = vec![];
        let mut c = 0;
        self.lin(a, &mut ts, &mut c, k & mask(w), w);
        self.mk_sum(ts, c, w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        match (self.is_c(a), self.is_c(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(x), None) => return self.scale(b, x),
            (None, Some(y)) => return self.scale(a, y),
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::Mul(a, b), w)
    }
    fn ite_c(&self, e: E) -> bool {
        let n = &self.n[e as usize];
        matches!(n.k, K::Ite(..)) && n.leaves > 0 && n.leaves <= 600
    }
    /// map a function over the constant leaves of an ite tree
    fn map_ite(&mut self, e: E, f: &mut dyn FnMut(&mut Pool, E) -> E) -> E {
        let mut memo: FxMap<E, E> = Default::default();
        self.map_ite_m(e, f, &mut memo)
    }
    fn map_ite_m(&mut self, e: E, f: &mut dyn FnMut(&mut Pool, E) -> E, memo: &mut FxMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = match *self.k(e) {
            K::Ite(c, a, b) => {
                let x = self.map_ite_m(a, f, memo);
                let y = self.map_ite_m(b, f, memo);
                self.ite(c, x, y)
            }
            _ => f(self, e),
        };
        memo.insert(e, r);
        r
    }
    fn fold2(op: u8, x: u128, y: u128, w: u32) -> Option<u128> {
        Some(match op {
            0 => {
                if y == 0 {
                    mask(w)
                } else {
                    x / y
                }
            }
            1 => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            2 => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a >= 0 {
                        mask(w)
                    } else {
                        1
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            3 => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            4 => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            5 => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            6 => {
                let a = sx(x, w);
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (a >> s.min(127)) as u128
            }
            _ => return None,
        })
    }
    /// a, which the path condition bounds by n
    pub fn bnd(&mut self, a: E, n: u128) -> E {
        let w = self.w(a);
        if n == 0 || self.n[a as usize].hi < n {
            return a;
        }
        if n == 1 {
            return self.c(0, w);
        }
        self.mk(K::Bnd(a, n), w)
    }
    /// exact range of the value as a signed number (sums: without wrapping)
    pub fn srange(&self, e: E) -> Option<(i128, i128)> {
        let w = self.w(e);
        if w > 64 {
            return None;
        }
        let half = mask(w) >> 1;
        let leaf = |e: E| {
            let n = &self.n[e as usize];
            if n.hi <= half {
                Some((n.lo as i128, n.hi as i128))
            } else if n.lo > half {
                Some((sx(n.lo, w), sx(n.hi, w)))
            } else {
                None
            }
        };
        if let K::Sum(ts, c) = self.k(e) {
            let (mut lo, mut hi) = (sx(*c, w), sx(*c, w));
            let mut ok = true;
            for (t, k) in ts.iter() {
                let k = sx(*k, w);
                match leaf(*t) {
                    Some((a, b)) => {
                        lo += (a * k).min(b * k);
                        hi += (a * k).max(b * k);
                    }
                    None => ok = false,
                }
            }
            if ok && lo >= -(half as i128) - 1 && hi <= half as i128 {
                return Some((lo, hi));
            }
        }
        leaf(e)
    }
    /// a = y * q + r as exact integers with r >= 0, where that makes r simpler than a
    pub fn divide(&mut self, a: E, y: u128) -> Option<(E, E)> {
        let w = self.w(a);
        let (lo, hi) = self.srange(a)?;
        let yi = y as i128;
        let half = (mask(w) >> 1) as i128;
        if yi <= 0 || yi > half {
            return None;
        }
        if let K::Sum(ts, c) = self.k(a).clone() {
            let sum_exact = {
                // the range above is that of the sum itself only if every term has one
                ts.iter().all(|(t, _)| self.n[*t as usize].hi <= half as u128)
            };
            if sum_exact {
                let (mut q, mut r) = (vec![], vec![]);
                let c = sx(c, w);
                let (qc, rc) = (c.div_euclid(yi), c.rem_euclid(yi));
                let mut rhi = rc;
                let mut ok = true;
                let mut progress = qc > 0 || (qc < 0 && lo < 0);
                let m = mask(w);
                for (t, k) in ts.iter() {
                    let k = sx(*k, w);
                    let (x, z) = (k.div_euclid(yi), k.rem_euclid(yi));
                    if x < 0 && z != 0 {
                        ok = false;
                    }
                    if x != 0 {
                        q.push((*t, x as u128 & m));
                        progress = true;
                    }
                    if z != 0 {
                        r.push((*t, z as u128));
                        rhi += z * self.n[*t as usize].hi as i128;
                    }
                }
                if ok && progress && rhi <= half {
                    let q = self.mk_sum(q, qc as u128 & m, w);
                    let r = self.mk_sum(r, rc as u128, w);
                    return Some((q, r));
                }
            }
        }
        let base = lo.div_euclid(yi);
        if base != 0 && hi.div_euclid(yi) - base <= 4 {
            let q = self.c(base as u128 & mask(w), w);
            let k = self.c((base * yi) as u128 & mask(w), w);
            let r = self.sub(a, k);
            if self.srange(r) == Some((lo - base * yi, hi - base * yi)) {
                return Some((q, r));
            }
        }
        None
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.is_c(b) {
            if let Some(x) = self.is_c(a) {
                return self.c(Self::fold2(0, x, y, w).unwrap(), w);
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let s = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            if self.ite_c(a) {
                return self.map_ite(a, &mut |p, x| p.udiv(x, b));
            }
            if y > 0 && self.n[a as usize].hi <= mask(w) >> 1 {
                if let Some((q, r)) = self.divide(a, y) {
                    let x = self.udiv(r, b);
                    return self.add(q, x);
                }
                if let K::Sum(ts, c) = self.k(a).clone() {
                    // (g * x + c) / (g * y')
                    let mut g = y;
                    for (_, k) in ts.iter() {
                        let (mut m, mut n) = (g, *k);
                        while n != 0 {
                            (m, n) = (n, m % n);
                        }
                        g = m;
                    }
                    if g > 1 && self.sum_exact(a) {
                        let x = self.mk_sum(ts.iter().map(|(t, k)| (*t, k / g)).collect(), c / g, w);
                        let y = self.c(y / g, w);
                        return self.udiv(x, y);
                    }
                }
                let (lo, hi) = (self.n[a as usize].lo / y, self.n[a as usize].hi / y);
                if hi - lo <= 4 {
                    let mut r = self.c(lo, w);
                    for k in lo + 1..=hi {
                        let t = self.c(k * y, w);
                        let g = self.ule(t, a);
                        let g = self.zext(g, w);
                        r = self.add(r, g);
                    }
                    return r;
                }
            }
            if let Some((x, wn)) = self.narrow(a, b) {
                let bb = self.c(y, wn);
                let r = self.udiv(x, bb);
                return self.zext(r, w);
            }
        }
        self.mk(K::UDiv(a, b), w)
    }
    /// an unsigned sum that cannot wrap
    fn sum_exact(&self, a: E) -> bool {
        if let K::Sum(ts, c) = self.k(a) {
            let m = mask(self.w(a));
            let mut hi = *c;
            for (t, k) in ts.iter() {
                match self.n[*t as usize].hi.checked_mul(*k).and_then(|x| hi.checked_add(x)) {
                    Some(x) if x <= m => hi = x,
                    _ => return false,
                }
            }
            return true;
        }
        false
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.is_c(b) {
            if let Some(x) = self.is_c(a) {
                return self.c(Self::fold2(1, x, y, w).unwrap(), w);
            }
            if y.is_power_of_two() {
                let s = self.c(y - 1, w);
                return self.and(a, s);
            }
            if y > 0 && self.n[a as usize].hi < y {
                return a;
            }
            if self.ite_c(a) {
                return self.map_ite(a, &mut |p, x| p.urem(x, b));
            }
            if y > 0 && self.n[a as usize].hi <= mask(w) >> 1 {
                if let Some((_, r)) = self.divide(a, y) {
                    return self.urem(r, b);
                }
                let (lo, hi) = (self.n[a as usize].lo / y, self.n[a as usize].hi / y);
                if hi - lo <= 4 {
                    let q = self.udiv(a, b);
                    let q = self.mul(q, b);
                    return self.sub(a, q);
                }
            }
            if let Some((x, wn)) = self.narrow(a, b) {
                let bb = self.c(y, wn);
                let r = self.urem(x, bb);
                return self.zext(r, w);
            }
        }
        self.mk(K::URem(a, b), w)
    }
    /// when the high bits of a and b are provably zero use a narrower operand
    fn narrow(&mut self, a: E, b: E) -> Option<(E, u32)> {
        let w = self.w(a);
        let h = self.n[a as usize].hi.max(self.n[b as usize].hi);
        let need = (128 - h.leading_zeros()).max(1);
        if need < w && (need + 8 <= w || matches!(self.k(a), K::ZExt(_))) {
            let x = self.extract(a, 0, need);
            // only useful when the extract does not hide structure
            Some((x, need))
        } else {
            None
        }
    }
    /// quotient rounded towards zero of a possibly negative number by a positive constant
    fn trunc_div(&mut self, a: E, y: u128) -> Option<E> {
        let w = self.w(a);
        let (lo, hi) = self.srange(a)?;
        let (q, r) = self.divide(a, y)?;
        let b = self.c(y, w);
        if hi < 0 {
            let k = self.c(y - 1, w);
            let r = self.add(r, k);
            let r = self.udiv(r, b);
            return Some(self.add(q, r));
        }
        let x = self.udiv(r, b);
        let floor = self.add(q, x);
        if lo >= 0 {
            return Some(floor);
        }
        let k = self.c(y - 1, w);
        let r = self.add(r, k);
        let r = self.udiv(r, b);
        let ceil = self.add(q, r);
        let z = self.c(0, w);
        let neg = self.slt(a, z);
        Some(self.ite(neg, ceil, floor))
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.c(Self::fold2(2, x, y, w).unwrap(), w);
        }
        let half = mask(w) >> 1;
        if self.n[a as usize].hi <= half && self.n[b as usize].hi <= half && self.n[b as usize].lo > 0 {
            return self.udiv(a, b);
        }
        if let Some(y) = self.is_c(b) {
            if y > 1 && y <= half {
                if let Some(q) = self.trunc_div(a, y) {
                    return q;
                }
            }
        }
        self.mk(K::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.c(Self::fold2(3, x, y, w).unwrap(), w);
        }
        let half = mask(w) >> 1;
        if self.n[a as usize].hi <= half && self.n[b as usize].hi <= half && self.n[b as usize].lo > 0 {
            return self.urem(a, b);
        }
        if let Some(y) = self.is_c(b) {
            if y > 1 && y <= half {
                if let Some(q) = self.trunc_div(a, y) {
                    let q = self.mul(q, b);
                    return self.sub(a, q);
                }
            }
        }
        self.mk(K::SRem(a, b), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.xor(a, m)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.is_c(b) {
            if let Some(x) = self.is_c(a) {
                return self.c(x & y, w);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            if let K::And(p, q) = *self.k(a) {
                if let Some(z) = self.is_c(q) {
                    let c = self.c(y & z, w);
                    return self.and(p, c);
                }
            }
            if self.ite_c(a) {
                return self.map_ite(a, &mut |p, x| p.and(x, b));
            }
            // low mask: zext of extract
            let n = 128 - y.leading_zeros();
            if y == mask(n) && n < w {
                if self.n[a as usize].hi <= y {
                    return a;
                }
                let x = self.extract(a, 0, n);
                return self.zext(x, w);
            }
            // shifted contiguous mask
            let tz = y.trailing_zeros();
            let z = y >> tz;
            if tz > 0 && (z & (z + 1)) == 0 && w > 1 {
                let n = 128 - z.leading_zeros();
                let x = self.extract(a, tz, n);
                let zz = self.c(0, tz);
                let r = self.concat(x, zz);
                return self.zext(r, w);
            }
            match *self.k(a) {
                K::ZExt(x) => {
                    let wx = self.w(x);
                    if y >> wx != 0 || wx < w {
                        let c = self.c(y & mask(wx), wx);
                        let r = self.and(x, c);
                        return self.zext(r, w);
                    }
                }
                _ => {}
            }
        } else if w == 1 {
            if self.compl(a, b) {
                return self.fls();
            }
            // absorb
            if let K::And(p, q) = *self.k(a) {
                if p == b || q == b {
                    return a;
                }
            }
            if let K::And(p, q) = *self.k(b) {
                if p == a || q == a {
                    return b;
                }
            }
        }
        self.mk(K::And(a, b), w)
    }
    fn compl(&self, a: E, b: E) -> bool {
        let chk = |a: E, b: E| {
            if let K::Xor(p, q) = self.k(a) {
                *p == b && self.is_c(*q) == Some(mask(self.w(b)))
            } else {
                false
            }
        };
        chk(a, b) || chk(b, a)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.is_c(b) {
            if let Some(x) = self.is_c(a) {
                return self.c(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            if self.ite_c(a) {
                return self.map_ite(a, &mut |p, x| p.or(x, b));
            }
        }
        if w == 1 {
            if self.compl(a, b) {
                return self.tru();
            }
        } else {
            // disjoint or -> concat when split cleanly
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        self.mk(K::Or(a, b), w)
    }
    /// number of trailing zero bits provable
    pub fn tz(&self, e: E) -> u32 {
        self.tzs[e as usize] as u32
    }
    fn tz_(&self, e: E) -> u32 {
        let n = &self.n[e as usize];
        match &n.k {
            K::Const(v) => {
                if *v == 0 {
                    n.w
                } else {
                    v.trailing_zeros().min(n.w)
                }
            }
            K::Concat(h, l) => {
                let wl = self.w(*l);
                let t = self.tz(*l);
                if t == wl {
                    wl + self.tz(*h)
                } else {
                    t
                }
            }
            K::ZExt(a) => {
                let t = self.tz(*a);
                if t == self.w(*a) {
                    n.w
                } else {
                    t
                }
            }
            K::Sum(ts, c) => {
                let mut t = if *c == 0 { n.w } else { c.trailing_zeros() };
                for (x, co) in ts.iter() {
                    t = t.min(self.tz(*x) + co.trailing_zeros());
                }
                t.min(n.w)
            }
            K::Shl(a, s) => {
                if let Some(s) = self.is_c(*s) {
                    (self.tz(*a) as u128 + s).min(n.w as u128) as u32
                } else {
                    self.tz(*a)
                }
            }
            K::Or(a, b) | K::Xor(a, b) => self.tz(*a).min(self.tz(*b)),
            K::And(a, b) => self.tz(*a).max(self.tz(*b)),
            _ => 0,
        }
    }
    /// a | b as a concatenation when no bit can be set in both
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (za, zb) = (self.kz[a as usize], self.kz[b as usize]);
        if (za | zb) & mask(w) != mask(w) {
            return None;
        }
        let mut segs: Vec<(u32, u32, E)> = vec![];
        for i in 0..w {
            let (p, q) = ((za >> i) & 1 == 1, (zb >> i) & 1 == 1);
            let last = segs.last().map(|s| s.2);
            let o = match (p, q) {
                (true, true) => last.unwrap_or(a),
                (true, false) => b,
                _ => a,
            };
            if last == Some(o) {
                segs.last_mut().unwrap().1 += 1;
            } else {
                segs.push((i, 1, o));
            }
        }
        if segs.len() > 8 {
            return None;
        }
        let mut r = None;
        for (lo, n, e) in segs {
            let x = self.extract(e, lo, n);
            r = Some(match r {
                None => x,
                Some(l) => self.concat(x, l),
            });
        }
        r
    }
    /// bits known to be zero
    fn known_zero(&self, k: &K, w: u32, hi: u128) -> u128 {
        let z = |e: &E| self.kz[*e as usize];
        let wd = |e: &E| self.n[*e as usize].w;
        let bits = 128 - hi.leading_zeros();
        let top = mask(w) & !(if bits == 0 { 0 } else { mask(bits) });
        top | match k {
            K::Const(v) => !*v & mask(w),
            K::Concat(h, l) => (z(h) << wd(l)) | z(l),
            K::ZExt(x) => z(x) | (mask(w) & !mask(wd(x))),
            K::And(a, b) => z(a) | z(b),
            K::Or(a, b) | K::Xor(a, b) => z(a) & z(b),
            K::Ite(_, a, b) => z(a) & z(b),
            K::Extract(lo, x) => (z(x) >> lo) & mask(w),
            _ => 0,
        }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        if self.trace && self.is_c(a).is_none() && self.is_c(b).is_none() && self.w(a) == 8 {
            self.diff(a, b, 0);
        }
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        let (a, b) = if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.is_c(b) {
            if let Some(x) = self.is_c(a) {
                return self.c(x ^ y, w);
            }
            if y == 0 {
                return a;
            }
            if let K::Xor(p, q) = *self.k(a) {
                if let Some(z) = self.is_c(q) {
                    let c = self.c(y ^ z, w);
                    return self.xor(p, c);
                }
            }
            if w == 1 {
                // not of a comparison stays as xor; not of ite over constants folds
                if self.ite_c(a) {
                    return self.map_ite(a, &mut |p, x| p.xor(x, b));
                }
            }
        } else {
            // x ^ (x ^ y)
            if let K::Xor(p, q) = *self.k(a) {
                if p == b {
                    return q;
                }
                if q == b {
                    return p;
                }
            }
            if let K::Xor(p, q) = *self.k(b) {
                if p == a {
                    return q;
                }
                if q == a {
                    return p;
                }
            }
            // pull constants outwards
            if let K::Xor(p, q) = *self.k(a) {
                if self.is_c(q).is_some() {
                    let r = self.xor(p, b);
                    return self.xor(r, q);
                }
            }
            if let K::Xor(p, q) = *self.k(b) {
                if self.is_c(q).is_some() {
                    let r = self.xor(p, a);
                    return self.xor(r, q);
                }
            }
            // associativity and commutativity of long chains
            if matches!(self.k(a), K::Xor(..)) || matches!(self.k(b), K::Xor(..)) {
                let mut l = vec![];
                let mut st = vec![a, b];
                while let Some(e) = st.pop() {
                    match *self.k(e) {
                        K::Xor(p, q) if l.len() + st.len() < 48 => {
                            st.push(p);
                            st.push(q);
                        }
                        _ => l.push(e),
                    }
                }
                if l.len() > 4 {
                    l.sort_unstable();
                    let mut k = 0u128;
                    let mut o: Vec<E> = vec![];
                    for e in l {
                        if let Some(c) = self.is_c(e) {
                            k ^= c;
                        } else if o.last() == Some(&e) {
                            o.pop();
                        } else {
                            o.push(e);
                        }
                    }
                    if o.is_empty() {
                        return self.c(k, w);
                    }
                    let mut r = o[0];
                    for e in &o[1..] {
                        r = self.mk(K::Xor(r, *e), w);
                    }
                    if k != 0 {
                        let c = self.c(k, w);
                        r = self.mk(K::Xor(r, c), w);
                    }
                    return r;
                }
            }
            if w > 1 {
                if let Some(r) = self.disjoint(a, b) {
                    return r;
                }
            }
            // zext(x) ^ zext(y)
            if let (K::ZExt(x), K::ZExt(y)) = (self.k(a).clone(), self.k(b).clone()) {
                if self.w(x) == self.w(y) {
                    let r = self.xor(x, y);
                    return self.zext(r, w);
                }
            }
        }
        self.mk(K::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.is_c(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            if let Some(x) = self.is_c(a) {
                return self.c(x << s, w);
            }
            // linear form keeps sums canonical; concat form keeps bit structure
            if matches!(self.k(a), K::Sum(..)) {
                return self.scale(a, 1u128 << s);
            }
            let x = self.extract(a, 0, w - s);
            let z = self.c(0, s);
            return self.concat(x, z);
        }
        self.mk(K::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.is_c(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            let x = self.extract(a, s, w - s);
            return self.zext(x, w);
        }
        self.mk(K::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.is_c(b) {
            if s == 0 {
                return a;
            }
            let s = if s >= w as u128 { w - 1 } else { s as u32 };
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.mk(K::AShr(a, b), w)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if w > 128 {
            panic!("unsupported: concat wider than 128 bits");
        }
        match (self.is_c(hi), self.is_c(lo)) {
            (Some(x), Some(y)) => return self.c((x << wl) | y, w),
            (Some(0), None) => return self.zext(lo, w),
            _ => {}
        }
        // merge adjacent constants
        if let Some(x) = self.is_c(hi) {
            match *self.k(lo) {
                K::ZExt(y) => {
                    let k = wl - self.w(y);
                    let c = self.c(x << k, wh + k);
                    return self.concat(c, y);
                }
                K::Concat(p, q) => {
                    if let Some(z) = self.is_c(p) {
                        let wp = self.w(p);
                        let c = self.c((x << wp) | z, wh + wp);
                        return self.concat(c, q);
                    }
                }
                _ => {}
            }
        }
        // merge adjacent extracts
        if let K::Extract(lh, x) = *self.k(hi) {
            match *self.k(lo) {
                K::Extract(ll, y) if x == y && lh == ll + wl => {
                    return self.extract(x, ll, w);
                }
                // hi extract with lo itself the low extract of concat chain
                K::Concat(p, q) => {
                    if let K::Extract(lp, y) = *self.k(p) {
                        if y == x && lh == lp + self.w(p) {
                            let m = self.extract(x, lp, wh + self.w(p));
                            return self.concat(m, q);
                        }
                    }
                }
                _ => {}
            }
            // lo is a narrower node that equals low part of x
            if self.w(x) > wl && lh == wl {
                let l2 = self.extract(x, 0, wl);
                if l2 == lo {
                    return self.extract(x, 0, w);
                }
            }
        }
        // ite with same condition
        if let (K::Ite(c1, a, b), K::Ite(c2, p, q)) = (self.k(hi).clone(), self.k(lo).clone()) {
            if c1 == c2 {
                let x = self.concat(a, p);
                let y = self.concat(b, q);
                return self.ite(c1, x, y);
            }
        }
        if let (K::Ite(c, a, b), Some(_)) = (self.k(hi).clone(), self.is_c(lo)) {
            let x = self.concat(a, lo);
            let y = self.concat(b, lo);
            return self.ite(c, x, y);
        }
        // normalise to right-nested: (a.b).c -> a.(b.c)
        if let K::Concat(a, b) = *self.k(hi) {
            let r = self.concat(b, lo);
            return self.concat(a, r);
        }
        if let K::ZExt(a) = *self.k(hi) {
            let r = self.concat(a, lo);
            return self.zext(r, w);
        }
        self.mk(K::Concat(hi, lo), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(x) = self.is_c(a) {
            return self.c(x >> lo, w);
        }
        if lo > 0 && self.n[a as usize].hi >> lo == 0 {
            return self.c(0, w);
        }
        if let Some(e) = self.xmemo.get(&(a, lo, w)) {
            return *e;
        }
        let e = self.extract_(a, lo, w);
        self.xmemo.insert((a, lo, w), e);
        e
    }
    fn extract_(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        match self.k(a).clone() {
            K::Extract(l, x) => return self.extract(x, l + lo, w),
            K::Bnd(x, n) if lo == 0 && n - 1 <= mask(w) => {
                let y = self.extract(x, 0, w);
                return self.bnd(y, n);
            }
            K::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                let p = self.extract(l, lo, wl - lo);
                let q = self.extract(h, 0, w - (wl - lo));
                return self.concat(q, p);
            }
            K::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.c(0, w);
                }
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                let y = self.extract(x, lo, wx - lo);
                return self.zext(y, w);
            }
            K::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo < wx {
                    let y = self.extract(x, lo, wx - lo);
                    return self.sext(y, w);
                }
                let y = self.extract(x, wx - 1, 1);
                return self.sext(y, w);
            }
            K::Ite(c, x, y) => {
                if self.n[a as usize].leaves > 0 || self.is_c(x).is_some() || self.is_c(y).is_some() {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return self.ite(c, p, q);
                }
            }
            K::And(x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.and(p, q);
            }
            K::Or(x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.or(p, q);
            }
            K::Xor(x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.xor(p, q);
            }
            K::Sum(ts, c) if c.trailing_zeros() >= lo + w && ts.iter().all(|(_, co)| co.trailing_zeros() >= lo + w) => return self.c(0, w),
            K::Sum(ts, c) if lo > 0 && c.trailing_zeros() >= lo && ts.iter().all(|(_, co)| co.trailing_zeros() >= lo) => {
                // (2^lo * y)[lo..] = y
                let mut acc = self.c(c >> lo, wa);
                for (t, co) in ts.iter() {
                    let k = self.c(co >> lo, wa);
                    let m = self.mul(*t, k);
                    acc = self.add(acc, m);
                }
                return self.extract(acc, 0, w);
            }
            K::Sum(ts, c) if lo == 0 && w > 1 && ts.len() <= 4 && self.n[a as usize].hi > mask(w) => {
                // modular arithmetic commutes with truncation
                let mut v = vec![];
                let mut k = c & mask(w);
                for (t, co) in ts.iter() {
                    let x = self.extract(*t, 0, w);
                    self.lin(x, &mut v, &mut k, co & mask(w), w);
                }
                return self.mk_sum(v, k, w);
            }
            _ => {}
        }
        self.mk(K::Extract(lo, a), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        assert!(w > wa && w <= 128);
        if let Some(x) = self.is_c(a) {
            return self.c(x, w);
        }
        match self.k(a).clone() {
            K::ZExt(x) => return self.zext(x, w),
            // zext(extract(x,0,n)) where x's high bits are already zero
            K::Extract(0, x) => {
                if self.w(x) <= w && self.n[x as usize].hi <= mask(wa) {
                    return self.zext(x, w);
                }
            }
            K::Ite(c, x, y) => {
                if self.n[a as usize].leaves > 0 {
                    let p = self.zext(x, w);
                    let q = self.zext(y, w);
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        self.mk(K::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(x) = self.is_c(a) {
            return self.c(sx(x, wa) as u128, w);
        }
        if self.n[a as usize].hi <= mask(wa) >> 1 {
            return self.zext(a, w);
        }
        match self.k(a).clone() {
            K::SExt(x) => return self.sext(x, w),
            // a sum that does not overflow: extend its terms
            K::Sum(ts, c) if w <= 64 => {
                let half = (mask(wa) >> 1) as i128;
                let (mut lo, mut hi) = (sx(c, wa), sx(c, wa));
                let mut ok = true;
                for (t, k) in ts.iter() {
                    let n = &self.n[*t as usize];
                    let k = sx(*k, wa);
                    ok &= n.hi as i128 <= half && n.hi <= mask(wa) >> 1;
                    if ok {
                        lo += (n.lo as i128 * k).min(n.hi as i128 * k);
                        hi += (n.lo as i128 * k).max(n.hi as i128 * k);
                    }
                }
                if ok && lo >= -half - 1 && hi <= half {
                    let mut o = vec![];
                    for (t, k) in ts.iter() {
                        let x = self.zext(*t, w);
                        o.push((x, sx(*k, wa) as u128 & mask(w)));
                    }
                    return self.mk_sum(o, sx(c, wa) as u128 & mask(w), w);
                }
            }
            // the truncated bits are copies of the sign
            K::Extract(0, x) if self.w(x) <= w => {
                if let Some((l, h)) = self.srange(x) {
                    let m = (mask(wa) >> 1) as i128;
                    if l >= -m - 1 && h <= m {
                        return self.sext(x, w);
                    }
                }
            }
            K::Ite(c, x, y) => {
                if self.n[a as usize].leaves > 0 {
                    let p = self.sext(x, w);
                    let q = self.sext(y, w);
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        if wa == 1 {
            let p = self.c(mask(w), w);
            let q = self.c(0, w);
            return self.ite(a, p, q);
        }
        self.mk(K::SExt(a), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.w(a), self.w(b));
        if let Some(v) = self.is_c(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        // not condition
        if let K::Xor(p, q) = *self.k(c) {
            if self.is_c(q) == Some(1) {
                return self.ite(p, b, a);
            }
        }
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // nested same condition
        let a = if let K::Ite(c2, x, _) = *self.k(a) {
            if c2 == c {
                x
            } else {
                a
            }
        } else {
            a
        };
        let b = if let K::Ite(c2, _, y) = *self.k(b) {
            if c2 == c {
                y
            } else {
                b
            }
        } else {
            b
        };
        if a == b {
            return a;
        }
        // ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
        if let K::Ite(d, x, y) = *self.k(a) {
            if y == b {
                let cd = self.and(c, d);
                return self.ite(cd, x, b);
            }
        }
        self.mk(K::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.tru();
        }
        let (a, b) = if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.is_c(b) {
            if let Some(x) = self.is_c(a) {
                return self.c((x == y) as u128, 1);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            let n = &self.n[a as usize];
            if y < n.lo || y > n.hi {
                return self.fls();
            }
            match self.k(a).clone() {
                K::ZExt(x) => {
                    let wx = self.w(x);
                    let c = self.c(y, wx);
                    return self.eq(x, c);
                }
                K::SExt(x) => {
                    let wx = self.w(x);
                    if sx(y & mask(wx), wx) as u128 & mask(w) != y {
                        return self.fls();
                    }
                    let c = self.c(y, wx);
                    return self.eq(x, c);
                }
                K::Concat(h, l) => {
                    let wl = self.w(l);
                    let wh = self.w(h);
                    let ch = self.c(y >> wl, wh);
                    let cl = self.c(y, wl);
                    let p = self.eq(h, ch);
                    if self.is_c(p) == Some(0) {
                        return p;
                    }
                    let q = self.eq(l, cl);
                    return self.and(p, q);
                }
                K::Xor(p, q) => {
                    if let Some(z) = self.is_c(q) {
                        let c = self.c(y ^ z, w);
                        return self.eq(p, c);
                    }
                    if y == 0 {
                        return self.eq(p, q);
                    }
                }
                K::Sum(ts, c) => {
                    // move constant over; divide by unit coefficient when 1 or -1
                    let r = y.wrapping_sub(c) & mask(w);
                    if ts.len() == 1 {
                        let (t, co) = ts[0];
                        if co == 1 {
                            let cc = self.c(r, w);
                            return self.eq(t, cc);
                        }
                        if co == mask(w) {
                            let cc = self.c(r.wrapping_neg(), w);
                            return self.eq(t, cc);
                        }
                    }
                    if c != 0 {
                        let s = self.mk_sum(ts.to_vec(), 0, w);
                        let cc = self.c(r, w);
                        return self.mk(K::Eq(s, cc), 1);
                    }
                }
                K::Ite(..) => {
                    if self.n[a as usize].leaves > 0 && self.n[a as usize].leaves <= 70000 {
                        if let Some(r) = self.cmp_memo.get(&(a, y, 0)) {
                            return *r;
                        }
                        let r = self.map_ite(a, &mut |p, x| p.eq(x, b));
                        self.cmp_memo.insert((a, y, 0), r);
                        return r;
                    }
                    if let K::Ite(c, x, z) = *self.k(a) {
                        if self.is_c(x).is_some() || self.is_c(z).is_some() {
                            let p = self.eq(x, b);
                            let q = self.eq(z, b);
                            return self.ite(c, p, q);
                        }
                    }
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            match (self.k(a).clone(), self.k(b).clone()) {
                (K::ZExt(x), K::ZExt(y)) => {
                    let (wx, wy) = (self.w(x), self.w(y));
                    let m = wx.max(wy);
                    if m < w {
                        let p = self.zext(x, m);
                        let q = self.zext(y, m);
                        return self.eq(p, q);
                    }
                }
                (K::Sum(..), _) | (_, K::Sum(..)) => {
                    // cancel common terms
                    let d = self.sub(a, b);
                    if let Some(v) = self.is_c(d) {
                        return self.c((v == 0) as u128, 1);
                    }
                    if let K::Sum(ts, c) = self.k(d).clone() {
                        if ts.len() == 1 || (ts.len() == 2 && false) {
                            let _ = c;
                            let z = self.c(0, w);
                            return self.eq(d, z);
                        }
                    }
                }
                (K::Concat(h1, l1), K::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                    let p = self.eq(h1, h2);
                    if self.is_c(p) == Some(0) {
                        return p;
                    }
                    let q = self.eq(l1, l2);
                    return self.and(p, q);
                }
                _ => {}
            }
        }
        self.mk(K::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x < y) as u128, 1);
        }
        {
            let (na, nb) = (&self.n[a as usize], &self.n[b as usize]);
            if na.hi < nb.lo {
                return self.tru();
            }
            if na.lo >= nb.hi {
                return self.fls();
            }
        }
        if w >= 8 && matches!(self.k(a), K::Sum(..)) && matches!(self.k(b), K::Sum(..)) {
            if let (Some(x), Some(y)) = (self.srange(a), self.srange(b)) {
                if x.0 >= 0 && y.0 >= 0 {
                    let d = self.sub(a, b);
                    match self.srange(d) {
                        Some((_, h)) if h < 0 => return self.tru(),
                        Some((l, _)) if l >= 0 => return self.fls(),
                        _ => {}
                    }
                }
            }
        }
        if cb == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            return self.ne(b, a);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let (K::ZExt(x), Some(y)) = (self.k(a).clone(), cb) {
            let wx = self.w(x);
            let c = self.c(y, wx);
            return self.ult(x, c);
        }
        if let (Some(y), K::ZExt(x)) = (ca, self.k(b).clone()) {
            let wx = self.w(x);
            let c = self.c(y, wx);
            return self.ult(c, x);
        }
        if let (K::ZExt(x), K::ZExt(y)) = (self.k(a).clone(), self.k(b).clone()) {
            let m = self.w(x).max(self.w(y));
            if m < w {
                let p = self.zext(x, m);
                let q = self.zext(y, m);
                return self.ult(p, q);
            }
        }
        if let Some(y) = cb {
            if matches!(self.k(a), K::Ite(..)) && self.n[a as usize].leaves > 0 {
                if let Some(r) = self.cmp_memo.get(&(a, y, 1)) {
                    return *r;
                }
                let r = self.map_ite(a, &mut |p, x| p.ult(x, b));
                self.cmp_memo.insert((a, y, 1), r);
                return r;
            }
            // (x < 2^k) when high part known: extract high bits == 0
            if y.is_power_of_two() {
                if let K::Concat(..) = self.k(a) {
                    let t = y.trailing_zeros();
                    let h = self.extract(a, t, w - t);
                    let z = self.c(0, w - t);
                    return self.eq(h, z);
                }
            }
        }
        if let Some(x) = ca {
            if matches!(self.k(b), K::Ite(..)) && self.n[b as usize].leaves > 0 {
                if let Some(r) = self.cmp_memo.get(&(b, x, 2)) {
                    return *r;
                }
                let r = self.map_ite(b, &mut |p, y| p.ult(a, y));
                self.cmp_memo.insert((b, x, 2), r);
                return r;
            }
        }
        self.mk(K::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let l = self.ult(b, a);
        self.not(l)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.c((sx(x, w) < sx(y, w)) as u128, 1);
        }
        let half = mask(w) >> 1;
        let (an, bn) = (self.n[a as usize].hi <= half, self.n[b as usize].hi <= half);
        if an && bn {
            return self.ult(a, b);
        }
        if let (Some(x), Some(y)) = (self.srange(a), self.srange(b)) {
            if x.1 < y.0 {
                return self.tru();
            }
            if x.0 >= y.1 {
                return self.fls();
            }
            if w >= 8 && matches!(self.k(a), K::Sum(..)) && matches!(self.k(b), K::Sum(..)) {
                let q = (half >> 1) as i128;
                if x.0 >= -q && x.1 <= q && y.0 >= -q && y.1 <= q {
                    let d = self.sub(a, b);
                    match self.srange(d) {
                        Some((_, h)) if h < 0 => return self.tru(),
                        Some((l, _)) if l >= 0 => return self.fls(),
                        _ => {}
                    }
                }
            }
        }
        if w > 1 {
            if self.is_c(b) == Some(0) {
                return self.extract(a, w - 1, 1);
            }
            if self.is_c(a) == Some(mask(w)) {
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
        }
        if let (K::SExt(x), Some(y)) = (self.k(a).clone(), self.is_c(b)) {
            let wx = self.w(x);
            let sy = sx(y, w);
            if sy > (mask(wx) >> 1) as i128 {
                return self.tru();
            }
            if sy < -((mask(wx) >> 1) as i128) - 1 {
                return self.fls();
            }
            let c = self.c(y, wx);
            return self.slt(x, c);
        }
        if let (Some(y), K::SExt(x)) = (self.is_c(a), self.k(b).clone()) {
            let wx = self.w(x);
            let sy = sx(y, w);
            if sy > (mask(wx) >> 1) as i128 {
                return self.fls();
            }
            if sy < -((mask(wx) >> 1) as i128) - 1 {
                return self.tru();
            }
            let c = self.c(y, wx);
            return self.slt(c, x);
        }
        self.mk(K::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let l = self.slt(b, a);
        self.not(l)
    }

    // ---- evaluation under a model (var id -> byte)
    pub fn new_eval(&mut self) {
        self.gen += 1;
    }
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        self.gen += 1;
        self.ev(e, m)
    }
    pub fn ev(&mut self, root: E, m: &[u8]) -> u128 {
        if self.memo.len() < self.n.len() {
            self.memo.resize(self.n.len() + 1024, 0);
            self.stamp.resize(self.n.len() + 1024, 0);
        }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            let i = e as usize;
            if self.stamp[i] == self.gen {
                st.pop();
                continue;
            }
            let node = &self.n[i];
            let w = node.w;
            macro_rules! need {
                ($x:expr) => {{
                    let x = *$x as usize;
                    if let K::Const(v) = self.n[x].k {
                        v
                    } else if self.stamp[x] != self.gen {
                        st.push(*$x);
                        continue;
                    } else {
                        self.memo[x]
                    }
                }};
            }
            macro_rules! two {
                ($a:expr,$b:expr) => {{
                    let x = need!($a);
                    let y = need!($b);
                    (x, y)
                }};
            }
            let v: u128 = match &node.k {
                K::Const(v) => *v,
                K::Var(v) => *m.get(*v as usize).unwrap_or(&0) as u128,
                K::Sum(ts, c) => {
                    let mut miss = false;
                    let mut acc = *c;
                    for (t, co) in ts.iter() {
                        let ti = *t as usize;
                        if self.stamp[ti] != self.gen {
                            st.push(*t);
                            miss = true;
                        } else {
                            acc = acc.wrapping_add(self.memo[ti].wrapping_mul(*co));
                        }
                    }
                    if miss {
                        continue;
                    }
                    acc
                }
                K::Mul(a, b) => {
                    let (x, y) = two!(a, b);
                    x.wrapping_mul(y)
                }
                K::UDiv(a, b) => {
                    let (x, y) = two!(a, b);
                    Self::fold2(0, x, y, w).unwrap()
                }
                K::URem(a, b) => {
                    let (x, y) = two!(a, b);
                    Self::fold2(1, x, y, w).unwrap()
                }
                K::SDiv(a, b) => {
                    let (x, y) = two!(a, b);
                    Self::fold2(2, x, y, w).unwrap()
                }
                K::SRem(a, b) => {
                    let (x, y) = two!(a, b);
                    Self::fold2(3, x, y, w).unwrap()
                }
                K::And(a, b) => {
                    let (x, y) = two!(a, b);
                    x & y
                }
                K::Or(a, b) => {
                    let (x, y) = two!(a, b);
                    x | y
                }
                K::Xor(a, b) => {
                    let (x, y) = two!(a, b);
                    x ^ y
                }
                K::Shl(a, b) => {
                    let (x, y) = two!(a, b);
                    Self::fold2(4, x, y, w).unwrap()
                }
                K::LShr(a, b) => {
                    let (x, y) = two!(a, b);
                    Self::fold2(5, x, y, w).unwrap()
                }
                K::AShr(a, b) => {
                    let (x, y) = two!(a, b);
                    Self::fold2(6, x, y, w).unwrap()
                }
                K::Concat(a, b) => {
                    let wl = self.n[*b as usize].w;
                    let (x, y) = two!(a, b);
                    (x << wl) | y
                }
                K::Extract(lo, a) => {
                    let x = need!(a);
                    x >> lo
                }
                K::ZExt(a) | K::Bnd(a, _) => need!(a),
                K::SExt(a) => {
                    let wa = self.n[*a as usize].w;
                    sx(need!(a), wa) as u128
                }
                K::Ite(c, a, b) => {
                    let cv = need!(c);
                    if cv != 0 {
                        need!(a)
                    } else {
                        need!(b)
                    }
                }
                K::Eq(a, b) => {
                    let (x, y) = two!(a, b);
                    (x == y) as u128
                }
                K::Ult(a, b) => {
                    let (x, y) = two!(a, b);
                    (x < y) as u128
                }
                K::Slt(a, b) => {
                    let wa = self.n[*a as usize].w;
                    let (x, y) = two!(a, b);
                    (sx(x, wa) < sx(y, wa)) as u128
                }
            };
            self.memo[i] = v & mask(w);
            self.stamp[i] = self.gen;
            st.pop();
        }
        self.memo[root as usize]
    }
}

impl Pool {
    /// rendering for diagnostics
    /// debugging aid: the earliest built sub terms only one of the two has
    pub fn diff(&self, a: E, b: E, _d: u32) {
        let all = |e: E| {
            let mut seen = std::collections::BTreeSet::new();
            let mut st = vec![e];
            while let Some(e) = st.pop() {
                if !seen.insert(e) {
                    continue;
                }
                match self.k(e) {
                    K::And(x, y) | K::Or(x, y) | K::Xor(x, y) | K::Concat(x, y) | K::Shl(x, y) => st.extend([*x, *y]),
                    K::Extract(_, x) | K::ZExt(x) | K::SExt(x) | K::Bnd(x, _) => st.push(*x),
                    K::Sum(t, _) => st.extend(t.iter().map(|t| t.0)),
                    K::Ite(x, y, z) => st.extend([*x, *y, *z]),
                    _ => {}
                }
            }
            seen
        };
        let (x, y) = (all(a), all(b));
        eprintln!("DIFF of {} and {} terms", x.len(), y.len());
        for e in x.difference(&y).take(3) {
            eprintln!("  A #{} {}", e, self.show(*e, 2));
        }
        for e in y.difference(&x).take(6) {
            let u = &self.sup[*e as usize];
            eprintln!("  B #{} sup {:?} tt {:x} {}", e, &u.l[..u.n as usize], u.tt, self.show(*e, 2));
        }
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.n[e as usize];
        if d == 0 {
            return format!("#{}:{}", e, n.w);
        }
        let b = |o: &str, x: E, y: E| format!("({} {} {})", o, self.show(x, d - 1), self.show(y, d - 1));
        match &n.k {
            K::Const(c) => format!("{:#x}", c),
            K::Var(v) => format!("v{}", v),
            K::Sum(ts, k) => format!("(+{} {:#x} {})", n.w, k, ts.iter().take(12).map(|(t, c)| format!("{}*{}", c, self.show(*t, d - 1))).collect::<Vec<_>>().join(" ")),
            K::Mul(x, y) => b("mul", *x, *y),
            K::UDiv(x, y) => b("udiv", *x, *y),
            K::URem(x, y) => b("urem", *x, *y),
            K::SDiv(x, y) => b("sdiv", *x, *y),
            K::SRem(x, y) => b("srem", *x, *y),
            K::And(x, y) => b("and", *x, *y),
            K::Or(x, y) => b("or", *x, *y),
            K::Xor(x, y) => b("xor", *x, *y),
            K::Shl(x, y) => b("shl", *x, *y),
            K::LShr(x, y) => b("lshr", *x, *y),
            K::AShr(x, y) => b("ashr", *x, *y),
            K::Concat(x, y) => b("concat", *x, *y),
            K::Extract(l, x) => format!("{}[{}+{}]", self.show(*x, d - 1), l, n.w),
            K::Bnd(x, m) => format!("(<{} {})", m, self.show(*x, d - 1)),
            K::ZExt(x) => format!("(z{} {})", n.w, self.show(*x, d - 1)),
            K::SExt(x) => format!("(s{} {})", n.w, self.show(*x, d - 1)),
            K::Ite(c, x, y) => format!("(ite {} {} {})", self.show(*c, d - 1), self.show(*x, d - 1), self.show(*y, d - 1)),
            K::Eq(x, y) => b("=", *x, *y),
            K::Ult(x, y) => b("u<", *x, *y),
            K::Slt(x, y) => b("s<", *x, *y),
        }
    }
}
