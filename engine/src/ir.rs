//! Textual LLVM IR reader: globals, and lazily parsed function bodies.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Flt(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32), // function index
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(u64, Op, u32),
    Load(Rc<Ty>, Op),
    Store(Rc<Ty>, Op, Op),
    Gep(Op, i64, Vec<(Op, u32, u64)>),
    Bin(Bin, u32, u32, Op, Op), // width, lanes (0 scalar)
    FBin(String, u32, Op, Op),
    FCmp(String, u32, Op, Op),
    Icmp(Pred, u32, u32, Op, Op),
    Cast(Cast, u32, u32, u32, Op), // from, to, lanes
    BitcastVec(Rc<Ty>, Rc<Ty>, Op),
    FCast(String, Rc<Ty>, Rc<Ty>, Op),
    Select(Rc<Ty>, bool, Op, Op, Op),
    Call(Callee, Vec<(Op, Rc<Ty>)>, Rc<Ty>, Option<(u32, u32)>), // invoke normal dest
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Rc<HashMap<u64, u32>>, Rc<Vec<(u64, u32)>>),
    Ret(Option<Op>),
    Unreachable,
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>),
    ExtractElem(Op, Op),
    InsertElem(Op, Op, Op),
    Shuffle(Op, Op, Rc<Vec<i64>>, u64),
    Copy(Op),
    Fence,
    CmpXchg(Rc<Ty>, Op, Op, Op),
    Rmw(String, Rc<Ty>, Op, Op),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX none
    pub i: I,
    pub dbg: u32,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub idx: u32,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ret: Rc<Ty>,
    pub gblock: u32, // global block number base
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the whole define
    pub weak: bool,
}
pub struct Global {
    pub name: String,
    pub ty: Rc<Ty>,
    pub init: Option<(usize, usize)>,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
}

pub const FUNC_BASE: u64 = 0x7000_0000_0000;

pub struct Module {
    pub text: Rc<String>,
    pub types: HashMap<String, Rc<Ty>>,
    type_src: HashMap<String, (usize, usize)>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub aliases: HashMap<String, (usize, usize)>,
    pub parsed: HashMap<u32, Rc<Func>>,
    pub nblocks: u32,
    pub meta: HashMap<u32, (usize, usize)>,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Flt(w) => (*w as u64 / 8).min(16),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.store_size().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => (n * (*w as u64) + 7) / 8,
                t => n * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::Ptr => 8,
            Ty::Flt(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => align_up(self.store_size(), self.align()),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !*p {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn field(&self, i: usize) -> Rc<Ty> {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.clone(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Flt(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    L(&'a str),
    G(&'a str),
    W(&'a str),
    N(&'a str),
    Str(&'a str),
    P(u8),
    Meta,
    Attr,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    t: &'a str,
    p: usize,
    end: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn new(t: &'a str, p: usize, end: usize) -> Lex<'a> {
        Lex { s: t.as_bytes(), t, p, end }
    }
    fn ws(&mut self) {
        while self.p < self.end {
            let c = self.s[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < self.end && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    fn name(&mut self) -> &'a str {
        if self.p < self.end && self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            self.p += 1;
            &self.t[st..self.p - 1]
        } else {
            let st = self.p;
            while self.p < self.end && idc(self.s[self.p]) {
                self.p += 1;
            }
            &self.t[st..self.p]
        }
    }
    fn next(&mut self) -> T<'a> {
        self.ws();
        if self.p >= self.end {
            return T::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                T::L(self.name())
            }
            b'@' => {
                self.p += 1;
                T::G(self.name())
            }
            b'!' => {
                self.p += 1;
                self.name();
                T::Meta
            }
            b'#' => {
                self.p += 1;
                self.name();
                T::Attr
            }
            b'"' => T::Str(self.name()),
            b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                let s = self.name();
                T::Str(s)
            }
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.end && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'.' || (self.s[self.p] == b'+') || (self.s[self.p] == b'-')) {
                    self.p += 1;
                }
                T::N(&self.t[st..self.p])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                if c == b'$' {
                    self.p += 1;
                }
                let st = self.p;
                while self.p < self.end && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_' || self.s[self.p] == b'.') {
                    self.p += 1;
                }
                if c == b'$' {
                    self.name();
                }
                T::W(&self.t[st..self.p])
            }
            c => {
                self.p += 1;
                T::P(c)
            }
        }
    }
    fn peek(&mut self) -> T<'a> {
        let p = self.p;
        let r = self.next();
        self.p = p;
        r
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.p < self.end && self.s[self.p] == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.p + 80).min(self.end);
            panic!("parse: expected {:?} at {:?}", c as char, String::from_utf8_lossy(&self.s[self.p..e]));
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        let p = self.p;
        if let T::W(x) = self.next() {
            if x == w {
                return true;
            }
        }
        self.p = p;
        false
    }
    fn skip_balanced(&mut self) {
        // current token is an opening bracket
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') | T::P(b'[') | T::P(b'{') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn int(&mut self) -> u64 {
        match self.next() {
            T::N(n) => n.parse::<i128>().unwrap_or(0) as u64,
            x => panic!("parse: int expected, got {:?}", x),
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            T::W(w) => {
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'[') | T::P(b'{') | T::P(b'<') => true,
            T::L(_) => true,
            _ => false,
        }
    }
    /// skip attribute words until a type starts
    fn skip_attrs(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            match self.peek() {
                T::W(w) => {
                    self.next();
                    if w == "align" || w == "cc" {
                        if let T::N(_) = self.peek() {
                            self.next();
                        }
                    }
                    if self.peek() == T::P(b'(') {
                        self.skip_balanced();
                    }
                }
                T::Attr => {
                    self.next();
                }
                T::Str(_) => {
                    self.next();
                    if self.eat(b'=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// constant value tree used while parsing initialisers
#[derive(Clone, Debug)]
pub enum Cv {
    I(u128),
    A(Vec<Cv>),
    Bytes(Vec<u8>),
    Zero,
}

impl Module {
    pub fn load(text: String) -> Module {
        let text = Rc::new(text);
        let t2 = text.clone();
        let t: &str = &t2;
        let b = t.as_bytes();
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            type_src: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            aliases: HashMap::new(),
            parsed: HashMap::new(),
            nblocks: 0,
            meta: HashMap::new(),
        };
        let mut p = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        while p < b.len() {
            let mut e = match t[p..].find('\n') {
                Some(x) => p + x,
                None => b.len(),
            };
            match b[p] {
                b'@' => gl.push((p, e)),
                b'%' => {
                    let mut lx = Lex::new(t, p, e);
                    if let T::L(n) = lx.next() {
                        lx.expect(b'=');
                        lx.next(); // type
                        m.type_src.insert(n.to_string(), (lx.p, e));
                    }
                }
                b'd' => {
                    let def = t[p..e].starts_with("define");
                    let dec = t[p..e].starts_with("declare");
                    if def || dec {
                        let at = t[p..e].find('@').unwrap() + p;
                        let mut lx = Lex::new(t, at, e);
                        let n = match lx.next() {
                            T::G(n) => n.to_string(),
                            _ => panic!(),
                        };
                        let weak = t[p..at].contains("extern_weak");
                        if def {
                            let x = t[p..].find("\n}").unwrap() + p;
                            e = x + 2;
                        }
                        let idx = m.funcs.len() as u32;
                        m.fmap.insert(n.clone(), idx);
                        m.funcs.push(FuncDecl { name: n, body: if def { Some((p, e)) } else { None }, weak });
                    }
                }
                b'!' => {
                    // numbered metadata
                    let mut q = p + 1;
                    let mut n = 0u32;
                    while q < e && b[q].is_ascii_digit() {
                        n = n.wrapping_mul(10).wrapping_add((b[q] - b'0') as u32);
                        q += 1;
                    }
                    if q > p + 1 {
                        m.meta.insert(n, (q, e));
                    }
                }
                _ => {}
            }
            p = e + 1;
        }
        // globals
        let mut slot = 16u64;
        for (p, e) in gl {
            let mut lx = Lex::new(t, p, e);
            let name = match lx.next() {
                T::G(n) => n.to_string(),
                _ => continue,
            };
            lx.expect(b'=');
            let mut ext = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    T::W("global") => break,
                    T::W("constant") => {
                        constant = true;
                        break;
                    }
                    T::W("alias") => {
                        alias = true;
                        break;
                    }
                    T::W("external") | T::W("extern_weak") => ext = true,
                    T::P(b'(') => {
                        lx.p -= 1;
                        lx.skip_balanced();
                    }
                    T::Eof => break,
                    _ => {}
                }
            }
            if alias {
                // alias TYPE, ptr @target
                let _ = m.ty(&mut lx);
                lx.expect(b',');
                m.aliases.insert(name, (lx.p, e));
                continue;
            }
            let ty = m.ty(&mut lx);
            let size = ty.size();
            let addr = slot << 16;
            slot += (size >> 16) + 1;
            m.gmap.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { name, ty, init: if ext { None } else { Some((lx.p, e)) }, addr, size, constant });
        }
        m
    }
    pub fn first_free_slot(&self) -> u64 {
        match self.globals.last() {
            Some(g) => (g.addr >> 16) + (g.size >> 16) + 1,
            None => 16,
        }
    }

    fn ty(&mut self, lx: &mut Lex) -> Rc<Ty> {
        let t = match lx.next() {
            T::W("void") => Ty::Void,
            T::W("ptr") => {
                if lx.eatw("addrspace") {
                    lx.skip_balanced();
                }
                Ty::Ptr
            }
            T::W("float") => Ty::Flt(32),
            T::W("double") => Ty::Flt(64),
            T::W("half") => Ty::Flt(16),
            T::W("fp128") => Ty::Flt(128),
            T::W("label") | T::W("metadata") | T::W("token") | T::W("opaque") => Ty::Other,
            T::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
            T::P(b'[') => {
                let n = lx.int();
                assert!(lx.eatw("x"));
                let t = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, t)
            }
            T::P(b'{') => self.fields(lx, false),
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.fields(lx, true);
                    lx.expect(b'>');
                    f
                } else {
                    let n = lx.int();
                    assert!(lx.eatw("x"));
                    let t = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, t)
                }
            }
            T::L(n) => {
                if let Some(t) = self.types.get(n) {
                    return t.clone();
                }
                let (p, e) = self.type_src[n];
                let tx = self.text.clone();
                let mut l2 = Lex::new(&tx, p, e);
                let t = self.ty(&mut l2);
                self.types.insert(n.to_string(), t.clone());
                return t;
            }
            x => panic!("parse: type expected, got {:?} near {:?}", x, &lx.t[lx.p.saturating_sub(40)..(lx.p + 60).min(lx.end)]),
        };
        Rc::new(t)
    }
    fn fields(&mut self, lx: &mut Lex, packed: bool) -> Ty {
        let mut f = vec![];
        if !lx.eat(b'}') {
            loop {
                f.push(self.ty(lx));
                if lx.eat(b'}') {
                    break;
                }
                lx.expect(b',');
            }
        }
        Ty::Struct(f, packed)
    }
    pub fn sym_addr(&mut self, n: &str) -> u64 {
        if let Some(i) = self.gmap.get(n) {
            return self.globals[*i as usize].addr;
        }
        if let Some(i) = self.fmap.get(n) {
            let f = &self.funcs[*i as usize];
            if f.weak && f.body.is_none() {
                return 0;
            }
            return FUNC_BASE + (*i as u64) * 16;
        }
        if let Some((p, e)) = self.aliases.get(n).copied() {
            let tx = self.text.clone();
            let mut lx = Lex::new(&tx, p, e);
            let t = self.ty(&mut lx);
            return match self.cv(&mut lx, &t) {
                Cv::I(v) => v as u64,
                _ => 0,
            };
        }
        panic!("parse: unknown symbol @{}", n)
    }
    fn tcv(&mut self, lx: &mut Lex) -> (Rc<Ty>, Cv) {
        let t = self.ty(lx);
        let v = self.cv(lx, &t);
        (t, v)
    }
    fn cv_u(&self, c: &Cv) -> u128 {
        match c {
            Cv::I(v) => *v,
            Cv::Zero => 0,
            _ => panic!("parse: scalar constant expected"),
        }
    }
    fn cv(&mut self, lx: &mut Lex, t: &Rc<Ty>) -> Cv {
        let list = |m: &mut Module, lx: &mut Lex, close: u8| {
            let mut v = vec![];
            if !lx.eat(close) {
                loop {
                    let (_, c) = m.tcv(lx);
                    v.push(c);
                    if lx.eat(close) {
                        break;
                    }
                    lx.expect(b',');
                }
            }
            Cv::A(v)
        };
        match lx.next() {
            T::N(n) => {
                if n.starts_with("0x") || n.contains('.') {
                    return Cv::I(parse_float(n, t));
                }
                if n.starts_with('-') {
                    Cv::I(n.parse::<i128>().unwrap() as u128 & mask(t.bits()))
                } else {
                    Cv::I(n.parse::<u128>().unwrap() & mask(t.bits()))
                }
            }
            T::G(n) => Cv::I(self.sym_addr(n) as u128),
            T::Str(s) => Cv::Bytes(unescape(s)),
            T::P(b'[') => list(self, lx, b']'),
            T::P(b'{') => list(self, lx, b'}'),
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let r = list(self, lx, b'}');
                    lx.expect(b'>');
                    r
                } else {
                    list(self, lx, b'>')
                }
            }
            T::W(w) => match w {
                "true" => Cv::I(1),
                "false" | "null" | "none" => Cv::I(0),
                "undef" | "poison" | "zeroinitializer" => Cv::Zero,
                "splat" => {
                    lx.expect(b'(');
                    let (_, c) = self.tcv(lx);
                    lx.expect(b')');
                    let n = match &**t {
                        Ty::Vec(n, _) => *n,
                        _ => panic!(),
                    };
                    Cv::A(vec![c; n as usize])
                }
                "getelementptr" => {
                    while let T::W(_) = lx.peek() {
                        lx.next();
                        if lx.peek() == T::P(b'(') {
                            // inrange(..) or operand list
                            let save = lx.p;
                            lx.next();
                            if lx.is_type_start() {
                                lx.p = save;
                                break;
                            }
                            lx.p = save;
                            lx.skip_balanced();
                        }
                    }
                    lx.expect(b'(');
                    let t0 = self.ty(lx);
                    lx.expect(b',');
                    let (_, base) = self.tcv(lx);
                    let mut a = self.cv_u(&base) as u64;
                    let mut cur: Option<Rc<Ty>> = None;
                    while lx.eat(b',') {
                        let (it, c) = self.tcv(lx);
                        let i = sx(self.cv_u(&c), it.bits()) as i64;
                        match &cur {
                            None => {
                                a = a.wrapping_add((t0.size() as i64).wrapping_mul(i) as u64);
                                cur = Some(t0.clone());
                            }
                            Some(ct) => {
                                let (o, n) = gep_step(ct, i);
                                a = a.wrapping_add(o as u64);
                                cur = Some(n);
                            }
                        }
                    }
                    lx.expect(b')');
                    Cv::I(a as u128)
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                    lx.expect(b'(');
                    let (_, c) = self.tcv(lx);
                    assert!(lx.eatw("to"));
                    let t2 = self.ty(lx);
                    lx.expect(b')');
                    Cv::I(self.cv_u(&c) & mask(t2.bits()))
                }
                "add" | "sub" | "xor" => {
                    while let T::W(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let (_, a) = self.tcv(lx);
                    lx.expect(b',');
                    let (_, b) = self.tcv(lx);
                    lx.expect(b')');
                    let (a, b) = (self.cv_u(&a), self.cv_u(&b));
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        _ => a ^ b,
                    };
                    Cv::I(r & mask(t.bits()))
                }
                w => {
                    // float literals of newer printers (f0x..)
                    if let Some(x) = w.strip_prefix("f0x") {
                        return Cv::I(u128::from_str_radix(x, 16).unwrap_or(0));
                    }
                    if matches!(&**t, Ty::Flt(_)) {
                        return Cv::I(0);
                    }
                    panic!("parse: constant {} near {:?}", w, &lx.t[lx.p.saturating_sub(40)..(lx.p + 60).min(lx.end)])
                }
            },
            x => panic!("parse: constant {:?} near {:?}", x, &lx.t[lx.p.saturating_sub(40)..(lx.p + 60).min(lx.end)]),
        }
    }
    /// little endian bytes of a constant
    fn emit(&self, c: &Cv, t: &Ty, out: &mut Vec<u8>, off: u64) {
        match c {
            Cv::Zero => {}
            Cv::I(v) => {
                let n = t.store_size() as usize;
                for i in 0..n.min(16) {
                    out[off as usize + i] = (v >> (8 * i)) as u8;
                }
            }
            Cv::Bytes(b) => out[off as usize..off as usize + b.len()].copy_from_slice(b),
            Cv::A(v) => {
                for (i, x) in v.iter().enumerate() {
                    let o = off + t.field_off(i);
                    self.emit(x, &t.field(i), out, o);
                }
            }
        }
    }
    pub fn global_bytes(&mut self, gi: u32) -> Vec<u8> {
        let g = &self.globals[gi as usize];
        let mut out = vec![0u8; g.size as usize];
        if let Some((p, e)) = g.init {
            let t = g.ty.clone();
            let tx = self.text.clone();
            let mut lx = Lex::new(&tx, p, e);
            let c = self.cv(&mut lx, &t);
            self.emit(&c, &t, &mut out, 0);
        }
        out
    }
    fn cv_val(&mut self, c: &Cv, t: &Ty, pool: &mut Pool) -> Val {
        match t {
            Ty::Int(w) | Ty::Flt(w) if *w <= 64 => Val::C(self.cv_u(c) as u64),
            Ty::Int(w) | Ty::Flt(w) => Val::S(pool.c(self.cv_u(c), *w)),
            Ty::Ptr => Val::C(self.cv_u(c) as u64),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(match c {
                        Cv::Zero => self.cv_val(&Cv::Zero, e, pool),
                        Cv::A(x) => {
                            let y = x[i].clone();
                            self.cv_val(&y, e, pool)
                        }
                        Cv::Bytes(b) => Val::C(b[i] as u64),
                        _ => panic!(),
                    });
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, e) in f.iter().enumerate() {
                    v.push(match c {
                        Cv::Zero => self.cv_val(&Cv::Zero, e, pool),
                        Cv::A(x) => {
                            let y = x[i].clone();
                            self.cv_val(&y, e, pool)
                        }
                        _ => panic!(),
                    });
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Void | Ty::Other => Val::C(0),
            _ => panic!("cv_val {:?}", t),
        }
    }

    pub fn func(&mut self, fi: u32, pool: &mut Pool) -> Rc<Func> {
        if let Some(f) = self.parsed.get(&fi) {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(fi, pool));
        self.parsed.insert(fi, f.clone());
        f
    }

    fn parse_func(&mut self, fi: u32, pool: &mut Pool) -> Func {
        let (p, e) = self.funcs[fi as usize].body.expect("no body");
        let tx = self.text.clone();
        let t: &str = &tx;
        let hdr_end = p + t[p..e].find('\n').unwrap();
        let mut fp = FnParser { regs: HashMap::new(), blocks: HashMap::new(), entry_named: false };
        let mut lx = Lex::new(t, p, hdr_end);
        lx.next(); // define
        lx.skip_attrs();
        let ret = self.ty(&mut lx);
        // name
        while !matches!(lx.peek(), T::G(_)) {
            lx.next();
        }
        lx.next();
        lx.expect(b'(');
        let mut params = vec![];
        if !lx.eat(b')') {
            loop {
                if lx.eat(b'.') {
                    lx.eat(b'.');
                    lx.eat(b'.');
                } else {
                    let _pt = self.ty(&mut lx);
                    // attributes until the name
                    let mut nm = None;
                    loop {
                        match lx.peek() {
                            T::L(n) => {
                                lx.next();
                                nm = Some(n);
                                break;
                            }
                            T::P(b',') | T::P(b')') => break,
                            T::P(b'(') => lx.skip_balanced(),
                            T::Eof => panic!("parse: params"),
                            _ => {
                                lx.next();
                            }
                        }
                    }
                    let name = nm.map(|x| x.to_string()).unwrap_or_else(|| params.len().to_string());
                    let r = fp.reg(&name);
                    params.push(r);
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        // logical lines
        let mut lines: Vec<String> = vec![];
        let body = &t[hdr_end + 1..e];
        let mut join_until: Option<char> = None;
        for l in body.lines() {
            let tr = l.trim();
            if tr.is_empty() || tr.starts_with(';') {
                continue;
            }
            if tr == "}" && join_until.is_none() {
                break;
            }
            if let Some(c) = join_until {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(tr);
                if tr.starts_with(c) {
                    join_until = None;
                }
                continue;
            }
            if tr.starts_with("to label ") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(tr);
                continue;
            }
            if tr.starts_with("catch ") || tr.starts_with("filter ") || tr == "cleanup" {
                continue;
            }
            if tr.starts_with("#dbg_") {
                continue;
            }
            lines.push(tr.to_string());
            if tr.starts_with("switch ") && !tr.contains(']') {
                join_until = Some(']');
            }
        }
        // labels
        let mut blocks: Vec<Block> = vec![];
        let is_label = |l: &str| -> Option<String> {
            let b = l.as_bytes();
            if b[0] == b'"' {
                let q = l[1..].find('"')? + 1;
                if b.get(q + 1) == Some(&b':') {
                    return Some(l[1..q].to_string());
                }
                return None;
            }
            let mut i = 0;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            if i > 0 && i < b.len() && b[i] == b':' && (i + 1 == b.len() || b[i + 1] == b' ') {
                Some(l[..i].to_string())
            } else {
                None
            }
        };
        let mut nb = 0;
        for (k, l) in lines.iter().enumerate() {
            if let Some(n) = is_label(l) {
                if k == 0 {
                    fp.entry_named = true;
                }
                fp.blocks.insert(n, nb);
                nb += 1;
            } else if k == 0 {
                nb += 1;
            }
        }
        for (k, l) in lines.iter().enumerate() {
            if is_label(l).is_some() {
                blocks.push(Block::default());
                continue;
            }
            if k == 0 {
                blocks.push(Block::default());
            }
            let dbg = match l.rfind("!dbg !") {
                Some(x) => {
                    let d: String = l[x + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse().unwrap_or(0)
                }
                None => 0,
            };
            self.parse_inst(l, dbg, &mut fp, blocks.last_mut().unwrap(), pool);
        }
        let gblock = self.nblocks;
        self.nblocks += blocks.len() as u32;
        Func {
            idx: fi,
            name: self.funcs[fi as usize].name.clone(),
            nregs: fp.regs.len() as u32,
            params,
            blocks,
            ret,
            gblock,
        }
    }
    fn op(&mut self, lx: &mut Lex, t: &Rc<Ty>, fp: &mut FnParser, pool: &mut Pool) -> Op {
        if let T::L(n) = lx.peek() {
            lx.next();
            return Op::R(fp.reg(n));
        }
        if **t == Ty::Other {
            // metadata operand
            match lx.next() {
                T::Meta => {
                    if lx.peek() == T::P(b'{') || lx.peek() == T::P(b'(') {
                        lx.skip_balanced();
                    }
                }
                _ => {
                    // e.g. "metadata ptr %x"
                    while !matches!(lx.peek(), T::P(b',') | T::P(b')') | T::Eof) {
                        lx.next();
                    }
                }
            }
            return Op::V(Val::C(0));
        }
        if let T::W("asm") = lx.peek() {
            return Op::V(Val::C(0));
        }
        let c = self.cv(lx, t);
        Op::V(self.cv_val(&c, t, pool))
    }
    fn top(&mut self, lx: &mut Lex, fp: &mut FnParser, pool: &mut Pool) -> (Rc<Ty>, Op) {
        let t = self.ty(lx);
        let o = self.op(lx, &t, fp, pool);
        (t, o)
    }
    fn vinfo(t: &Ty) -> (u32, u32) {
        match t {
            Ty::Vec(n, e) => (e.bits(), *n as u32),
            t => (t.bits(), 0),
        }
    }
    fn parse_inst(&mut self, l: &str, dbg: u32, fp: &mut FnParser, blk: &mut Block, pool: &mut Pool) {
        let mut lxx = Lex::new(l, 0, l.len());
        let lx = &mut lxx;
        let mut dst = u32::MAX;
        if let T::L(n) = lx.peek() {
            lx.next();
            dst = fp.reg(n);
            lx.expect(b'=');
        }
        let w = match lx.next() {
            T::W(w) => w,
            x => panic!("parse: instruction {:?} in {}", x, l),
        };
        let mut w = w;
        while matches!(w, "tail" | "musttail" | "notail") {
            w = match lx.next() {
                T::W(w) => w,
                _ => panic!(),
            };
        }
        let i = match w {
            "phi" => {
                lx.skip_attrs();
                let t = self.ty(lx);
                let mut v = vec![];
                loop {
                    lx.expect(b'[');
                    let o = self.op(lx, &t, fp, pool);
                    lx.expect(b',');
                    let b = match lx.next() {
                        T::L(n) => fp.block(n),
                        _ => panic!(),
                    };
                    lx.expect(b']');
                    v.push((b, o));
                    if !(lx.eat(b',') && lx.peek() == T::P(b'[')) {
                        break;
                    }
                }
                blk.phis.push((dst, v));
                return;
            }
            "alloca" => {
                lx.eatw("inalloca");
                let t = self.ty(lx);
                let mut n = Op::V(Val::C(1));
                let mut cw = 64;
                if lx.eat(b',') && lx.is_type_start() {
                    let (ct, o) = self.top(lx, fp, pool);
                    cw = ct.bits();
                    n = o;
                }
                I::Alloca(t.size(), n, cw)
            }
            "load" => {
                lx.eatw("atomic");
                lx.eatw("volatile");
                let t = self.ty(lx);
                lx.expect(b',');
                let (_, p) = self.top(lx, fp, pool);
                I::Load(t, p)
            }
            "store" => {
                lx.eatw("atomic");
                lx.eatw("volatile");
                let (t, v) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, p) = self.top(lx, fp, pool);
                I::Store(t, v, p)
            }
            "getelementptr" => {
                while let T::W(x) = lx.peek() {
                    if matches!(x, "inbounds" | "nuw" | "nusw" | "nsw") {
                        lx.next();
                    } else if x == "inrange" {
                        lx.next();
                        lx.skip_balanced();
                    } else {
                        break;
                    }
                }
                let t0 = self.ty(lx);
                lx.expect(b',');
                let (bt, base) = self.top(lx, fp, pool);
                let mut vec_gep = matches!(&*bt, Ty::Vec(..));
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur: Option<Rc<Ty>> = None;
                while lx.eat(b',') {
                    if !lx.is_type_start() {
                        break;
                    }
                    let (it, o) = self.top(lx, fp, pool);
                    if matches!(&*it, Ty::Vec(..)) {
                        vec_gep = true;
                        break;
                    }
                    let iw = it.bits();
                    let elem_sz = match &cur {
                        None => {
                            cur = Some(t0.clone());
                            t0.size()
                        }
                        Some(ct) => {
                            let ct = ct.clone();
                            if let Ty::Struct(..) = &*ct {
                                let k = match &o {
                                    Op::V(Val::C(k)) => *k as i64,
                                    _ => panic!(),
                                };
                                let (fo, n) = gep_step(&ct, k);
                                off += fo;
                                cur = Some(n);
                                continue;
                            }
                            let n = ct.field(0);
                            let s = n.size();
                            cur = Some(n);
                            s
                        }
                    };
                    match o {
                        Op::V(Val::C(k)) => off = off.wrapping_add((sx(k as u128, iw) as i64).wrapping_mul(elem_sz as i64)),
                        o => terms.push((o, iw, elem_sz)),
                    }
                }
                if vec_gep {
                    I::Unsupported("vector getelementptr".into())
                } else {
                    I::Gep(base, off, terms)
                }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                lx.skip_attrs();
                let (t, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let b = self.op(lx, &t, fp, pool);
                let (wd, n) = Self::vinfo(&t);
                let k = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                I::Bin(k, wd, n, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                lx.skip_attrs();
                let (t, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let b = self.op(lx, &t, fp, pool);
                match &*t {
                    Ty::Flt(wd) => I::FBin(w.to_string(), *wd, a, b),
                    _ => I::Unsupported(l.to_string()),
                }
            }
            "fcmp" => {
                let mut pr = String::new();
                while let T::W(x) = lx.peek() {
                    if lx.is_type_start() {
                        break;
                    }
                    pr = x.to_string();
                    lx.next();
                }
                let (t, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let b = self.op(lx, &t, fp, pool);
                match &*t {
                    Ty::Flt(wd) => I::FCmp(pr, *wd, a, b),
                    _ => I::Unsupported(l.to_string()),
                }
            }
            "fneg" => I::Unsupported(l.to_string()),
            "icmp" => {
                lx.eatw("samesign");
                let pr = match lx.next() {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    x => panic!("icmp {:?}", x),
                };
                let (t, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let b = self.op(lx, &t, fp, pool);
                let (wd, n) = Self::vinfo(&t);
                I::Icmp(pr, wd, n, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "addrspacecast" => {
                lx.skip_attrs();
                let (t, a) = self.top(lx, fp, pool);
                assert!(lx.eatw("to"), "{}", l);
                let t2 = self.ty(lx);
                if w == "bitcast" && (matches!(&*t, Ty::Vec(..)) || matches!(&*t2, Ty::Vec(..))) {
                    I::BitcastVec(t, t2, a)
                } else {
                    let (fw, n) = Self::vinfo(&t);
                    let (tw, _) = Self::vinfo(&t2);
                    let k = match w {
                        "sext" => Cast::SExt,
                        "bitcast" | "addrspacecast" => Cast::Nop,
                        _ => {
                            if tw < fw {
                                Cast::Trunc
                            } else if tw > fw {
                                Cast::ZExt
                            } else {
                                Cast::Nop
                            }
                        }
                    };
                    I::Cast(k, fw, tw, n, a)
                }
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                lx.skip_attrs();
                let (t, a) = self.top(lx, fp, pool);
                assert!(lx.eatw("to"));
                let t2 = self.ty(lx);
                I::FCast(w.to_string(), t, t2, a)
            }
            "select" => {
                lx.skip_attrs();
                let (ct, c) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (t, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, b) = self.top(lx, fp, pool);
                I::Select(t, matches!(&*ct, Ty::Vec(..)), c, a, b)
            }
            "freeze" => {
                let (_, a) = self.top(lx, fp, pool);
                I::Copy(a)
            }
            "call" | "invoke" => {
                lx.skip_attrs();
                let rt = self.ty(lx);
                if lx.peek() == T::P(b'(') {
                    lx.skip_balanced();
                }
                let mut is_asm = false;
                let callee = match lx.next() {
                    T::G(n) => {
                        let nm = n.to_string();
                        match self.fmap.get(&nm) {
                            Some(i) => Callee::Fn(*i),
                            None => {
                                let a = self.sym_addr(&nm);
                                Callee::Ind(Op::V(Val::C(a)))
                            }
                        }
                    }
                    T::L(n) => Callee::Ind(Op::R(fp.reg(n))),
                    T::W("asm") => {
                        is_asm = true;
                        while lx.peek() != T::P(b'(') {
                            lx.next();
                        }
                        Callee::Ind(Op::V(Val::C(0)))
                    }
                    x => panic!("callee {:?} in {}", x, l),
                };
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = self.ty(lx);
                        // attributes
                        if *t != Ty::Other {
                            loop {
                                match lx.peek() {
                                    T::W(x)
                                        if !matches!(
                                            x,
                                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "none" | "add" | "sub" | "xor" | "trunc" | "ptrtoaddr"
                                        ) && !(x.starts_with("f0x")) =>
                                    {
                                        lx.next();
                                        if x == "align" {
                                            if let T::N(_) = lx.peek() {
                                                lx.next();
                                            }
                                        }
                                        if lx.peek() == T::P(b'(') {
                                            lx.skip_balanced();
                                        }
                                    }
                                    T::Str(_) if !matches!(&*t, Ty::Arr(..)) => {
                                        lx.next();
                                        if lx.eat(b'=') {
                                            lx.next();
                                        }
                                    }
                                    T::Attr => {
                                        lx.next();
                                    }
                                    _ => break,
                                }
                            }
                        }
                        let o = self.op(lx, &t, fp, pool);
                        args.push((o, t));
                        if lx.eat(b')') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                let mut inv = None;
                if w == "invoke" {
                    while !lx.eatw("to") {
                        lx.next();
                    }
                    lx.eatw("label");
                    let n = match lx.next() {
                        T::L(n) => fp.block(n),
                        _ => panic!(),
                    };
                    lx.eatw("unwind");
                    lx.eatw("label");
                    let u = match lx.next() {
                        T::L(n) => fp.block(n),
                        _ => panic!(),
                    };
                    inv = Some((n, u));
                }
                if is_asm {
                    if *rt == Ty::Void {
                        I::Nop
                    } else {
                        I::Unsupported(l.to_string())
                    }
                } else {
                    I::Call(callee, args, rt, inv)
                }
            }
            "br" => {
                if lx.eatw("label") {
                    match lx.next() {
                        T::L(n) => I::Br(fp.block(n)),
                        _ => panic!(),
                    }
                } else {
                    let (_, c) = self.top(lx, fp, pool);
                    lx.expect(b',');
                    lx.eatw("label");
                    let a = match lx.next() {
                        T::L(n) => fp.block(n),
                        _ => panic!(),
                    };
                    lx.expect(b',');
                    lx.eatw("label");
                    let b = match lx.next() {
                        T::L(n) => fp.block(n),
                        _ => panic!(),
                    };
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.top(lx, fp, pool);
                lx.expect(b',');
                lx.eatw("label");
                let d = match lx.next() {
                    T::L(n) => fp.block(n),
                    _ => panic!(),
                };
                lx.expect(b'[');
                let mut v = vec![];
                while !lx.eat(b']') {
                    let (_, k) = self.tcv(lx);
                    let k = self.cv_u(&k) as u64;
                    lx.expect(b',');
                    lx.eatw("label");
                    let b = match lx.next() {
                        T::L(n) => fp.block(n),
                        _ => panic!(),
                    };
                    v.push((k, b));
                }
                let mp: HashMap<u64, u32> = v.iter().cloned().collect();
                I::Switch(t.bits(), c, d, Rc::new(mp), Rc::new(v))
            }
            "ret" => {
                let t = self.ty(lx);
                if *t == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.op(lx, &t, fp, pool)))
                }
            }
            "unreachable" | "resume" => I::Unreachable,
            "landingpad" => I::Nop,
            "extractvalue" => {
                let (_, a) = self.top(lx, fp, pool);
                let mut ix = vec![];
                while lx.eat(b',') {
                    if let T::N(_) = lx.peek() {
                        ix.push(lx.int() as u32);
                    } else {
                        break;
                    }
                }
                I::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, b) = self.top(lx, fp, pool);
                let mut ix = vec![];
                while lx.eat(b',') {
                    if let T::N(_) = lx.peek() {
                        ix.push(lx.int() as u32);
                    } else {
                        break;
                    }
                }
                I::InsertValue(a, b, ix)
            }
            "extractelement" => {
                let (_, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, b) = self.top(lx, fp, pool);
                I::ExtractElem(a, b)
            }
            "insertelement" => {
                let (_, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, b) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, c) = self.top(lx, fp, pool);
                I::InsertElem(a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, b) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (mt, mk) = self.tcv(lx);
                let n = match &*mt {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!(),
                };
                let v: Vec<i64> = match mk {
                    Cv::Zero => vec![0; n],
                    Cv::A(x) => x.iter().map(|c| self.cv_u(c) as i64).collect(),
                    _ => panic!(),
                };
                let len = match &*t {
                    Ty::Vec(n, _) => *n,
                    _ => panic!(),
                };
                I::Shuffle(a, b, Rc::new(v), len)
            }
            "fence" => I::Fence,
            "cmpxchg" => {
                lx.eatw("weak");
                lx.eatw("volatile");
                let (_, p) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (t, c) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (_, n) = self.top(lx, fp, pool);
                I::CmpXchg(t, p, c, n)
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let op = match lx.next() {
                    T::W(x) => x.to_string(),
                    _ => panic!(),
                };
                let (_, p) = self.top(lx, fp, pool);
                lx.expect(b',');
                let (t, v) = self.top(lx, fp, pool);
                I::Rmw(op, t, p, v)
            }
            _ => I::Unsupported(l.to_string()),
        };
        blk.ins.push(Inst { dst, i, dbg });
    }

    // ---- debug info: executed location -> (function, file) chain
    fn meta_line(&self, n: u32) -> &str {
        match self.meta.get(&n) {
            Some((p, e)) => &self.text[*p..*e],
            None => "",
        }
    }
    fn meta_ref(line: &str, key: &str) -> Option<u32> {
        let k = format!("{}: !", key);
        let i = line.find(&k)? + k.len();
        let s: String = line[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
        s.parse().ok()
    }
    fn meta_str(line: &str, key: &str) -> Option<String> {
        let k = format!("{}: \"", key);
        let i = line.find(&k)? + k.len();
        let j = line[i..].find('"')? + i;
        Some(line[i..j].to_string())
    }
    /// chain of (function linkage name, file, line), innermost first
    pub fn loc(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut cur = Some(dbg);
        while let Some(d) = cur {
            let l = self.meta_line(d);
            if !l.contains("DILocation(") {
                break;
            }
            let line = {
                let i = l.find("line: ").map(|i| i + 6).unwrap_or(0);
                l[i..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
            };
            let mut sc = Self::meta_ref(l, "scope");
            while let Some(s) = sc {
                let sl = self.meta_line(s);
                if sl.contains("DISubprogram(") {
                    let nm = Self::meta_str(sl, "linkageName").or(Self::meta_str(sl, "name")).unwrap_or_default();
                    let file = Self::meta_ref(sl, "file").map(|f| Self::meta_str(self.meta_line(f), "filename").unwrap_or_default()).unwrap_or_default();
                    out.push((nm, file, line));
                    break;
                }
                sc = Self::meta_ref(sl, "scope");
            }
            cur = Self::meta_ref(l, "inlinedAt");
            if out.len() > 40 {
                break;
            }
        }
        out
    }
}

fn parse_float(n: &str, t: &Ty) -> u128 {
    if let Some(h) = n.strip_prefix("0x") {
        let h = h.trim_start_matches(|c| c == 'K' || c == 'L' || c == 'M' || c == 'H' || c == 'R');
        let v = u128::from_str_radix(h, 16).unwrap_or(0);
        if *t == Ty::Flt(32) {
            return (f64::from_bits(v as u64) as f32).to_bits() as u128;
        }
        return v;
    }
    let f: f64 = n.parse().unwrap_or(0.0);
    match t {
        Ty::Flt(32) => (f as f32).to_bits() as u128,
        _ => f.to_bits() as u128,
    }
}

fn gep_step(t: &Rc<Ty>, i: i64) -> (i64, Rc<Ty>) {
    match &**t {
        Ty::Struct(f, _) => (t.field_off(i as usize) as i64, f[i as usize].clone()),
        Ty::Arr(_, e) | Ty::Vec(_, e) => ((e.size() as i64).wrapping_mul(i), e.clone()),
        _ => panic!("gep into scalar"),
    }
}

struct FnParser {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    entry_named: bool,
}
impl FnParser {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        match self.blocks.get(n) {
            Some(b) => *b,
            None => {
                assert!(!self.entry_named, "unknown block {}", n);
                0
            }
        }
    }
}
