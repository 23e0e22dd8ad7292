//! Reader for textual LLVM IR as emitted by rustc. Function bodies are decoded on first use.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const BASE: u64 = 0x10000;
pub fn addr_of(id: u32) -> u64 {
    ((id as u64) << 32) | BASE
}

#[derive(Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther,
    Arr(u64, T),
    St { f: Vec<T>, off: Vec<u64>, size: u64, align: u64 },
    Vec(u32, T),
    Meta,
    Label,
}
pub type T = &'static Ty;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8).max(1) as u64;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther => 16,
            Ty::Arr(_, t) => t.align(),
            Ty::St { align, .. } => *align,
            Ty::Vec(..) => self.store().next_power_of_two(),
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther => 16,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St { size, .. } => *size,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        let (s, a) = (self.store(), self.align());
        (s + a - 1) / a * a
    }
    /// width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::FOther => 128,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        self.bits() != 0
    }
    pub fn elem(&self, i: usize) -> (u64, T) {
        match self {
            Ty::Arr(_, t) => (i as u64 * t.size(), t),
            Ty::Vec(_, t) => (i as u64 * t.size(), t),
            Ty::St { f, off, .. } => (off[i], f[i]),
            _ => panic!("element of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            Ty::St { f, .. } => f.len(),
            _ => 0,
        }
    }
}
fn leak(t: Ty) -> T {
    Box::leak(Box::new(t))
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    V(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    /// ptrtoint, inttoptr between equal or different widths: zext or trunc
    PtrInt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Debug)]
pub enum Callee {
    F(u32),
    X(&'static str),
    P(O),
    Asm(&'static str),
}

#[derive(Debug)]
pub enum I {
    Bin { op: Op, d: u32, a: O, b: O, w: u32, lanes: u32 },
    ICmp { p: Pred, d: u32, a: O, b: O, w: u32, lanes: u32 },
    FBin { op: u8, d: u32, a: O, b: O, w: u32 },
    FNeg { d: u32, a: O, w: u32 },
    FCmp { p: &'static str, d: u32, a: O, b: O, w: u32 },
    Cast { k: CastK, d: u32, a: O, from: u32, to: u32, lanes: u32 },
    Bitcast { d: u32, a: O, from: T, to: T },
    Copy { d: u32, a: O },
    Alloca { d: u32, off: u64 },
    DynAlloca { d: u32, n: O, size: u64 },
    Load { d: u32, p: O, ty: T },
    Store { v: O, p: O, ty: T },
    Gep { d: u32, base: O, off: u64, idx: Box<[(O, u32, u64)]> },
    Select { d: u32, c: O, a: O, b: O, ty: T, cond_lanes: u32 },
    ExtractValue { d: u32, a: O, path: Box<[u32]> },
    InsertValue { d: u32, a: O, v: O, path: Box<[u32]>, ty: T },
    ExtractElem { d: u32, a: O, i: O },
    InsertElem { d: u32, a: O, v: O, i: O },
    Shuffle { d: u32, a: O, b: O, mask: Box<[i32]>, n: u32 },
    Call { d: u32, rty: T, callee: Callee, args: Box<[(O, T)]>, next: u32 },
    CmpXchg { d: u32, p: O, old: O, new: O, ty: T },
    Rmw { op: &'static str, d: u32, p: O, v: O, ty: T },
    Br { t: u32 },
    CondBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u32, def: u32, cases: Box<[(u128, u32)]> },
    Ret { v: Option<O> },
    Unreachable,
    LandingPad,
    Nop,
}
pub const NONE: u32 = u32::MAX;

pub struct Block {
    pub ins: Vec<I>,
    /// per predecessor the moves of the phi nodes
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
}
pub struct Func {
    pub idx: u32,
    pub name: &'static str,
    pub nice: &'static str,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub frame: u64,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: &'static str,
    pub nice: &'static str,
    pub text: Option<(usize, usize)>,
    pub id: u32,
}
pub struct Module {
    pub text: &'static [u8],
    pub funcs: Vec<FnDecl>,
    pub fn_ix: HashMap<&'static str, u32>,
    pub globals: Vec<(&'static str, Vec<u8>, bool)>,
    pub gl_ix: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, T>,
    pub first_heap: u32,
    pub func_base: u32,
    pub glob_base: u32,
    pub aliases: HashMap<&'static str, &'static str>,
}

fn st(s: &'static [u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(s) }
}

pub struct P<'m> {
    s: &'static [u8],
    i: usize,
    m: &'m Module,
    // function-local
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
    x: Option<*mut Exprs>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

impl<'m> P<'m> {
    pub fn new(m: &'m Module, i: usize) -> P<'m> {
        P { s: m.text, i, m, regs: HashMap::new(), labels: HashMap::new(), x: None }
    }
    fn fail(&self, what: &str) -> ! {
        let a = self.i.saturating_sub(200);
        let b = (self.i + 200).min(self.s.len());
        eprintln!("llsym: IR parse error: {} at <<{}>> HERE <<{}>>", what, st(&self.s[a..self.i]), st(&self.s[self.i..b]));
        std::process::exit(3);
    }
    fn ws(&mut self) {
        loop {
            match self.s.get(self.i) {
                Some(b' ' | b'\t' | b'\n' | b'\r') => self.i += 1,
                Some(b';') => self.eol(),
                _ => break,
            }
        }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.pk() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    /// like eat, but stays on the line
    fn eat_l(&mut self, c: u8) -> bool {
        let mut j = self.i;
        while matches!(self.s.get(j), Some(b' ')) {
            j += 1;
        }
        if self.s.get(j) == Some(&c) {
            self.i = j + 1;
            return true;
        }
        false
    }
    fn need(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1;
        }
        st(&self.s[self.i..j])
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> &'static str {
        if self.s[self.i] == b'"' {
            let a = self.i + 1;
            let mut j = a;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return st(&self.s[a..j]);
        }
        let a = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        st(&self.s[a..self.i])
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        match self.pk() {
            b'{' | b'[' | b'<' | b'%' => return true,
            _ => {}
        }
        let w = self.peek_word();
        is_type_word(w)
    }
    /// skips attribute words up to a type
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        let c = self.pk();
        if c == b'#' || c == b'!' || c == b'"' {
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.s[self.i] == b'=' {
                    self.i += 1;
                    self.skip_attr();
                }
                return;
            }
            self.i += 1;
        }
        let w = self.word();
        if w.is_empty() {
            self.fail("attribute expected");
        }
        if self.s[self.i] == b'(' {
            self.skip_parens();
        } else if w == "align" {
            self.ws();
            if self.s[self.i].is_ascii_digit() {
                self.word();
            }
        }
    }
    fn ty(&mut self) -> T {
        let c = self.pk();
        let base = match c {
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                self.word(); // x
                let t = self.ty();
                self.need(b']');
                leak(Ty::Arr(n, t))
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                mk_struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let f = self.ty_list(b'}');
                    self.need(b'>');
                    mk_struct(f, true)
                } else {
                    let n: u32 = self.word().parse().unwrap();
                    self.word();
                    let t = self.ty();
                    self.need(b'>');
                    leak(Ty::Vec(n, t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.m.types.get(n) {
                    Some(t) => t,
                    None => self.fail("unknown type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => &Ty::Void,
                    "ptr" => {
                        if self.s[self.i..].starts_with(b" addrspace(") {
                            self.i += " addrspace".len();
                            self.skip_parens();
                        }
                        &Ty::Ptr
                    }
                    "i1" => &Ty::Int(1),
                    "i8" => &Ty::Int(8),
                    "i16" => &Ty::Int(16),
                    "i32" => &Ty::Int(32),
                    "i64" => &Ty::Int(64),
                    "i128" => &Ty::Int(128),
                    "float" => &Ty::F32,
                    "double" => &Ty::F64,
                    "half" | "fp128" | "x86_fp80" => &Ty::FOther,
                    "metadata" => &Ty::Meta,
                    "label" => &Ty::Label,
                    _ if is_type_word(w) => leak(Ty::Int(w[1..].parse().unwrap())),
                    _ => self.fail(&format!("type expected, got '{}'", w)),
                }
            }
        };
        base
    }
    fn ty_list(&mut self, end: u8) -> Vec<T> {
        let mut f = vec![];
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(end) {
                return f;
            }
            self.need(b',');
        }
    }
    fn exprs(&mut self) -> &mut Exprs {
        unsafe { &mut *self.x.expect("expression context") }
    }
    fn zero(&mut self, t: T) -> Val {
        match t {
            Ty::Arr(..) | Ty::St { .. } | Ty::Vec(..) => {
                let v = (0..t.count()).map(|i| self.zero(t.elem(i).1)).collect();
                Val::V(Rc::new(v))
            }
            _ if t.bits() > 64 => Val::S(self.exprs().k(0, t.bits())),
            _ => Val::C(0),
        }
    }
    fn gaddr(&mut self, n: &str) -> u64 {
        let n = self.m.aliases.get(n).copied().unwrap_or(n);
        if let Some(&g) = self.m.gl_ix.get(n) {
            return addr_of(self.m.glob_base + g);
        }
        if let Some(&f) = self.m.fn_ix.get(n) {
            return addr_of(self.m.func_base + f);
        }
        self.fail(&format!("unknown global {}", n))
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label(&mut self, n: &'static str) -> u32 {
        match self.labels.get(n) {
            Some(b) => *b,
            None => self.fail(&format!("unknown label {}", n)),
        }
    }
    fn op(&mut self, t: T) -> O {
        if self.pk() == b'%' {
            self.i += 1;
            let n = self.name();
            return O::R(self.reg(n));
        }
        O::K(self.cst(t))
    }
    fn int_lit(&mut self, w: &str) -> u128 {
        if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
            return u128::from_str_radix(h, 16).unwrap();
        }
        match w.parse::<i128>() {
            Ok(v) => v as u128,
            Err(_) => match w.parse::<u128>() {
                Ok(v) => v,
                Err(_) => self.fail(&format!("integer expected, got {}", w)),
            },
        }
    }
    fn float_lit(&mut self, t: T) -> u64 {
        self.ws();
        let a = self.i;
        while !matches!(self.s[self.i], b',' | b' ' | b'\n' | b')' | b']' | b'}' | b'>') {
            self.i += 1;
        }
        let w = st(&self.s[a..self.i]);
        let is32 = matches!(t, Ty::F32);
        let to = |d: f64| if is32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
        match w {
            "undef" | "poison" | "zeroinitializer" => 0,
            "+inf" | "inf" => to(f64::INFINITY),
            "-inf" => to(f64::NEG_INFINITY),
            "+qnan" | "nan" | "+nan" => to(f64::NAN),
            "-qnan" | "-nan" => to(-f64::NAN),
            _ => {
                if let Some(h) = w.strip_prefix("f0x") {
                    u64::from_str_radix(h, 16).unwrap()
                } else if let Some(h) = w.strip_prefix("0x") {
                    let b = u64::from_str_radix(h, 16).unwrap();
                    to(f64::from_bits(b))
                } else {
                    match w.parse::<f64>() {
                        Ok(d) => to(d),
                        Err(_) => self.fail("float literal"),
                    }
                }
            }
        }
    }
    fn cst(&mut self, t: T) -> Val {
        match t {
            Ty::F32 | Ty::F64 => {
                return Val::C(self.float_lit(t));
            }
            Ty::Arr(..) | Ty::St { .. } | Ty::Vec(..) => {
                let c = self.pk();
                if c == b'c' && self.s[self.i + 1] == b'"' {
                    let mut out = vec![];
                    self.cstr(&mut out);
                    return Val::V(Rc::new(out.into_iter().map(|b| Val::C(b as u64)).collect()));
                }
                if c.is_ascii_alphabetic() {
                    let w = self.word();
                    match w {
                        "zeroinitializer" | "undef" | "poison" => return self.zero(t),
                        "splat" => {
                            self.need(b'(');
                            let et = self.ty();
                            let v = self.cst(et);
                            self.need(b')');
                            return Val::V(Rc::new(vec![v; t.count()]));
                        }
                        _ => self.fail("aggregate constant"),
                    }
                }
                self.i += 1;
                let mut packed = false;
                if c == b'<' && self.eat(b'{') {
                    packed = true;
                }
                let mut v = vec![];
                let end = match c {
                    b'<' if packed => b'}',
                    b'<' => b'>',
                    b'[' => b']',
                    _ => b'}',
                };
                if !self.eat(end) {
                    loop {
                        let et = self.ty();
                        v.push(self.cst(et));
                        if self.eat(end) {
                            break;
                        }
                        self.need(b',');
                    }
                }
                if packed {
                    self.need(b'>');
                }
                return Val::V(Rc::new(v));
            }
            _ => {}
        }
        let bits = t.bits();
        if bits > 64 {
            let w = self.word();
            let v = match w {
                "undef" | "poison" | "zeroinitializer" => 0,
                _ => self.int_lit(w),
            };
            return Val::S(self.exprs().k(v, bits));
        }
        let v = self.scalar();
        Val::C(v & mask(bits) as u64)
    }
    fn scalar(&mut self) -> u64 {
        if self.pk() == b'@' {
            self.i += 1;
            let n = self.name();
            return self.gaddr(n);
        }
        let w = self.word();
        match w {
            "true" => 1,
            "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
            "dso_local_equivalent" | "no_cfi" => self.scalar(),
            "getelementptr" => {
                while self.pk() != b'(' {
                    self.skip_attr();
                }
                self.need(b'(');
                let t = self.ty();
                self.need(b',');
                let pt = self.ty();
                let Val::C(mut a) = self.cst(pt) else { self.fail("gep base") };
                let mut cur = t;
                let mut first = true;
                while self.eat(b',') {
                    self.eat_word("inrange");
                    let it = self.ty();
                    let Val::C(i) = self.cst(it) else { self.fail("gep index") };
                    let i = sext128(i as u128, it.bits()) as i64;
                    if first {
                        a = a.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                        first = false;
                    } else {
                        let (o, e) = match cur {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => ((e.size() as i64).wrapping_mul(i) as u64, *e),
                            _ => cur.elem(i as usize),
                        };
                        a = a.wrapping_add(o);
                        cur = e;
                    }
                }
                self.need(b')');
                a
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                self.need(b'(');
                let t = self.ty();
                let Val::C(v) = self.cst(t) else { self.fail("const cast") };
                if !self.eat_word("to") {
                    self.fail("to expected");
                }
                let t2 = self.ty();
                self.need(b')');
                v & mask(t2.bits()) as u64
            }
            "sub" | "add" | "xor" | "mul" => {
                while self.pk() != b'(' {
                    self.word();
                }
                self.need(b'(');
                let t = self.ty();
                let Val::C(a) = self.cst(t) else { self.fail("const op") };
                self.need(b',');
                let t2 = self.ty();
                let Val::C(b) = self.cst(t2) else { self.fail("const op") };
                self.need(b')');
                let r = match w {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                r & mask(t.bits()) as u64
            }
            _ => self.int_lit(w) as u64,
        }
    }
    fn cstr(&mut self, out: &mut Vec<u8>) {
        // at c"
        self.i += 2;
        let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        loop {
            match self.s[self.i] {
                b'"' => {
                    self.i += 1;
                    return;
                }
                b'\\' => {
                    if self.s[self.i + 1] == b'\\' {
                        out.push(b'\\');
                        self.i += 2;
                    } else {
                        out.push(hex(self.s[self.i + 1]) * 16 + hex(self.s[self.i + 2]));
                        self.i += 3;
                    }
                }
                c => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
    /// parses an initializer straight to bytes
    fn init(&mut self, t: T, out: &mut Vec<u8>) {
        let start = out.len();
        match t {
            Ty::Arr(..) | Ty::St { .. } | Ty::Vec(..) => {
                let c = self.pk();
                if c == b'c' && self.s[self.i + 1] == b'"' {
                    self.cstr(out);
                    return;
                }
                if c.is_ascii_alphabetic() {
                    self.word();
                    out.resize(start + t.size() as usize, 0);
                    return;
                }
                self.i += 1;
                let packed = c == b'<' && matches!(t, Ty::St { .. }) && self.eat(b'{');
                let end = match c {
                    b'<' if packed => b'}',
                    b'<' => b'>',
                    b'[' => b']',
                    _ => b'}',
                };
                let mut i = 0;
                if !self.eat(end) {
                    loop {
                        let et = self.ty();
                        let (o, _) = t.elem(i);
                        out.resize(start + o as usize, 0);
                        self.init(et, out);
                        i += 1;
                        if self.eat(end) {
                            break;
                        }
                        self.need(b',');
                    }
                }
                if packed {
                    self.need(b'>');
                }
                out.resize(start + t.size() as usize, 0);
            }
            Ty::F32 | Ty::F64 => {
                let v = self.float_lit(t);
                out.extend_from_slice(&v.to_le_bytes()[..t.store() as usize]);
            }
            _ => {
                if t.bits() > 64 {
                    let w = self.word();
                    let v = if w == "undef" || w == "poison" { 0 } else { self.int_lit(w) };
                    out.extend_from_slice(&v.to_le_bytes()[..t.store() as usize]);
                } else {
                    let v = self.scalar();
                    out.extend_from_slice(&v.to_le_bytes()[..t.store() as usize]);
                }
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}

fn mk_struct(f: Vec<T>, packed: bool) -> T {
    let mut o = 0;
    let mut al = 1;
    let mut off = vec![];
    for t in &f {
        if !packed {
            let a = t.align();
            al = al.max(a);
            o = (o + a - 1) / a * a;
        }
        off.push(o);
        o += t.size();
    }
    let size = (o + al - 1) / al * al;
    leak(Ty::St { f, off, size, align: al })
}

pub fn load(path: &str) -> Module {
    let text: &'static [u8] = Box::leak(std::fs::read(path).expect("read IR").into_boxed_slice());
    let mut m = Module {
        text,
        funcs: vec![],
        fn_ix: HashMap::new(),
        globals: vec![],
        gl_ix: HashMap::new(),
        types: HashMap::new(),
        first_heap: 0,
        func_base: 0,
        glob_base: 0,
        aliases: HashMap::new(),
    };
    // pass 1: names
    let mut gl_pos: Vec<(usize, bool)> = vec![];
    let mut ty_pos: Vec<(&'static str, usize)> = vec![];
    let mut i = 0;
    let mut nice: &'static str = "";
    while i < text.len() {
        let e = memchr(text, i, b'\n');
        let line = &text[i..e];
        match line.first() {
            Some(b';') => {
                let c = st(line);
                if !c.starts_with("; Function Attrs") && !c.starts_with("; ModuleID") {
                    nice = c[1..].trim();
                }
            }
            Some(b'@') => {
                let mut p = P::new(&m, i + 1);
                let n = p.name();
                let at = p.i;
                // "= [words] alias|global|constant"
                let end = e;
                let head = st(&text[at..end.min(at + 200)]);
                let kw = head
                    .split(|c: char| c == ' ')
                    .find(|w| matches!(*w, "global" | "constant" | "alias" | "ifunc"));
                match kw {
                    Some(k @ ("global" | "constant")) => {
                        let pos = at + head.find(&format!(" {} ", k)).unwrap() + k.len() + 2;
                        let ext = head[..head.find(&format!(" {} ", k)).unwrap()]
                            .split(' ')
                            .any(|w| w == "external" || w == "extern_weak");
                        let ix = m.globals.len() as u32;
                        m.gl_ix.insert(n, ix);
                        m.globals.push((n, vec![], k == "constant"));
                        gl_pos.push((if ext { usize::MAX } else { pos }, ext));
                    }
                    Some("alias") => {
                        let line = st(line);
                        let t = line.rfind('@').unwrap();
                        let mut p = P::new(&m, i + t + 1);
                        let target = p.name();
                        m.aliases.insert(n, target);
                    }
                    _ => {
                        eprintln!("llsym: global without kind: {}", st(line));
                        std::process::exit(3);
                    }
                }
            }
            Some(b'%') => {
                let mut p = P::new(&m, i + 1);
                let n = p.name();
                let at = p.i;
                let s = st(&text[at..e]);
                if let Some(k) = s.find("= type ") {
                    ty_pos.push((n, at + k + 7));
                }
            }
            Some(b'd') if line.starts_with(b"define ") || line.starts_with(b"declare ") => {
                let def = line.starts_with(b"define ");
                let a = line.iter().position(|c| *c == b'@').unwrap();
                let mut p = P::new(&m, i + a + 1);
                let n = p.name();
                let at = p.i;
                let id = m.funcs.len() as u32;
                m.fn_ix.insert(n, id);
                let mut body = None;
                let mut ne = e;
                if def {
                    // to the line "}"
                    let mut k = e;
                    loop {
                        k = memchr(text, k + 1, b'\n');
                        if text[k + 1] == b'}' {
                            break;
                        }
                    }
                    body = Some((at, k));
                    ne = k + 2;
                }
                m.funcs.push(FnDecl { name: n, nice: if def && !nice.is_empty() { nice } else { n }, text: body, id });
                nice = "";
                i = ne + 1;
                continue;
            }
            _ => {}
        }
        i = e + 1;
    }
    for (n, pos) in ty_pos {
        let t = {
            let mut p = P::new(&m, pos);
            if p.peek_word() == "opaque" {
                &Ty::Void
            } else {
                p.ty()
            }
        };
        m.types.insert(n, t);
    }
    m.glob_base = 16;
    m.func_base = 16 + m.globals.len() as u32;
    m.first_heap = m.func_base + m.funcs.len() as u32 + 16;
    for g in 0..m.globals.len() {
        let (pos, ext) = gl_pos[g];
        let mut out = vec![];
        if ext {
            out.resize(64, 0);
        } else {
            let mut p = P::new(&m, pos);
            let t = p.ty();
            p.init(t, &mut out);
        }
        m.globals[g].1 = out;
    }
    m
}

fn memchr(s: &[u8], from: usize, c: u8) -> usize {
    s[from.min(s.len())..].iter().position(|x| *x == c).map(|p| p + from).unwrap_or(s.len())
}

impl Module {
    pub fn decode(&self, fi: u32, x: &mut Exprs) -> Func {
        let d = &self.funcs[fi as usize];
        let (a, end) = d.text.expect("function body");
        let mut p = P::new(self, a);
        p.x = Some(x as *mut Exprs);
        p.need(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !p.eat(b')') {
            loop {
                if p.eat_word("...") {
                    p.need(b')');
                    break;
                }
                p.ty();
                while p.pk() != b'%' && p.pk() != b',' && p.pk() != b')' {
                    p.skip_attr();
                }
                if p.eat(b'%') {
                    let n = p.name();
                    if n.as_bytes()[0].is_ascii_digit() {
                        unnamed += 1;
                    }
                    params.push(p.reg(n));
                } else {
                    p.fail("unnamed parameter");
                }
                if p.eat(b')') {
                    break;
                }
                p.need(b',');
            }
        }
        // to the opening brace at the end of the line
        let bo = memchr(self.text, p.i, b'\n');
        // labels
        let mut labels: Vec<(&'static str, usize)> = vec![];
        let mut i = bo + 1;
        let first = Box::leak(unnamed.to_string().into_boxed_str());
        while i < end {
            let e = memchr(self.text, i, b'\n').min(end);
            let line = &self.text[i..e];
            let c = line.first().copied().unwrap_or(b' ');
            if c != b' ' && c != b';' && c != b'\n' {
                // label
                let n = if c == b'"' {
                    let q = memchr(self.text, i + 1, b'"');
                    st(&self.text[i + 1..q])
                } else {
                    let q = memchr(self.text, i, b':');
                    st(&self.text[i..q])
                };
                labels.push((n, e));
            } else if labels.is_empty() && !line.is_empty() && c == b' ' {
                labels.push((first, i));
                // the first line is to be decoded
            }
            i = e + 1;
        }
        for (k, (n, _)) in labels.iter().enumerate() {
            p.labels.insert(n, k as u32);
        }
        let mut f = Func { idx: fi, name: d.name, nice: d.nice, params, nregs: 0, frame: 0, blocks: vec![] };
        let nb = labels.len();
        for k in 0..nb {
            p.i = labels[k].1;
            let mut blk = Block { ins: vec![], phis: vec![] };
            loop {
                p.ws();
                if p.i >= end {
                    break;
                }
                if self.text[p.i - 1] == b'\n' {
                    // not indented: the next label
                    break;
                }
                let done = decode_inst(&mut p, &mut blk, &mut f);
                p.eol();
                if done {
                    break;
                }
            }
            f.blocks.push(blk);
        }
        f.nregs = p.regs.len() as u32;
        f
    }
}

fn binop(w: &str) -> Option<Op> {
    Some(match w {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "urem" => Op::URem,
        "sdiv" => Op::SDiv,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        _ => return None,
    })
}

fn lanes_of(t: T) -> (u32, u32) {
    match t {
        Ty::Vec(n, e) => (e.bits(), *n),
        _ => (t.bits(), 0),
    }
}

/// true for terminators
fn decode_inst(p: &mut P, blk: &mut Block, f: &mut Func) -> bool {
    let mut d = NONE;
    if p.pk() == b'%' {
        p.i += 1;
        let n = p.name();
        d = p.reg(n);
        p.need(b'=');
    }
    let w = p.word();
    let push = &mut blk.ins;
    if let Some(op) = binop(w) {
        p.skip_to_type();
        let t = p.ty();
        let a = p.op(t);
        p.need(b',');
        let b = p.op(t);
        let (bits, lanes) = lanes_of(t);
        push.push(I::Bin { op, d, a, b, w: bits, lanes });
        return false;
    }
    match w {
        "icmp" => {
            let mut pr = p.word();
            if pr == "samesign" {
                pr = p.word();
            }
            let p2 = match pr {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                _ => p.fail("icmp predicate"),
            };
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            let b = p.op(t);
            let (bits, lanes) = lanes_of(t);
            push.push(I::ICmp { p: p2, d, a, b, w: bits, lanes });
        }
        "fcmp" => {
            let mut pr = p.word();
            while matches!(pr, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                pr = p.word();
            }
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            let b = p.op(t);
            push.push(I::FCmp { p: pr, d, a, b, w: t.bits() });
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.skip_to_type();
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            let b = p.op(t);
            let op = w.as_bytes()[1];
            push.push(I::FBin { op, d, a, b, w: t.bits() });
        }
        "fneg" => {
            p.skip_to_type();
            let t = p.ty();
            let a = p.op(t);
            push.push(I::FNeg { d, a, w: t.bits() });
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
        | "fptrunc" | "fpext" | "addrspacecast" => {
            p.skip_to_type();
            let t = p.ty();
            let a = p.op(t);
            if !p.eat_word("to") {
                p.fail("to");
            }
            let t2 = p.ty();
            let k = match w {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "fptoui" => CastK::FpToUi,
                "fptosi" => CastK::FpToSi,
                "uitofp" => CastK::UiToFp,
                "sitofp" => CastK::SiToFp,
                "fptrunc" => CastK::FpTrunc,
                "fpext" => CastK::FpExt,
                _ => CastK::PtrInt,
            };
            let (from, lanes) = lanes_of(t);
            let (to, _) = lanes_of(t2);
            push.push(I::Cast { k, d, a, from, to, lanes });
        }
        "bitcast" => {
            p.skip_to_type();
            let t = p.ty();
            let a = p.op(t);
            p.eat_word("to");
            let t2 = p.ty();
            if t.is_scalar() && t2.is_scalar() {
                push.push(I::Copy { d, a });
            } else {
                push.push(I::Bitcast { d, a, from: t, to: t2 });
            }
        }
        "freeze" => {
            let t = p.ty();
            let a = p.op(t);
            push.push(I::Copy { d, a });
        }
        "alloca" => {
            p.skip_to_type();
            let t = p.ty();
            let mut al = 16u64;
            let mut n: Option<O> = None;
            while p.eat_l(b',') {
                if p.eat_word("align") {
                    al = p.word().parse().unwrap();
                } else if p.pk() == b'!' {
                    break;
                } else {
                    let it = p.ty();
                    n = Some(p.op(it));
                }
            }
            match n {
                Some(O::K(Val::C(c))) => {
                    let o = (f.frame + al - 1) / al * al;
                    f.frame = o + (t.size() * c).max(1);
                    push.push(I::Alloca { d, off: o });
                }
                Some(n) => push.push(I::DynAlloca { d, n, size: t.size() }),
                None => {
                    let o = (f.frame + al - 1) / al * al;
                    f.frame = o + t.size().max(1);
                    push.push(I::Alloca { d, off: o });
                }
            }
        }
        "load" => {
            p.skip_to_type();
            let t = p.ty();
            p.need(b',');
            let pt = p.ty();
            let a = p.op(pt);
            push.push(I::Load { d, p: a, ty: t });
        }
        "store" => {
            p.skip_to_type();
            let t = p.ty();
            let v = p.op(t);
            p.need(b',');
            let pt = p.ty();
            let a = p.op(pt);
            push.push(I::Store { v, p: a, ty: t });
        }
        "getelementptr" => {
            p.skip_to_type();
            let t = p.ty();
            p.need(b',');
            let pt = p.ty();
            let base = p.op(pt);
            let mut off = 0u64;
            let mut idx = vec![];
            let mut cur = t;
            let mut first = true;
            loop {
                let save = p.i;
                if !p.eat_l(b',') {
                    break;
                }
                if p.pk() == b'!' {
                    p.i = save;
                    break;
                }
                let it = p.ty();
                let o = p.op(it);
                let es;
                if first {
                    es = cur.size();
                    first = false;
                } else {
                    match cur {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            es = e.size();
                            cur = e;
                        }
                        Ty::St { .. } => {
                            let O::K(Val::C(c)) = o else { p.fail("struct gep") };
                            let (fo, e) = cur.elem(c as usize);
                            off = off.wrapping_add(fo);
                            cur = e;
                            continue;
                        }
                        _ => p.fail("gep type"),
                    }
                }
                match o {
                    O::K(Val::C(c)) => {
                        let s = sext128(c as u128, it.bits()) as i64;
                        off = off.wrapping_add((s as u64).wrapping_mul(es));
                    }
                    _ => idx.push((o, it.bits(), es)),
                }
            }
            push.push(I::Gep { d, base, off, idx: idx.into_boxed_slice() });
        }
        "select" => {
            p.skip_to_type();
            let ct = p.ty();
            let c = p.op(ct);
            p.need(b',');
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            let t2 = p.ty();
            let b = p.op(t2);
            let cond_lanes = if let Ty::Vec(n, _) = ct { *n } else { 0 };
            push.push(I::Select { d, c, a, b, ty: t, cond_lanes });
        }
        "extractvalue" => {
            let t = p.ty();
            let a = p.op(t);
            let mut path = vec![];
            while p.eat_l(b',') {
                if p.pk() == b'!' {
                    break;
                }
                path.push(p.word().parse().unwrap());
            }
            push.push(I::ExtractValue { d, a, path: path.into() });
        }
        "insertvalue" => {
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            let t2 = p.ty();
            let v = p.op(t2);
            let mut path = vec![];
            while p.eat_l(b',') {
                if p.pk() == b'!' {
                    break;
                }
                path.push(p.word().parse().unwrap());
            }
            push.push(I::InsertValue { d, a, v, path: path.into(), ty: t });
        }
        "extractelement" => {
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            let t2 = p.ty();
            let i = p.op(t2);
            push.push(I::ExtractElem { d, a, i });
        }
        "insertelement" => {
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            let t2 = p.ty();
            let v = p.op(t2);
            p.need(b',');
            let t3 = p.ty();
            let i = p.op(t3);
            push.push(I::InsertElem { d, a, v, i });
        }
        "shufflevector" => {
            let t = p.ty();
            let a = p.op(t);
            p.need(b',');
            p.ty();
            let b = p.op(t);
            p.need(b',');
            let mt = p.ty();
            // mask, undef lanes are -1
            let mut mk = vec![];
            match p.cst(mt) {
                Val::V(v) => {
                    for e in v.iter() {
                        if let Val::C(c) = e {
                            mk.push(*c as u32 as i32);
                        }
                    }
                }
                _ => p.fail("shuffle mask"),
            }
            push.push(I::Shuffle { d, a, b, mask: mk.into(), n: t.count() as u32 });
        }
        "phi" => {
            p.skip_to_type();
            let t = p.ty();
            loop {
                p.need(b'[');
                let v = p.op(t);
                p.need(b',');
                p.need(b'%');
                let n = p.name();
                let l = p.label(n);
                p.need(b']');
                match blk.phis.iter_mut().find(|(b, _)| *b == l) {
                    Some((_, m)) => {
                        if !m.iter().any(|(r, _)| *r == d) {
                            m.push((d, v))
                        }
                    }
                    None => blk.phis.push((l, vec![(d, v)])),
                }
                let save = p.i;
                if !p.eat_l(b',') {
                    break;
                }
                if p.pk() == b'!' {
                    p.i = save;
                    break;
                }
            }
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if w != "call" && w != "invoke" {
                p.word();
            }
            p.skip_to_type();
            let rty = p.ty();
            if p.pk() == b'(' {
                p.skip_parens();
            }
            // callee
            let callee = if p.eat(b'@') {
                let n = p.name();
                let n = p.m.aliases.get(n).copied().unwrap_or(n);
                match p.m.fn_ix.get(n) {
                    Some(&fi) if p.m.funcs[fi as usize].text.is_some() && !crate::exec::intercepted(n) => Callee::F(fi),
                    _ => Callee::X(n),
                }
            } else if p.peek_word() == "asm" {
                p.word();
                while p.pk() != b'"' {
                    p.word();
                }
                let a = p.i + 1;
                p.i += 1;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                let s = st(&p.s[a..p.i]);
                p.i += 1;
                p.need(b',');
                p.need(b'"');
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
                Callee::Asm(s)
            } else {
                let o = p.op(&Ty::Ptr);
                Callee::P(o)
            };
            p.need(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty();
                    if matches!(t, Ty::Meta) {
                        // up to , or )
                        while !matches!(p.s[p.i], b',' | b')') {
                            if p.s[p.i] == b'(' {
                                p.skip_parens();
                            } else {
                                p.i += 1;
                            }
                        }
                    } else {
                        // attributes
                        loop {
                            let c = p.pk();
                            if !c.is_ascii_alphabetic() {
                                break;
                            }
                            let w = p.peek_word();
                            if matches!(
                                w,
                                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                                    | "ptrtoint" | "inttoptr" | "splat" | "none" | "sub" | "add" | "trunc" | "c"
                                    | "inf" | "nan" | "bitcast"
                            ) || w.starts_with("f0x")
                                || w.starts_with("u0x")
                                || w.starts_with("s0x")
                            {
                                break;
                            }
                            p.skip_attr();
                        }
                        let o = p.op(t);
                        args.push((o, t));
                    }
                    if p.eat(b')') {
                        break;
                    }
                    p.need(b',');
                }
            }
            let mut next = NONE;
            if w == "invoke" {
                // "to label %x unwind label %y" on the next line
                loop {
                    if p.eat_word("to") {
                        break;
                    }
                    let c = p.pk();
                    if c == b'[' {
                        while !p.eat(b']') {
                            p.i += 1;
                        }
                    } else {
                        p.skip_attr();
                    }
                }
                p.word();
                p.need(b'%');
                let n = p.name();
                next = p.label(n);
            }
            let skip = if let Callee::X(n) = &callee {
                n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.assume")
                    || n.starts_with("llvm.prefetch")
                    || n.starts_with("llvm.dbg")
                    || n.starts_with("llvm.donothing")
            } else {
                false
            };
            if !skip {
                push.push(I::Call { d, rty, callee, args: args.into(), next });
            }
            return w == "invoke";
        }
        "cmpxchg" => {
            p.skip_to_type();
            let pt = p.ty();
            let a = p.op(pt);
            p.need(b',');
            let t = p.ty();
            let old = p.op(t);
            p.need(b',');
            p.ty();
            let new = p.op(t);
            push.push(I::CmpXchg { d, p: a, old, new, ty: t });
        }
        "atomicrmw" => {
            let mut op = p.word();
            if op == "volatile" {
                op = p.word();
            }
            let pt = p.ty();
            let a = p.op(pt);
            p.need(b',');
            let t = p.ty();
            let v = p.op(t);
            push.push(I::Rmw { op, d, p: a, v, ty: t });
        }
        "fence" => push.push(I::Nop),
        "br" => {
            let t = p.ty();
            if matches!(t, Ty::Label) {
                p.need(b'%');
                let n = p.name();
                let l = p.label(n);
                push.push(I::Br { t: l });
            } else {
                let c = p.op(t);
                p.need(b',');
                p.ty();
                p.need(b'%');
                let n = p.name();
                let l1 = p.label(n);
                p.need(b',');
                p.ty();
                p.need(b'%');
                let n = p.name();
                let l2 = p.label(n);
                push.push(I::CondBr { c, t: l1, f: l2 });
            }
            return true;
        }
        "switch" => {
            let t = p.ty();
            let v = p.op(t);
            p.need(b',');
            p.ty();
            p.need(b'%');
            let n = p.name();
            let def = p.label(n);
            p.need(b'[');
            let mut cases = vec![];
            while !p.eat(b']') {
                p.ty();
                let lit = p.word();
                let k = match lit {
                    "true" => 1,
                    "false" => 0,
                    _ => p.int_lit(lit),
                } & mask(t.bits());
                p.need(b',');
                p.ty();
                p.need(b'%');
                let n = p.name();
                cases.push((k, p.label(n)));
            }
            push.push(I::Switch { v, w: t.bits(), def, cases: cases.into() });
            return true;
        }
        "ret" => {
            let t = p.ty();
            if matches!(t, Ty::Void) {
                push.push(I::Ret { v: None });
            } else {
                let v = p.op(t);
                push.push(I::Ret { v: Some(v) });
            }
            return true;
        }
        "unreachable" => {
            push.push(I::Unreachable);
            return true;
        }
        "resume" => {
            push.push(I::LandingPad);
            return true;
        }
        "landingpad" => {
            push.push(I::LandingPad);
        }
        "cleanup" | "catch" | "filter" => {}
        _ => p.fail(&format!("unknown instruction '{}'", w)),
    }
    false
}
