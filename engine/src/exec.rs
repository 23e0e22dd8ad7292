//! The symbolic executor.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// Functions with a body that the executor handles itself.
pub fn intercepted(n: &str) -> bool {
    is_panic(n) || matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen") || n.starts_with("__sym_")
}
pub fn is_panic(n: &str) -> bool {
    if n.contains("9panicking") {
        return !(n.contains("11panic_count") || n.contains("12catch_unwind") || n.contains("3try") || n.contains("9panicking9panicking"));
    }
    n.contains("18handle_alloc_error") || n.contains("12handle_error") && n.contains("7raw_vec") || n.contains("rust_begin_unwind")
        || n.contains("17rust_begin_panic") || n == "rust_panic" || n == "abort" || n == "llvm.trap"
        || n.contains("7process5abort") || n.contains("14abort_internal")
}

pub const MAXH: usize = 64;
#[repr(C)]
pub struct HS {
    pub paths: AtomicI64,
    pub assumed: AtomicI64,
    pub forks: AtomicI64,
    pub queries: AtomicI64,
    pub sat: AtomicI64,
    pub unsat: AtomicI64,
    pub unknown: AtomicI64,
    pub hits: AtomicI64,
    pub solver_us: AtomicI64,
    pub steps: AtomicI64,
    pub viols: AtomicI64,
    pub errors: AtomicI64,
    pub limit: AtomicI64,
    pub asserts: AtomicI64,
    pub samples: AtomicI64,
    pub known: AtomicI64,
    pub end_ms: AtomicI64,
    pub maxvars: AtomicI64,
    pub live: AtomicI64,
    pub maxdepth: AtomicI64,
    pub exprs: AtomicI64,
}
#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub h: [HS; MAXH],
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    b: u32,
    ip: u32,
    regs: Vec<Val>,
    obj: u32,
    dyn_objs: Vec<u32>,
    ret_d: u32,
    ret_next: u32,
}

#[derive(Clone)]
pub enum TB {
    B(u8),
    S(E),
}

#[derive(Clone)]
pub struct State {
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<E>,
    known: Rc<FxMap<E, u128>>,
    fixed: u128,
    model: Rc<Model>,
    nvars: u32,
    /// in order of creation: value = var + offset
    inputs: Vec<(E, u64)>,
    trace: Vec<TB>,
    covers: Vec<String>,
    tag: Option<Rc<str>>,
    steps: u64,
    depth: u32,
}

pub enum Stop {
    End,
    Assumed,
    Viol(String),
    Unsupported(String),
    Limit(&'static str),
}
type R<X> = Result<X, Stop>;

impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        let Fault::Bad(s) = f;
        Stop::Viol(format!("memory: {}", s))
    }
}

pub struct Opts {
    out: String,
    workers: i64,
    time_s: u64,
    max_steps: u64,
    verbose: bool,
    concrete: Option<Vec<u64>>,
    all_viols: bool,
    samples: i64,
    stride: i64,
}

pub struct Exec {
    m: &'static Module,
    x: Exprs,
    z: Z3,
    funcs: Vec<Option<&'static Func>>,
    pending: Vec<State>,
    cache: FxMap<Box<[E]>, Option<Rc<Vec<(u32, u128)>>>>,
    cur_model: Rc<Model>,
    o: Rc<Opts>,
    sh: &'static Shared,
    hi: usize,
    hname: String,
    nq: u64,
    start: Instant,
    pool: Vec<Vec<Val>>,
    used: HashSet<u32>,
    covers: HashSet<String>,
    forksite: BTreeMap<String, u64>,
    children: Vec<i32>,
    errno_obj: u32,
    err_seen: HashSet<String>,
    trace_fn: bool,
    tick: u64,
    profile: bool,
    fn_steps: FxMap<u32, u64>,
}

fn m64(w: u32) -> u64 {
    mask(w) as u64
}
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

#[inline(always)]
fn get<'a>(regs: &'a [Val], o: &'a O) -> &'a Val {
    match o {
        O::R(r) => &regs[*r as usize],
        O::K(v) => v,
    }
}

impl Exec {
    fn hs(&self) -> &'static HS {
        &self.sh.h[self.hi]
    }
    fn func(&mut self, i: u32) -> &'static Func {
        if let Some(f) = self.funcs[i as usize] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.m.decode(i, &mut self.x)));
        self.funcs[i as usize] = Some(f);
        self.used.insert(i);
        f
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.x.k(*c as u128, w),
            Val::S(e) => *e,
            Val::V(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        if self.x.width(e) <= 64 {
            if let Some(k) = self.x.is_k(e) {
                return Val::C(k as u64);
            }
        }
        Val::S(e)
    }
    fn eval(&mut self, st: &State, e: E) -> u128 {
        if !Rc::ptr_eq(&self.cur_model, &st.model) {
            self.cur_model = st.model.clone();
            self.x.new_gen();
        }
        let m = self.cur_model.clone();
        self.x.eval(e, &m)
    }
    /// Is the path condition together with c satisfiable?
    fn query(&mut self, st: &State, c: E) -> R<Option<Rc<Vec<(u32, u128)>>>> {
        if let Some(k) = self.x.is_k(c) {
            if k == 0 {
                return Ok(None);
            }
        }
        let mut sup = self.x.sup[c as usize];
        let mut rel: Vec<E> = vec![];
        let mut rest: Vec<E> = st.pc.clone();
        loop {
            let before = rel.len();
            rest.retain(|&k| {
                let s = self.x.sup[k as usize];
                if s & sup != 0 {
                    sup |= s;
                    rel.push(k);
                    false
                } else {
                    true
                }
            });
            if rel.len() == before {
                break;
            }
        }
        rel.sort_unstable();
        rel.dedup();
        rel.push(c);
        let key: Box<[E]> = rel.clone().into_boxed_slice();
        let hs = self.hs();
        if let Some(r) = self.cache.get(&key) {
            hs.hits.fetch_add(1, SeqCst);
            return Ok(r.clone());
        }
        let t = Instant::now();
        let r = self.z.check(&self.x, &rel);
        let us = t.elapsed().as_micros() as i64;
        hs.solver_us.fetch_add(us, SeqCst);
        hs.queries.fetch_add(1, SeqCst);
        if self.o.verbose && us > 1_000_000 {
            let f = st.cur.f.nice;
            eprintln!("[{}] slow query {} ms, {} constraints, in {}: {:.900}", self.hname, us / 1000, rel.len(), f, self.x.show(c, 9));
        }
        if self.o.verbose && std::env::var("LLSYM_PROG").is_ok() {
            self.nq += 1;
            if self.nq % 1000 == 0 {
                eprintln!("[{}] {} queries, at {}: {:.300}", self.hname, self.nq, st.cur.f.nice, self.x.show(c, 6));
            }
        }
        let r = match r {
            Res::Unsat => {
                hs.unsat.fetch_add(1, SeqCst);
                None
            }
            Res::Sat(v) => {
                hs.sat.fetch_add(1, SeqCst);
                Some(Rc::new(v))
            }
            Res::Unknown => {
                hs.unknown.fetch_add(1, SeqCst);
                return Err(Stop::Limit("solver gave up on a query"));
            }
        };
        self.cache.insert(key, r.clone());
        Ok(r)
    }
    fn merged(&self, st: &State, vals: &[(u32, u128)]) -> Rc<Model> {
        let mut m = (*st.model).clone();
        for (i, v) in vals {
            if m.len() <= *i as usize {
                m.resize(*i as usize + 1, 0);
            }
            m[*i as usize] = *v;
        }
        Rc::new(m)
    }
    /// adds a constraint that the state's model satisfies
    fn add(&mut self, st: &mut State, c: E) {
        if self.x.is_k(c).is_some() {
            return;
        }
        let mut todo = vec![c];
        let n = self.x.not(c);
        {
            let k = Rc::make_mut(&mut st.known);
            k.insert(c, 1);
            k.insert(n, 0);
        }
        while let Some(c) = todo.pop() {
            match self.x.node(c) {
                N::B(Op::And, a, b) if self.x.width(c) == 1 => {
                    todo.push(a);
                    todo.push(b);
                    continue;
                }
                N::B(Op::Eq, a, b) => {
                    if let Some(k) = self.x.is_k(b) {
                        Rc::make_mut(&mut st.known).insert(a, k);
                        if let N::V(v) = self.x.node(a) {
                            if v < 128 {
                                st.fixed |= 1u128 << v;
                            }
                        }
                    }
                }
                N::V(v) if v < 128 => st.fixed |= 1u128 << v,
                N::B(Op::Xor, a, b) if self.x.width(c) == 1 && self.x.is_k(b) == Some(1) => {
                    if let N::V(v) = self.x.node(a) {
                        if v < 128 {
                            st.fixed |= 1u128 << v;
                        }
                    }
                }
                _ => {}
            }
            if !st.pc.contains(&c) {
                st.pc.push(c);
            }
        }
    }
    fn fork_state(&mut self, st: &State, c: E, vals: &[(u32, u128)]) {
        let mut s2 = st.clone();
        s2.model = self.merged(st, vals);
        s2.depth += 1;
        self.add(&mut s2, c);
        self.hs().forks.fetch_add(1, SeqCst);
        self.hs().maxdepth.fetch_max(s2.depth as i64, SeqCst);
        if self.o.verbose {
            let key = format!("{} <- {}", st.cur.f.nice, st.stack.last().map(|f| f.f.nice).unwrap_or(""));
            *self.forksite.entry(key).or_insert(0) += 1;
        }
        self.pending.push(s2);
        if self.pending.len() >= 2 {
            self.split();
        }
    }
    /// A value of the expression; other possible values are explored in forked states,
    /// which execute the current instruction again.
    fn conc(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.x.is_k(e) {
            return Ok(k);
        }
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let v = self.eval(st, e);
        if self.x.var_w.len() <= 128 && self.x.sup[e as usize] & !st.fixed == 0 {
            return Ok(v);
        }
        let w = self.x.width(e);
        let k = self.x.k(v, w);
        let eq = self.x.bin(Op::Eq, e, k);
        let ne = self.x.not(eq);
        match self.query(st, ne)? {
            None => {
                Rc::make_mut(&mut st.known).insert(e, v);
            }
            Some(vals) => {
                self.fork_state(st, ne, &vals);
                st.depth += 1;
                self.add(st, eq);
            }
        }
        // a value was chosen: does that decide the variable it is made of?
        let open = self.x.sup[e as usize] & !st.fixed;
        if w > 1 && open.count_ones() == 1 && self.x.var_w.len() <= 128 {
            let id = open.trailing_zeros();
            let ve = self.x.var_e[id as usize];
            let vw = self.x.width(ve);
            let cur = self.eval(st, ve);
            let k = self.x.k(cur, vw);
            let eq = self.x.bin(Op::Eq, ve, k);
            let ne = self.x.not(eq);
            if self.query(st, ne)?.is_none() {
                self.add(st, eq);
            }
        }
        Ok(v)
    }
    fn cval(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => Ok(self.conc(st, *e)? as u64),
            Val::V(_) => Err(Stop::Unsupported("aggregate where a scalar is needed".into())),
        }
    }
    fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        Ok(self.cval(st, v)? & 1 == 1)
    }

    // ---- memory
    fn load_int(&mut self, st: &mut State, addr: u64, bits: u32) -> R<Val> {
        let n = ((bits + 7) / 8) as usize;
        let (o, off) = st.mem.get(addr, n)?;
        if o.is_conc(off, n) {
            if bits <= 64 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b) & m64(bits)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let k = self.x.k(u128::from_le_bytes(b), bits);
            return Ok(Val::S(k));
        }
        let s = o.sym.as_ref().unwrap();
        let mut acc: Option<E> = None;
        for i in (0..n).rev() {
            let b = if s[off + i] != 0 { s[off + i] } else { self.x.k(o.data[off + i] as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(a) => self.x.cat(a, b),
            });
        }
        let mut e = acc.unwrap();
        if bits % 8 != 0 {
            e = self.x.extract(e, 0, bits);
        }
        Ok(self.settle(st, e, bits))
    }
    /// the value as a constant when the path has fixed all its variables
    fn settle(&mut self, st: &State, e: E, bits: u32) -> Val {
        if st.fixed != 0
            && self.x.is_k(e).is_none()
            && self.x.var_w.len() <= 128
            && self.x.sup[e as usize] & !st.fixed == 0
        {
            let v = self.eval(st, e);
            if bits <= 64 {
                return Val::C(v as u64);
            }
            let k = self.x.k(v, bits);
            return Val::S(k);
        }
        self.v(e)
    }
    fn store_int(&mut self, st: &mut State, addr: u64, bits: u32, v: &Val) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            Val::C(c) => {
                let (o, off) = st.mem.get_mut(addr, n)?;
                o.set_conc(off, &c.to_le_bytes()[..n]);
            }
            Val::S(e) => {
                let mut e = *e;
                if bits % 8 != 0 {
                    e = self.x.zext(e, n as u32 * 8);
                }
                let bs: Vec<E> = (0..n).map(|i| self.x.part(e, i as u32 * 8, 8)).collect();
                let (o, off) = st.mem.get_mut(addr, n)?;
                for (i, b) in bs.iter().enumerate() {
                    if let Some(k) = self.x.is_k(*b) {
                        o.set_conc(off + i, &[k as u8]);
                    } else {
                        o.set_sym(off + i, *b);
                    }
                }
            }
            Val::V(_) => return Err(Stop::Unsupported("aggregate store".into())),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, addr: u64, t: T) -> R<Val> {
        if t.is_scalar() {
            return self.load_int(st, addr, t.bits());
        }
        if let Ty::Vec(n, et) = t {
            if et.bits() % 8 != 0 {
                let v = self.load_int(st, addr, n * et.bits())?;
                let e = self.e(&v, n * et.bits());
                let w = et.bits();
                let mut o = vec![];
                for i in 0..*n {
                    let b = self.x.extract(e, i * w, w);
                    o.push(self.v(b));
                }
                return Ok(Val::V(Rc::new(o)));
            }
        }
        let mut o = Vec::with_capacity(t.count());
        for i in 0..t.count() {
            let (off, et) = t.elem(i);
            o.push(self.load_ty(st, addr + off, et)?);
        }
        Ok(Val::V(Rc::new(o)))
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, t: T, v: &Val) -> R<()> {
        if t.is_scalar() {
            return self.store_int(st, addr, t.bits(), v);
        }
        let Val::V(vs) = v else {
            return Err(Stop::Unsupported("scalar as aggregate".into()));
        };
        if let Ty::Vec(n, et) = t {
            if et.bits() % 8 != 0 {
                let w = et.bits();
                let mut acc = self.e(&vs[*n as usize - 1], w);
                for i in (0..*n as usize - 1).rev() {
                    let b = self.e(&vs[i], w);
                    acc = self.x.cat(acc, b);
                }
                let v = self.v(acc);
                return self.store_int(st, addr, n * w, &v);
            }
        }
        for i in 0..t.count() {
            let (off, et) = t.elem(i);
            self.store_ty(st, addr + off, et, &vs[i])?;
        }
        Ok(())
    }
    /// load through a symbolic address: a decision tree over the feasible offsets
    fn load_sym(&mut self, st: &mut State, a: E, t: T) -> R<Val> {
        let cur = if let Some(k) = st.known.get(&a) { *k as u64 } else { self.eval(st, a) as u64 };
        if self.x.var_w.len() <= 128 && self.x.sup[a as usize] & !st.fixed == 0 {
            return self.load_ty(st, cur, t);
        }
        let n = t.store();
        let bits = t.bits();
        if bits == 0 || matches!(t, Ty::Ptr) {
            let v = self.conc(st, a)? as u64;
            return self.load_ty(st, v, t);
        }
        let id = (cur >> 32) as u32;
        let Some(o) = st.mem.obj(id) else {
            return Err(Stop::Viol("memory: access to an invalid address".into()));
        };
        let size = o.data.len() as u64;
        if size < n || size > 1 << 16 {
            let v = self.conc(st, a)? as u64;
            return self.load_ty(st, v, t);
        }
        let base = addr_of(id);
        // the address as constant + symbolic part
        let (symp, kpart) = match self.x.node(a) {
            N::B(Op::Add, p, q) => match self.x.is_k(q) {
                Some(k) => (p, k as u64),
                None => (a, 0),
            },
            _ => (a, 0),
        };
        let tz = self.x.tz(symp, 8).min(12);
        let step = 1u64 << tz;
        let umax = self.x.umax(symp, 10);
        // candidate addresses: kpart + j*step inside the object
        let lo_addr = base;
        let hi_addr = base + size - n;
        let mut cands: Vec<u64> = vec![];
        if umax <= 1 << 16 {
            let mut s = 0u64;
            while s as u128 <= umax {
                let ad = kpart.wrapping_add(s);
                if ad >= lo_addr && ad <= hi_addr {
                    cands.push(ad);
                }
                s += step;
            }
        } else {
            // first address >= lo_addr congruent to kpart
            let mut ad = lo_addr + (kpart.wrapping_sub(lo_addr) & (step - 1));
            while ad <= hi_addr {
                cands.push(ad);
                ad += step;
            }
        }
        if cands.is_empty() || cands.len() > 4096 {
            let v = self.conc(st, a)? as u64;
            return self.load_ty(st, v, t);
        }
        // in bounds?
        let kl = self.x.k(lo_addr as u128, 64);
        let kh = self.x.k(hi_addr as u128, 64);
        let c1 = self.x.ule(kl, a);
        let c2 = self.x.ule(a, kh);
        let inb = self.x.and1(c1, c2);
        if self.conc(st, inb)? == 0 {
            // the model changed to one outside
            let v = self.conc(st, a)? as u64;
            return self.load_ty(st, v, t);
        }
        let mut vals: Vec<(u64, E)> = Vec::with_capacity(cands.len());
        for c in &cands {
            let v = self.load_int(st, *c, bits)?;
            vals.push((*c, self.e(&v, bits)));
        }
        vals.sort_by_key(|x| x.0);
        if let Some(r) = self.digits(symp, tz, kpart, &vals, bits) {
            return Ok(self.v(r));
        }
        let r = self.tree(a, &vals);
        Ok(self.v(r))
    }
    /// tables of decimal digits: '0' + j / 10, '0' + j % 10 or both
    fn digits(&mut self, symp: E, tz: u32, kpart: u64, vals: &[(u64, E)], bits: u32) -> Option<E> {
        if vals.len() < 10 || vals[0].0 != kpart || (bits != 8 && bits != 16) {
            return None;
        }
        let mut ks = Vec::with_capacity(vals.len());
        for (i, (a, e)) in vals.iter().enumerate() {
            if *a != kpart + ((i as u64) << tz) {
                return None;
            }
            ks.push(self.x.is_k(*e)?);
        }
        let byte = |ks: &[u128], sh: u32| -> Option<(u128, bool)> {
            let b = |j: usize| ks[j] >> sh & 255;
            for div in [true, false] {
                if (0..ks.len()).all(|j| b(j) == b(0) + if div { j as u128 / 10 } else { j as u128 % 10 }) {
                    return Some((b(0), div));
                }
            }
            None
        };
        let w = self.x.width(symp);
        let idx = self.x.extract(symp, tz, w - tz);
        let mut r = None;
        for sh in (0..bits).step_by(8) {
            let (c, div) = byte(&ks, sh)?;
            let ten = self.x.k(10, w - tz);
            let q = self.x.bin(if div { Op::UDiv } else { Op::URem }, idx, ten);
            let q = self.x.extract(q, 0, 8);
            let c = self.x.k(c, 8);
            let b = self.x.bin(Op::Add, q, c);
            r = Some(match r {
                None => b,
                Some(l) => self.x.cat(b, l),
            });
        }
        r
    }
    fn tree(&mut self, a: E, vals: &[(u64, E)]) -> E {
        if vals.iter().all(|v| v.1 == vals[0].1) {
            return vals[0].1;
        }
        let mid = vals.len() / 2;
        let l = self.tree(a, &vals[..mid]);
        let r = self.tree(a, &vals[mid..]);
        let k = self.x.k(vals[mid].0 as u128, 64);
        let c = self.x.bin(Op::Ult, a, k);
        self.x.ite(c, l, r)
    }
    fn copy_mem(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = st.mem.get(s, n)?;
        let data = o.data[off..off + n].to_vec();
        let sym = o.sym.as_ref().map(|v| v[off..off + n].to_vec());
        let (o, off) = st.mem.get_mut(d, n)?;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(sv) if sv.iter().any(|e| *e != 0) => {
                if o.sym.is_none() {
                    o.sym = Some(vec![0; o.data.len()]);
                }
                o.sym.as_mut().unwrap()[off..off + n].copy_from_slice(&sv);
            }
            _ => {
                if let Some(os) = &mut o.sym {
                    os[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, a: u64) -> R<Val> {
        let (o, off) = st.mem.get(a, 1)?;
        if let Some(s) = &o.sym {
            if s[off] != 0 {
                return Ok(Val::S(s[off]));
            }
        }
        Ok(Val::C(o.data[off] as u64))
    }
    fn read_str(&mut self, st: &State, a: u64, n: usize) -> R<String> {
        let (o, off) = st.mem.get(a, n)?;
        Ok(String::from_utf8_lossy(&o.data[off..off + n]).into_owned())
    }

    // ---- scalars
    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Op::Add => x.wrapping_add(y),
                Op::Sub => x.wrapping_sub(y),
                Op::Mul => x.wrapping_mul(y),
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                    if y == 0 {
                        return Err(Stop::Viol("division by zero".into()));
                    }
                    Exprs::fold(op, x as u128, y as u128, w) as u64
                }
                _ => Exprs::fold(op, x as u128, y as u128, w) as u64,
            };
            return Ok(Val::C(r & m64(w)));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.x.bin(op, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.x.bin(Op::Eq, x, y),
            Pred::Ne => self.x.ne(x, y),
            Pred::Ugt => self.x.bin(Op::Ult, y, x),
            Pred::Uge => self.x.ule(y, x),
            Pred::Ult => self.x.bin(Op::Ult, x, y),
            Pred::Ule => self.x.ule(x, y),
            Pred::Sgt => self.x.bin(Op::Slt, y, x),
            Pred::Sge => self.x.sle(y, x),
            Pred::Slt => self.x.bin(Op::Slt, x, y),
            Pred::Sle => self.x.sle(x, y),
        };
        self.v(r)
    }
    fn cast(&mut self, st: &mut State, k: CastK, from: u32, to: u32, a: &Val) -> R<Val> {
        match k {
            CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::PtrInt => {
                if let Val::C(x) = a {
                    if to <= 64 {
                        return Ok(Val::C(if k == CastK::SExt { sx(*x, from) as u64 & m64(to) } else { *x & m64(to) }));
                    }
                }
                let e = self.e(a, from);
                let r = if to < from {
                    self.x.extract(e, 0, to)
                } else if k == CastK::SExt {
                    self.x.sext(e, to)
                } else {
                    self.x.zext(e, to)
                };
                Ok(self.v(r))
            }
            _ => {
                if from > 64 || to > 64 {
                    return Err(Stop::Unsupported("wide float conversion".into()));
                }
                let c = self.cval(st, a)?;
                let f = |c: u64, w: u32| if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                let t = |d: f64, w: u32| if w == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
                let r = match k {
                    CastK::FpToUi => (f(c, from) as u64) & m64(to),
                    CastK::FpToSi => (f(c, from) as i64) as u64 & m64(to),
                    CastK::UiToFp => {
                        if to == 32 {
                            (c as f32).to_bits() as u64
                        } else {
                            (c as f64).to_bits()
                        }
                    }
                    CastK::SiToFp => {
                        let s = sx(c, from);
                        if to == 32 {
                            (s as f32).to_bits() as u64
                        } else {
                            (s as f64).to_bits()
                        }
                    }
                    _ => t(f(c, from), to),
                };
                Ok(Val::C(r))
            }
        }
    }
    fn lanes(&self, v: &Val) -> Rc<Vec<Val>> {
        match v {
            Val::V(r) => r.clone(),
            _ => Rc::new(vec![v.clone()]),
        }
    }
    fn bitcast(&mut self, v: &Val, from: T, to: T) -> R<Val> {
        // to bits, least significant first, in chunks
        let total = match from {
            Ty::Vec(n, t) => n * t.bits(),
            _ => from.bits(),
        };
        // collect pieces (lo..hi)
        let pieces: Vec<(E, u32)> = match from {
            Ty::Vec(_, t) => {
                let l = self.lanes(v);
                let mut o = vec![];
                for x in l.iter() {
                    o.push((self.e(x, t.bits()), t.bits()));
                }
                o
            }
            _ => vec![(self.e(v, from.bits()), from.bits())],
        };
        let mut take = |s: &mut Self, lo: u32, w: u32| -> E {
            let mut acc: Option<E> = None;
            let mut pos = 0;
            for (e, pw) in &pieces {
                let (a, b) = (pos.max(lo), (pos + pw).min(lo + w));
                if a < b {
                    let x = s.x.extract(*e, a - pos, b - a);
                    acc = Some(match acc {
                        None => x,
                        Some(p) => s.x.cat(x, p),
                    });
                }
                pos += pw;
            }
            acc.unwrap()
        };
        match to {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut o = vec![];
                for i in 0..*n {
                    let e = take(self, i * w, w);
                    o.push(self.v(e));
                }
                Ok(Val::V(Rc::new(o)))
            }
            _ => {
                let e = take(self, 0, total);
                Ok(self.v(e))
            }
        }
    }

    // ---- calls
    fn enter(&mut self, st: &mut State, fi: u32, args: Vec<Val>, d: u32, next: u32) -> R<()> {
        let f = self.func(fi);
        if self.trace_fn {
            eprintln!("{}-> {}", " ".repeat(st.stack.len()), f.nice);
        }
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.resize(f.nregs as usize, Val::C(0));
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        let obj = if f.frame > 0 { st.mem.alloc(f.frame as usize) } else { 0 };
        let fr = Frame { f, b: 0, ip: 0, regs, obj, dyn_objs: vec![], ret_d: d, ret_next: next };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
        if st.stack.len() > 5000 {
            return Err(Stop::Viol("stack overflow: more than 5000 frames".into()));
        }
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        if st.cur.obj != 0 {
            st.mem.release(st.cur.obj);
        }
        for o in &st.cur.dyn_objs {
            st.mem.release(*o);
        }
        let Some(p) = st.stack.pop() else {
            return Err(Stop::End);
        };
        let (d, next) = (st.cur.ret_d, st.cur.ret_next);
        let p = match Rc::try_unwrap(p) {
            Ok(f) => f,
            Err(r) => (*r).clone(),
        };
        let old = std::mem::replace(&mut st.cur, p);
        self.pool.push(old.regs);
        if st.stack.is_empty() && st.cur.f.blocks.is_empty() {
            return Err(Stop::End);
        }
        self.finish(st, d, v, next);
        Ok(())
    }
    #[inline]
    fn finish(&mut self, st: &mut State, d: u32, v: Option<Val>, next: u32) {
        if d != NONE {
            if let Some(v) = v {
                st.cur.regs[d as usize] = v;
            }
        }
        if next != NONE {
            self.goto(st, next);
        } else {
            st.cur.ip += 1;
        }
    }
    #[inline]
    fn goto(&mut self, st: &mut State, t: u32) {
        let fr = &mut st.cur;
        let from = fr.b;
        let blk = &fr.f.blocks[t as usize];
        if !blk.phis.is_empty() {
            if let Some((_, mv)) = blk.phis.iter().find(|(p, _)| *p == from) {
                if mv.len() == 1 {
                    let v = get(&fr.regs, &mv[0].1).clone();
                    fr.regs[mv[0].0 as usize] = v;
                } else {
                    let vs: Vec<Val> = mv.iter().map(|(_, o)| get(&fr.regs, o).clone()).collect();
                    for ((d, _), v) in mv.iter().zip(vs) {
                        fr.regs[*d as usize] = v;
                    }
                }
            }
        }
        fr.b = t;
        fr.ip = 0;
    }

    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let f = st.cur.f;
        let blk = &f.blocks[st.cur.b as usize];
        let mut local = 0u64;
        loop {
            let ins = &blk.ins[st.cur.ip as usize];
            local += 1;
            #[cfg(feature = "itrace")]
            if f.nice.contains("write_sheet") {
                eprintln!("b{} {:?} regs {:x?}", st.cur.b, ins, st.cur.regs.iter().enumerate().filter(|(_,v)| !matches!(v, Val::C(0))).map(|(i,v)|(i,v.clone())).collect::<Vec<_>>().iter().rev().take(12).collect::<Vec<_>>());
            }
            match ins {
                I::Bin { op, d, a, b, w, lanes } => {
                    let regs = &mut st.cur.regs;
                    if *lanes == 0 {
                        if let (Val::C(x), Val::C(y)) = (get(regs, a), get(regs, b)) {
                            let (x, y) = (*x, *y);
                            let r = match op {
                                Op::Add => x.wrapping_add(y) & m64(*w),
                                Op::Sub => x.wrapping_sub(y) & m64(*w),
                                Op::And => x & y,
                                Op::Or => x | y,
                                Op::Xor => x ^ y,
                                _ => {
                                    let (x, y) = (Val::C(x), Val::C(y));
                                    let v = self.bin(*op, *w, &x, &y)?;
                                    st.cur.regs[*d as usize] = v;
                                    st.cur.ip += 1;
                                    continue;
                                }
                            };
                            regs[*d as usize] = Val::C(r);
                            st.cur.ip += 1;
                            continue;
                        }
                        let (x, y) = (get(regs, a).clone(), get(regs, b).clone());
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                            // symbolic divisors: the zero case was checked by the code
                            if let Val::S(e) = y {
                                if *w <= 64 {
                                    let z = self.x.k(0, *w);
                                    let isz = self.x.bin(Op::Eq, e, z);
                                    if self.conc(st, isz)? == 1 {
                                        return Err(Stop::Viol("division by zero".into()));
                                    }
                                }
                            }
                        }
                        let v = self.bin(*op, *w, &x, &y)?;
                        st.cur.regs[*d as usize] = v;
                    } else {
                        let (x, y) = (self.lanes(get(regs, a)), self.lanes(get(regs, b)));
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            o.push(self.bin(*op, *w, &x[i], &y[i])?);
                        }
                        st.cur.regs[*d as usize] = Val::V(Rc::new(o));
                    }
                    st.cur.ip += 1;
                }
                I::ICmp { p, d, a, b, w, lanes } => {
                    let regs = &st.cur.regs;
                    let v = if *lanes == 0 {
                        let (x, y) = (get(regs, a), get(regs, b));
                        self.icmp(*p, *w, x, y)
                    } else {
                        let (x, y) = (self.lanes(get(regs, a)), self.lanes(get(regs, b)));
                        let o = (0..x.len()).map(|i| self.icmp(*p, *w, &x[i], &y[i])).collect();
                        Val::V(Rc::new(o))
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Cast { k, d, a, from, to, lanes } => {
                    let x = get(&st.cur.regs, a).clone();
                    let v = if *lanes == 0 {
                        self.cast(st, *k, *from, *to, &x)?
                    } else {
                        let x = self.lanes(&x);
                        let mut o = vec![];
                        for i in 0..x.len() {
                            o.push(self.cast(st, *k, *from, *to, &x[i])?);
                        }
                        Val::V(Rc::new(o))
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Copy { d, a } => {
                    let v = get(&st.cur.regs, a).clone();
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Bitcast { d, a, from, to } => {
                    let v = get(&st.cur.regs, a).clone();
                    let v = self.bitcast(&v, from, to)?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Alloca { d, off } => {
                    st.cur.regs[*d as usize] = Val::C(addr_of(st.cur.obj) + off);
                    st.cur.ip += 1;
                }
                I::DynAlloca { d, n, size } => {
                    let n = get(&st.cur.regs, n).clone();
                    let n = self.cval(st, &n)?;
                    let id = st.mem.alloc((n * size) as usize);
                    st.cur.dyn_objs.push(id);
                    st.cur.regs[*d as usize] = Val::C(addr_of(id));
                    st.cur.ip += 1;
                }
                I::Load { d, p, ty } => {
                    let v = match get(&st.cur.regs, p) {
                        Val::C(a) => {
                            let a = *a;
                            if ty.is_scalar() {
                                self.load_int(st, a, ty.bits())?
                            } else {
                                self.load_ty(st, a, ty)?
                            }
                        }
                        Val::S(e) => {
                            let e = *e;
                            self.load_sym(st, e, ty)?
                        }
                        _ => return Err(Stop::Unsupported("vector load address".into())),
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Store { v, p, ty } => {
                    let a = get(&st.cur.regs, p).clone();
                    let a = self.cval(st, &a)?;
                    let v = get(&st.cur.regs, v).clone();
                    self.store_ty(st, a, ty, &v)?;
                    st.cur.ip += 1;
                }
                I::Gep { d, base, off, idx } => {
                    let regs = &st.cur.regs;
                    let mut allc = true;
                    let mut acc = match get(regs, base) {
                        Val::C(c) => c.wrapping_add(*off),
                        _ => {
                            allc = false;
                            0
                        }
                    };
                    if allc {
                        for (o, w, s) in idx.iter() {
                            match get(regs, o) {
                                Val::C(c) => acc = acc.wrapping_add((sx(*c, *w) as u64).wrapping_mul(*s)),
                                _ => {
                                    allc = false;
                                    break;
                                }
                            }
                        }
                    }
                    let v = if allc {
                        Val::C(acc)
                    } else {
                        if let Val::V(_) = get(regs, base) {
                            return Err(Stop::Unsupported("vector gep".into()));
                        }
                        let b = get(regs, base).clone();
                        let mut e = self.e(&b, 64);
                        let k = self.x.k(*off as u128, 64);
                        e = self.x.bin(Op::Add, e, k);
                        for (o, w, s) in idx.iter() {
                            let i = get(&st.cur.regs, o).clone();
                            let mut ie = self.e(&i, *w);
                            ie = if *w < 64 { self.x.sext(ie, 64) } else { ie };
                            let k = self.x.k(*s as u128, 64);
                            let m = self.x.bin(Op::Mul, ie, k);
                            e = self.x.bin(Op::Add, e, m);
                        }
                        self.v(e)
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::Select { d, c, a, b, ty, cond_lanes } => {
                    if *cond_lanes > 0 {
                        let regs = &st.cur.regs;
                        let (cl, x, y) = (self.lanes(get(regs, c)), self.lanes(get(regs, a)), self.lanes(get(regs, b)));
                        let (w, _) = if let Ty::Vec(n, t) = ty { (t.bits(), *n) } else { (0, 0) };
                        let mut o = vec![];
                        for i in 0..cl.len() {
                            o.push(self.sel(&cl[i], &x[i], &y[i], w));
                        }
                        st.cur.regs[*d as usize] = Val::V(Rc::new(o));
                    } else {
                        let cv = get(&st.cur.regs, c).clone();
                        let v = match cv {
                            Val::C(k) => get(&st.cur.regs, if k & 1 == 1 { a } else { b }).clone(),
                            Val::S(_) => {
                                if ty.is_scalar() && !matches!(ty, Ty::Ptr) {
                                    let (x, y) = (get(&st.cur.regs, a).clone(), get(&st.cur.regs, b).clone());
                                    self.sel(&cv, &x, &y, ty.bits())
                                } else {
                                    let k = self.decide(st, &cv)?;
                                    get(&st.cur.regs, if k { a } else { b }).clone()
                                }
                            }
                            _ => return Err(Stop::Unsupported("select condition".into())),
                        };
                        st.cur.regs[*d as usize] = v;
                    }
                    st.cur.ip += 1;
                }
                I::ExtractValue { d, a, path } => {
                    let mut v = get(&st.cur.regs, a).clone();
                    for i in path.iter() {
                        let n = match &v {
                            Val::V(x) => x[*i as usize].clone(),
                            _ => return Err(Stop::Unsupported("extractvalue".into())),
                        };
                        v = n;
                    }
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::InsertValue { d, a, v, path, ty } => {
                    let agg = get(&st.cur.regs, a).clone();
                    let v = get(&st.cur.regs, v).clone();
                    let r = self.insert(agg, v, path, ty);
                    st.cur.regs[*d as usize] = r;
                    st.cur.ip += 1;
                }
                I::ExtractElem { d, a, i } => {
                    let i = get(&st.cur.regs, i).clone();
                    let i = self.cval(st, &i)? as usize;
                    let l = self.lanes(get(&st.cur.regs, a));
                    st.cur.regs[*d as usize] = l[i].clone();
                    st.cur.ip += 1;
                }
                I::InsertElem { d, a, v, i } => {
                    let i = get(&st.cur.regs, i).clone();
                    let i = self.cval(st, &i)? as usize;
                    let mut l = (*self.lanes(get(&st.cur.regs, a))).clone();
                    l[i] = get(&st.cur.regs, v).clone();
                    st.cur.regs[*d as usize] = Val::V(Rc::new(l));
                    st.cur.ip += 1;
                }
                I::Shuffle { d, a, b, mask, n } => {
                    let (x, y) = (self.lanes(get(&st.cur.regs, a)), self.lanes(get(&st.cur.regs, b)));
                    let o = mask
                        .iter()
                        .map(|m| {
                            let m = *m as usize;
                            if m < *n as usize {
                                x[m].clone()
                            } else {
                                y[m - *n as usize].clone()
                            }
                        })
                        .collect();
                    st.cur.regs[*d as usize] = Val::V(Rc::new(o));
                    st.cur.ip += 1;
                }
                I::FBin { op, d, a, b, w } => {
                    let (x, y) = (get(&st.cur.regs, a).clone(), get(&st.cur.regs, b).clone());
                    let (x, y) = (self.cval(st, &x)?, self.cval(st, &y)?);
                    let r = if *w == 64 {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            b'a' => p + q,
                            b's' => p - q,
                            b'm' => p * q,
                            b'd' => p / q,
                            _ => p % q,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            b'a' => p + q,
                            b's' => p - q,
                            b'm' => p * q,
                            b'd' => p / q,
                            _ => p % q,
                        }
                        .to_bits() as u64
                    };
                    st.cur.regs[*d as usize] = Val::C(r);
                    st.cur.ip += 1;
                }
                I::FNeg { d, a, w } => {
                    let x = get(&st.cur.regs, a).clone();
                    let k = Val::C(1u64 << (w - 1));
                    let v = self.bin(Op::Xor, *w, &x, &k)?;
                    st.cur.regs[*d as usize] = v;
                    st.cur.ip += 1;
                }
                I::FCmp { p, d, a, b, w } => {
                    let (x, y) = (get(&st.cur.regs, a).clone(), get(&st.cur.regs, b).clone());
                    let (x, y) = (self.cval(st, &x)?, self.cval(st, &y)?);
                    let g = |v: u64| if *w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                    let (p1, q) = (g(x), g(y));
                    let un = p1.is_nan() || q.is_nan();
                    let r = match *p {
                        "oeq" => p1 == q,
                        "one" => !un && p1 != q,
                        "ogt" => p1 > q,
                        "oge" => p1 >= q,
                        "olt" => p1 < q,
                        "ole" => p1 <= q,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || p1 == q,
                        "une" => p1 != q,
                        "ugt" => un || p1 > q,
                        "uge" => un || p1 >= q,
                        "ult" => un || p1 < q,
                        "ule" => un || p1 <= q,
                        "true" => true,
                        _ => false,
                    };
                    st.cur.regs[*d as usize] = Val::C(r as u64);
                    st.cur.ip += 1;
                }
                I::CmpXchg { d, p, old, new, ty } => {
                    let a = get(&st.cur.regs, p).clone();
                    let a = self.cval(st, &a)?;
                    let cur = self.load_ty(st, a, ty)?;
                    let old = get(&st.cur.regs, old).clone();
                    let w = ty.bits();
                    let eq = self.icmp(Pred::Eq, w, &cur, &old);
                    let ok = self.decide(st, &eq)?;
                    if ok {
                        let n = get(&st.cur.regs, new).clone();
                        self.store_ty(st, a, ty, &n)?;
                    }
                    st.cur.regs[*d as usize] = Val::V(Rc::new(vec![cur, Val::C(ok as u64)]));
                    st.cur.ip += 1;
                }
                I::Rmw { op, d, p, v, ty } => {
                    let a = get(&st.cur.regs, p).clone();
                    let a = self.cval(st, &a)?;
                    let cur = self.load_ty(st, a, ty)?;
                    let v = get(&st.cur.regs, v).clone();
                    let w = ty.bits();
                    let n = match *op {
                        "xchg" => v,
                        "add" => self.bin(Op::Add, w, &cur, &v)?,
                        "sub" => self.bin(Op::Sub, w, &cur, &v)?,
                        "and" => self.bin(Op::And, w, &cur, &v)?,
                        "or" => self.bin(Op::Or, w, &cur, &v)?,
                        "xor" => self.bin(Op::Xor, w, &cur, &v)?,
                        "umax" | "umin" | "max" | "min" => {
                            let pr = match *op {
                                "umax" => Pred::Ugt,
                                "umin" => Pred::Ult,
                                "max" => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(pr, w, &cur, &v);
                            self.sel(&c, &cur, &v, w)
                        }
                        _ => return Err(Stop::Unsupported(format!("atomicrmw {}", op))),
                    };
                    self.store_ty(st, a, ty, &n)?;
                    if *d != NONE {
                        st.cur.regs[*d as usize] = cur;
                    }
                    st.cur.ip += 1;
                }
                I::Nop => st.cur.ip += 1,
                I::Br { t } => {
                    self.goto(st, *t);
                    break;
                }
                I::CondBr { c, t, f } => {
                    let k = match get(&st.cur.regs, c) {
                        Val::C(k) => *k & 1 == 1,
                        v => {
                            let v = v.clone();
                            self.decide(st, &v)?
                        }
                    };
                    self.goto(st, if k { *t } else { *f });
                    break;
                }
                I::Switch { v, w, def, cases } => {
                    let x = get(&st.cur.regs, v).clone();
                    let t = match x {
                        Val::C(c) => cases.iter().find(|(k, _)| *k == c as u128).map(|x| x.1).unwrap_or(*def),
                        Val::S(e) => {
                            let cur = if let Some(k) = st.known.get(&e) { *k } else { self.eval(st, e) };
                            let t = cases.iter().find(|(k, _)| *k == cur).map(|x| x.1).unwrap_or(*def);
                            // condition for this target
                            let mut acc = self.x.k(0, 1);
                            for (k, ct) in cases.iter() {
                                if (t == *def) != (*ct == *def) || (t != *def && *ct == t) {
                                    if t == *def && *ct == t {
                                        continue;
                                    }
                                    if t != *def && *ct != t {
                                        continue;
                                    }
                                    let kk = self.x.k(*k, *w);
                                    let q = self.x.bin(Op::Eq, e, kk);
                                    acc = self.x.or1(acc, q);
                                }
                            }
                            if t == *def {
                                acc = self.x.not(acc);
                            }
                            let r = self.conc(st, acc)?;
                            debug_assert!(r == 1);
                            if r != 1 {
                                return Err(Stop::Unsupported("switch condition".into()));
                            }
                            t
                        }
                        _ => return Err(Stop::Unsupported("switch".into())),
                    };
                    self.goto(st, t);
                    break;
                }
                I::Ret { v } => {
                    let v = v.as_ref().map(|o| get(&st.cur.regs, o).clone());
                    self.ret(st, v)?;
                    break;
                }
                I::Unreachable => return Err(Stop::Viol("unreachable code executed".into())),
                I::LandingPad => return Err(Stop::Unsupported("unwinding".into())),
                I::Call { d, rty, callee, args, next } => {
                    match callee {
                        Callee::F(fi) => {
                            let av: Vec<Val> = args.iter().map(|(o, _)| get(&st.cur.regs, o).clone()).collect();
                            self.enter(st, *fi, av, *d, *next)?;
                        }
                        Callee::P(o) => {
                            let p = get(&st.cur.regs, o).clone();
                            let a = self.cval(st, &p)?;
                            let id = (a >> 32) as u32;
                            let fi = id.wrapping_sub(self.m.func_base);
                            if a != addr_of(id) || fi as usize >= self.m.funcs.len() {
                                return Err(Stop::Viol("call through an invalid pointer".into()));
                            }
                            let av: Vec<Val> = args.iter().map(|(o, _)| get(&st.cur.regs, o).clone()).collect();
                            let fd = &self.m.funcs[fi as usize];
                            if fd.text.is_some() && !intercepted(fd.name) {
                                self.enter(st, fi, av, *d, *next)?;
                            } else {
                                let tys: Vec<T> = args.iter().map(|a| a.1).collect();
                                let v = self.external(st, fd.name, av, &tys, rty)?;
                                self.finish(st, *d, v, *next);
                            }
                        }
                        Callee::X(n) => {
                            let av: Vec<Val> = args.iter().map(|(o, _)| get(&st.cur.regs, o).clone()).collect();
                            let tys: Vec<T> = args.iter().map(|a| a.1).collect();
                            let v = self.external(st, n, av, &tys, rty)?;
                            self.finish(st, *d, v, *next);
                        }
                        Callee::Asm(s) => {
                            let v = if s.contains("cpuid") {
                                Some(Val::V(Rc::new(vec![Val::C(0); 4])))
                            } else if s.is_empty() || s.starts_with("/*") || s.starts_with("#") {
                                None
                            } else {
                                return Err(Stop::Unsupported(format!("asm {}", s)));
                            };
                            self.finish(st, *d, v, *next);
                        }
                    }
                    break;
                }
            }
        }
        st.steps += local;
        self.tick += local;
        if self.profile {
            *self.fn_steps.entry(f.idx).or_insert(0) += local;
        }
        if self.tick > 2_000_000 {
            self.hs().steps.fetch_add(self.tick as i64, SeqCst);
            self.tick = 0;
            if self.start.elapsed().as_secs() > self.o.time_s {
                return Err(Stop::Limit("time"));
            }
            if self.hs().viols.load(SeqCst) > 0 && !self.o.all_viols {
                return Err(Stop::Limit("stopped: a violation was found"));
            }
        }
        if st.steps > self.o.max_steps {
            return Err(Stop::Viol(format!("hang: more than {} instructions on one path", self.o.max_steps)));
        }
        Ok(())
    }
    fn sel(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c {
            Val::C(k) => {
                if k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(c) => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.x.ite(*c, x, y);
                self.v(r)
            }
            _ => panic!("select"),
        }
    }
    fn insert(&mut self, agg: Val, v: Val, path: &[u32], ty: T) -> Val {
        if path.is_empty() {
            return v;
        }
        let mut l = match agg {
            Val::V(l) => (*l).clone(),
            _ => vec![Val::C(0); ty.count()],
        };
        let i = path[0] as usize;
        let old = l[i].clone();
        l[i] = self.insert(old, v, &path[1..], ty.elem(i).1);
        Val::V(Rc::new(l))
    }

    fn backtrace(&self, st: &State) -> String {
        let mut s = format!("  at {}\n", st.cur.f.nice);
        if std::env::var("LLSYM_INS").is_ok() {
            if let Some(b) = st.cur.f.blocks.get(st.cur.b as usize) {
                for k in 0..=st.cur.ip as usize {
                    s.push_str(&format!("     b{} {:?}\n", st.cur.b, b.ins[k]));
                }
                if let I::Load { p, .. } = &b.ins[st.cur.ip as usize] {
                    s.push_str(&format!("     addr {:x?}\n", get(&st.cur.regs, p)));
                }
            }
        }
        for f in st.stack.iter().rev().take(25) {
            if !f.f.blocks.is_empty() {
                s.push_str(&format!("  at {}\n", f.f.nice));
            }
        }
        s
    }

    fn new_input(&mut self, st: &mut State, w: u32, off: u64, hi: u128) -> Val {
        if let Some(c) = &self.o.concrete {
            let v = c.get(st.inputs.len()).copied().unwrap_or(0);
            let k = self.x.k((v.wrapping_sub(off)) as u128, w.max(1));
            st.inputs.push((k, off));
            return Val::C(v.wrapping_sub(off) & m64(w));
        }
        if w == 0 {
            let k = self.x.k(0, 1);
            st.inputs.push((k, off));
            return Val::C(0);
        }
        let pos = st.nvars;
        st.nvars += 1;
        self.hs().maxvars.fetch_max(st.nvars as i64, SeqCst);
        let (_, e) = self.x.var_for(pos, w, hi);
        st.inputs.push((e, off));
        Val::S(e)
    }

    fn external(&mut self, st: &mut State, n: &str, a: Vec<Val>, tys: &[T], rty: T) -> R<Option<Val>> {
        let c0 = Val::C(0);
        if let Some(i) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, i, a, tys, rty);
        }
        if is_panic(n) {
            let mut msg = String::new();
            if a.len() >= 2 {
                if let (Val::C(p), Val::C(l)) = (&a[0], &a[1]) {
                    if n.contains("9panicking5panic") && *l < 300 {
                        msg = self.read_str(st, *p, *l as usize).unwrap_or_default();
                    }
                }
            }
            return Err(Stop::Viol(format!("panic: {} {}", n, msg)));
        }
        let arg = |i: usize| a[i].clone();
        match n {
            "malloc" => {
                let s = self.cval(st, &a[0])?;
                if s > 1 << 30 {
                    return Err(Stop::Viol("allocation of more than 1 GiB".into()));
                }
                let id = st.mem.alloc(s as usize);
                Ok(Some(Val::C(addr_of(id))))
            }
            "calloc" => {
                let s = self.cval(st, &a[0])?;
                let k = self.cval(st, &a[1])?;
                let t = s.saturating_mul(k);
                if t > 1 << 30 {
                    return Err(Stop::Viol("allocation of more than 1 GiB".into()));
                }
                let id = st.mem.alloc(t as usize);
                Ok(Some(Val::C(addr_of(id))))
            }
            "posix_memalign" => {
                let p = self.cval(st, &a[0])?;
                let s = self.cval(st, &a[2])?;
                if s > 1 << 30 {
                    return Err(Stop::Viol("allocation of more than 1 GiB".into()));
                }
                let id = st.mem.alloc(s as usize);
                self.store_int(st, p, 64, &Val::C(addr_of(id)))?;
                Ok(Some(c0))
            }
            "realloc" => {
                let p = self.cval(st, &a[0])?;
                let s = self.cval(st, &a[1])?;
                if s > 1 << 30 {
                    return Err(Stop::Viol("allocation of more than 1 GiB".into()));
                }
                let old = match st.mem.obj((p >> 32) as u32) {
                    Some(o) => o.data.len(),
                    None => return Err(Stop::Viol("memory: realloc of an invalid pointer".into())),
                };
                let id = st.mem.alloc(s as usize);
                self.copy_mem(st, addr_of(id), p, old.min(s as usize))?;
                st.mem.release((p >> 32) as u32);
                Ok(Some(Val::C(addr_of(id))))
            }
            "free" => {
                let p = self.cval(st, &a[0])?;
                if p != 0 && !st.mem.release((p >> 32) as u32) {
                    return Err(Stop::Viol("memory: invalid free".into()));
                }
                Ok(None)
            }
            "memcpy" | "memmove" => {
                let (d, s, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?, self.cval(st, &a[2])?);
                self.copy_mem(st, d, s, l as usize)?;
                Ok(Some(Val::C(d)))
            }
            "memset" => {
                let (d, l) = (self.cval(st, &a[0])?, self.cval(st, &a[2])?);
                self.set_mem(st, d, &a[1], l as usize)?;
                Ok(Some(Val::C(d)))
            }
            "bcmp" | "memcmp" => {
                let (p, q, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?, self.cval(st, &a[2])?);
                let l = l as usize;
                if l == 0 {
                    return Ok(Some(c0));
                }
                st.mem.get(p, l)?;
                st.mem.get(q, l)?;
                if n == "bcmp" {
                    let mut acc = self.x.tru();
                    for i in 0..l as u64 {
                        let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                        let e = self.icmp(Pred::Eq, 8, &x, &y);
                        let e = self.e(&e, 1);
                        acc = self.x.and1(acc, e);
                        if self.x.is_k(acc) == Some(0) {
                            break;
                        }
                    }
                    let (z, o) = (self.x.k(0, 32), self.x.k(1, 32));
                    let r = self.x.ite(acc, z, o);
                    Ok(Some(self.v(r)))
                } else {
                    let mut parts = vec![];
                    for i in 0..l as u64 {
                        let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                        let eq = self.icmp(Pred::Eq, 8, &x, &y);
                        if let Val::C(1) = eq {
                            continue;
                        }
                        let done = matches!(eq, Val::C(0));
                        parts.push((eq, x, y));
                        if done {
                            break;
                        }
                    }
                    let mut r = self.x.k(0, 32);
                    for (eq, x, y) in parts.iter().rev() {
                        let lt = self.icmp(Pred::Ult, 8, x, y);
                        let lt = self.e(&lt, 1);
                        let (m1, p1) = (self.x.k(mask(32), 32), self.x.k(1, 32));
                        let dv = self.x.ite(lt, m1, p1);
                        let eq = self.e(eq, 1);
                        r = self.x.ite(eq, r, dv);
                    }
                    Ok(Some(self.v(r)))
                }
            }
            "strlen" => {
                let p = self.cval(st, &a[0])?;
                let mut i = 0;
                loop {
                    let b = self.byte(st, p + i)?;
                    let b = self.cval(st, &b)?;
                    if b == 0 {
                        break;
                    }
                    i += 1;
                }
                Ok(Some(Val::C(i)))
            }
            // ---- harness primitives
            "__sym_int" => {
                let w = self.cval(st, &a[0])? as u32;
                let v = self.new_input(st, w, 0, mask(w));
                let r = match v {
                    Val::S(e) if w < 64 => {
                        let z = self.x.zext(e, 64);
                        self.v(z)
                    }
                    v => v,
                };
                Ok(Some(r))
            }
            "__sym_range" | "__sym_choose" => {
                let (lo, hi) = if n == "__sym_range" {
                    (self.cval(st, &a[0])?, self.cval(st, &a[1])?)
                } else {
                    (0, self.cval(st, &a[0])? - 1)
                };
                let span = hi - lo;
                let w = 64 - span.leading_zeros();
                // the choice is made on a state that already has the variable: executing
                // again would create it twice, so the fork is done by hand.
                let v = self.new_input(st, w, lo, span as u128);
                match v {
                    Val::C(c) => Ok(Some(Val::C(c.wrapping_add(lo)))),
                    Val::S(e) => {
                        let z = if w < 64 { self.x.zext(e, 64) } else { e };
                        let k = self.x.k(lo as u128, 64);
                        let r = self.x.bin(Op::Add, z, k);
                        Ok(Some(self.v(r)))
                    }
                    _ => unreachable!(),
                }
            }
            "__sym_conc" => {
                let v = self.cval(st, &a[0])?;
                Ok(Some(Val::C(v)))
            }
            "__sym_bytes" => {
                let (p, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?);
                for i in 0..l {
                    let v = self.new_input(st, 8, 0, 255);
                    self.store_int(st, p + i, 8, &v)?;
                }
                Ok(None)
            }
            "__sym_assume" => {
                match arg(0) {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Assumed);
                        }
                    }
                    Val::S(e) => {
                        if let Some(k) = st.known.get(&e) {
                            if *k == 0 {
                                return Err(Stop::Assumed);
                            }
                        } else {
                            if self.eval(st, e) == 0 {
                                match self.query(st, e)? {
                                    None => return Err(Stop::Assumed),
                                    Some(vals) => st.model = self.merged(st, &vals),
                                }
                            }
                            self.add(st, e);
                        }
                    }
                    _ => {}
                }
                Ok(None)
            }
            "__sym_assert" => {
                let msg = {
                    let (p, l) = (self.cval(st, &a[1])?, self.cval(st, &a[2])?);
                    self.read_str(st, p, l as usize)?
                };
                self.hs().asserts.fetch_add(1, SeqCst);
                match arg(0) {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Viol(format!("assert: {}", msg)));
                        }
                    }
                    Val::S(e) => {
                        let ne = self.x.not(e);
                        if self.eval(st, e) == 0 {
                            // the current model violates it
                            return Err(Stop::Viol(format!("assert: {}", msg)));
                        }
                        if let Some(vals) = self.query(st, ne)? {
                            st.model = self.merged(st, &vals);
                            return Err(Stop::Viol(format!("assert: {}", msg)));
                        }
                        self.add(st, e);
                    }
                    _ => {}
                }
                Ok(None)
            }
            "__sym_cover" => {
                let (p, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?);
                let s = self.read_str(st, p, l as usize)?;
                if !st.covers.contains(&s) {
                    st.covers.push(s);
                }
                Ok(None)
            }
            "__sym_known" => {
                let (p, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?);
                let s = self.read_str(st, p, l as usize)?;
                st.tag = Some(Rc::from(s.as_str()));
                Ok(None)
            }
            "__sym_trace" => {
                let (p, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?);
                for i in 0..l {
                    let b = self.byte(st, p + i)?;
                    st.trace.push(match b {
                        Val::S(e) => TB::S(e),
                        Val::C(c) => TB::B(c as u8),
                        _ => TB::B(0),
                    });
                }
                Ok(None)
            }
            // ---- environment
            "getenv" | "pthread_self" | "getauxval" => Ok(Some(c0)),
            "gettid" => Ok(Some(Val::C(1))),
            "sched_yield" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl"
            | "pthread_mutex_lock" | "pthread_mutex_unlock" | "madvise" => Ok(Some(c0)),
            "getrandom" => {
                let (p, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?);
                for i in 0..l {
                    self.store_int(st, p + i, 8, &Val::C((0x5au64 + i * 31) & 255))?;
                }
                Ok(Some(Val::C(l)))
            }
            "sysconf" => Ok(Some(Val::C(4096))),
            "clock_gettime" => {
                let p = self.cval(st, &a[1])?;
                self.store_int(st, p, 64, &Val::C(1_700_000_000))?;
                self.store_int(st, p + 8, 64, &Val::C(123_456_789))?;
                Ok(Some(c0))
            }
            "write" => {
                let l = self.cval(st, &a[2])?;
                Ok(Some(Val::C(l)))
            }
            "writev" => {
                let (p, c) = (self.cval(st, &a[1])?, self.cval(st, &a[2])?);
                let mut t = 0;
                for i in 0..c {
                    if let Val::C(l) = self.load_int(st, p + i * 16 + 8, 64)? {
                        t += l;
                    }
                }
                Ok(Some(Val::C(t)))
            }
            "__errno_location" => Ok(Some(Val::C(addr_of(self.errno_obj)))),
            "open64" | "open" | "stat64" | "statx" | "fstat64" | "readlink" => {
                // nothing exists: ENOENT
                let p = addr_of(self.errno_obj);
                self.store_int(st, p, 32, &Val::C(2))?;
                Ok(Some(Val::C(m64(rty.bits()))))
            }
            "realpath" | "getcwd" => {
                let p = addr_of(self.errno_obj);
                self.store_int(st, p, 32, &Val::C(2))?;
                Ok(Some(c0))
            }
            _ => Err(Stop::Unsupported(format!("external function {}", n))),
        }
    }
    fn set_mem(&mut self, st: &mut State, d: u64, v: &Val, l: usize) -> R<()> {
        if l == 0 {
            return Ok(());
        }
        match v {
            Val::C(c) => {
                let (o, off) = st.mem.get_mut(d, l)?;
                o.data[off..off + l].fill(*c as u8);
                if let Some(s) = &mut o.sym {
                    s[off..off + l].fill(0);
                }
            }
            Val::S(e) => {
                let b = self.x.extract(*e, 0, 8);
                let b = self.v(b);
                for i in 0..l as u64 {
                    self.store_int(st, d + i, 8, &b)?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: Vec<Val>, tys: &[T], rty: T) -> R<Option<Val>> {
        let base = n;
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let (d, s, l) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?, self.cval(st, &a[2])?);
            self.copy_mem(st, d, s, l as usize)?;
            return Ok(None);
        }
        if base.starts_with("memset") {
            let (d, l) = (self.cval(st, &a[0])?, self.cval(st, &a[2])?);
            self.set_mem(st, d, &a[1], l as usize)?;
            return Ok(None);
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") {
            return Err(Stop::Viol("trap".into()));
        }
        if base.starts_with("x86.sse2.pause") || base.starts_with("va_") || base.starts_with("stackrestore") {
            return Ok(None);
        }
        if base.starts_with("x86.xgetbv") {
            return Ok(Some(Val::C(0)));
        }
        if base.starts_with("threadlocal.address") || base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip.inv") {
            return Ok(Some(a[0].clone()));
        }
        if base.starts_with("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if base.starts_with("objectsize") {
            return Ok(Some(Val::C(u64::MAX)));
        }
        if base.starts_with("load.relative") {
            let p = self.cval(st, &a[0])?;
            let o = match &a[1] {
                Val::C(o) => self.load_int(st, p.wrapping_add(*o), 32)?,
                Val::S(e) => {
                    let k = self.x.k(p as u128, 64);
                    let ad = self.x.bin(Op::Add, *e, k);
                    self.load_sym(st, ad, &Ty::Int(32))?
                }
                _ => return Err(Stop::Unsupported("load.relative".into())),
            };
            let o = self.cval(st, &o)?;
            return Ok(Some(Val::C(p.wrapping_add(sx(o, 32) as u64))));
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let l = self.lanes(&a[0]);
            let Ty::Vec(_, et) = tys[0] else { return Err(Stop::Unsupported(base.into())) };
            let w = et.bits();
            let mut acc = l[0].clone();
            for v in &l[1..] {
                acc = match r.split('.').next().unwrap() {
                    "or" => self.bin(Op::Or, w, &acc, v)?,
                    "and" => self.bin(Op::And, w, &acc, v)?,
                    "xor" => self.bin(Op::Xor, w, &acc, v)?,
                    "add" => self.bin(Op::Add, w, &acc, v)?,
                    "mul" => self.bin(Op::Mul, w, &acc, v)?,
                    k @ ("umax" | "umin" | "smax" | "smin") => {
                        let p = match k {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "smax" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(p, w, &acc, v);
                        self.sel(&c, &acc, v, w)
                    }
                    _ => return Err(Stop::Unsupported(base.into())),
                };
            }
            return Ok(Some(acc));
        }
        // float functions
        if matches!(tys.first(), Some(Ty::F64 | Ty::F32)) {
            return self.fintrin(st, base, a, tys, rty);
        }
        // element-wise integer functions
        let name = {
            // strip the type suffix
            let mut parts: Vec<&str> = base.split('.').collect();
            while let Some(l) = parts.last() {
                let b = l.as_bytes();
                let is_ty = (b[0] == b'i' || b[0] == b'v') && b.len() > 1 && b[1].is_ascii_digit();
                if is_ty {
                    parts.pop();
                } else {
                    break;
                }
            }
            parts.join(".")
        };
        if let Ty::Vec(cnt, et) = tys[0] {
            let ls: Vec<Rc<Vec<Val>>> = a.iter().map(|v| self.lanes(v)).collect();
            let mut o = vec![];
            for i in 0..*cnt as usize {
                let av: Vec<Val> = ls.iter().map(|l| l.get(i).cloned().unwrap_or_else(|| l[0].clone())).collect();
                let rt = if let Ty::Vec(_, r) = rty { *r } else { rty };
                o.push(self.iintrin(st, &name, av, et.bits(), rt)?);
            }
            return Ok(Some(Val::V(Rc::new(o))));
        }
        let w = tys[0].bits();
        Ok(Some(self.iintrin(st, &name, a, w, rty)?))
    }
    fn fintrin(&mut self, st: &mut State, n: &str, a: Vec<Val>, tys: &[T], rty: T) -> R<Option<Val>> {
        let mut v = vec![];
        for x in &a {
            if let Val::V(_) = x {
                return Err(Stop::Unsupported(n.into()));
            }
            v.push(self.cval(st, x)?);
        }
        let is32 = matches!(tys[0], Ty::F32);
        let f = |c: u64| if is32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
        let t = |d: f64| if is32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
        let name = n.split('.').next().unwrap();
        let x = f(v[0]);
        let r = match name {
            "fabs" => v[0] & if is32 { 0x7fff_ffff } else { u64::MAX >> 1 },
            "floor" => t(x.floor()),
            "ceil" => t(x.ceil()),
            "trunc" => t(x.trunc()),
            "round" => t(x.round()),
            "roundeven" | "rint" | "nearbyint" => t(x.round_ties_even()),
            "sqrt" => t(x.sqrt()),
            "copysign" => t(x.copysign(f(v[1]))),
            "minnum" | "minimumnum" => t(x.min(f(v[1]))),
            "maxnum" | "maximumnum" => t(x.max(f(v[1]))),
            "fma" | "fmuladd" => t(x.mul_add(f(v[1]), f(v[2]))),
            "is" => {
                // is.fpclass
                let m = v[1];
                let mut r = false;
                let neg = x.is_sign_negative();
                if x.is_nan() {
                    r |= m & 3 != 0;
                } else if x.is_infinite() {
                    r |= m & if neg { 4 } else { 0x200 } != 0;
                } else if x == 0.0 {
                    r |= m & if neg { 0x20 } else { 0x40 } != 0;
                } else if x.is_subnormal() {
                    r |= m & if neg { 0x10 } else { 0x80 } != 0;
                } else {
                    r |= m & if neg { 8 } else { 0x100 } != 0;
                }
                r as u64
            }
            "fptoui" => {
                let w = rty.bits();
                if w > 64 {
                    return Err(Stop::Unsupported(n.into()));
                }
                if x.is_nan() || x <= 0.0 {
                    0
                } else if x >= 2f64.powi(w as i32) {
                    m64(w)
                } else {
                    x as u64
                }
            }
            "fptosi" => {
                let w = rty.bits();
                if w > 64 {
                    return Err(Stop::Unsupported(n.into()));
                }
                let lim = 2f64.powi(w as i32 - 1);
                let r = if x.is_nan() {
                    0i64
                } else if x >= lim {
                    (m64(w) >> 1) as i64
                } else if x < -lim {
                    -((m64(w) >> 1) as i64) - 1
                } else {
                    x as i64
                };
                r as u64 & m64(w)
            }
            _ => return Err(Stop::Unsupported(format!("float intrinsic {}", n))),
        };
        Ok(Some(Val::C(r)))
    }
    fn iintrin(&mut self, st: &mut State, n: &str, a: Vec<Val>, w: u32, rty: T) -> R<Val> {
        let _ = st;
        let pair = |s: &mut Self, r: E, o: E| {
            let (r, o) = (s.v(r), s.v(o));
            Val::V(Rc::new(vec![r, o]))
        };
        let x = self.e(&a[0], w);
        let r = match n {
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow"
            | "smul.with.overflow" => {
                let y = self.e(&a[1], w);
                let (kx, ky) = (self.x.is_k(x), self.x.is_k(y));
                let (res, ov) = match n {
                    "uadd.with.overflow" => {
                        let r = self.x.bin(Op::Add, x, y);
                        // x > MAX - y
                        let m = self.x.k(mask(w), w);
                        let o = if ky.is_some() {
                            let l = self.x.bin(Op::Sub, m, y);
                            self.x.bin(Op::Ult, l, x)
                        } else {
                            let l = self.x.bin(Op::Sub, m, x);
                            self.x.bin(Op::Ult, l, y)
                        };
                        (r, o)
                    }
                    "usub.with.overflow" => (self.x.bin(Op::Sub, x, y), self.x.bin(Op::Ult, x, y)),
                    "umul.with.overflow" => {
                        let r = self.x.bin(Op::Mul, x, y);
                        let (k, v) = if let Some(k) = ky { (Some(k), x) } else { (kx, y) };
                        let o = match k {
                            Some(0) => self.x.k(0, 1),
                            Some(k) => {
                                let lim = self.x.k(mask(w) / k, w);
                                self.x.bin(Op::Ult, lim, v)
                            }
                            None => {
                                if w > 64 {
                                    return Err(Stop::Unsupported("wide symbolic multiply".into()));
                                }
                                let (p, q) = (self.x.zext(x, 2 * w), self.x.zext(y, 2 * w));
                                let f = self.x.bin(Op::Mul, p, q);
                                let h = self.x.extract(f, w, w);
                                let z = self.x.k(0, w);
                                self.x.ne(h, z)
                            }
                        };
                        (r, o)
                    }
                    "sadd.with.overflow" | "ssub.with.overflow" => {
                        let op = if n.starts_with("sadd") { Op::Add } else { Op::Sub };
                        let r = self.x.bin(op, x, y);
                        if w + 1 > 128 {
                            return Err(Stop::Unsupported("wide signed add".into()));
                        }
                        let (p, q) = (self.x.sext(x, w + 1), self.x.sext(y, w + 1));
                        let f = self.x.bin(op, p, q);
                        let b = self.x.sext(r, w + 1);
                        let o = if let (Some(k), Op::Add) = (ky, op) {
                            self.sadd_k(x, k, w)
                        } else if let (Some(k), Op::Add) = (kx, op) {
                            self.sadd_k(y, k, w)
                        } else {
                            self.x.ne(f, b)
                        };
                        (r, o)
                    }
                    _ => {
                        let r = self.x.bin(Op::Mul, x, y);
                        let (k, v) = if let Some(k) = ky { (Some(k), x) } else { (kx, y) };
                        let o = match k {
                            Some(k) if sext128(k, w) > 0 => {
                                let k = sext128(k, w);
                                let max = (mask(w) >> 1) as i128;
                                let min = -max - 1;
                                let hi = self.x.k((max / k) as u128, w);
                                let lo = self.x.k((min / k) as u128, w);
                                let c1 = self.x.bin(Op::Slt, hi, v);
                                let c2 = self.x.bin(Op::Slt, v, lo);
                                self.x.or1(c1, c2)
                            }
                            Some(0) => self.x.k(0, 1),
                            _ => {
                                if w > 64 {
                                    return Err(Stop::Unsupported("wide symbolic multiply".into()));
                                }
                                let (p, q) = (self.x.sext(x, 2 * w), self.x.sext(y, 2 * w));
                                let f = self.x.bin(Op::Mul, p, q);
                                let b = self.x.sext(r, 2 * w);
                                self.x.ne(f, b)
                            }
                        };
                        (r, o)
                    }
                };
                return Ok(pair(self, res, ov));
            }
            "umax" | "umin" | "smax" | "smin" => {
                let y = self.e(&a[1], w);
                let c = match n {
                    "umax" => self.x.bin(Op::Ult, y, x),
                    "umin" => self.x.bin(Op::Ult, x, y),
                    "smax" => self.x.bin(Op::Slt, y, x),
                    _ => self.x.bin(Op::Slt, x, y),
                };
                self.x.ite(c, x, y)
            }
            "uadd.sat" => {
                let y = self.e(&a[1], w);
                let s = self.x.bin(Op::Add, x, y);
                let c = self.x.bin(Op::Ult, s, x);
                let m = self.x.k(mask(w), w);
                self.x.ite(c, m, s)
            }
            "usub.sat" => {
                let y = self.e(&a[1], w);
                let s = self.x.bin(Op::Sub, x, y);
                let c = self.x.bin(Op::Ult, x, y);
                let z = self.x.k(0, w);
                self.x.ite(c, z, s)
            }
            "ucmp" | "scmp" => {
                let y = self.e(&a[1], w);
                let op = if n == "ucmp" { Op::Ult } else { Op::Slt };
                let rw = rty.bits();
                let lt = self.x.bin(op, x, y);
                let gt = self.x.bin(op, y, x);
                let (m1, p1, z) = (self.x.k(mask(rw), rw), self.x.k(1, rw), self.x.k(0, rw));
                let t = self.x.ite(gt, p1, z);
                self.x.ite(lt, m1, t)
            }
            "abs" => {
                let z = self.x.k(0, w);
                let neg = self.x.bin(Op::Sub, z, x);
                let c = self.x.bin(Op::Slt, x, z);
                self.x.ite(c, neg, x)
            }
            "bswap" => {
                let mut acc = self.x.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.x.extract(x, i * 8, 8);
                    acc = self.x.cat(acc, b);
                }
                acc
            }
            "bitreverse" => {
                let mut acc = self.x.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.x.extract(x, i, 1);
                    acc = self.x.cat(acc, b);
                }
                acc
            }
            "ctpop" => {
                let mut acc = self.x.k(0, w);
                for i in 0..w {
                    let b = self.x.extract(x, i, 1);
                    let z = if w > 1 { self.x.zext(b, w) } else { b };
                    acc = self.x.bin(Op::Add, acc, z);
                }
                acc
            }
            "cttz" => {
                let mut acc = self.x.k(w as u128, w);
                for i in (0..w).rev() {
                    let b = self.x.extract(x, i, 1);
                    let k = self.x.k(i as u128, w);
                    acc = self.x.ite(b, k, acc);
                }
                // mostly the position of a match in a vector of bytes: what follows is
                // much simpler with one path per position
                if w == 16 || w == 32 {
                    let v = self.conc(st, acc)?;
                    acc = self.x.k(v, w);
                }
                acc
            }
            "ctlz" => {
                let mut acc = self.x.k(w as u128, w);
                for i in 0..w {
                    let b = self.x.extract(x, i, 1);
                    let k = self.x.k((w - 1 - i) as u128, w);
                    acc = self.x.ite(b, k, acc);
                }
                acc
            }
            "fshl" | "fshr" => {
                let y = self.e(&a[1], w);
                let s = match &a[2] {
                    Val::C(c) => (*c % w as u64) as u32,
                    Val::S(e) => (self.conc(st, *e)? % w as u128) as u32,
                    _ => return Err(Stop::Unsupported(n.into())),
                };
                if s == 0 {
                    if n == "fshl" {
                        x
                    } else {
                        y
                    }
                } else {
                    let sl = if n == "fshl" { s } else { w - s };
                    let h = self.x.extract(x, 0, w - sl);
                    let l = self.x.extract(y, w - sl, sl);
                    self.x.cat(h, l)
                }
            }
            _ => return Err(Stop::Unsupported(format!("intrinsic {}", n))),
        };
        Ok(self.v(r))
    }
    fn sadd_k(&mut self, x: E, k: u128, w: u32) -> E {
        let k = sext128(k, w);
        let max = (mask(w) >> 1) as i128;
        let min = -max - 1;
        if k >= 0 {
            let l = self.x.k((max - k) as u128, w);
            self.x.bin(Op::Slt, l, x)
        } else {
            let l = self.x.k((min - k) as u128, w);
            self.x.bin(Op::Slt, x, l)
        }
    }

    // ---- driving
    fn initial(&mut self, harness: u32) -> State {
        let mut mem = Mem::new(self.m.first_heap);
        for (i, (_, d, c)) in self.m.globals.iter().enumerate() {
            mem.put(self.m.glob_base + i as u32, Obj { data: d.clone(), sym: None, ro: *c });
        }
        self.errno_obj = mem.alloc(64);
        let root: &'static Func = Box::leak(Box::new(Func {
            idx: 0,
            name: "<root>",
            nice: "<root>",
            params: vec![],
            nregs: 1,
            frame: 0,
            blocks: vec![],
        }));
        let mut st = State {
            cur: Frame { f: root, b: 0, ip: 0, regs: vec![Val::C(0)], obj: 0, dyn_objs: vec![], ret_d: NONE, ret_next: NONE },
            stack: vec![],
            mem,
            pc: vec![],
            known: Rc::new(FxMap::default()),
            fixed: 0,
            model: Rc::new(vec![]),
            nvars: 0,
            inputs: vec![],
            trace: vec![],
            covers: vec![],
            tag: None,
            steps: 0,
            depth: 0,
        };
        let _ = self.enter(&mut st, harness, vec![], NONE, NONE);
        st
    }
    fn inputs_text(&mut self, st: &State) -> String {
        let mut s = String::new();
        for (e, off) in &st.inputs {
            let v = (self.eval(st, *e) as u64).wrapping_add(*off);
            s.push_str(&format!("{}\n", v));
        }
        s
    }
    fn trace_hash(&mut self, st: &State) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        for t in &st.trace {
            let b = match t {
                TB::B(b) => *b,
                TB::S(e) => self.eval(st, *e) as u8,
            };
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    }
    fn append(&self, file: &str, text: &str) {
        let p = format!("{}/{}", self.o.out, file);
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
            let _ = f.write_all(text.as_bytes());
        }
    }
    fn path_end(&mut self, mut st: State, s: Stop) {
        let hs = self.hs();
        match s {
            Stop::End => {
                let n = hs.paths.fetch_add(1, SeqCst);
                for c in std::mem::take(&mut st.covers) {
                    self.covers.insert(c);
                }
                if (n < self.o.samples / 2 || (n % self.o.stride == 0)) && hs.samples.load(SeqCst) < self.o.samples {
                    let k = hs.samples.fetch_add(1, SeqCst);
                    let inp = self.inputs_text(&st);
                    let h = self.trace_hash(&st);
                    let _ = std::fs::write(format!("{}/{}.s{}.in", self.o.out, self.hname, k), inp);
                    let _ = std::fs::write(format!("{}/{}.s{}.exp", self.o.out, self.hname, k), format!("{:016x}\n", h));
                }
                if self.o.concrete.is_some() {
                    println!("trace {:016x} steps {}", self.trace_hash(&st), st.steps);
                }
            }
            Stop::Assumed => {
                hs.assumed.fetch_add(1, SeqCst);
            }
            Stop::Viol(m) if st.tag.is_some() => {
                let k = hs.known.fetch_add(1, SeqCst);
                let t = st.tag.clone().unwrap();
                if self.err_seen.insert(format!("known {}", t)) {
                    let inp = self.inputs_text(&st);
                    let bt = self.backtrace(&st);
                    let _ = std::fs::write(format!("{}/{}.k{}.in", self.o.out, self.hname, k), inp);
                    let _ = std::fs::write(format!("{}/{}.k{}.txt", self.o.out, self.hname, k), format!("{}\n{}\n{}", t, m, bt));
                }
            }
            Stop::Viol(m) => {
                let k = hs.viols.fetch_add(1, SeqCst);
                if k < 40 {
                    let inp = self.inputs_text(&st);
                    let bt = self.backtrace(&st);
                    let _ = std::fs::write(format!("{}/{}.v{}.in", self.o.out, self.hname, k), inp);
                    let _ = std::fs::write(format!("{}/{}.v{}.txt", self.o.out, self.hname, k), format!("{}\n{}", m, bt));
                    if self.o.verbose {
                        eprintln!("[{}] VIOLATION {}\n{}", self.hname, m, bt);
                    }
                }
            }
            Stop::Unsupported(m) => {
                hs.errors.fetch_add(1, SeqCst);
                if self.err_seen.insert(m.clone()) {
                    let bt = self.backtrace(&st);
                    self.append(&format!("{}.err", self.hname), &format!("{}\n{}", m, bt));
                    if self.o.verbose {
                        eprintln!("[{}] UNSUPPORTED {}\n{}", self.hname, m, bt);
                    }
                }
            }
            Stop::Limit(m) => {
                if m.starts_with("stopped") {
                    return;
                }
                // an input of the unfinished path: the driver tries it natively
                let k = hs.limit.fetch_add(1, SeqCst);
                if k < 4 {
                    let inp = self.inputs_text(&st);
                    let _ = std::fs::write(format!("{}/{}.t{}.in", self.o.out, self.hname, k), inp);
                }
                if self.err_seen.insert(m.to_string()) {
                    let bt = self.backtrace(&st);
                    self.append(&format!("{}.err", self.hname), &format!("limit: {}\n{}", m, bt));
                }
            }
        }
    }
    /// gives half of the pending states to a new process, if there is room for one
    fn split(&mut self) {
        if self.pending.len() < 2 {
            return;
        }
        let a = &self.sh.active;
        let cur = a.load(SeqCst);
        if cur >= self.o.workers {
            return;
        }
        if a.compare_exchange(cur, cur + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        let pid = unsafe { fork() };
        if pid < 0 {
            a.fetch_sub(1, SeqCst);
            return;
        }
        let mut keep = vec![];
        let child = pid == 0;
        for (i, s) in std::mem::take(&mut self.pending).into_iter().enumerate() {
            if (i % 2 == 0) == child {
                keep.push(s);
            }
        }
        self.pending = keep;
        if child {
            self.children.clear();
            self.covers.clear();
            self.forksite.clear();
            self.fn_steps.clear();
            self.tick = 0;
            self.is_child();
        } else {
            self.children.push(pid);
        }
    }
    /// the forked process: it must not return into the state its parent is executing
    fn is_child(&mut self) -> ! {
        self.drive();
        self.leave()
    }
    fn drive(&mut self) {
        while let Some(mut st) = self.pending.pop() {
            if self.hs().viols.load(SeqCst) > 0 && !self.o.all_viols {
                break;
            }
            if self.start.elapsed().as_secs() > self.o.time_s {
                self.path_end(st, Stop::Limit("time"));
                self.pending.clear();
                break;
            }
            let s = self.run(&mut st);
            self.path_end(st, s);
            self.split();
        }
    }
    fn leave(&mut self) -> ! {
        let hs = self.hs();
        hs.steps.fetch_add(self.tick as i64, SeqCst);
        hs.exprs.fetch_max(self.x.n.len() as i64, SeqCst);
        let cov: String = self.covers.iter().map(|c| format!("cover {}\n", c)).collect();
        let fns: String = self.used.iter().map(|f| format!("fn {}\n", self.m.funcs[*f as usize].nice)).collect();
        self.append(&format!("{}.log", self.hname), &(cov + &fns));
        if self.o.verbose {
            let mut v: Vec<_> = self.forksite.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            let mut s = String::new();
            for (f, n) in v.iter().take(12) {
                s.push_str(&format!("  forks {:6} {}\n", n, f));
            }
            if self.profile {
                let mut v: Vec<_> = self.fn_steps.iter().collect();
                v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                for (f, n) in v.iter().take(20) {
                    s.push_str(&format!("  steps {:10} {}\n", n, self.m.funcs[**f as usize].nice));
                }
            }
            if !s.is_empty() {
                eprintln!("[{}]\n{}", self.hname, s);
            }
        }
        hs.end_ms.fetch_max(self.start.elapsed().as_millis() as i64, SeqCst);
        self.sh.active.fetch_sub(1, SeqCst);
        let mut bad = false;
        for c in std::mem::take(&mut self.children) {
            let mut stt = 0;
            unsafe { waitpid(c, &mut stt, 0) };
            if stt != 0 {
                bad = true;
            }
        }
        if bad {
            self.append(&format!("{}.err", self.hname), "limit: a worker process ended abnormally\n");
            hs.errors.fetch_add(1, SeqCst);
        }
        hs.end_ms.fetch_max(self.start.elapsed().as_millis() as i64, SeqCst);
        unsafe { _exit(0) }
    }
}

pub fn main(args: &[String]) -> i32 {
    let mut o = Opts {
        out: ".".into(),
        workers: 8,
        time_s: 600,
        max_steps: 400_000_000,
        verbose: false,
        concrete: None,
        all_viols: false,
        samples: 24,
        stride: 97,
    };
    let mut hs: Vec<String> = vec![];
    let mut file = String::new();
    let mut qto = 60_000u32;
    let mut trace_fn = false;
    let mut profile = false;
    let mut i = 0;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--out" => o.out = nx(),
            "--workers" => o.workers = nx().parse().unwrap(),
            "--time" => o.time_s = nx().parse().unwrap(),
            "--steps" => o.max_steps = nx().parse().unwrap(),
            "--query-ms" => qto = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--harness" => hs.push(nx()),
            "--concrete" => {
                o.concrete = Some(
                    std::fs::read_to_string(nx())
                        .expect("replay file")
                        .split_whitespace()
                        .map(|s| s.parse().unwrap())
                        .collect(),
                )
            }
            "-v" => {
                o.verbose = true;
                i += 1;
                continue;
            }
            "--all" => {
                o.all_viols = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace_fn = true;
                i += 1;
                continue;
            }
            "--profile" => {
                profile = true;
                i += 1;
                continue;
            }
            f => {
                file = f.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let start = Instant::now();
    let m: &'static Module = Box::leak(Box::new(load(&file)));
    if o.verbose {
        eprintln!("loaded {} functions, {} globals in {} ms", m.funcs.len(), m.globals.len(), start.elapsed().as_millis());
    }
    std::fs::create_dir_all(&o.out).unwrap();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    let o = Rc::new(o);
    let mut pids = vec![];
    for (hi, h) in hs.iter().enumerate() {
        let Some(&fi) = m.fn_ix.get(h.as_str()) else {
            eprintln!("llsym: no harness {}", h);
            return 3;
        };
        // room for a worker
        while sh.active.load(SeqCst) >= o.workers {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        sh.active.fetch_add(1, SeqCst);
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut ex = Exec {
                m,
                x: Exprs::new(),
                z: Z3::new(qto),
                funcs: vec![None; m.funcs.len()],
                pending: vec![],
                cache: FxMap::default(),
                cur_model: Rc::new(vec![]),
                o: o.clone(),
                sh,
                hi,
                hname: h.clone(),
            nq: 0,
                start,
                pool: vec![],
                used: HashSet::new(),
                covers: HashSet::new(),
                forksite: BTreeMap::new(),
                children: vec![],
                errno_obj: 0,
                err_seen: HashSet::new(),
                trace_fn,
                tick: 0,
                profile,
                fn_steps: FxMap::default(),
            };
            ex.x.new_gen();
            let st = ex.initial(fi);
            ex.pending.push(st);
            ex.drive();
            ex.leave();
        }
        pids.push(pid);
    }
    let mut bad = vec![false; hs.len()];
    for (k, p) in pids.iter().enumerate() {
        let mut stt = 0;
        unsafe { waitpid(*p, &mut stt, 0) };
        if stt != 0 {
            bad[k] = true;
        }
    }
    let mut js = String::from("{\"z3\":\"");
    js.push_str(&version());
    js.push_str("\",\"harnesses\":[");
    for (k, h) in hs.iter().enumerate() {
        let s = &sh.h[k];
        let g = |a: &AtomicI64| a.load(SeqCst);
        if k > 0 {
            js.push(',');
        }
        js.push_str(&format!(
            "{{\"name\":\"{}\",\"paths\":{},\"assumed\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"instructions\":{},\"violations\":{},\"known\":{},\"errors\":{},\"limits\":{},\"assertions\":{},\"samples\":{},\"wall_s\":{:.2},\"max_symbols\":{},\"max_fork_depth\":{},\"expr_nodes\":{},\"crashed\":{}}}",
            h, g(&s.paths), g(&s.assumed), g(&s.forks), g(&s.queries), g(&s.sat), g(&s.unsat), g(&s.unknown), g(&s.hits),
            g(&s.solver_us) as f64 / 1e6, g(&s.steps), g(&s.viols), g(&s.known), g(&s.errors), g(&s.limit), g(&s.asserts), g(&s.samples),
            g(&s.end_ms) as f64 / 1e3, g(&s.maxvars), g(&s.maxdepth), g(&s.exprs), bad[k]
        ));
        if o.verbose {
            eprintln!(
                "{}: paths {} assumed {} forks {} queries {} (sat {} unsat {} unk {}) hits {} solver {:.1}s steps {:.1}M viol {} err {} lim {} wall {:.1}s{}",
                h, g(&s.paths), g(&s.assumed), g(&s.forks), g(&s.queries), g(&s.sat), g(&s.unsat), g(&s.unknown), g(&s.hits),
                g(&s.solver_us) as f64 / 1e6, g(&s.steps) as f64 / 1e6, g(&s.viols), g(&s.errors), g(&s.limit), g(&s.end_ms) as f64 / 1e3, if bad[k] {" CRASHED"} else {""}
            );
        }
    }
    js.push_str("]}\n");
    std::fs::write(format!("{}/result.json", o.out), js).unwrap();
    0
}
