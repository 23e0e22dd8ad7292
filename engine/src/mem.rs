//! Flat concrete address space of copy-on-write objects; bytes may be symbolic.
use crate::expr::*;
use crate::ll::BASE;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 for a concrete byte, otherwise an 8-bit expression
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}

const CH: usize = 32;
#[derive(Clone)]
pub struct Chunk {
    o: [Option<Rc<Obj>>; CH],
}
impl Chunk {
    fn empty() -> Chunk {
        Chunk { o: std::array::from_fn(|_| None) }
    }
}

#[derive(Clone)]
pub struct Mem {
    ch: Vec<Rc<Chunk>>,
    next: u32,
    free: Vec<u32>,
    pub live: usize,
}

pub enum Fault {
    Bad(&'static str),
}

impl Mem {
    pub fn new(first: u32) -> Mem {
        let mut m = Mem { ch: vec![], next: first, free: vec![], live: 0 };
        m.grow(first);
        m
    }
    fn grow(&mut self, id: u32) {
        while self.ch.len() * CH <= id as usize {
            self.ch.push(Rc::new(Chunk::empty()));
        }
    }
    pub fn put(&mut self, id: u32, o: Obj) {
        self.grow(id);
        let c = Rc::make_mut(&mut self.ch[id as usize / CH]);
        c.o[id as usize % CH] = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: usize) -> u32 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        self.put(id, Obj { data: vec![0; size], sym: None, ro: false });
        self.live += 1;
        id
    }
    pub fn release(&mut self, id: u32) -> bool {
        let ix = id as usize / CH;
        if ix >= self.ch.len() || self.ch[ix].o[id as usize % CH].is_none() {
            return false;
        }
        let c = Rc::make_mut(&mut self.ch[ix]);
        c.o[id as usize % CH] = None;
        self.free.push(id);
        self.live -= 1;
        true
    }
    #[inline]
    pub fn obj(&self, id: u32) -> Option<&Obj> {
        self.ch.get(id as usize / CH).and_then(|c| c.o[id as usize % CH].as_deref())
    }
    /// object and offset for an access of n bytes
    #[inline]
    pub fn get(&self, addr: u64, n: usize) -> Result<(&Obj, usize), Fault> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE) as usize;
        match self.obj(id) {
            None => Err(Fault::Bad("access to an invalid or freed address")),
            Some(o) => {
                if off > o.data.len() || n > o.data.len() - off {
                    Err(Fault::Bad("access out of the bounds of an object"))
                } else {
                    Ok((o, off))
                }
            }
        }
    }
    #[inline]
    pub fn get_mut(&mut self, addr: u64, n: usize) -> Result<(&mut Obj, usize), Fault> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE) as usize;
        let ix = id as usize / CH;
        if ix >= self.ch.len() {
            return Err(Fault::Bad("write to an invalid address"));
        }
        let c = Rc::make_mut(&mut self.ch[ix]);
        match &mut c.o[id as usize % CH] {
            None => Err(Fault::Bad("write to an invalid or freed address")),
            Some(o) => {
                if off > o.data.len() || n > o.data.len() - off {
                    return Err(Fault::Bad("write out of the bounds of an object"));
                }
                if o.ro {
                    return Err(Fault::Bad("write to constant memory"));
                }
                Ok((Rc::make_mut(o), off))
            }
        }
    }
}

impl Obj {
    #[inline]
    pub fn set_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for e in &mut s[off..off + b.len()] {
                *e = 0;
            }
        }
    }
    pub fn set_sym(&mut self, off: usize, e: E) {
        if self.sym.is_none() {
            self.sym = Some(vec![0; self.data.len()]);
        }
        self.sym.as_mut().unwrap()[off] = e;
        self.data[off] = 0;
    }
    #[inline]
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|e| *e == 0),
        }
    }
}
