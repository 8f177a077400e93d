use crate::expr::Eid;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<Eid>>,
    pub heap: bool,
}

const CH: usize = 32;
#[derive(Clone)]
struct Chunk {
    o: [Option<Rc<Obj>>; CH],
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    n: u32,
    pub globs: Rc<HashMap<u32, Rc<Obj>>>,
    pub live: u32,
}

#[derive(Debug, Clone)]
pub enum MErr {
    Bad(String),
}

impl Mem {
    pub fn new() -> Self {
        Mem { chunks: vec![], free: vec![], n: 0, globs: Rc::new(HashMap::new()), live: 0 }
    }
    pub fn alloc(&mut self, size: usize, heap: bool) -> u64 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.n;
                self.n += 1;
                if self.chunks.len() * CH <= i as usize {
                    self.chunks.push(Rc::new(Chunk { o: Default::default() }));
                }
                i
            }
        };
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        c.o[id as usize % CH] = Some(Rc::new(Obj { data: vec![0; size], sym: None, heap }));
        self.live += 1;
        (HEAP_BASE + id as u64) << 32
    }
    pub fn free_id(&mut self, addr: u64) -> Result<(), MErr> {
        let id = (addr >> 32).wrapping_sub(HEAP_BASE);
        if addr as u32 != 0 || id >= self.n as u64 {
            return Err(MErr::Bad(format!("free of invalid pointer {:#x}", addr)));
        }
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        if c.o[id as usize % CH].take().is_none() {
            return Err(MErr::Bad(format!("double free {:#x}", addr)));
        }
        self.live -= 1;
        self.free.push(id as u32);
        Ok(())
    }
    pub fn size_of(&self, addr: u64) -> Option<usize> {
        let id = (addr >> 32).wrapping_sub(HEAP_BASE);
        if id < self.n as u64 {
            return self.chunks[id as usize / CH].o[id as usize % CH].as_ref().map(|o| o.data.len());
        }
        None
    }
    /// object for reading; returns (data, sym, off)
    #[inline]
    pub fn rd<'a>(&'a self, m: &'static Module, addr: u64, n: usize) -> Result<(&'a [u8], Option<&'a [Eid]>), MErr> {
        let id = addr >> 32;
        let off = addr as u32 as usize;
        let hid = id.wrapping_sub(HEAP_BASE);
        if hid < self.n as u64 {
            if let Some(o) = &self.chunks[hid as usize / CH].o[hid as usize % CH] {
                if off + n <= o.data.len() {
                    return Ok((&o.data[off..off + n], o.sym.as_ref().map(|s| &s[off..off + n])));
                }
                return Err(MErr::Bad(format!("out-of-bounds read of {} at offset {} in object of {} bytes", n, off, o.data.len())));
            }
            if n == 0 {
                return Ok((&[], None));
            }
            return Err(MErr::Bad(format!("read of freed object ({} bytes at {:#x})", n, addr)));
        }
        let gid = id.wrapping_sub(GLOB_BASE);
        if gid < m.globals.len() as u64 {
            if let Some(o) = self.globs.get(&(gid as u32)) {
                if off + n <= o.data.len() {
                    return Ok((&o.data[off..off + n], o.sym.as_ref().map(|s| &s[off..off + n])));
                }
            } else {
                let d = &m.globals[gid as usize].data;
                if off + n <= d.len() {
                    return Ok((&d[off..off + n], None));
                }
            }
            return Err(MErr::Bad(format!("out-of-bounds read of {} at offset {} in global", n, off)));
        }
        if n == 0 {
            return Ok((&[], None));
        }
        Err(MErr::Bad(format!("read of invalid pointer {:#x}", addr)))
    }
    #[inline]
    pub fn wr<'a>(&'a mut self, m: &'static Module, addr: u64, n: usize) -> Result<(&'a mut Obj, usize), MErr> {
        let id = addr >> 32;
        let off = addr as u32 as usize;
        let hid = id.wrapping_sub(HEAP_BASE);
        if hid < self.n as u64 {
            let c = Rc::make_mut(&mut self.chunks[hid as usize / CH]);
            if let Some(o) = &mut c.o[hid as usize % CH] {
                if off + n <= o.data.len() {
                    return Ok((Rc::make_mut(o), off));
                }
                return Err(MErr::Bad(format!("out-of-bounds write of {} at offset {} in object of {} bytes", n, off, o.data.len())));
            }
            return Err(MErr::Bad("write to freed object".into()));
        }
        let gid = id.wrapping_sub(GLOB_BASE);
        if gid < m.globals.len() as u64 {
            let g = &m.globals[gid as usize];
            if g.constant || off + n > g.data.len() {
                return Err(MErr::Bad(format!("bad write to global {}", g.name)));
            }
            let mp = Rc::make_mut(&mut self.globs);
            let o = mp.entry(gid as u32).or_insert_with(|| Rc::new(Obj { data: g.data.clone(), sym: None, heap: false }));
            return Ok((Rc::make_mut(o), off));
        }
        Err(MErr::Bad(format!("write to invalid pointer {:#x}", addr)))
    }
}
