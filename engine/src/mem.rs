//! Copy-on-write memory: objects addressed by (id << 32 | offset).

use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    /// empty, or one expression per byte (0 = concrete)
    pub s: Vec<E>,
    pub ro: bool,
}

const CH: usize = 64;
const TOP: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
type Page = Vec<Option<Rc<Chunk>>>;

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Option<Rc<Page>>>,
    pub heap_next: u64,
    pub sp: u64,
    pub stack_base: u64,
    pub stack_end: u64,
    pub live: u64,
}

impl Mem {
    pub fn new(first: u64) -> Mem {
        let per = (CH * TOP) as u64;
        let sb = first.div_ceil(per) * per;
        let se = sb + per * 64;
        Mem { pages: vec![], heap_next: se, sp: sb, stack_base: sb, stack_end: se, live: 0 }
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let id = id as usize;
        let p = self.pages.get(id / (CH * TOP))?.as_ref()?;
        let c = p[(id / CH) % TOP].as_ref()?;
        c[id % CH].as_ref()
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let id = id as usize;
        let p = Rc::make_mut(self.pages.get_mut(id / (CH * TOP))?.as_mut()?);
        let c = Rc::make_mut(p[(id / CH) % TOP].as_mut()?);
        Some(Rc::make_mut(c[id % CH].as_mut()?))
    }
    pub fn put(&mut self, id: u64, o: Obj) {
        let id = id as usize;
        let pi = id / (CH * TOP);
        if self.pages.len() <= pi {
            self.pages.resize(pi + 1, None);
        }
        let p = Rc::make_mut(self.pages[pi].get_or_insert_with(|| Rc::new(vec![None; TOP])));
        let c = Rc::make_mut(p[(id / CH) % TOP].get_or_insert_with(|| Rc::new(vec![None; CH])));
        c[id % CH] = Some(Rc::new(o));
    }
    pub fn del(&mut self, id: u64) -> bool {
        let id = id as usize;
        let Some(Some(p)) = self.pages.get_mut(id / (CH * TOP)) else { return false };
        let p = Rc::make_mut(p);
        let Some(c) = &mut p[(id / CH) % TOP] else { return false };
        let c = Rc::make_mut(c);
        c[id % CH].take().is_some()
    }
    pub fn alloc_heap(&mut self, size: u64) -> u64 {
        let id = self.heap_next;
        self.heap_next += 1;
        self.live += 1;
        self.put(id, Obj { b: vec![0; size as usize], s: vec![], ro: false });
        id << 32
    }
    pub fn alloc_stack(&mut self, size: u64) -> Option<u64> {
        let id = self.sp;
        if id >= self.stack_end {
            return None;
        }
        self.sp += 1;
        self.put(id, Obj { b: vec![0; size as usize], s: vec![], ro: false });
        Some(id << 32)
    }
    pub fn pop_stack(&mut self, sp: u64) {
        while self.sp > sp {
            self.sp -= 1;
            let id = self.sp;
            self.del(id);
        }
    }
}
