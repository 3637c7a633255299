//! Cells: one box of input values together with the abstract memory it leads to.
use crate::dom::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const HEAP_END: u32 = 0x1000_0000;
pub const LOCAL: u32 = 0x1000_0000;
pub const GLOBAL: u32 = 0x4000_0000;
pub const FNP: u32 = 0x5000_0000;
pub const VTP: u32 = 0x6000_0000;

pub fn is_heap(p: Prov) -> bool {
    p != 0 && p < HEAP_END
}
pub fn is_local(p: Prov) -> bool {
    p >= LOCAL && p < GLOBAL
}
pub fn local_prov(depth: usize, local: usize) -> Prov {
    LOCAL | ((depth as u32) << 14) | local as u32
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub off: u32,
    pub size: u8,
    pub val: Val,
}

#[derive(Clone, Debug, Default)]
pub struct Alloc {
    pub size: u64,
    pub slots: Vec<Slot>,
    /// may hold pointers to heap allocations
    pub hp: bool,
}

fn has_heap_ptr(v: &Val) -> bool {
    match v {
        Val::C(_, p) => is_heap(*p),
        Val::F(_, pw) => pw.0.iter().any(|x| is_heap(x.prov)),
        _ => false,
    }
}

impl Alloc {
    pub fn find(&self, off: u32) -> Result<usize, usize> {
        // most allocations are tiny
        if self.slots.len() <= 8 {
            for (i, s) in self.slots.iter().enumerate() {
                if s.off == off {
                    return Ok(i);
                }
                if s.off > off {
                    return Err(i);
                }
            }
            return Err(self.slots.len());
        }
        self.slots.binary_search_by(|s| s.off.cmp(&off))
    }
    /// Indices of slots overlapping [off, off+size)
    pub fn overlap(&self, off: u32, size: u32) -> (usize, usize) {
        let mut i = match self.find(off) {
            Ok(i) => i,
            Err(i) => i,
        };
        if i > 0 && self.slots[i - 1].off + self.slots[i - 1].size as u32 > off {
            i -= 1;
        }
        let mut j = i;
        while j < self.slots.len() && self.slots[j].off < off + size {
            j += 1;
        }
        (i, j)
    }
    /// Store without partial overlaps (the caller has broken up those).
    pub fn put(&mut self, off: u32, size: u8, val: Val) {
        if !self.hp && has_heap_ptr(&val) {
            self.hp = true;
        }
        match self.find(off) {
            Ok(i) if self.slots[i].size == size => {
                if let Val::U = val {
                    self.slots.remove(i);
                } else {
                    self.slots[i].val = val;
                }
            }
            _ => {
                let (i, j) = self.overlap(off, size as u32);
                if let Val::U = val {
                    self.slots.drain(i..j);
                } else {
                    self.slots.splice(i..j, std::iter::once(Slot { off, size, val }));
                }
            }
        }
    }
}

pub type Frame = Vec<Option<Rc<Alloc>>>;

#[derive(Clone, Debug, Default)]
pub struct Cell {
    pub regs: Vec<Reg>,
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Option<Rc<Alloc>>>,
}

impl Cell {
    pub fn alloc(&self, p: Prov) -> Option<&Rc<Alloc>> {
        if is_heap(p) {
            self.heap.get(p as usize - 1)?.as_ref()
        } else if is_local(p) {
            let q = p - LOCAL;
            self.frames.get((q >> 14) as usize)?.get((q & 0x3fff) as usize)?.as_ref()
        } else {
            None
        }
    }
    pub fn alloc_mut(&mut self, p: Prov) -> Option<&mut Alloc> {
        if is_heap(p) {
            self.heap.get_mut(p as usize - 1)?.as_mut().map(Rc::make_mut)
        } else if is_local(p) {
            let q = p - LOCAL;
            let f = Rc::make_mut(self.frames.get_mut((q >> 14) as usize)?);
            let s = f.get_mut((q & 0x3fff) as usize)?;
            if s.is_none() {
                *s = Some(Rc::new(Alloc::default()));
            }
            s.as_mut().map(Rc::make_mut)
        } else {
            None
        }
    }
    pub fn new_heap(&mut self, size: u64) -> Prov {
        self.heap.push(Some(Rc::new(Alloc { size, slots: vec![], hp: false })));
        self.heap.len() as u32
    }
    pub fn with(&self, sym: Sym, r: Reg) -> Cell {
        let mut c = self.clone();
        c.regs[sym as usize] = r;
        c
    }
    pub fn live_heap(&self) -> usize {
        self.heap.iter().filter(|x| x.is_some()).count()
    }
}

/// The exact union of two cells, when they differ in the values of one symbol only and their
/// memories have the same shape (up to the names of heap allocations).
pub fn merge(a: &Cell, b: &Cell) -> Option<Cell> {
    if a.frames.len() != b.frames.len() {
        return None;
    }
    let mut sym = None;
    for i in 0..a.regs.len() {
        if a.regs[i] != b.regs[i] {
            if sym.is_some() {
                return None;
            }
            sym = Some(i as Sym);
        }
    }
    let sym = sym?;
    let mut m = Merger {
        a,
        b,
        sym,
        ra: &a.regs[sym as usize],
        rb: &b.regs[sym as usize],
        map: HashMap::new(),
        rev: HashMap::new(),
        queue: vec![],
        out_heap: a.heap.clone(),
    };
    let mut frames = Vec::with_capacity(a.frames.len());
    for (fa, fb) in a.frames.iter().zip(&b.frames) {
        if Rc::ptr_eq(fa, fb) {
            for x in fa.iter().flatten() {
                if x.hp {
                    m.identity(x)?;
                }
            }
            frames.push(fa.clone());
            continue;
        }
        if fa.len() != fb.len() {
            return None;
        }
        let mut out = Vec::with_capacity(fa.len());
        for (x, y) in fa.iter().zip(fb.iter()) {
            out.push(match (x, y) {
                (None, None) => None,
                (Some(x), None) => Some(x.clone()),
                (None, Some(y)) => Some(m.rename_alloc(y)?),
                (Some(x), Some(y)) => Some(m.allocs(x, y)?),
            });
        }
        frames.push(Rc::new(out));
    }
    while let Some((pa, pb)) = m.queue.pop() {
        let y = b.heap.get(pb as usize - 1).cloned().flatten();
        if pa as usize > a.heap.len() {
            // only on b's side
            if let Some(y) = y {
                let r = m.rename_alloc(&y)?;
                m.out_heap[pa as usize - 1] = Some(r);
            }
            continue;
        }
        let x = a.heap[pa as usize - 1].clone();
        let r = match (x, y) {
            (Some(x), Some(y)) => Some(m.allocs(&x, &y)?),
            (None, None) => None,
            _ => return None,
        };
        m.out_heap[pa as usize - 1] = r;
    }
    let out_heap = std::mem::take(&mut m.out_heap);
    let mut regs = a.regs.clone();
    regs[sym as usize] = a.regs[sym as usize].union(&b.regs[sym as usize]);
    Some(Cell { regs, frames, heap: out_heap })
}

struct Merger<'x> {
    a: &'x Cell,
    b: &'x Cell,
    sym: Sym,
    ra: &'x Reg,
    rb: &'x Reg,
    map: HashMap<u32, u32>,
    rev: HashMap<u32, u32>,
    queue: Vec<(u32, u32)>,
    out_heap: Vec<Option<Rc<Alloc>>>,
}

impl<'x> Merger<'x> {
    fn bind(&mut self, pa: u32, pb: u32) -> Option<()> {
        match (self.map.get(&pb), self.rev.get(&pa)) {
            (None, None) => {
                // freed memory: nothing to compare
                self.map.insert(pb, pa);
                self.rev.insert(pa, pb);
                if pa as usize <= self.a.heap.len() {
                    let x = self.a.heap.get(pa as usize - 1).and_then(|x| x.as_ref());
                    let y = self.b.heap.get(pb as usize - 1).and_then(|x| x.as_ref());
                    match (x, y) {
                        (Some(x), Some(y)) => {
                            if x.size != y.size {
                                return None;
                            }
                        }
                        (None, None) => {}
                        _ => return None,
                    }
                }
                self.queue.push((pa, pb));
                Some(())
            }
            (Some(&x), _) if x == pa => Some(()),
            _ => None,
        }
    }
    fn fresh(&mut self, pb: u32) -> u32 {
        if let Some(&x) = self.map.get(&pb) {
            return x;
        }
        self.out_heap.push(None);
        let pa = self.out_heap.len() as u32;
        self.map.insert(pb, pa);
        self.rev.insert(pa, pb);
        self.queue.push((pa, pb));
        pa
    }
    fn identity(&mut self, al: &Alloc) -> Option<()> {
        for s in &al.slots {
            match &s.val {
                Val::C(_, p) if is_heap(*p) => self.bind(*p, *p)?,
                Val::F(_, pw) => {
                    let ps: std::collections::HashSet<u32> = pw.0.iter().map(|x| x.prov).filter(|p| is_heap(*p)).collect();
                    for p in ps {
                        self.bind(p, p)?
                    }
                }
                _ => {}
            }
        }
        Some(())
    }
    fn rename(&mut self, v: &Val) -> Val {
        match v {
            Val::C(o, p) if is_heap(*p) => Val::C(*o, self.fresh(*p)),
            Val::F(s, pw) if pw.0.iter().any(|x| is_heap(x.prov)) => {
                let mut n = (**pw).clone();
                for x in n.0.iter_mut() {
                    if is_heap(x.prov) {
                        x.prov = self.fresh(x.prov);
                    }
                }
                Val::F(*s, Rc::new(n))
            }
            _ => v.clone(),
        }
    }
    fn rename_alloc(&mut self, y: &Rc<Alloc>) -> Option<Rc<Alloc>> {
        if !y.hp {
            return Some(y.clone());
        }
        let mut n = (**y).clone();
        for s in n.slots.iter_mut() {
            s.val = self.rename(&s.val);
        }
        Some(Rc::new(n))
    }
    fn allocs(&mut self, x: &Rc<Alloc>, y: &Rc<Alloc>) -> Option<Rc<Alloc>> {
        if Rc::ptr_eq(x, y) {
            if x.hp {
                self.identity(x)?;
            }
            return Some(x.clone());
        }
        if x.size != y.size {
            return None;
        }
        let mut slots = Vec::with_capacity(x.slots.len());
        let (mut i, mut j) = (0, 0);
        while i < x.slots.len() || j < y.slots.len() {
            let sx = x.slots.get(i);
            let sy = y.slots.get(j);
            match (sx, sy) {
                (Some(s), Some(t)) if s.off == t.off => {
                    if s.size != t.size {
                        return None;
                    }
                    let val = self.vals(&s.val, &t.val)?;
                    slots.push(Slot { off: s.off, size: s.size, val });
                    i += 1;
                    j += 1;
                }
                (Some(s), t) if t.is_none() || s.off < t.unwrap().off => {
                    if let Some(t) = t {
                        if s.off + s.size as u32 > t.off {
                            return None;
                        }
                    }
                    slots.push(s.clone());
                    i += 1;
                }
                (s, Some(t)) => {
                    if let Some(s) = s {
                        if t.off + t.size as u32 > s.off {
                            return None;
                        }
                    }
                    let val = self.rename(&t.val);
                    slots.push(Slot { off: t.off, size: t.size, val });
                    j += 1;
                }
                _ => unreachable!(),
            }
        }
        Some(Rc::new(Alloc { size: x.size, slots, hp: x.hp || y.hp }))
    }
    fn one_heap(v: &Val) -> Result<Option<u32>, ()> {
        match v {
            Val::C(_, p) => Ok(if is_heap(*p) { Some(*p) } else { None }),
            Val::F(_, pw) => {
                let mut r = None;
                for x in &pw.0 {
                    if is_heap(x.prov) {
                        if r.is_some() && r != Some(x.prov) {
                            return Err(());
                        }
                        r = Some(x.prov);
                    }
                }
                Ok(r)
            }
            _ => Ok(None),
        }
    }
    fn vals(&mut self, v: &Val, w: &Val) -> Option<Val> {
        match (Self::one_heap(v), Self::one_heap(w)) {
            (Ok(None), Ok(None)) => {}
            (Ok(Some(p)), Ok(Some(q))) => self.bind(p, q)?,
            (Ok(Some(_)), Ok(None)) | (Ok(None), Ok(Some(_))) => {}
            _ => {
                // several heap targets: only when identical
                if let (Val::F(s, p), Val::F(t, q)) = (v, w) {
                    if s == t && Rc::ptr_eq(p, q) {
                        let ps: std::collections::HashSet<u32> = p.0.iter().map(|x| x.prov).filter(|p| is_heap(*p)).collect();
                        for p in ps {
                            self.bind(p, p)?
                        }
                        return Some(v.clone());
                    }
                }
                return None;
            }
        }
        let w = self.rename(w);
        let s = self.sym;
        match (v, &w) {
            (Val::U, x) => Some(x.clone()),
            (x, Val::U) => Some(x.clone()),
            (Val::C(o, p), Val::C(o2, p2)) if o == o2 && p == p2 => Some(v.clone()),
            (Val::W(x), Val::W(y)) => {
                if x == y {
                    Some(v.clone())
                } else {
                    None
                }
            }
            (Val::W(_), _) | (_, Val::W(_)) => None,
            (Val::F(t, p), Val::F(t2, q)) if *t != s && t == t2 => {
                let r = &self.a.regs[*t as usize];
                if Rc::ptr_eq(p, q) || p.restrict(r).same(&q.restrict(r)) {
                    Some(v.clone())
                } else {
                    None
                }
            }
            _ => {
                if let (Val::F(t, p), Val::F(t2, q)) = (v, &w) {
                    if *t == s && *t2 == s && Rc::ptr_eq(p, q) {
                        return Some(v.clone());
                    }
                }
                let p = self.to_pw(v, self.ra)?;
                let q = self.to_pw(&w, self.rb)?;
                Some(Val::F(s, Rc::new(p.concat(&q))))
            }
        }
    }
    fn to_pw(&self, v: &Val, r: &Reg) -> Option<Pw> {
        match v {
            Val::C(o, p) => Some(Pw(r.0.iter().map(|&(lo, hi)| Piece { lo, hi, prov: *p, base: *o, slope: 0 }).collect())),
            Val::F(t, pw) if *t == self.sym => Some(pw.restrict(r)),
            Val::F(t, pw) => {
                let (p, o) = pw.restrict(&self.a.regs[*t as usize]).as_const()?;
                self.to_pw(&Val::C(o, p), r)
            }
            _ => None,
        }
    }
}
