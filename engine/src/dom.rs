//! The abstract domain: exact, piecewise-affine functions of one input symbol.
//!
//! A symbol is one unknown input (a code point, a number). A `Pw` maps the values of one symbol to
//! machine words, as a sorted list of intervals on each of which the result is
//! `prov + base + slope * (x - lo)`; `prov` is 0 for integers and names an abstract allocation for
//! pointers. A piece never wraps: every value on it, computed over the integers, lies within the
//! width of the word it stands for.
use std::rc::Rc;

pub type Prov = u32;
pub type Sym = u32;

/// A set of values of one symbol: sorted, disjoint, non-adjacent inclusive intervals.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Reg(pub Rc<Vec<(u32, u32)>>);

impl Reg {
    pub fn new(mut v: Vec<(u32, u32)>) -> Reg {
        v.sort();
        let mut o: Vec<(u32, u32)> = vec![];
        for (l, h) in v {
            if let Some(last) = o.last_mut() {
                if l <= last.1.saturating_add(1) {
                    if h > last.1 {
                        last.1 = h;
                    }
                    continue;
                }
            }
            o.push((l, h));
        }
        Reg(Rc::new(o))
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn count(&self) -> u64 {
        self.0.iter().map(|&(l, h)| (h - l) as u64 + 1).sum()
    }
    pub fn union(&self, o: &Reg) -> Reg {
        let mut v = (*self.0).clone();
        v.extend(o.0.iter().cloned());
        Reg::new(v)
    }
    pub fn inter(&self, o: &Reg) -> Reg {
        let (mut i, mut j) = (0, 0);
        let mut out = vec![];
        while i < self.0.len() && j < o.0.len() {
            let (a, b) = self.0[i];
            let (c, d) = o.0[j];
            let l = a.max(c);
            let h = b.min(d);
            if l <= h {
                out.push((l, h));
            }
            if b < d {
                i += 1
            } else {
                j += 1
            }
        }
        Reg(Rc::new(out))
    }
    pub fn minus(&self, o: &Reg) -> Reg {
        let mut out = vec![];
        let mut j = 0;
        for &(l, h) in self.0.iter() {
            let mut l = l as u64;
            let h = h as u64;
            while j > 0 && j < o.0.len() && (o.0[j].0 as u64) > l {
                j -= 1;
            }
            while j < o.0.len() && (o.0[j].1 as u64) < l {
                j += 1;
            }
            let mut k = j;
            while k < o.0.len() && (o.0[k].0 as u64) <= h && l <= h {
                if (o.0[k].0 as u64) > l {
                    out.push((l as u32, o.0[k].0 - 1));
                }
                l = l.max(o.0[k].1 as u64 + 1);
                k += 1;
            }
            if l <= h {
                out.push((l as u32, h as u32));
            }
        }
        Reg(Rc::new(out))
    }
    pub fn contains(&self, x: u32) -> bool {
        let i = self.0.partition_point(|&(_, h)| h < x);
        i < self.0.len() && self.0[i].0 <= x
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Piece {
    pub lo: u32,
    pub hi: u32,
    pub prov: Prov,
    pub base: u64,
    pub slope: i64,
}

impl Piece {
    #[inline]
    pub fn at(&self, x: u32) -> u64 {
        (self.base as i128 + self.slope as i128 * (x - self.lo) as i128) as u64
    }
    #[inline]
    pub fn sub(&self, lo: u32, hi: u32) -> Piece {
        Piece { lo, hi, prov: self.prov, base: self.at(lo), slope: if lo == hi { 0 } else { self.slope } }
    }
    pub fn ends(&self) -> (u64, u64) {
        let a = self.base;
        let b = self.at(self.hi);
        (a.min(b), a.max(b))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Pw(pub Vec<Piece>);

#[derive(Default)]
pub struct Bld(pub Vec<Piece>);

impl Bld {
    #[inline]
    pub fn push(&mut self, p: Piece) {
        let mut p = p;
        if p.lo == p.hi {
            p.slope = 0;
        }
        if let Some(l) = self.0.last_mut() {
            debug_assert!(l.hi < p.lo);
            if l.hi.wrapping_add(1) == p.lo && l.prov == p.prov && p.lo != 0 {
                let l1 = l.lo == l.hi;
                let p1 = p.lo == p.hi;
                let d = p.base as i128 - l.at(l.hi) as i128;
                let ok = match (l1, p1) {
                    (false, false) => l.slope == p.slope && d == l.slope as i128,
                    (false, true) => d == l.slope as i128,
                    (true, false) => d == p.slope as i128,
                    (true, true) => d == 0 || d == 1 || (p.prov != 0 && d > 0 && d <= 64),
                };
                if ok {
                    l.slope = d as i64;
                    l.hi = p.hi;
                    return;
                }
            }
        }
        self.0.push(p);
    }
    #[inline]
    pub fn val(&mut self, x: u32, prov: Prov, v: u64) {
        self.push(Piece { lo: x, hi: x, prov, base: v, slope: 0 })
    }
    #[inline]
    pub fn konst(&mut self, lo: u32, hi: u32, v: u64) {
        self.push(Piece { lo, hi, prov: 0, base: v, slope: 0 })
    }
    pub fn done(self) -> Pw {
        Pw(self.0)
    }
}

impl Pw {
    pub fn ident(r: &Reg) -> Pw {
        let mut b = Bld::default();
        for &(l, h) in r.0.iter() {
            b.push(Piece { lo: l, hi: h, prov: 0, base: l as u64, slope: 1 });
        }
        b.done()
    }
    pub fn find(&self, x: u32) -> Option<&Piece> {
        let i = self.0.partition_point(|p| p.hi < x);
        if i < self.0.len() && self.0[i].lo <= x {
            Some(&self.0[i])
        } else {
            None
        }
    }
    pub fn domain(&self) -> Reg {
        Reg::new(self.0.iter().map(|p| (p.lo, p.hi)).collect())
    }
    /// Is the domain of this function exactly/within `r` already?
    pub fn restrict(&self, r: &Reg) -> Pw {
        let mut b = Bld::default();
        let (mut i, mut j) = (0, 0);
        if r.0.len() * 16 < self.0.len() {
            // few intervals: locate each by binary search
            for &(l, h) in r.0.iter() {
                let mut i = self.0.partition_point(|p| p.hi < l);
                while i < self.0.len() && self.0[i].lo <= h {
                    let p = self.0[i];
                    b.push(p.sub(p.lo.max(l), p.hi.min(h)));
                    i += 1;
                }
            }
            return b.done();
        }
        while i < self.0.len() && j < r.0.len() {
            let p = self.0[i];
            let (c, d) = r.0[j];
            let l = p.lo.max(c);
            let h = p.hi.min(d);
            if l <= h {
                b.push(p.sub(l, h));
            }
            if p.hi < d {
                i += 1
            } else {
                j += 1
            }
        }
        b.done()
    }
    pub fn as_const(&self) -> Option<(Prov, u64)> {
        let p = self.0.first()?;
        for q in &self.0 {
            if q.prov != p.prov || q.base != p.base || (q.slope != 0 && q.lo != q.hi) {
                return None;
            }
        }
        Some((p.prov, p.base))
    }
    pub fn min_max(&self) -> Option<(u64, u64)> {
        let mut m: Option<(u64, u64)> = None;
        for p in &self.0 {
            let (a, b) = p.ends();
            m = Some(match m {
                None => (a, b),
                Some((x, y)) => (x.min(a), y.max(b)),
            });
        }
        m
    }
    /// How many distinct values (upper bound: counts affine pieces by length).
    pub fn spread(&self) -> u64 {
        let mut s = std::collections::HashSet::new();
        let mut n = 0u64;
        for p in &self.0 {
            if p.slope == 0 {
                if s.insert((p.prov, p.base)) {
                    n += 1;
                }
            } else {
                n += (p.hi - p.lo) as u64 + 1;
            }
        }
        n
    }
    /// Partition of the domain by value.
    pub fn by_value(&self, limit: usize) -> Option<Vec<((Prov, u64), Reg)>> {
        let mut m: std::collections::BTreeMap<(Prov, u64), Vec<(u32, u32)>> = Default::default();
        for p in &self.0 {
            if p.slope == 0 {
                m.entry((p.prov, p.base)).or_default().push((p.lo, p.hi));
            } else {
                if (p.hi - p.lo) as usize >= limit {
                    return None;
                }
                for x in p.lo..=p.hi {
                    m.entry((p.prov, p.at(x))).or_default().push((x, x));
                }
            }
            if m.len() > limit {
                return None;
            }
        }
        Some(m.into_iter().map(|(k, v)| (k, Reg::new(v))).collect())
    }
    pub fn concat(&self, o: &Pw) -> Pw {
        // disjoint domains
        let mut v: Vec<Piece> = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() || j < o.0.len() {
            if j >= o.0.len() || (i < self.0.len() && self.0[i].lo < o.0[j].lo) {
                v.push(self.0[i]);
                i += 1;
            } else {
                v.push(o.0[j]);
                j += 1;
            }
        }
        let mut b = Bld::default();
        for p in v {
            b.push(p);
        }
        b.done()
    }
    /// The composition `self` after `inner`: x |-> self(inner(x)); undefined where self is.
    pub fn compose(&self, inner: &Pw) -> Pw {
        let mut b = Bld::default();
        for p in &inner.0 {
            if p.prov != 0 {
                continue;
            }
            if p.slope == 0 {
                if p.base <= u32::MAX as u64 {
                    if let Some(q) = self.find(p.base as u32) {
                        b.push(Piece { lo: p.lo, hi: p.hi, prov: q.prov, base: q.at(p.base as u32), slope: 0 });
                    }
                }
            } else if p.slope == 1 && p.at(p.hi) <= u32::MAX as u64 {
                let (a, z) = (p.base as u32, p.at(p.hi) as u32);
                let mut i = self.0.partition_point(|q| q.hi < a);
                while i < self.0.len() && self.0[i].lo <= z {
                    let q = self.0[i];
                    let l = q.lo.max(a);
                    let h = q.hi.min(z);
                    let s = q.sub(l, h);
                    b.push(Piece { lo: p.lo + (l - a), hi: p.lo + (h - a), ..s });
                    i += 1;
                }
            } else {
                for x in p.lo..=p.hi {
                    let v = p.at(x);
                    if v <= u32::MAX as u64 {
                        if let Some(q) = self.find(v as u32) {
                            b.val(x, q.prov, q.at(v as u32));
                        }
                    }
                }
            }
        }
        b.done()
    }
    pub fn same(&self, o: &Pw) -> bool {
        if self == o {
            return true;
        }
        let (mut i, mut j) = (0, 0);
        let mut x: u64 = 0;
        loop {
            match (self.0.get(i), o.0.get(j)) {
                (None, None) => return true,
                (Some(p), Some(q)) => {
                    let l = (p.lo as u64).max(x);
                    if l != (q.lo as u64).max(x) || p.prov != q.prov {
                        return false;
                    }
                    let h = p.hi.min(q.hi);
                    if p.at(l as u32) != q.at(l as u32) || p.at(h) != q.at(h) {
                        return false;
                    }
                    x = h as u64 + 1;
                    if p.hi == h {
                        i += 1;
                    }
                    if q.hi == h {
                        j += 1;
                    }
                }
                _ => return false,
            }
        }
    }
}

/// One abstract machine word.
#[derive(Clone, Debug)]
pub enum Val {
    /// undefined (uninitialised memory)
    U,
    C(u64, Prov),
    W(u128),
    F(Sym, Rc<Pw>),
}

impl Val {
    pub fn c(v: u64) -> Val {
        Val::C(v, 0)
    }
    pub fn b(v: bool) -> Val {
        Val::C(v as u64, 0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Cmp,
    AddO, // overflow flags
    SubO,
    MulO,
    SatAdd,
    SatSub,
}

#[inline]
pub fn mask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}
#[inline]
pub fn sx(v: u64, bits: u32) -> i64 {
    if bits >= 64 {
        v as i64
    } else {
        let s = 64 - bits;
        ((v << s) as i64) >> s
    }
}

/// The concrete operation on words; None where it traps.
pub fn scalar(op: Op, bits: u32, signed: bool, a: u64, b: u64) -> Option<u64> {
    use Op::*;
    let m = mask(bits);
    let cmp = || {
        if signed {
            sx(a, bits).cmp(&sx(b, bits))
        } else {
            a.cmp(&b)
        }
    };
    Some(match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        Div => {
            if b == 0 {
                return None;
            }
            if signed {
                (sx(a, bits) as i128 / sx(b, bits) as i128) as u64 & m
            } else {
                a / b
            }
        }
        Rem => {
            if b == 0 {
                return None;
            }
            if signed {
                (sx(a, bits) as i128 % sx(b, bits) as i128) as u64 & m
            } else {
                a % b
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => a.wrapping_shl((b & (bits as u64 - 1)) as u32) & m,
        Shr => {
            let s = (b & (bits as u64 - 1)) as u32;
            if signed {
                (sx(a, bits) >> s) as u64 & m
            } else {
                a >> s
            }
        }
        Eq => (a == b) as u64,
        Ne => (a != b) as u64,
        Lt => cmp().is_lt() as u64,
        Le => cmp().is_le() as u64,
        Gt => cmp().is_gt() as u64,
        Ge => cmp().is_ge() as u64,
        Cmp => (cmp() as i8) as u8 as u64,
        AddO => {
            if signed {
                let r = sx(a, bits) as i128 + sx(b, bits) as i128;
                (r != sx(r as u64 & m, bits) as i128) as u64
            } else {
                (a as u128 + b as u128 > m as u128) as u64
            }
        }
        SubO => {
            if signed {
                let r = sx(a, bits) as i128 - sx(b, bits) as i128;
                (r != sx(r as u64 & m, bits) as i128) as u64
            } else {
                (a < b) as u64
            }
        }
        MulO => {
            if signed {
                let r = sx(a, bits) as i128 * sx(b, bits) as i128;
                (r != sx(r as u64 & m, bits) as i128) as u64
            } else {
                (a as u128 * b as u128 > m as u128) as u64
            }
        }
        SatAdd => {
            if signed {
                let r = sx(a, bits) as i128 + sx(b, bits) as i128;
                let mx = (m >> 1) as i128;
                r.clamp(-mx - 1, mx) as u64 & m
            } else {
                (a as u128 + b as u128).min(m as u128) as u64
            }
        }
        SatSub => {
            if signed {
                let r = sx(a, bits) as i128 - sx(b, bits) as i128;
                let mx = (m >> 1) as i128;
                r.clamp(-mx - 1, mx) as u64 & m
            } else {
                a.saturating_sub(b)
            }
        }
    })
}

/// no word is cut into more pieces than this
const PIECES: u64 = 1 << 21;

/// Apply `op` on the sub-interval [lo,hi], where both operands are affine. Err when it traps.
fn seg(op: Op, bits: u32, signed: bool, a: Piece, b: Piece, out: &mut Bld) -> Result<(), String> {
    use Op::*;
    let (lo, hi) = (a.lo, a.hi);
    let n = (hi - lo) as i128;
    // pointers
    if a.prov != 0 || b.prov != 0 {
        match op {
            Eq | Ne if a.prov != b.prov => {
                out.konst(lo, hi, (op == Ne) as u64);
                return Ok(());
            }
            Eq | Ne | Lt | Le | Gt | Ge | Cmp if a.prov == b.prov => {
                let mut a = a;
                let mut b = b;
                a.prov = 0;
                b.prov = 0;
                return seg(op, bits, false, a, b, out);
            }
            Sub if a.prov == b.prov => {
                let mut a = a;
                let mut b = b;
                a.prov = 0;
                b.prov = 0;
                return seg(op, bits, signed, a, b, out);
            }
            Lt | Le | Gt | Ge | Cmp if b.prov == 0 && b.slope == 0 && b.base < 4096 => {
                // a real pointer is above every small integer
                out.konst(lo, hi, scalar(op, 64, false, 1 << 40, b.base).unwrap());
                return Ok(());
            }
            Lt | Le | Gt | Ge | Cmp if a.prov == 0 && a.slope == 0 && a.base < 4096 => {
                out.konst(lo, hi, scalar(op, 64, false, a.base, 1 << 40).unwrap());
                return Ok(());
            }
            And | Rem if b.prov == 0 && b.slope == 0 && b.base <= 16 => {
                let mut a = a;
                a.prov = 0;
                return seg(op, bits, signed, a, b, out);
            }
            Add | Sub | And | Or | Xor if b.prov == 0 => {
                // offset arithmetic; And with an alignment mask; Or/Xor 0
                if op == And {
                    if b.slope != 0 || (!b.base & mask(bits)) > 15 {
                        return Err("pointer masked".into());
                    }
                } else if (op == Or || op == Xor) && !(b.slope == 0 && b.base == 0) {
                    return Err("pointer or-ed".into());
                }
                // offsets wrap modulo 2^64
                for_points(op, 64, false, a, b, out, a.prov)?;
                return Ok(());
            }
            Add if a.prov == 0 => {
                for_points(op, 64, false, a, b, out, b.prov)?;
                return Ok(());
            }
            AddO | SubO if b.prov == 0 => {
                out.konst(lo, hi, 0);
                return Ok(());
            }
            _ => return Err(format!("operation {:?} on pointers {:x} {:x}", op, a.prov, b.prov)),
        }
    }
    if a.slope == 0 && b.slope == 0 {
        let v = scalar(op, bits, signed, a.base, b.base).ok_or("division by zero")?;
        out.konst(lo, hi, v);
        return Ok(());
    }
    let m = mask(bits) as i128;
    let (a0, b0) = (a.base as i128, b.base as i128);
    let (sa, sb) = (a.slope as i128, b.slope as i128);
    let affine = |out: &mut Bld, r0: i128, s: i128| -> bool {
        let r1 = r0 + s * n;
        if r0 >= 0 && r1 >= 0 && r0 <= m && r1 <= m {
            out.push(Piece { lo, hi, prov: 0, base: r0 as u64, slope: s as i64 });
            true
        } else if r0 < 0 && r1 < 0 && r0 >= -m - 1 && r1 >= -m - 1 {
            // wraps as a whole
            out.push(Piece { lo, hi, prov: 0, base: (r0 + m + 1) as u64, slope: s as i64 });
            true
        } else if r0 > m && r1 > m && r0 <= 2 * m + 1 && r1 <= 2 * m + 1 {
            out.push(Piece { lo, hi, prov: 0, base: (r0 - m - 1) as u64, slope: s as i64 });
            true
        } else {
            false
        }
    };
    match op {
        Add => {
            if affine(out, a0 + b0, sa + sb) {
                return Ok(());
            }
            // split at the wrap point: pointwise otherwise
        }
        Sub => {
            let (r0, s) = (a0 - b0, sa - sb);
            if affine(out, r0, s) {
                return Ok(());
            }
            if s != 0 && n > 64 {
                // one sign change: split there
                let r1 = r0 + s * n;
                if (r0 < 0) != (r1 < 0) && r0.abs() <= m && r1.abs() <= m {
                    // first k with sign of r1
                    let k = if s > 0 { (-r0 + s - 1) / s } else { r0 / (-s) + 1 };
                    let mid = lo + k as u32;
                    seg(op, bits, signed, a.sub(lo, mid - 1), b.sub(lo, mid - 1), out)?;
                    seg(op, bits, signed, a.sub(mid, hi), b.sub(mid, hi), out)?;
                    return Ok(());
                }
            }
        }
        Mul => {
            if sb == 0 && affine(out, a0 * b0, sa * b0) {
                return Ok(());
            }
            if sa == 0 && affine(out, a0 * b0, sb * a0) {
                return Ok(());
            }
        }
        Shl if sb == 0 => {
            let s = b.base & (bits as u64 - 1);
            if affine(out, a0 << s, sa << s) {
                return Ok(());
            }
        }
        AddO | SubO | MulO if !signed => {
            let (r0, r1) = match op {
                AddO => (a0 + b0, a0 + b0 + (sa + sb) * n),
                SubO => (a0 - b0, a0 - b0 + (sa - sb) * n),
                _ => (a0 * b0, (a0 + sa * n) * (b0 + sb * n)),
            };
            let ok = |r: i128| r >= 0 && r <= m;
            if op == MulO && sa != 0 && sb != 0 {
                return for_points(op, bits, signed, a, b, out, 0);
            }
            if ok(r0) && ok(r1) {
                out.konst(lo, hi, 0);
                return Ok(());
            }
            if (r0 < 0 && r1 < 0) || (r0 > m && r1 > m) {
                out.konst(lo, hi, 1);
                return Ok(());
            }
            // otherwise one or two crossings
            if n > 64 {
                let h = lo + (hi - lo) / 2;
                seg(op, bits, signed, a.sub(lo, h), b.sub(lo, h), out)?;
                seg(op, bits, signed, a.sub(h + 1, hi), b.sub(h + 1, hi), out)?;
                return Ok(());
            }
        }
        Eq | Ne | Lt | Le | Gt | Ge | Cmp => {
            let (mut a0, mut b0) = (a0, b0);
            let mut okk = true;
            if signed {
                let half = 1i128 << (bits - 1);
                let side = |r0: i128, r1: i128| {
                    if r0 < half && r1 < half {
                        Some(false)
                    } else if r0 >= half && r1 >= half {
                        Some(true)
                    } else {
                        None
                    }
                };
                match (side(a0, a0 + sa * n), side(b0, b0 + sb * n)) {
                    (Some(x), Some(y)) => {
                        if x {
                            a0 -= half * 2
                        }
                        if y {
                            b0 -= half * 2
                        }
                    }
                    _ => okk = false,
                }
            }
            if okk {
                let d0 = a0 - b0;
                let s = sa - sb;
                let val = |d: i128| -> u64 {
                    match op {
                        Eq => (d == 0) as u64,
                        Ne => (d != 0) as u64,
                        Lt => (d < 0) as u64,
                        Le => (d <= 0) as u64,
                        Gt => (d > 0) as u64,
                        Ge => (d >= 0) as u64,
                        _ => d.signum() as i8 as u8 as u64,
                    }
                };
                if s == 0 {
                    out.konst(lo, hi, val(d0));
                    return Ok(());
                }
                // sign pattern along x: first part, zero (maybe), last part
                // k0 = first k with sign != sign(first)
                let k_zero_lo; // first k where d reaches 0 or beyond
                if s > 0 {
                    k_zero_lo = if d0 >= 0 { 0 } else { (-d0 + s - 1) / s };
                } else {
                    k_zero_lo = if d0 <= 0 { 0 } else { (d0 + (-s) - 1) / (-s) };
                }
                let exact = k_zero_lo <= n && d0 + s * k_zero_lo == 0;
                if k_zero_lo > 0 {
                    let e = (k_zero_lo - 1).min(n);
                    out.konst(lo, lo + e as u32, val(-s.signum()));
                }
                if exact {
                    out.konst(lo + k_zero_lo as u32, lo + k_zero_lo as u32, val(0));
                }
                let rest = if exact { k_zero_lo + 1 } else { k_zero_lo };
                if rest <= n {
                    out.konst(lo + rest as u32, hi, val(s.signum()));
                }
                return Ok(());
            }
        }
        And | Or | Xor if sa == 0 || sb == 0 => {
            let (f, c) = if sb == 0 { (a, b.base) } else { (b, a.base) };
            // the bits the affine side can have set
            let tz = f.base.trailing_zeros().min((f.slope as u64).trailing_zeros());
            let top = f.base.max(f.at(hi));
            let can = if top == 0 { 0 } else { (u64::MAX >> top.leading_zeros()) & (u64::MAX.checked_shl(tz).unwrap_or(0)) };
            if op == And && can & c == can {
                out.push(f.sub(lo, hi));
                return Ok(());
            }
            if can & c == 0 {
                if op == And {
                    out.konst(lo, hi, 0);
                } else {
                    out.push(Piece { lo, hi, prov: 0, base: f.base | c, slope: f.slope });
                }
                return Ok(());
            }
            if op == And && sb == 0 && sa == 1 && b.base != u64::MAX && (b.base & (b.base + 1)) == 0 {
                return seg(Rem, bits, false, a, Piece { base: b.base + 1, ..b }, out);
            }
        }
        Div | Shr if !signed && sb == 0 && sa == 1 => {
            let d = if op == Div { b.base } else { 1u64.checked_shl((b.base & (bits as u64 - 1)) as u32).unwrap() };
            if d == 0 {
                return Err("division by zero".into());
            }
            if n as u64 / d > PIECES {
                return Err("too many pieces".into());
            }
            let (mut x, end) = (a.base, a.at(hi));
            while x <= end {
                let q = x / d;
                let e = (q * d + (d - 1)).min(end);
                out.konst(lo + (x - a.base) as u32, lo + (e - a.base) as u32, q);
                x = e + 1;
            }
            return Ok(());
        }
        Rem | And if !signed && sb == 0 && sa == 1 && (op == Rem || (b.base != u64::MAX && (b.base & (b.base + 1)) == 0)) => {
            let d = if op == Rem { b.base } else { b.base + 1 };
            if d == 0 {
                return Err("division by zero".into());
            }
            if n as u64 / d > PIECES {
                return Err("too many pieces".into());
            }
            let (mut x, end) = (a.base, a.at(hi));
            while x <= end {
                let q = x / d;
                let e = (q * d + (d - 1)).min(end);
                out.push(Piece { lo: lo + (x - a.base) as u32, hi: lo + (e - a.base) as u32, prov: 0, base: x - q * d, slope: 1 });
                x = e + 1;
            }
            return Ok(());
        }
        _ => {}
    }
    for_points(op, bits, signed, a, b, out, 0)
}

fn for_points(op: Op, bits: u32, signed: bool, a: Piece, b: Piece, out: &mut Bld, prov: Prov) -> Result<(), String> {
    if a.slope == 0 && b.slope == 0 {
        let v = scalar(op, bits, signed, a.base, b.base).ok_or("division by zero")?;
        out.push(Piece { lo: a.lo, hi: a.hi, prov, base: v, slope: 0 });
        return Ok(());
    }
    if prov != 0 && matches!(op, Op::Add | Op::Sub) {
        let r = |x: i128, y: i128| if op == Op::Add { x + y } else { x - y };
        let n = (a.hi - a.lo) as i128;
        // offsets are small; a negative b is 2^64 - k
        let bb = if b.base > 1 << 62 && b.at(b.hi) > 1 << 62 { b.base as i128 - (1i128 << 64) } else { b.base as i128 };
        let r0 = r(a.base as i128, bb);
        let s = r(a.slope as i128, b.slope as i128);
        if r0 >= 0 && r0 + s * n >= 0 {
            out.push(Piece { lo: a.lo, hi: a.hi, prov, base: r0 as u64, slope: s as i64 });
            return Ok(());
        }
    }
    if (a.hi - a.lo) as u64 > PIECES {
        return Err("too many pieces".into());
    }
    for x in a.lo..=a.hi {
        let v = scalar(op, bits, signed, a.at(x), b.at(x)).ok_or("division by zero")?;
        out.val(x, prov, v);
    }
    Ok(())
}

/// Lift `op` to piecewise functions of the same symbol.
pub fn zip(op: Op, bits: u32, signed: bool, a: &Pw, b: &Pw) -> Result<Pw, String> {
    let mut out = Bld::default();
    let (mut i, mut j) = (0, 0);
    while i < a.0.len() && j < b.0.len() {
        let p = a.0[i];
        let q = b.0[j];
        let l = p.lo.max(q.lo);
        let h = p.hi.min(q.hi);
        if l <= h {
            seg(op, bits, signed, p.sub(l, h), q.sub(l, h), &mut out)?;
        }
        if p.hi < q.hi {
            i += 1
        } else {
            j += 1
        }
    }
    Ok(out.done())
}

pub fn with_const_r(op: Op, bits: u32, signed: bool, a: &Pw, v: u64, prov: Prov) -> Result<Pw, String> {
    let mut out = Bld::default();
    for p in &a.0 {
        seg(op, bits, signed, *p, Piece { lo: p.lo, hi: p.hi, prov, base: v, slope: 0 }, &mut out)?;
    }
    Ok(out.done())
}
pub fn with_const_l(op: Op, bits: u32, signed: bool, v: u64, prov: Prov, b: &Pw) -> Result<Pw, String> {
    let mut out = Bld::default();
    for p in &b.0 {
        seg(op, bits, signed, Piece { lo: p.lo, hi: p.hi, prov, base: v, slope: 0 }, *p, &mut out)?;
    }
    Ok(out.done())
}

/// Pointwise map; affine pieces are walked.
pub fn map(a: &Pw, f: &mut dyn FnMut(Prov, u64) -> Result<(Prov, u64), String>) -> Result<Pw, String> {
    let mut out = Bld::default();
    for p in &a.0 {
        if p.slope == 0 {
            let (r, v) = f(p.prov, p.base)?;
            out.push(Piece { lo: p.lo, hi: p.hi, prov: r, base: v, slope: 0 });
        } else {
            if (p.hi - p.lo) as u64 > PIECES {
                return Err("too many pieces".into());
            }
            for x in p.lo..=p.hi {
                let (r, v) = f(p.prov, p.at(x))?;
                out.val(x, r, v);
            }
        }
    }
    Ok(out.done())
}

/// x |-> if cond(x) then a(x) else b(x), on the domain of cond.
pub fn select(cond: &Pw, a: &Pw, b: &Pw) -> Pw {
    let t: Vec<(u32, u32)> = cond.0.iter().flat_map(|p| truth(p, true)).collect();
    let f: Vec<(u32, u32)> = cond.0.iter().flat_map(|p| truth(p, false)).collect();
    a.restrict(&Reg::new(t)).concat(&b.restrict(&Reg::new(f)))
}
fn truth(p: &Piece, want: bool) -> Vec<(u32, u32)> {
    if p.slope == 0 {
        if (p.base != 0) == want {
            vec![(p.lo, p.hi)]
        } else {
            vec![]
        }
    } else {
        (p.lo..=p.hi).filter(|&x| (p.at(x) != 0) == want).map(|x| (x, x)).collect()
    }
}

/// Narrow/extend: from `fb` bits to `tb` bits.
pub fn cast(a: &Pw, fb: u32, fsigned: bool, tb: u32) -> Result<Pw, String> {
    let mut out = Bld::default();
    let m = mask(tb);
    for p in &a.0 {
        if p.prov != 0 {
            if tb < 64 {
                return Err("pointer truncated".into());
            }
            out.push(*p);
            continue;
        }
        let (_, z) = p.ends();
        if tb <= fb {
            if z <= m {
                out.push(*p);
                continue;
            }
        } else if !fsigned || z <= mask(fb) >> 1 {
            out.push(*p);
            continue;
        }
        let g = |v: u64| if tb <= fb || !fsigned { v & m } else { sx(v, fb) as u64 & m };
        if p.slope == 0 {
            out.konst(p.lo, p.hi, g(p.base));
        } else if p.slope == 1 && tb <= fb && tb < 64 {
            // blocks
            if (p.hi - p.lo) as u64 / m.max(1) > PIECES {
                return Err("too many pieces".into());
            }
            let (mut x, end) = (p.base, p.at(p.hi));
            while x <= end {
                let e = (x | m).min(end);
                out.push(Piece { lo: p.lo + (x - p.base) as u32, hi: p.lo + (e - p.base) as u32, prov: 0, base: x & m, slope: 1 });
                x = e + 1;
            }
        } else {
            if (p.hi - p.lo) as u64 > PIECES {
                return Err("too many pieces".into());
            }
            for x in p.lo..=p.hi {
                out.val(x, 0, g(p.at(x)));
            }
        }
    }
    Ok(out.done())
}

#[cfg(test)]
mod tests {
    use super::*;
    fn pw(v: &[(u32, u32, u64, i64)]) -> Pw {
        Pw(v.iter().map(|&(lo, hi, base, slope)| Piece { lo, hi, prov: 0, base, slope }).collect())
    }
    // every lifted operation equals the concrete one at every point
    #[test]
    fn lifted_ops_agree_pointwise() {
        use Op::*;
        let fs = vec![
            pw(&[(0, 300, 0, 1)]),
            pw(&[(0, 99, 5, 0), (100, 300, 200, -1)]),
            pw(&[(0, 50, 250, 0), (51, 300, 0, 1)]),
            pw(&[(0, 300, 3, 2)]),
            pw(&[(0, 300, 900, -3)]),
            pw(&[(0, 300, 7, 0)]),
            pw(&[(0, 300, 8, 0)]),
            pw(&[(0, 300, 63, 0)]),
            pw(&[(0, 300, 65000, 1)]),
            pw(&[(0, 300, 32700, 1)]),
        ];
        for bits in [16u32, 32, 64] {
            for signed in [false, true] {
                for a in &fs {
                    for b in &fs {
                        for op in [Add, Sub, Mul, Div, Rem, And, Or, Xor, Shl, Shr, Eq, Ne, Lt, Le, Gt, Ge, Cmp, AddO, SubO, MulO, SatAdd, SatSub] {
                            let m = mask(bits);
                            let a2 = cast(a, 64, false, bits).unwrap();
                            let b2 = cast(b, 64, false, bits).unwrap();
                            let r = match zip(op, bits, signed, &a2, &b2) {
                                Ok(r) => r,
                                Err(_) => continue,
                            };
                            for x in 0..=300u32 {
                                let va = a.find(x).unwrap().at(x) & m;
                                let vb = b.find(x).unwrap().at(x) & m;
                                let e = scalar(op, bits, signed, va, vb).unwrap();
                                assert_eq!(r.find(x).unwrap().at(x), e, "{:?} {} {} {:?} {:?} at {}", op, bits, signed, a2, b2, x);
                            }
                        }
                    }
                }
            }
        }
    }
}
