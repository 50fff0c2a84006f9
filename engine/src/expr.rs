//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u64,
}

pub type VSet = u128;

pub struct Arena {
    pub n: Vec<Node>,
    pub vars: Vec<VSet>,
    map: HashMap<Node, Id, Fx>,
    pub tabs: Vec<Rc<[u64; 256]>>,
    tabmap: HashMap<(Vec<u64>, u32), u32>,
    utab: HashMap<Id, Rc<[u64; 256]>, Fx>,
    stamp: Vec<u32>,
    memo: Vec<u64>,
    cur: u32,
    /// take only the bits needed of sums when single bits are asked for
    pub narrow: bool,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn apply2(op: O, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    (match op {
        O::Add => a.wrapping_add(b),
        O::Sub => a.wrapping_sub(b),
        O::Mul => a.wrapping_mul(b),
        O::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        O::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        O::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        O::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        O::And => a & b,
        O::Or => a | b,
        O::Xor => a ^ b,
        O::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        O::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        O::AShr => {
            let s = if b >= w as u64 { (w - 1) as u64 } else { b };
            (sx(a, w) >> s) as u64
        }
        _ => unreachable!(),
    }) & m
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            n: Vec::new(),
            vars: Vec::new(),
            map: HashMap::default(),
            tabs: Vec::new(),
            tabmap: HashMap::new(),
            utab: HashMap::default(),
            stamp: Vec::new(),
            memo: Vec::new(),
            cur: 0,
            narrow: false,
        };
        // id 0 is reserved for "concrete"
        a.n.push(Node {
            op: O::Const,
            w: 0,
            a: 0,
            b: 0,
            c: 0,
            k: 0,
        });
        a.vars.push(0);
        a.stamp.push(0);
        a.memo.push(0);
        a
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let vs = match n.op {
            O::Const => 0,
            O::Var | O::Tab => 1u128 << n.a,
            O::Ite => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
            O::ZExt | O::SExt | O::Extract => self.vars[n.a as usize],
            _ => self.vars[n.a as usize] | self.vars[n.b as usize],
        };
        let id = self.n.len() as u32;
        self.n.push(n);
        self.vars.push(vs);
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn k(&mut self, v: u64, w: u8) -> Id {
        self.mk(Node {
            op: O::Const,
            w,
            a: 0,
            b: 0,
            c: 0,
            k: v & mask(w),
        })
    }
    pub fn var(&mut self, i: u32) -> Id {
        self.mk(Node {
            op: O::Var,
            w: 8,
            a: i,
            b: 0,
            c: 0,
            k: 0,
        })
    }
    pub fn tab(&mut self, var: u32, t: &[u64; 256], w: u8) -> Id {
        let ti = match self.tabmap.get(&(t.to_vec(), w as u32)) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(Rc::new(*t));
                self.tabmap.insert((t.to_vec(), w as u32), i);
                i
            }
        };
        self.mk(Node {
            op: O::Tab,
            w,
            a: var,
            b: 0,
            c: 0,
            k: ti as u64,
        })
    }
    #[inline]
    pub fn w(&self, i: Id) -> u8 {
        self.n[i as usize].w
    }
    #[inline]
    pub fn cv(&self, i: Id) -> Option<u64> {
        let n = &self.n[i as usize];
        if n.op == O::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn op(&self, i: Id) -> O {
        self.n[i as usize].op
    }
    fn raw2(&mut self, op: O, w: u8, a: Id, b: Id) -> Id {
        self.mk(Node {
            op,
            w,
            a,
            b,
            c: 0,
            k: 0,
        })
    }
    pub fn not(&mut self, a: Id) -> Id {
        let one = self.k(1, 1);
        self.bin(O::Xor, a, one)
    }
    /// is this `not x`? returns x
    pub fn as_not(&self, a: Id) -> Option<Id> {
        let n = self.n[a as usize];
        if n.op == O::Xor && n.w == 1 && self.cv(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn bin(&mut self, op: O, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = apply2(op, w, x, y);
            return self.k(v, w);
        }
        let m = mask(w);
        match op {
            O::Add | O::Mul | O::And | O::Or | O::Xor => {
                // constants to the right, otherwise order by id
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_comm(op, w, b, a);
                }
                self.bin_comm(op, w, a, b)
            }
            O::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(y) = cb {
                    let k = self.k(y.wrapping_neg(), w);
                    return self.bin(O::Add, a, k);
                }
                self.raw2(op, w, a, b)
            }
            O::Shl => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u64 {
                        return self.k(0, w);
                    }
                    let l = self.extract(a, 0, w - s as u8);
                    let z = self.k(0, s as u8);
                    return self.concat(l, z);
                }
                if ca == Some(0) {
                    return a;
                }
                self.raw2(op, w, a, b)
            }
            O::LShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u64 {
                        return self.k(0, w);
                    }
                    let l = self.extract(a, s as u8, w - s as u8);
                    return self.zext(l, w);
                }
                if ca == Some(0) {
                    return a;
                }
                self.raw2(op, w, a, b)
            }
            O::AShr => {
                if let Some(s) = cb {
                    let s = s.min(w as u64 - 1);
                    if s == 0 {
                        return a;
                    }
                    let l = self.extract(a, s as u8, w - s as u8);
                    return self.sext(l, w);
                }
                self.raw2(op, w, a, b)
            }
            O::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.k(y.trailing_zeros() as u64, w);
                        return self.bin(O::LShr, a, s);
                    }
                }
                let _ = m;
                self.raw2(op, w, a, b)
            }
            O::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.k(y - 1, w);
                        return self.bin(O::And, a, s);
                    }
                }
                self.raw2(op, w, a, b)
            }
            _ => self.raw2(op, w, a, b),
        }
    }
    fn bin_comm(&mut self, op: O, w: u8, a: Id, b: Id) -> Id {
        let m = mask(w);
        let cb = self.cv(b);
        let na = self.n[a as usize];
        match op {
            O::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == O::Add {
                        if let Some(x) = self.cv(na.b) {
                            let k = self.k(x.wrapping_add(y), w);
                            return self.bin(O::Add, na.a, k);
                        }
                    }
                }
            }
            O::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            O::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if let Some(y) = cb {
                    if y & (y + 1) == 0 {
                        // low mask
                        let bits = y.count_ones() as u8;
                        let e = self.extract(a, 0, bits);
                        return self.zext(e, w);
                    }
                    if na.op == O::And {
                        if let Some(x) = self.cv(na.b) {
                            let k = self.k(x & y, w);
                            return self.bin(O::And, na.a, k);
                        }
                    }
                    if na.op == O::ZExt && y > mask(self.w(na.a)) {
                        let wa = self.w(na.a);
                        let k = self.k(y & mask(wa), wa);
                        let i = self.bin(O::And, na.a, k);
                        return self.zext(i, w);
                    }
                }
                if w == 1 && (self.as_not(a) == Some(b) || self.as_not(b) == Some(a)) {
                    return self.k(0, 1);
                }
            }
            O::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 && (self.as_not(a) == Some(b) || self.as_not(b) == Some(a)) {
                    return self.k(1, 1);
                }
                if cb.is_none() {
                    // disjoint concatenation: zext(l) | concat(h, 0..)
                    for (x, y) in [(a, b), (b, a)] {
                        let nx = self.n[x as usize];
                        let ny = self.n[y as usize];
                        if nx.op == O::ZExt
                            && ny.op == O::Concat
                            && self.cv(ny.b) == Some(0)
                            && self.w(ny.b) >= self.w(nx.a)
                        {
                            let lw = self.w(ny.b);
                            let l = self.zext(nx.a, lw);
                            return self.concat(ny.a, l);
                        }
                    }
                }
            }
            O::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == O::Xor {
                        if let Some(x) = self.cv(na.b) {
                            let k = self.k(x ^ y, w);
                            return self.bin(O::Xor, na.a, k);
                        }
                    }
                }
            }
            _ => {}
        }
        self.raw2(op, w, a, b)
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.k(n.k, w),
            O::ZExt => self.zext(n.a, w),
            _ => self.mk(Node {
                op: O::ZExt,
                w,
                a,
                b: 0,
                c: 0,
                k: 0,
            }),
        }
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n[a as usize];
        match n.op {
            O::Const => self.k(sx(n.k, wa) as u64, w),
            O::ZExt => self.zext(n.a, w),
            _ => self.mk(Node {
                op: O::SExt,
                w,
                a,
                b: 0,
                c: 0,
                k: 0,
            }),
        }
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let n = self.n[a as usize];
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            O::Const => self.k(n.k >> lo, w),
            O::Extract => self.extract(n.a, lo + n.k as u8, w),
            O::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    self.k(0, w)
                } else if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else {
                    let e = self.extract(n.a, lo, wi - lo);
                    self.zext(e, w)
                }
            }
            O::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            O::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else {
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, lo + w - wl);
                    self.concat(h, l)
                }
            }
            O::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            // the bits above do not matter
            O::Add | O::Sub | O::Mul if self.narrow && lo + w < self.w(a) => {
                let x = self.extract(n.a, 0, lo + w);
                let y = self.extract(n.b, 0, lo + w);
                let e = self.bin(n.op, x, y);
                self.extract(e, lo, w)
            }
            O::Tab => {
                let t = self.tabs[n.k as usize].clone();
                let mut r = [0u64; 256];
                for i in 0..256 {
                    r[i] = (t[i] >> lo) & mask(w);
                }
                self.tab(n.a, &r, w)
            }
            _ => self.mk(Node {
                op: O::Extract,
                w,
                a,
                b: 0,
                c: 0,
                k: lo as u64,
            }),
        }
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        let w = nh.w + nl.w;
        debug_assert!(w <= 64);
        if nh.op == O::Const && nl.op == O::Const {
            return self.k((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == O::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == O::Extract {
            if nl.op == O::Extract && nl.a == nh.a && nl.k + nl.w as u64 == nh.k {
                return self.extract(nh.a, nl.k as u8, w);
            }
            if nl.op == O::Concat {
                // (x[hi] ++ (x[mid] ++ r))
                let m = self.n[nl.a as usize];
                if m.op == O::Extract && m.a == nh.a && m.k + m.w as u64 == nh.k {
                    let e = self.extract(nh.a, m.k as u8, m.w + nh.w);
                    return self.concat(e, nl.b);
                }
            }
        }
        if nh.op == O::ZExt {
            // 0 ++ x ++ l  ==> zext(x ++ l)
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        self.mk(Node {
            op: O::Concat,
            w,
            a: h,
            b: l,
            c: 0,
            k: 0,
        })
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.cv(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(x) = self.as_not(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(O::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(O::And, n, b);
                }
                (None, Some(0)) => return self.bin(O::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(O::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(Node {
            op: O::Ite,
            w,
            a: c,
            b: a,
            c: b,
            k: 0,
        })
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.k(1, 1);
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k((x == y) as u64, 1);
        }
        if ca.is_some() || (cb.is_none() && a > b) {
            return self.eq(b, a);
        }
        let na = self.n[a as usize];
        if let Some(y) = cb {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                O::ZExt => {
                    let wi = self.w(na.a);
                    if y > mask(wi) {
                        return self.k(0, 1);
                    }
                    let k = self.k(y, wi);
                    return self.eq(na.a, k);
                }
                O::SExt => {
                    let wi = self.w(na.a);
                    if sx(y & mask(wi), wi) as u64 & mask(w) != y {
                        return self.k(0, 1);
                    }
                    let k = self.k(y, wi);
                    return self.eq(na.a, k);
                }
                O::Concat => {
                    let wl = self.w(na.b);
                    let kl = self.k(y & mask(wl), wl);
                    let wh = self.w(na.a);
                    let kh = self.k(y >> wl, wh);
                    let e1 = self.eq(na.b, kl);
                    let e2 = self.eq(na.a, kh);
                    return self.bin(O::And, e1, e2);
                }
                O::Ite if self.cv(na.b).is_some() || self.cv(na.c).is_some() => {
                    let x = self.eq(na.b, b);
                    let z = self.eq(na.c, b);
                    return self.ite(na.a, x, z);
                }
                O::Xor => {
                    if let Some(x) = self.cv(na.b) {
                        let k = self.k(x ^ y, w);
                        return self.eq(na.a, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                O::Add => {
                    if let Some(x) = self.cv(na.b) {
                        let k = self.k(y.wrapping_sub(x), w);
                        return self.eq(na.a, k);
                    }
                }
                O::Sub if y == 0 => return self.eq(na.a, na.b),
                O::Or if y == 0 => {
                    let z = self.k(0, w);
                    let e1 = self.eq(na.a, z);
                    let e2 = self.eq(na.b, z);
                    return self.bin(O::And, e1, e2);
                }
                _ => {}
            }
            return self.raw2(O::Eq, 1, a, b);
        }
        let nb = self.n[b as usize];
        if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
            let e1 = self.eq(na.b, nb.b);
            let e2 = self.eq(na.a, nb.a);
            return self.bin(O::And, e1, e2);
        }
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        for (x, y) in [(na, nb), (nb, na)] {
            if x.op == O::Concat && y.op == O::ZExt && self.w(x.b) == self.w(y.a) {
                let wh = self.w(x.a);
                let z = self.k(0, wh);
                let e1 = self.eq(x.b, y.a);
                let e2 = self.eq(x.a, z);
                return self.bin(O::And, e1, e2);
            }
        }
        self.raw2(O::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k((x < y) as u64, 1);
        }
        let m = mask(w);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if let Some(y) = cb {
            if y == 0 {
                return self.k(0, 1);
            }
            if y == 1 {
                let z = self.k(0, w);
                return self.eq(a, z);
            }
            if na.op == O::ZExt {
                let wi = self.w(na.a);
                if y > mask(wi) {
                    return self.k(1, 1);
                }
                let k = self.k(y, wi);
                return self.ult(na.a, k);
            }
            if na.op == O::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                let x = self.ult(na.b, b);
                let z = self.ult(na.c, b);
                return self.ite(na.a, x, z);
            }
        }
        if let Some(x) = ca {
            if x == m {
                return self.k(0, 1);
            }
            if x == 0 {
                let z = self.k(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            if nb.op == O::ZExt {
                let wi = self.w(nb.a);
                if x >= mask(wi) {
                    return self.k(0, 1);
                }
                let k = self.k(x, wi);
                return self.ult(k, nb.a);
            }
            if nb.op == O::Ite && self.cv(nb.b).is_some() && self.cv(nb.c).is_some() {
                let x = self.ult(a, nb.b);
                let z = self.ult(a, nb.c);
                return self.ite(nb.a, x, z);
            }
        }
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.raw2(O::Ult, 1, a, b)
    }
    fn nonneg(&self, a: Id) -> bool {
        let n = self.n[a as usize];
        match n.op {
            O::Const => n.k >> (n.w - 1) == 0,
            O::ZExt => true,
            _ => false,
        }
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.k((sx(x, w) < sx(y, w)) as u64, 1);
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == O::Ite
            && self.cv(b).is_some()
            && self.cv(na.b).is_some()
            && self.cv(na.c).is_some()
        {
            let x = self.slt(na.b, b);
            let z = self.slt(na.c, b);
            return self.ite(na.a, x, z);
        }
        if nb.op == O::Ite
            && self.cv(a).is_some()
            && self.cv(nb.b).is_some()
            && self.cv(nb.c).is_some()
        {
            let x = self.slt(a, nb.b);
            let z = self.slt(a, nb.c);
            return self.ite(nb.a, x, z);
        }
        self.raw2(O::Slt, 1, a, b)
    }

    /// value under a byte assignment
    pub fn eval(&mut self, id: Id, inp: &[u8]) -> u64 {
        self.cur += 1;
        if self.cur == u32::MAX {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.cur = 1;
        }
        self.ev(id, inp)
    }
    fn ev(&mut self, id: Id, inp: &[u8]) -> u64 {
        let i = id as usize;
        let n = self.n[i];
        match n.op {
            O::Const => return n.k,
            O::Var => return inp[n.a as usize] as u64,
            O::Tab => return self.tabs[n.k as usize][inp[n.a as usize] as usize],
            _ => {}
        }
        if self.stamp[i] == self.cur {
            return self.memo[i];
        }
        let v = match n.op {
            O::Ite => {
                if self.ev(n.a, inp) != 0 {
                    self.ev(n.b, inp)
                } else {
                    self.ev(n.c, inp)
                }
            }
            O::ZExt => self.ev(n.a, inp),
            O::SExt => sx(self.ev(n.a, inp), self.n[n.a as usize].w) as u64 & mask(n.w),
            O::Extract => (self.ev(n.a, inp) >> n.k) & mask(n.w),
            O::Concat => {
                let h = self.ev(n.a, inp);
                let l = self.ev(n.b, inp);
                (h << self.n[n.b as usize].w) | l
            }
            O::Eq => (self.ev(n.a, inp) == self.ev(n.b, inp)) as u64,
            O::Ult => (self.ev(n.a, inp) < self.ev(n.b, inp)) as u64,
            O::Slt => {
                let w = self.n[n.a as usize].w;
                (sx(self.ev(n.a, inp), w) < sx(self.ev(n.b, inp), w)) as u64
            }
            _ => {
                let a = self.ev(n.a, inp);
                let b = self.ev(n.b, inp);
                apply2(n.op, n.w, a, b)
            }
        };
        self.stamp[i] = self.cur;
        self.memo[i] = v;
        v
    }
    /// truth/value table of an expression over at most one variable
    pub fn utab(&mut self, id: Id) -> Rc<[u64; 256]> {
        if let Some(t) = self.utab.get(&id) {
            return t.clone();
        }
        let n = self.n[id as usize];
        let mut r = [0u64; 256];
        match n.op {
            O::Const => r = [n.k; 256],
            O::Var => {
                for (i, x) in r.iter_mut().enumerate() {
                    *x = i as u64
                }
            }
            O::Tab => r = *self.tabs[n.k as usize],
            O::Ite => {
                let c = self.utab(n.a);
                let a = self.utab(n.b);
                let b = self.utab(n.c);
                for i in 0..256 {
                    r[i] = if c[i] != 0 { a[i] } else { b[i] };
                }
            }
            O::ZExt => r = *self.utab(n.a),
            O::SExt => {
                let a = self.utab(n.a);
                let wa = self.w(n.a);
                for i in 0..256 {
                    r[i] = sx(a[i], wa) as u64 & mask(n.w);
                }
            }
            O::Extract => {
                let a = self.utab(n.a);
                for i in 0..256 {
                    r[i] = (a[i] >> n.k) & mask(n.w);
                }
            }
            O::Concat => {
                let a = self.utab(n.a);
                let b = self.utab(n.b);
                let wl = self.w(n.b);
                for i in 0..256 {
                    r[i] = (a[i] << wl) | b[i];
                }
            }
            O::Eq | O::Ult | O::Slt => {
                let a = self.utab(n.a);
                let b = self.utab(n.b);
                let w = self.w(n.a);
                for i in 0..256 {
                    r[i] = match n.op {
                        O::Eq => a[i] == b[i],
                        O::Ult => a[i] < b[i],
                        _ => sx(a[i], w) < sx(b[i], w),
                    } as u64;
                }
            }
            _ => {
                let a = self.utab(n.a);
                let b = self.utab(n.b);
                for i in 0..256 {
                    r[i] = apply2(n.op, n.w, a[i], b[i]);
                }
            }
        }
        let rc = Rc::new(r);
        self.utab.insert(id, rc.clone());
        rc
    }
    pub fn umask(&mut self, id: Id, pol: bool) -> [u64; 4] {
        let t = self.utab(id);
        let mut m = [0u64; 4];
        for i in 0..256 {
            if (t[i] != 0) == pol {
                m[i >> 6] |= 1 << (i & 63);
            }
        }
        m
    }
    /// substitute variables: f gives for variable i either itself or a replacement node
    pub fn subst(
        &mut self,
        id: Id,
        touched: VSet,
        rep: &[Id],
        memo: &mut HashMap<Id, Id, Fx>,
    ) -> Id {
        if self.vars[id as usize] & touched == 0 {
            return id;
        }
        if let Some(r) = memo.get(&id) {
            return *r;
        }
        let n = self.n[id as usize];
        let r = match n.op {
            O::Var => rep[n.a as usize],
            O::Tab => {
                let r = rep[n.a as usize];
                let rn = self.n[r as usize];
                match rn.op {
                    O::Const => {
                        let v = self.tabs[n.k as usize][rn.k as usize];
                        self.k(v, n.w)
                    }
                    O::Var => self.mk(Node {
                        op: O::Tab,
                        w: n.w,
                        a: rn.a,
                        b: 0,
                        c: 0,
                        k: n.k,
                    }),
                    // representative xor offset
                    _ => {
                        let t = self.utab(r);
                        let old = self.tabs[n.k as usize].clone();
                        let mut new = [0u64; 256];
                        for i in 0..256 {
                            new[i] = old[t[i] as usize & 255];
                        }
                        let v = self.vars[r as usize].trailing_zeros();
                        self.tab(v, &new, n.w)
                    }
                }
            }
            O::Ite => {
                let c = self.subst(n.a, touched, rep, memo);
                match self.cv(c) {
                    Some(1) => self.subst(n.b, touched, rep, memo),
                    Some(_) => self.subst(n.c, touched, rep, memo),
                    None => {
                        let a = self.subst(n.b, touched, rep, memo);
                        let b = self.subst(n.c, touched, rep, memo);
                        self.ite(c, a, b)
                    }
                }
            }
            O::ZExt => {
                let a = self.subst(n.a, touched, rep, memo);
                self.zext(a, n.w)
            }
            O::SExt => {
                let a = self.subst(n.a, touched, rep, memo);
                self.sext(a, n.w)
            }
            O::Extract => {
                let a = self.subst(n.a, touched, rep, memo);
                self.extract(a, n.k as u8, n.w)
            }
            _ => {
                let a = self.subst(n.a, touched, rep, memo);
                let b = self.subst(n.b, touched, rep, memo);
                match n.op {
                    O::Concat => self.concat(a, b),
                    O::Eq => self.eq(a, b),
                    O::Ult => self.ult(a, b),
                    O::Slt => self.slt(a, b),
                    op => self.bin(op, a, b),
                }
            }
        };
        memo.insert(id, r);
        r
    }
    pub fn show(&self, id: Id, depth: u32) -> String {
        let n = self.n[id as usize];
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match n.op {
            O::Const => format!("{}:{}", n.k, n.w),
            O::Var => format!("x{}", n.a),
            O::Tab => format!("T{}[x{}]", n.k, n.a),
            O::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, d),
                self.show(n.b, d),
                self.show(n.c, d)
            ),
            O::ZExt | O::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d)),
            O::Extract => format!("{}[{}+{}]", self.show(n.a, d), n.k, n.w),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}
