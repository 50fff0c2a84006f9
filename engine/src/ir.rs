//! Reader for LLVM textual IR (the subset rustc emits after optimisation) and
//! lowering to a compact register program for the concolic interpreter.
//!
//! First class aggregates and vectors are flattened into scalar slots, i128 is
//! held in two 64-bit limbs; extractvalue / insertvalue / constant
//! extractelement / insertelement / shufflevector / freeze are pure renamings.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(usize, Box<Ty>),
    Arr(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(b) => (*b as u64 / 8).max(1),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(b) => *b as u64 / 8,
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => *n as u64 * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    /// scalar slots: (byte offset, bit width, is pointer); widths above 64 are
    /// split in 64-bit limbs.
    pub fn scalars(&self) -> Vec<(u64, u32, bool)> {
        let mut v = Vec::new();
        self.scalars_into(0, &mut v);
        v
    }
    fn scalars_into(&self, off: u64, out: &mut Vec<(u64, u32, bool)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Int(w) => {
                if *w <= 64 {
                    out.push((off, *w, false))
                } else {
                    let mut left = *w;
                    let mut o = off;
                    while left > 0 {
                        let t = left.min(64);
                        out.push((o, t, false));
                        o += 8;
                        left -= t;
                    }
                }
            }
            Ty::Ptr => out.push((off, 64, true)),
            Ty::Float(b) => {
                if *b <= 64 {
                    out.push((off, *b, false))
                } else {
                    out.push((off, 64, false));
                    out.push((off + 8, 64, false));
                }
            }
            Ty::Vec(n, t) => {
                let es = t.store_size();
                for i in 0..*n {
                    t.scalars_into(off + i as u64 * es, out);
                }
            }
            Ty::Arr(n, t) => {
                let es = t.size();
                for i in 0..*n {
                    t.scalars_into(off + i as u64 * es, out);
                }
            }
            Ty::Struct(f, p) => {
                let mut o = off;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    t.scalars_into(o, out);
                    o += t.size();
                }
            }
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => ((*w as usize) + 63) / 64,
            Ty::Ptr => 1,
            Ty::Float(b) => ((*b as usize) + 63) / 64,
            Ty::Vec(n, t) | Ty::Arr(n, t) => n * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
        }
    }
    fn field(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Struct(f, _) => {
                let s = f[..i].iter().map(|t| t.nslots()).sum();
                (s, f[i].clone())
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.nslots(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
}

/// Operand: top bit set = index into the global constant area, else frame slot.
pub type R = u32;
pub const RCONST: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ov {
    UAdd,
    USub,
    UMul,
    SAdd,
    SSub,
    SMul,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un {
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    Abs,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Bcmp,
    Memcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Panic,
    Trap,
    Nop,
    RandomKeys,
    SymByte,
    SymCfg,
    SymAssume,
    SymFail,
    SymAssert,
    SymReach,
    SymObserve,
    SymSteps,
    SymHeap,
    SymHeapPeak,
    SymHash,
    SymHashSeed,
    SymOut,
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin {
        op: Bin,
        w: u8,
        dst: u32,
        a: R,
        b: R,
    },
    Icmp {
        p: Pred,
        w: u8,
        dst: u32,
        a: R,
        b: R,
    },
    Icmp2 {
        p: Pred,
        dst: u32,
        a: [R; 2],
        b: [R; 2],
    },
    Bin2 {
        op: Bin,
        dst: u32,
        a: [R; 2],
        b: [R; 2],
    },
    Ov2 {
        op: Ov,
        dst: u32,
        a: [R; 2],
        b: [R; 2],
    },
    Select {
        w: u8,
        ptr: bool,
        dst: u32,
        c: R,
        a: R,
        b: R,
    },
    Un {
        op: Un,
        w: u8,
        dst: u32,
        a: R,
    },
    Ov {
        op: Ov,
        w: u8,
        dst: u32,
        a: R,
        b: R,
    },
    Fsh {
        left: bool,
        w: u8,
        dst: u32,
        a: R,
        b: R,
        c: R,
    },
    Cmp3 {
        signed: bool,
        w: u8,
        wd: u8,
        dst: u32,
        a: R,
        b: R,
    },
    ZExt {
        dst: u32,
        a: R,
        from: u8,
        to: u8,
    },
    SExt {
        dst: u32,
        a: R,
        from: u8,
        to: u8,
    },
    Trunc {
        dst: u32,
        a: R,
        from: u8,
        to: u8,
    },
    Copy {
        dst: u32,
        a: R,
    },
    AddOff {
        dst: u32,
        a: R,
        off: i64,
    },
    Gep {
        dst: u32,
        a: R,
        idx: R,
        iw: u8,
        scale: i64,
        off: i64,
    },
    Load {
        dst: u32,
        p: R,
        off: u32,
        w: u8,
    },
    Store {
        v: R,
        p: R,
        off: u32,
        w: u8,
    },
    Alloca {
        dst: u32,
        size: u64,
        align: u64,
    },
    /// lanes (lowest first) of `lw` bits packed into 64-bit slots
    Pack {
        dst: u32,
        lw: u8,
        lanes: Box<[R]>,
    },
    Unpack {
        dst: u32,
        lw: u8,
        n: u32,
        a: R,
    },
    Br {
        e: u32,
    },
    CondBr {
        c: R,
        t: u32,
        f: u32,
    },
    Switch {
        v: R,
        w: u8,
        cases: Box<[(u64, u32)]>,
        def: u32,
    },
    Ret {
        slots: Box<[R]>,
    },
    Call {
        f: u32,
        args: Box<[R]>,
        dst: u32,
    },
    CallInd {
        p: R,
        args: Box<[R]>,
        dst: u32,
        nret: u32,
    },
    CallExt {
        e: Ext,
        name: u32,
        args: Box<[R]>,
        dst: u32,
        nret: u32,
    },
    RmwAdd {
        dst: u32,
        p: R,
        v: R,
        w: u8,
        kind: u8,
    },
    CmpXchg {
        dst: u32,
        p: R,
        c: R,
        n: R,
        w: u8,
    },
    Unreachable,
    Unsupported {
        msg: u32,
    },
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, R)]>,
    pub hazard: bool,
}

pub struct Func {
    pub name: String,
    pub defined: bool,
    pub nargs: u32,
    pub nslots: u32,
    pub ops: Vec<Op>,
    pub edges: Vec<Edge>,
    pub ext: Ext,
    pub ninst: u32,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, usize>,
    pub consts: Vec<u64>,
    pub mem: Vec<u8>,             // initial image, starting at GLOBAL_BASE
    pub mutable: Vec<(u64, u64)>, // address, size of writable globals
    pub strings: Vec<String>,
}

pub const GLOBAL_BASE: u64 = 0x1_0000;
pub const FN_BASE: u64 = 0x7000_0000_0000;

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur {
            s: s.as_bytes(),
            i: 0,
        }
    }
    fn ws(&mut self) {
        while self.i < self.s.len()
            && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n')
        {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // whole word if alphabetic
            let e = self.i + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() || last == b'_' {
                if let Some(&c) = self.s.get(e) {
                    if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' {
                        return false;
                    }
                }
            }
            self.i = e;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!(
                "expected {:?} at ...{}... in {}",
                t,
                String::from_utf8_lossy(
                    &self.s[self.i.min(self.s.len())..(self.i + 60).min(self.s.len())]
                ),
                String::from_utf8_lossy(&self.s[..self.s.len().min(300)])
            );
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                self.i += 1;
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    /// after % or @ or label position
    fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                    self.i += 1;
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) {
        self.expect("(");
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        let c = self.peek();
        match c {
            b'{' | b'[' | b'<' | b'%' => true,
            b'i' => self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit()),
            _ => {
                let save = self.i;
                let w = self.word();
                self.i = save;
                matches!(
                    w,
                    "ptr"
                        | "void"
                        | "float"
                        | "double"
                        | "half"
                        | "fp128"
                        | "x86_fp80"
                        | "label"
                        | "metadata"
                        | "token"
                )
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.at_type() {
                return;
            }
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat("=") {
                    self.ws();
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if !(c.is_ascii_alphabetic() || c == b'_') {
                return;
            }
            let w = self.word();
            if w == "align" || w == "cc" {
                self.ws();
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    self.word();
                }
            } else if self.s.get(self.i) == Some(&b'(') {
                self.skip_parens();
            }
        }
    }
}

#[derive(Clone, Debug)]
enum V {
    Loc(u32),
    C(Vec<u64>),
}

#[derive(Clone, Debug)]
enum Callee {
    Fn(String),
    Ind(V),
    Asm(bool),
}

#[derive(Clone, Debug)]
enum I {
    Bin(String, Ty, V, V),
    Icmp(Pred, Ty, V, V),
    Select(Ty, Ty, V, V, V),
    Cast(String, Ty, V, Ty),
    Gep(Ty, V, Vec<(Ty, V)>),
    Load(Ty, V),
    Store(Ty, V, V),
    Alloca(u64, u64),
    ExtractValue(Ty, V, Vec<usize>),
    InsertValue(Ty, V, Ty, V, Vec<usize>),
    ExtractElement(Ty, V, V),
    InsertElement(Ty, V, V, V),
    Shuffle(Ty, V, V, Vec<u64>),
    Freeze(Ty, V),
    Phi(Ty, Vec<(V, String)>),
    Br(String),
    CondBr(V, String, String),
    Switch(Ty, V, Vec<(u64, String)>, String),
    Ret(Ty, Option<V>),
    Call(Ty, Callee, Vec<(Ty, V)>),
    Rmw(String, Ty, V, V),
    CmpXchg(Ty, V, V, V),
    Unreachable,
    Nop,
    Unsup(String),
}

pub struct Parser<'a> {
    named: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
    text: &'a str,
    funcs: Vec<Func>,
    fmap: HashMap<String, usize>,
    consts: Vec<u64>,
    cmap: HashMap<u64, u32>,
    strings: Vec<String>,
    locals: HashMap<String, u32>,
}

fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl<'a> Parser<'a> {
    fn ty(&self, c: &mut Cur) -> Ty {
        c.ws();
        let ch = c.peek();
        let t = match ch {
            b'i' => {
                c.i += 1;
                let w: u32 = c.word().parse().expect("int type");
                Ty::Int(w)
            }
            b'{' => {
                c.i += 1;
                let f = self.tylist(c, "}");
                Ty::Struct(f, false)
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let f = self.tylist(c, "}");
                    c.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n: usize = c.word().parse().expect("vec len");
                    c.expect("x");
                    let t = self.ty(c);
                    c.expect(">");
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                c.i += 1;
                let n: usize = c.word().parse().expect("arr len");
                c.expect("x");
                let t = self.ty(c);
                c.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                self.named.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => match c.word() {
                "ptr" => Ty::Ptr,
                "void" => Ty::Void,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(128),
                _ => Ty::Other,
            },
        };
        // function type suffix "i32 (ptr, ...)" only appears for varargs calls
        t
    }
    fn tylist(&self, c: &mut Cur, end: &str) -> Vec<Ty> {
        let mut v = Vec::new();
        if c.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty(c));
            if c.eat(end) {
                return v;
            }
            c.expect(",");
        }
    }

    /// constant of type `t` into slots
    fn konst(&self, c: &mut Cur, t: &Ty) -> Vec<u64> {
        let n = t.nslots();
        let ch = c.peek();
        match ch {
            b'@' => {
                c.i += 1;
                let nm = c.name();
                vec![self.sym(&nm)]
            }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut v = Vec::new();
                loop {
                    let b = c.s[c.i];
                    if b == b'"' {
                        c.i += 1;
                        break;
                    }
                    if b == b'\\' && c.s[c.i + 1] == b'\\' {
                        v.push(b'\\' as u64);
                        c.i += 2;
                    } else if b == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                        v.push(u64::from_str_radix(h, 16).unwrap());
                        c.i += 3;
                    } else {
                        v.push(b as u64);
                        c.i += 1;
                    }
                }
                v
            }
            b'{' | b'[' => {
                c.i += 1;
                self.klist(c, if ch == b'{' { "}" } else { "]" })
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let v = self.klist(c, "}");
                    c.expect(">");
                    v
                } else {
                    self.klist(c, ">")
                }
            }
            b'-' | b'0'..=b'9' => {
                let w = c.word();
                let x: i128 = if let Some(h) = w.strip_prefix("0x") {
                    u128::from_str_radix(h, 16).unwrap_or(0) as i128
                } else {
                    w.parse::<i128>()
                        .unwrap_or_else(|_| w.parse::<u128>().map(|v| v as i128).unwrap_or(0))
                };
                match t {
                    Ty::Int(b) if *b > 64 => {
                        vec![x as u64, ((x >> 64) as u64) & mask(b - 64)]
                    }
                    Ty::Int(b) => vec![x as u64 & mask(*b)],
                    Ty::Float(_) => vec![0; n],
                    _ => vec![x as u64],
                }
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => vec![1],
                    "false" | "null" => vec![0],
                    "undef" | "poison" | "zeroinitializer" => vec![0; n],
                    "splat" => {
                        c.expect("(");
                        let et = self.ty(c);
                        let v = self.konst(c, &et);
                        c.expect(")");
                        let cnt = n / v.len();
                        let mut o = Vec::new();
                        for _ in 0..cnt {
                            o.extend(&v);
                        }
                        o
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' {
                            c.word();
                            if c.peek() == b'(' && c.s[c.i..].starts_with(b"(i64") {
                                // inrange(...)
                                let st = c.i;
                                if c.s[..st].ends_with(b"inrange") {
                                    c.skip_parens();
                                }
                            }
                        }
                        c.expect("(");
                        let et = self.ty(c);
                        c.expect(",");
                        let pt = self.ty(c);
                        let mut base = self.konst(c, &pt)[0];
                        let mut cur = et.clone();
                        let mut first = true;
                        while c.eat(",") {
                            let it = self.ty(c);
                            let v = self.konst(c, &it)[0];
                            let v = sext(v, if let Ty::Int(w) = it { w } else { 64 });
                            if first {
                                base = base.wrapping_add((v as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                let (o, nt) = gep_step(&cur, v);
                                base = base.wrapping_add(o as u64);
                                cur = nt;
                            }
                        }
                        c.expect(")");
                        vec![base]
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        c.expect("(");
                        let ft = self.ty(c);
                        let v = self.konst(c, &ft);
                        c.expect("to");
                        let tt = self.ty(c);
                        c.expect(")");
                        if let (Ty::Int(b), 1) = (&tt, v.len()) {
                            return vec![v[0] & mask(*b)];
                        }
                        v
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect("(");
                        let ft = self.ty(c);
                        let a = self.konst(c, &ft)[0];
                        c.expect(",");
                        let ft2 = self.ty(c);
                        let b = self.konst(c, &ft2)[0];
                        c.expect(")");
                        let bits = if let Ty::Int(b) = ft { b } else { 64 };
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        vec![r & mask(bits)]
                    }
                    "dso_local_equivalent" | "no_cfi" => {
                        c.expect("@");
                        let nm = c.name();
                        vec![self.sym(&nm)]
                    }
                    _ => panic!(
                        "constant {:?} of type {:?} in {}",
                        w,
                        t,
                        String::from_utf8_lossy(c.s)
                    ),
                }
            }
        }
    }
    fn klist(&self, c: &mut Cur, end: &str) -> Vec<u64> {
        let mut v = Vec::new();
        if c.eat(end) {
            return v;
        }
        loop {
            let t = self.ty(c);
            v.extend(self.konst(c, &t));
            if c.eat(end) {
                return v;
            }
            c.expect(",");
        }
    }
    fn sym(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(f) = self.fmap.get(n) {
            return FN_BASE + 16 * *f as u64;
        }
        0x13 // unknown external: faults when used
    }
    fn loc(&mut self, n: String) -> u32 {
        let l = self.locals.len() as u32;
        *self.locals.entry(n).or_insert(l)
    }
    fn val(&mut self, c: &mut Cur, t: &Ty) -> V {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            V::Loc(self.loc(n))
        } else {
            V::C(self.konst(c, t))
        }
    }
    fn tval(&mut self, c: &mut Cur) -> (Ty, V) {
        let t = self.ty(c);
        let v = self.val(c, &t);
        (t, v)
    }
    fn label(&mut self, c: &mut Cur) -> String {
        c.expect("label");
        c.expect("%");
        c.name()
    }

    fn inst(&mut self, c: &mut Cur) -> I {
        let save = c.i;
        let w = c.word();
        match w {
            "tail" | "musttail" | "notail" => {
                return self.inst(c);
            }
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" => {
                let w = w.to_string();
                while !c.at_type() {
                    c.word();
                }
                let t = self.ty(c);
                let a = self.val(c, &t);
                c.expect(",");
                let b = self.val(c, &t);
                I::Bin(w, t, a, b)
            }
            "icmp" => {
                c.eat("samesign");
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("pred {}", x),
                };
                let t = self.ty(c);
                let a = self.val(c, &t);
                c.expect(",");
                let b = self.val(c, &t);
                I::Icmp(p, t, a, b)
            }
            "select" => {
                while !c.at_type() {
                    c.word();
                }
                let (ct, cv) = self.tval(c);
                c.expect(",");
                let (t, a) = self.tval(c);
                c.expect(",");
                let (_, b) = self.tval(c);
                I::Select(ct, t, cv, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr"
            | "addrspacecast" => {
                let w = w.to_string();
                while !c.at_type() {
                    c.word();
                }
                let (t, v) = self.tval(c);
                c.expect("to");
                let t2 = self.ty(c);
                I::Cast(w, t, v, t2)
            }
            "getelementptr" => {
                while !c.at_type() {
                    c.word();
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                let t = self.ty(c);
                c.expect(",");
                let (_, p) = self.tval(c);
                let mut idx = Vec::new();
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(self.tval(c));
                }
                I::Gep(t, p, idx)
            }
            "load" => {
                c.eat("atomic");
                c.eat("volatile");
                let t = self.ty(c);
                c.expect(",");
                let (_, p) = self.tval(c);
                I::Load(t, p)
            }
            "store" => {
                c.eat("atomic");
                c.eat("volatile");
                let (t, v) = self.tval(c);
                c.expect(",");
                let (_, p) = self.tval(c);
                I::Store(t, v, p)
            }
            "alloca" => {
                c.eat("inalloca");
                let t = self.ty(c);
                let mut n = 1u64;
                let mut al = t.align();
                while c.eat(",") {
                    if c.eat("align") {
                        al = c.word().parse().unwrap();
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        let (_, v) = self.tval(c);
                        match v {
                            V::C(k) => n = k[0],
                            _ => return I::Unsup("dynamic alloca".into()),
                        }
                    }
                }
                I::Alloca(t.size() * n, al)
            }
            "extractvalue" => {
                let (t, v) = self.tval(c);
                let mut ix = Vec::new();
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.word().parse().unwrap());
                }
                I::ExtractValue(t, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tval(c);
                c.expect(",");
                let (t2, v2) = self.tval(c);
                let mut ix = Vec::new();
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.word().parse().unwrap());
                }
                I::InsertValue(t, v, t2, v2, ix)
            }
            "extractelement" => {
                let (t, v) = self.tval(c);
                c.expect(",");
                let (_, i) = self.tval(c);
                I::ExtractElement(t, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tval(c);
                c.expect(",");
                let (_, e) = self.tval(c);
                c.expect(",");
                let (_, i) = self.tval(c);
                I::InsertElement(t, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tval(c);
                c.expect(",");
                let (_, b) = self.tval(c);
                c.expect(",");
                let (_, m) = self.tval(c);
                match m {
                    V::C(k) => I::Shuffle(t, a, b, k),
                    _ => I::Unsup("shuffle".into()),
                }
            }
            "freeze" => {
                let (t, v) = self.tval(c);
                I::Freeze(t, v)
            }
            "phi" => {
                while !c.at_type() {
                    c.word();
                }
                let t = self.ty(c);
                let mut v = Vec::new();
                loop {
                    c.expect("[");
                    let x = self.val(c, &t);
                    c.expect(",");
                    c.expect("%");
                    let l = c.name();
                    c.expect("]");
                    v.push((x, l));
                    if !c.eat(",") {
                        break;
                    }
                    if c.peek() != b'[' {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "br" => {
                if c.eat("label") {
                    c.expect("%");
                    let l = c.name();
                    I::Br(l)
                } else {
                    let (_, v) = self.tval(c);
                    c.expect(",");
                    let a = self.label(c);
                    c.expect(",");
                    let b = self.label(c);
                    I::CondBr(v, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tval(c);
                c.expect(",");
                let d = self.label(c);
                c.expect("[");
                let mut cs = Vec::new();
                while !c.eat("]") {
                    let (_, k) = self.tval(c);
                    c.expect(",");
                    let l = self.label(c);
                    if let V::C(k) = k {
                        cs.push((k[0], l));
                    }
                }
                I::Switch(t, v, cs, d)
            }
            "ret" => {
                let t = self.ty(c);
                if t == Ty::Void {
                    I::Ret(t, None)
                } else {
                    let v = self.val(c, &t);
                    I::Ret(t, Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "fence" => I::Nop,
            "call" => {
                c.skip_attrs();
                let t = self.ty(c);
                // optional function type
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                c.skip_attrs_nontype();
                let callee = match c.peek() {
                    b'@' => {
                        c.i += 1;
                        Callee::Fn(c.name())
                    }
                    b'%' => {
                        c.i += 1;
                        let n = c.name();
                        Callee::Ind(V::Loc(self.loc(n)))
                    }
                    _ => {
                        if c.eat("asm") {
                            let rest = std::str::from_utf8(&c.s[c.i..]).unwrap();
                            let empty = rest.contains(" \"\", ");
                            while c.peek() != b'(' {
                                if c.peek() == b'"' {
                                    c.i += 1;
                                    while c.s[c.i] != b'"' {
                                        c.i += 1;
                                    }
                                    c.i += 1;
                                } else if c.peek() == b',' {
                                    c.i += 1;
                                } else {
                                    c.word();
                                }
                            }
                            Callee::Asm(empty)
                        } else {
                            let k = self.konst(c, &Ty::Ptr);
                            Callee::Ind(V::C(k))
                        }
                    }
                };
                let mut args = Vec::new();
                c.expect("(");
                if !c.eat(")") {
                    loop {
                        c.skip_attrs();
                        if c.eat("metadata") {
                            // debug/metadata operand
                            let mut d = 0;
                            loop {
                                match c.s[c.i] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    _ => {}
                                }
                                c.i += 1;
                            }
                            args.push((Ty::Other, V::C(vec![])));
                        } else {
                            let t = self.ty(c);
                            c.skip_attrs_nontype();
                            let v = self.val(c, &t);
                            args.push((t, v));
                        }
                        if c.eat(")") {
                            break;
                        }
                        c.expect(",");
                    }
                }
                I::Call(t, callee, args)
            }
            "atomicrmw" => {
                c.eat("volatile");
                let op = c.word().to_string();
                let (_, p) = self.tval(c);
                c.expect(",");
                let (t, v) = self.tval(c);
                I::Rmw(op, t, p, v)
            }
            "cmpxchg" => {
                c.eat("weak");
                c.eat("volatile");
                let (_, p) = self.tval(c);
                c.expect(",");
                let (t, a) = self.tval(c);
                c.expect(",");
                let (_, b) = self.tval(c);
                I::CmpXchg(t, p, a, b)
            }
            _ => {
                c.i = save;
                I::Unsup(
                    String::from_utf8_lossy(&c.s[save..c.s.len().min(save + 100)]).into_owned(),
                )
            }
        }
    }
}

impl<'a> Cur<'a> {
    /// parameter attributes after the type, before the value
    fn skip_attrs_nontype(&mut self) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_alphabetic() || c == b'#') {
                return;
            }
            let save = self.i;
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.word();
            match w {
                "true"
                | "false"
                | "null"
                | "undef"
                | "poison"
                | "zeroinitializer"
                | "splat"
                | "getelementptr"
                | "ptrtoint"
                | "inttoptr"
                | "bitcast"
                | "trunc"
                | "zext"
                | "add"
                | "sub"
                | "xor"
                | "mul"
                | "asm"
                | "c"
                | "dso_local_equivalent"
                | "no_cfi"
                | "addrspacecast" => {
                    self.i = save;
                    return;
                }
                "align" => {
                    self.ws();
                    if self.s.get(self.i) == Some(&b'(') {
                        self.skip_parens();
                    } else {
                        self.word();
                    }
                }
                _ => {
                    if self.s.get(self.i) == Some(&b'(') {
                        self.skip_parens();
                    }
                }
            }
        }
    }
}

fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn gep_step(t: &Ty, i: i64) -> (i64, Ty) {
    match t {
        Ty::Arr(_, e) => (i * e.size() as i64, (**e).clone()),
        Ty::Vec(_, e) => (i * e.store_size() as i64, (**e).clone()),
        Ty::Struct(f, p) => {
            let mut o = 0u64;
            for (k, ft) in f.iter().enumerate() {
                if !*p {
                    let a = ft.align();
                    o = (o + a - 1) / a * a;
                }
                if k as i64 == i {
                    return (o as i64, ft.clone());
                }
                o += ft.size();
            }
            panic!("gep field")
        }
        _ => (i * t.size() as i64, t.clone()),
    }
}

fn ext_of(name: &str) -> Option<Ext> {
    // Rust allocator and panic entry points (v0-mangled), harness primitives, libc
    Some(match name {
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "memcpy" => Ext::Memcpy,
        "memmove" => Ext::Memmove,
        "memset" => Ext::Memset,
        "strlen" => Ext::Strlen,
        "__sym_byte" => Ext::SymByte,
        "__sym_cfg" => Ext::SymCfg,
        "__sym_assume" => Ext::SymAssume,
        "__sym_fail" => Ext::SymFail,
        "__sym_assert" => Ext::SymAssert,
        "__sym_reach" => Ext::SymReach,
        "__sym_observe" => Ext::SymObserve,
        "__sym_steps" => Ext::SymSteps,
        "__sym_heap" => Ext::SymHeap,
        "__sym_heap_peak" => Ext::SymHeapPeak,
        "__sym_hash" => Ext::SymHash,
        "__sym_hash_seed" => Ext::SymHashSeed,
        "__sym_out" => Ext::SymOut,
        "abort" => Ext::Trap,
        _ => {
            if name.ends_with("___rust_alloc") {
                Ext::Alloc
            } else if name.ends_with("___rust_alloc_zeroed") {
                Ext::AllocZeroed
            } else if name.ends_with("___rust_realloc") {
                Ext::Realloc
            } else if name.ends_with("___rust_dealloc") {
                Ext::Dealloc
            } else if name.contains("___rust_no_alloc_shim") {
                Ext::Nop
            } else if name.contains("hashmap_random_keys") {
                Ext::RandomKeys
            } else if name.contains("4core9panicking")
                || name.contains("3std9panicking")
                || name.ends_with("rust_begin_unwind")
            {
                Ext::Panic
            } else {
                return None;
            }
        }
    })
}

struct RawF {
    name: String,
    args: Vec<(Ty, String)>,
    blocks: Vec<(String, Vec<(Option<u32>, I)>)>,
    locals: u32,
}

pub fn parse_module(text: &str) -> Module {
    let mut p = Parser {
        named: HashMap::new(),
        gaddr: HashMap::new(),
        text,
        funcs: Vec::new(),
        fmap: HashMap::new(),
        consts: vec![0],
        cmap: HashMap::new(),
        strings: Vec::new(),
        locals: HashMap::new(),
    };
    p.cmap.insert(0, 0);
    // pass 1: named types (iterate until stable order: LLVM prints them in use order)
    let mut pending: Vec<(String, String)> = Vec::new();
    for l in text.lines() {
        if l.starts_with('%') {
            if let Some(k) = l.find(" = type ") {
                pending.push((
                    l[1..k].trim_matches('"').to_string(),
                    l[k + 8..].to_string(),
                ));
            }
        }
    }
    for _ in 0..4 {
        for (n, b) in &pending {
            if b.trim() == "opaque" {
                continue;
            }
            let t = p.ty(&mut Cur::new(b));
            p.named.insert(n.clone(), t);
        }
    }
    // pass 2: function symbols and globals
    let mut gl: Vec<(String, Ty, Option<String>, bool, u64)> = Vec::new();
    let mut addr = GLOBAL_BASE;
    for l in text.lines() {
        if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').unwrap();
            let mut c = Cur::new(l);
            c.i = at + 1;
            let n = c.name();
            let idx = p.funcs.len();
            p.fmap.insert(n.clone(), idx);
            p.funcs.push(Func {
                ext: ext_of(&n).unwrap_or(Ext::Unknown),
                name: n,
                defined: false,
                nargs: 0,
                nslots: 0,
                ops: vec![],
                edges: vec![],
                ninst: 0,
            });
        } else if l.starts_with('@') {
            let mut c = Cur::new(l);
            c.i = 1;
            let n = c.name();
            c.expect("=");
            let mut mutable = false;
            let mut external = false;
            let mut alias = false;
            loop {
                if c.at_type() {
                    break;
                }
                let save = c.i;
                let w = c.word();
                if w.is_empty() {
                    c.i = save + 1;
                    continue;
                }
                if w == "global" {
                    mutable = true;
                    break;
                }
                if w == "constant" {
                    break;
                }
                if w == "alias" {
                    alias = true;
                    break;
                }
                if w == "external" || w == "extern_weak" {
                    external = true;
                }
                if c.s.get(c.i) == Some(&b'(') {
                    c.skip_parens();
                }
            }
            if alias {
                continue;
            }
            let t = p.ty(&mut c);
            c.ws();
            let init = if external {
                None
            } else {
                Some(l[c.i..].to_string())
            };
            let al = t.align().max(16);
            addr = (addr + al - 1) / al * al;
            p.gaddr.insert(n.clone(), addr);
            gl.push((n, t.clone(), init, mutable, addr));
            addr += t.size().max(1);
        }
    }
    let mut mem = vec![0u8; (addr - GLOBAL_BASE) as usize];
    let mut mutable = Vec::new();
    for (_n, t, init, m, a) in &gl {
        if *m {
            mutable.push((*a, t.size()));
        }
        if let Some(s) = init {
            let v = p.konst(&mut Cur::new(s), t);
            for ((off, w, _), x) in t.scalars().into_iter().zip(v) {
                let nb = ((w + 7) / 8) as usize;
                let o = (a - GLOBAL_BASE + off) as usize;
                mem[o..o + nb].copy_from_slice(&x.to_le_bytes()[..nb]);
            }
        }
    }
    // pass 3: bodies
    let lines: Vec<&str> = p.text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if !l.starts_with("define ") {
            i += 1;
            continue;
        }
        p.locals = HashMap::new();
        let at = l.find('@').unwrap();
        let mut c = Cur::new(l);
        c.i = at + 1;
        let name = c.name();
        let mut args = Vec::new();
        c.expect("(");
        let mut unnamed = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    c.expect(")");
                    break;
                }
                let t = p.ty(&mut c);
                c.skip_attrs_nontype();
                let n = if c.peek() == b'%' {
                    c.i += 1;
                    c.name()
                } else {
                    let s = unnamed.to_string();
                    s
                };
                unnamed += 1;
                p.loc(n.clone());
                args.push((t, n));
                if c.eat(")") {
                    break;
                }
                c.expect(",");
            }
        }
        i += 1;
        // the unnamed entry block takes the next number after the arguments
        let mut blocks: Vec<(String, Vec<(Option<u32>, I)>)> = Vec::new();
        let entry_label = args
            .iter()
            .filter(|a| a.1.parse::<u32>().is_ok())
            .count()
            .to_string();
        while lines[i] != "}" {
            let l = lines[i];
            i += 1;
            if l.is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                let mut c = Cur::new(l);
                let n = c.name();
                blocks.push((n, vec![]));
                continue;
            }
            let t = l.trim_start();
            if t.starts_with("#dbg") {
                continue;
            }
            if blocks.is_empty() {
                blocks.push((entry_label.clone(), vec![]));
            }
            let joined;
            let mut src: &str = t;
            if t.starts_with("switch ") && !t.contains(']') {
                let mut s = t.to_string();
                loop {
                    let x = lines[i];
                    i += 1;
                    s.push(' ');
                    s.push_str(x.trim());
                    if x.trim_start().starts_with(']') {
                        break;
                    }
                }
                joined = s;
                src = &joined;
            }
            let mut c = Cur::new(src);
            let mut res = None;
            if c.peek() == b'%' {
                c.i += 1;
                let n = c.name();
                c.expect("=");
                res = Some(p.loc(n));
            }
            let ins = p.inst(&mut c);
            blocks.last_mut().unwrap().1.push((res, ins));
        }
        i += 1;
        let raw = RawF {
            name: name.clone(),
            args,
            blocks,
            locals: p.locals.len() as u32,
        };
        let fi = p.fmap[&name];
        if p.funcs[fi].ext == Ext::Unknown {
            let f = Lower::new(&mut p, &raw).run(&raw);
            p.funcs[fi] = f;
        }
    }
    Module {
        funcs: p.funcs,
        fmap: p.fmap,
        consts: p.consts,
        mem,
        mutable,
        strings: p.strings,
    }
}

struct Lower<'b, 'a> {
    p: &'b mut Parser<'a>,
    def: Vec<Option<(usize, usize)>>, // local -> (block, inst)
    slots: Vec<Option<Vec<R>>>,
    next: u32,
    ops: Vec<Op>,
}

impl<'b, 'a> Lower<'b, 'a> {
    fn new(p: &'b mut Parser<'a>, raw: &RawF) -> Self {
        let n = raw.locals as usize;
        let mut def = vec![None; n];
        for (bi, b) in raw.blocks.iter().enumerate() {
            for (ii, (r, _)) in b.1.iter().enumerate() {
                if let Some(r) = r {
                    def[*r as usize] = Some((bi, ii));
                }
            }
        }
        Lower {
            p,
            def,
            slots: vec![None; n],
            next: 0,
            ops: vec![],
        }
    }
    fn k(&mut self, v: u64) -> R {
        let p = &mut *self.p;
        let consts = &mut p.consts;
        let i = *p.cmap.entry(v).or_insert_with(|| {
            consts.push(v);
            (consts.len() - 1) as u32
        });
        i | RCONST
    }
    fn string(&mut self, s: &str) -> u32 {
        self.p.strings.push(s.to_string());
        (self.p.strings.len() - 1) as u32
    }
    fn rv(&mut self, raw: &RawF, v: &V) -> Vec<R> {
        match v {
            V::C(k) => k.clone().into_iter().map(|x| self.k(x)).collect(),
            V::Loc(l) => self.res(raw, *l),
        }
    }
    fn r1(&mut self, raw: &RawF, v: &V) -> R {
        let r = self.rv(raw, v);
        r[0]
    }
    fn fresh(&mut self, n: usize) -> u32 {
        let s = self.next;
        self.next += n as u32;
        s
    }
    /// slots holding local l (aliases resolved)
    fn res(&mut self, raw: &RawF, l: u32) -> Vec<R> {
        if let Some(s) = &self.slots[l as usize] {
            return s.clone();
        }
        let (bi, ii) =
            self.def[l as usize].unwrap_or_else(|| panic!("undefined local in {}", raw.name));
        let ins = &raw.blocks[bi].1[ii].1;
        let out: Vec<R> = match ins {
            I::ExtractValue(t, v, ix) => {
                let s = self.rv(raw, v);
                let mut off = 0;
                let mut ty = t.clone();
                for &i in ix {
                    let (o, nt) = ty.field(i);
                    off += o;
                    ty = nt;
                }
                s[off..off + ty.nslots()].to_vec()
            }
            I::InsertValue(t, v, t2, v2, ix) => {
                let mut s = self.rv(raw, v);
                let e = self.rv(raw, v2);
                let mut off = 0;
                let mut ty = t.clone();
                for &i in ix {
                    let (o, nt) = ty.field(i);
                    off += o;
                    ty = nt;
                }
                let _ = t2;
                s[off..off + e.len()].copy_from_slice(&e);
                s
            }
            I::ExtractElement(Ty::Vec(_, et), v, V::C(k)) => {
                let s = self.rv(raw, v);
                let n = et.nslots();
                let i = k[0] as usize;
                s[i * n..(i + 1) * n].to_vec()
            }
            I::InsertElement(Ty::Vec(_, et), v, e, V::C(k)) => {
                let mut s = self.rv(raw, v);
                let x = self.rv(raw, e);
                let n = et.nslots();
                let i = k[0] as usize;
                s[i * n..(i + 1) * n].copy_from_slice(&x);
                s
            }
            I::Shuffle(Ty::Vec(n, et), a, b, m) => {
                let sa = self.rv(raw, a);
                let sb = self.rv(raw, b);
                let e = et.nslots();
                let mut o = Vec::new();
                for &i in m {
                    let i = i as usize;
                    if i < *n {
                        o.extend_from_slice(&sa[i * e..(i + 1) * e]);
                    } else {
                        let j = i - n;
                        o.extend_from_slice(&sb[j * e..(j + 1) * e]);
                    }
                }
                o
            }
            I::Freeze(_, v) => self.rv(raw, v),
            I::Cast(op, t, v, t2) if is_alias_cast(op, t, t2) => self.rv(raw, v),
            _ => {
                let n = result_slots(ins);
                let s = self.fresh(n);
                (s..s + n as u32).collect()
            }
        };
        self.slots[l as usize] = Some(out.clone());
        out
    }

    fn run(mut self, raw: &RawF) -> Func {
        let mut nargs = 0;
        for (t, n) in &raw.args {
            let k = t.nslots();
            let s = self.fresh(k);
            nargs += k as u32;
            let l = self.p.locals[n];
            self.slots[l as usize] = Some((s..s + k as u32).collect());
        }
        let bmap: HashMap<&str, usize> = raw
            .blocks
            .iter()
            .enumerate()
            .map(|(i, b)| (b.0.as_str(), i))
            .collect();
        let mut edges: Vec<Edge> = Vec::new();
        let mut edge_target: Vec<usize> = Vec::new();
        let mut block_pc = vec![0u32; raw.blocks.len()];
        let mut ninst = 0;
        for (bi, b) in raw.blocks.iter().enumerate() {
            block_pc[bi] = self.ops.len() as u32;
            for (res, ins) in &b.1 {
                ninst += 1;
                let dst: u32 = match res {
                    Some(l) => {
                        let s = self.res(raw, *l);
                        if s.is_empty() {
                            0
                        } else {
                            s[0]
                        }
                    }
                    None => 0,
                };
                let mut mk_edge = |me: &mut Self, to: &str| -> u32 {
                    let tb = *bmap
                        .get(to)
                        .unwrap_or_else(|| panic!("block {} in {}", to, raw.name));
                    let mut moves = Vec::new();
                    for (r, pi) in &raw.blocks[tb].1 {
                        if let I::Phi(_, inc) = pi {
                            let d = me.res(raw, r.unwrap());
                            let (v, _) = inc
                                .iter()
                                .find(|(_, l)| *l == raw.blocks[bi].0)
                                .unwrap_or_else(|| {
                                    panic!(
                                        "phi edge {} -> {} in {}",
                                        raw.blocks[bi].0, to, raw.name
                                    )
                                });
                            let s = me.rv(raw, v);
                            for (x, y) in d.into_iter().zip(s) {
                                if x != y {
                                    moves.push((x, y));
                                }
                            }
                        } else {
                            break;
                        }
                    }
                    let mut hazard = false;
                    for j in 1..moves.len() {
                        for i in 0..j {
                            if moves[i].0 == moves[j].1 {
                                hazard = true;
                            }
                        }
                    }
                    edges.push(Edge {
                        pc: 0,
                        moves: moves.into_boxed_slice(),
                        hazard,
                    });
                    edge_target.push(tb);
                    (edges.len() - 1) as u32
                };
                match ins {
                    I::Phi(..) | I::Nop => {}
                    I::Br(l) => {
                        let e = mk_edge(&mut self, l);
                        self.ops.push(Op::Br { e });
                    }
                    I::CondBr(v, a, bl) => {
                        let c = self.r1(raw, v);
                        let t = mk_edge(&mut self, a);
                        let f = mk_edge(&mut self, bl);
                        self.ops.push(Op::CondBr { c, t, f });
                    }
                    I::Switch(t, v, cs, d) => {
                        let w = if let Ty::Int(w) = t { *w } else { 64 };
                        let v = self.r1(raw, v);
                        let mut cases = Vec::new();
                        for (k, l) in cs {
                            let e = mk_edge(&mut self, l);
                            cases.push((*k, e));
                        }
                        let def = mk_edge(&mut self, d);
                        self.ops.push(Op::Switch {
                            v,
                            w: w as u8,
                            cases: cases.into_boxed_slice(),
                            def,
                        });
                    }
                    I::Ret(_, v) => {
                        let s = match v {
                            Some(v) => self.rv(raw, v),
                            None => vec![],
                        };
                        self.ops.push(Op::Ret {
                            slots: s.into_boxed_slice(),
                        });
                    }
                    I::Unreachable => self.ops.push(Op::Unreachable),
                    _ => self.lower(raw, dst, ins),
                }
            }
        }
        for (e, t) in edges.iter_mut().zip(edge_target) {
            e.pc = block_pc[t];
        }
        Func {
            name: raw.name.clone(),
            defined: true,
            nargs,
            nslots: self.next.max(1),
            ops: self.ops,
            edges,
            ext: Ext::Unknown,
            ninst,
        }
    }

    fn unsup(&mut self, s: &str) {
        let msg = self.string(s);
        self.ops.push(Op::Unsupported { msg });
    }

    fn lower(&mut self, raw: &RawF, dst: u32, ins: &I) {
        match ins {
            I::Bin(op, t, a, b) => {
                let a = self.rv(raw, a);
                let b = self.rv(raw, b);
                let op = match op.as_str() {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "urem" => Bin::URem,
                    "sdiv" => Bin::SDiv,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                self.bin(op, t, dst, &a, &b);
            }
            I::Icmp(p, t, a, b) => {
                let a = self.rv(raw, a);
                let b = self.rv(raw, b);
                match t {
                    Ty::Int(128) => self.ops.push(Op::Icmp2 {
                        p: *p,
                        dst,
                        a: [a[0], a[1]],
                        b: [b[0], b[1]],
                    }),
                    _ => {
                        let sc = t.scalars();
                        if sc.len() != a.len() || a.len() != b.len() {
                            return self.unsup("icmp shape");
                        }
                        for (i, (_, w, _)) in sc.iter().enumerate() {
                            self.ops.push(Op::Icmp {
                                p: *p,
                                w: *w as u8,
                                dst: dst + i as u32,
                                a: a[i],
                                b: b[i],
                            });
                        }
                    }
                }
            }
            I::Select(ct, t, c, a, b) => {
                let c = self.rv(raw, c);
                let a = self.rv(raw, a);
                let b = self.rv(raw, b);
                let sc = t.scalars();
                for (i, (_, w, ptr)) in sc.iter().enumerate() {
                    let cc = if let Ty::Vec(..) = ct { c[i] } else { c[0] };
                    self.ops.push(Op::Select {
                        w: *w as u8,
                        ptr: *ptr,
                        dst: dst + i as u32,
                        c: cc,
                        a: a[i],
                        b: b[i],
                    });
                }
            }
            I::Cast(op, t, v, t2) => {
                if is_alias_cast(op, t, t2) {
                    return;
                }
                let a = self.rv(raw, v);
                match op.as_str() {
                    "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let w1 = elt_width(t);
                        let w2 = elt_width(t2);
                        if w1 > 64 || w2 > 64 {
                            return self.cast_wide(op, w1, w2, dst, &a);
                        }
                        for i in 0..a.len() {
                            let d = dst + i as u32;
                            let (from, to) = (w1 as u8, w2 as u8);
                            let o = match op.as_str() {
                                "sext" => Op::SExt {
                                    dst: d,
                                    a: a[i],
                                    from,
                                    to,
                                },
                                "trunc" => Op::Trunc {
                                    dst: d,
                                    a: a[i],
                                    from,
                                    to,
                                },
                                _ => {
                                    if to > from {
                                        Op::ZExt {
                                            dst: d,
                                            a: a[i],
                                            from,
                                            to,
                                        }
                                    } else if to < from {
                                        Op::Trunc {
                                            dst: d,
                                            a: a[i],
                                            from,
                                            to,
                                        }
                                    } else {
                                        Op::Copy { dst: d, a: a[i] }
                                    }
                                }
                            };
                            self.ops.push(o);
                        }
                    }
                    "bitcast" => {
                        let w1 = elt_width(t);
                        let w2 = elt_width(t2);
                        let n1 = a.len();
                        let n2 = t2.nslots();
                        match (t, t2) {
                            (Ty::Vec(..), Ty::Int(_)) if n2 == 1 => {
                                self.ops.push(Op::Pack {
                                    dst,
                                    lw: w1 as u8,
                                    lanes: a.into_boxed_slice(),
                                });
                            }
                            (Ty::Int(_), Ty::Vec(..)) if n1 == 1 => {
                                self.ops.push(Op::Unpack {
                                    dst,
                                    lw: w2 as u8,
                                    n: n2 as u32,
                                    a: a[0],
                                });
                            }
                            _ => {
                                // general: via 64-bit limbs
                                let s1 = w1.min(64);
                                let s2 = w2.min(64);
                                if s1 < s2 && s2 % s1 == 0 {
                                    let k = (s2 / s1) as usize;
                                    for j in 0..n2 {
                                        self.ops.push(Op::Pack {
                                            dst: dst + j as u32,
                                            lw: s1 as u8,
                                            lanes: a[j * k..(j + 1) * k]
                                                .to_vec()
                                                .into_boxed_slice(),
                                        });
                                    }
                                } else if s1 > s2 && s1 % s2 == 0 {
                                    let k = s1 / s2;
                                    for (j, x) in a.iter().enumerate() {
                                        self.ops.push(Op::Unpack {
                                            dst: dst + j as u32 * k,
                                            lw: s2 as u8,
                                            n: k,
                                            a: *x,
                                        });
                                    }
                                } else if s1 == s2 {
                                    for (j, x) in a.iter().enumerate() {
                                        self.ops.push(Op::Copy {
                                            dst: dst + j as u32,
                                            a: *x,
                                        });
                                    }
                                } else {
                                    self.unsup("bitcast");
                                }
                            }
                        }
                    }
                    _ => self.unsup(&format!("cast {}", op)),
                }
            }
            I::Gep(t, p, idx) => {
                let base = self.r1(raw, p);
                let mut off: i64 = 0;
                let mut dynv: Vec<(R, u8, i64)> = Vec::new();
                let mut cur = t.clone();
                for (i, (it, v)) in idx.iter().enumerate() {
                    let iw = if let Ty::Int(w) = it { *w } else { 64 };
                    match v {
                        V::C(k) => {
                            let x = sext(k[0], iw);
                            if i == 0 {
                                off = off.wrapping_add(x.wrapping_mul(cur.size() as i64));
                            } else {
                                let (o, nt) = gep_step(&cur, x);
                                off = off.wrapping_add(o);
                                cur = nt;
                            }
                        }
                        _ => {
                            let r = self.r1(raw, v);
                            if i == 0 {
                                dynv.push((r, iw as u8, cur.size() as i64));
                            } else {
                                let (o, nt) = gep_step(&cur, 1);
                                dynv.push((r, iw as u8, o));
                                cur = nt;
                            }
                        }
                    }
                }
                let mut b = base;
                if dynv.is_empty() {
                    self.ops.push(Op::AddOff { dst, a: b, off });
                } else {
                    for (i, (r, iw, sc)) in dynv.iter().enumerate() {
                        let o = if i == 0 { off } else { 0 };
                        let d = if i + 1 == dynv.len() {
                            dst
                        } else {
                            self.fresh(1)
                        };
                        self.ops.push(Op::Gep {
                            dst: d,
                            a: b,
                            idx: *r,
                            iw: *iw,
                            scale: *sc,
                            off: o,
                        });
                        b = d;
                    }
                }
            }
            I::Load(t, p) => {
                let p = self.r1(raw, p);
                for (i, (off, w, _)) in t.scalars().iter().enumerate() {
                    self.ops.push(Op::Load {
                        dst: dst + i as u32,
                        p,
                        off: *off as u32,
                        w: *w as u8,
                    });
                }
            }
            I::Store(t, v, p) => {
                let p = self.r1(raw, p);
                let v = self.rv(raw, v);
                for (i, (off, w, _)) in t.scalars().iter().enumerate() {
                    self.ops.push(Op::Store {
                        v: v[i],
                        p,
                        off: *off as u32,
                        w: *w as u8,
                    });
                }
            }
            I::Alloca(size, align) => self.ops.push(Op::Alloca {
                dst,
                size: *size,
                align: *align,
            }),
            I::ExtractValue(..) | I::InsertValue(..) | I::Freeze(..) => {}
            I::ExtractElement(_, _, V::C(_)) | I::InsertElement(_, _, _, V::C(_)) => {}
            I::Shuffle(..) => {}
            I::ExtractElement(..) | I::InsertElement(..) => self.unsup("dynamic vector element"),
            I::Rmw(op, t, p, v) => {
                let p = self.r1(raw, p);
                let v = self.r1(raw, v);
                let w = elt_width(t) as u8;
                let kind = match op.as_str() {
                    "add" => 0,
                    "sub" => 1,
                    "xchg" => 2,
                    "and" => 3,
                    "or" => 4,
                    _ => return self.unsup("atomicrmw"),
                };
                self.ops.push(Op::RmwAdd { dst, p, v, w, kind });
            }
            I::CmpXchg(t, p, c, n) => {
                let p = self.r1(raw, p);
                let c = self.r1(raw, c);
                let n = self.r1(raw, n);
                self.ops.push(Op::CmpXchg {
                    dst,
                    p,
                    c,
                    n,
                    w: elt_width(t) as u8,
                });
            }
            I::Call(t, callee, args) => self.call(raw, dst, t, callee, args),
            I::Unsup(s) => self.unsup(s),
            _ => unreachable!(),
        }
    }

    fn cast_wide(&mut self, op: &str, w1: u32, w2: u32, dst: u32, a: &[R]) {
        let z = self.k(0);
        match op {
            "zext" if w2 == 128 && w1 <= 64 => {
                if w1 < 64 {
                    self.ops.push(Op::ZExt {
                        dst,
                        a: a[0],
                        from: w1 as u8,
                        to: 64,
                    });
                } else {
                    self.ops.push(Op::Copy { dst, a: a[0] });
                }
                self.ops.push(Op::Copy { dst: dst + 1, a: z });
            }
            "sext" if w2 == 128 && w1 <= 64 => {
                if w1 < 64 {
                    self.ops.push(Op::SExt {
                        dst,
                        a: a[0],
                        from: w1 as u8,
                        to: 64,
                    });
                } else {
                    self.ops.push(Op::Copy { dst, a: a[0] });
                }
                let k = self.k(63);
                self.ops.push(Op::Bin {
                    op: Bin::AShr,
                    w: 64,
                    dst: dst + 1,
                    a: dst,
                    b: k,
                });
            }
            "trunc" if w2 <= 64 => {
                if w2 < 64 {
                    self.ops.push(Op::Trunc {
                        dst,
                        a: a[0],
                        from: 64,
                        to: w2 as u8,
                    });
                } else {
                    self.ops.push(Op::Copy { dst, a: a[0] });
                }
            }
            "trunc" if w2 > 64 => {
                self.ops.push(Op::Copy { dst, a: a[0] });
                self.ops.push(Op::Trunc {
                    dst: dst + 1,
                    a: a[1],
                    from: (w1 - 64) as u8,
                    to: (w2 - 64) as u8,
                });
            }
            _ => self.unsup("wide cast"),
        }
    }

    fn bin(&mut self, op: Bin, t: &Ty, dst: u32, a: &[R], b: &[R]) {
        if let Ty::Int(w) = t {
            if *w > 64 {
                match op {
                    Bin::And | Bin::Or | Bin::Xor => {
                        for i in 0..a.len() {
                            self.ops.push(Op::Bin {
                                op,
                                w: 64,
                                dst: dst + i as u32,
                                a: a[i],
                                b: b[i],
                            });
                        }
                    }
                    _ if *w == 128 => self.ops.push(Op::Bin2 {
                        op,
                        dst,
                        a: [a[0], a[1]],
                        b: [b[0], b[1]],
                    }),
                    _ => self.unsup("wide int"),
                }
                return;
            }
        }
        if let Ty::Float(_) = t {
            return self.unsup("float");
        }
        let w = elt_width(t) as u8;
        for i in 0..a.len() {
            self.ops.push(Op::Bin {
                op,
                w,
                dst: dst + i as u32,
                a: a[i],
                b: b[i],
            });
        }
    }

    fn call(&mut self, raw: &RawF, dst: u32, t: &Ty, callee: &Callee, args: &[(Ty, V)]) {
        let nret = t.nslots() as u32;
        match callee {
            Callee::Asm(empty) => {
                if *empty && nret == 0 {
                    return;
                }
                self.unsup("inline asm");
            }
            Callee::Ind(v) => {
                let p = self.r1(raw, v);
                let mut s = Vec::new();
                for (_, v) in args {
                    s.extend(self.rv(raw, v));
                }
                self.ops.push(Op::CallInd {
                    p,
                    args: s.into_boxed_slice(),
                    dst,
                    nret,
                });
            }
            Callee::Fn(n) => {
                if let Some(r) = n.strip_prefix("llvm.") {
                    return self.intrinsic(raw, dst, t, r, args);
                }
                let mut s = Vec::new();
                for (_, v) in args {
                    s.extend(self.rv(raw, v));
                }
                let args = s.into_boxed_slice();
                let fi = *self
                    .p
                    .fmap
                    .get(n.as_str())
                    .unwrap_or_else(|| panic!("callee {}", n));
                let ext = ext_of(n);
                let is_decl = !self.p.text_defines(n);
                if let Some(e) = ext {
                    let name = self.string(n);
                    self.ops.push(Op::CallExt {
                        e,
                        name,
                        args,
                        dst,
                        nret,
                    });
                } else if is_decl {
                    let name = self.string(n);
                    self.ops.push(Op::CallExt {
                        e: Ext::Unknown,
                        name,
                        args,
                        dst,
                        nret,
                    });
                } else {
                    self.ops.push(Op::Call {
                        f: fi as u32,
                        args,
                        dst,
                    });
                }
            }
        }
    }

    fn intrinsic(&mut self, raw: &RawF, dst: u32, t: &Ty, name: &str, args: &[(Ty, V)]) {
        let base: String = name
            .split('.')
            .take_while(|p| {
                !(p.len() > 1
                    && (p.starts_with('i') || p.starts_with('p') || p.starts_with('v'))
                    && p[1..].chars().next().unwrap().is_ascii_digit())
            })
            .collect::<Vec<_>>()
            .join(".");
        let mut s: Vec<Vec<R>> = Vec::new();
        let skip_meta = matches!(
            base.as_str(),
            "dbg.value"
                | "dbg.declare"
                | "experimental.noalias.scope.decl"
                | "assume"
                | "lifetime.start"
                | "lifetime.end"
                | "donothing"
                | "invariant.start"
                | "invariant.end"
                | "sideeffect"
                | "pseudoprobe"
        );
        if skip_meta {
            return;
        }
        for (_, v) in args {
            s.push(self.rv(raw, v));
        }
        let w = if args.is_empty() {
            64
        } else {
            elt_width(&args[0].0)
        };
        let wide = w > 64;
        let lanes = |s: &Vec<Vec<R>>| s[0].len();
        macro_rules! binop {
            ($op:expr) => {{
                if w == 128 && matches!($op, Bin::UMin | Bin::UMax | Bin::SMin | Bin::SMax) && lanes(&s) == 2 {
                    let p = match $op {
                        Bin::UMin => Pred::Ult,
                        Bin::UMax => Pred::Ugt,
                        Bin::SMin => Pred::Slt,
                        _ => Pred::Sgt,
                    };
                    let c = self.fresh(1);
                    self.ops.push(Op::Icmp2 {
                        p,
                        dst: c,
                        a: [s[0][0], s[0][1]],
                        b: [s[1][0], s[1][1]],
                    });
                    for i in 0..2 {
                        self.ops.push(Op::Select {
                            w: 64,
                            ptr: false,
                            dst: dst + i as u32,
                            c,
                            a: s[0][i],
                            b: s[1][i],
                        });
                    }
                    return;
                }
                if wide {
                    return self.unsup(&format!("wide {}", name));
                }
                for i in 0..lanes(&s) {
                    self.ops.push(Op::Bin {
                        op: $op,
                        w: w as u8,
                        dst: dst + i as u32,
                        a: s[0][i],
                        b: s[1][i],
                    });
                }
            }};
        }
        macro_rules! unop {
            ($op:expr) => {{
                if wide {
                    return self.unsup(&format!("wide {}", name));
                }
                for i in 0..lanes(&s) {
                    self.ops.push(Op::Un {
                        op: $op,
                        w: w as u8,
                        dst: dst + i as u32,
                        a: s[0][i],
                    });
                }
            }};
        }
        macro_rules! ovop {
            ($op:expr) => {{
                if w == 128 && lanes(&s) == 2 {
                    self.ops.push(Op::Ov2 {
                        op: $op,
                        dst,
                        a: [s[0][0], s[0][1]],
                        b: [s[1][0], s[1][1]],
                    });
                    return;
                }
                if wide {
                    return self.unsup(&format!("wide {}", name));
                }
                self.ops.push(Op::Ov {
                    op: $op,
                    w: w as u8,
                    dst,
                    a: s[0][0],
                    b: s[1][0],
                });
            }};
        }
        match base.as_str() {
            "umin" => binop!(Bin::UMin),
            "umax" => binop!(Bin::UMax),
            "smin" => binop!(Bin::SMin),
            "smax" => binop!(Bin::SMax),
            "uadd.sat" => binop!(Bin::UAddSat),
            "usub.sat" => binop!(Bin::USubSat),
            "sadd.sat" => binop!(Bin::SAddSat),
            "ssub.sat" => binop!(Bin::SSubSat),
            "bitreverse" => unop!(Un::BitRev),
            "ctlz" => unop!(Un::Ctlz),
            "cttz" => unop!(Un::Cttz),
            "ctpop" => unop!(Un::Ctpop),
            "bswap" => unop!(Un::Bswap),
            "abs" => unop!(Un::Abs),
            "uadd.with.overflow" => ovop!(Ov::UAdd),
            "usub.with.overflow" => ovop!(Ov::USub),
            "umul.with.overflow" => ovop!(Ov::UMul),
            "sadd.with.overflow" => ovop!(Ov::SAdd),
            "ssub.with.overflow" => ovop!(Ov::SSub),
            "smul.with.overflow" => ovop!(Ov::SMul),
            "fshl" | "fshr" => {
                if wide {
                    return self.unsup("wide fsh");
                }
                for i in 0..lanes(&s) {
                    self.ops.push(Op::Fsh {
                        left: base == "fshl",
                        w: w as u8,
                        dst: dst + i as u32,
                        a: s[0][i],
                        b: s[1][i],
                        c: s[2][i],
                    });
                }
            }
            "ucmp" | "scmp" => {
                let wd = elt_width(t) as u8;
                self.ops.push(Op::Cmp3 {
                    signed: base == "scmp",
                    w: w as u8,
                    wd,
                    dst,
                    a: s[0][0],
                    b: s[1][0],
                });
            }
            "memcpy" | "memcpy.inline" | "memmove" | "memset" => {
                let e = match base.as_str() {
                    "memset" => Ext::Memset,
                    "memmove" => Ext::Memmove,
                    _ => Ext::Memcpy,
                };
                let nm = self.string(name);
                let lw = elt_width(&args[2].0);
                let mut len = s[2][0];
                if lw < 64 {
                    let d = self.fresh(1);
                    self.ops.push(Op::ZExt {
                        dst: d,
                        a: len,
                        from: lw as u8,
                        to: 64,
                    });
                    len = d;
                }
                self.ops.push(Op::CallExt {
                    e,
                    name: nm,
                    args: vec![s[0][0], s[1][0], len].into_boxed_slice(),
                    dst: 0,
                    nret: 0,
                });
            }
            "trap" | "debugtrap" | "ubsantrap" => {
                let nm = self.string(name);
                self.ops.push(Op::CallExt {
                    e: Ext::Trap,
                    name: nm,
                    args: Box::new([]),
                    dst: 0,
                    nret: 0,
                });
            }
            "threadlocal.address"
            | "expect"
            | "expect.with.probability"
            | "launder.invariant.group"
            | "strip.invariant.group" => {
                for i in 0..s[0].len() {
                    self.ops.push(Op::Copy {
                        dst: dst + i as u32,
                        a: s[0][i],
                    });
                }
            }
            "is.constant" => {
                let z = self.k(0);
                self.ops.push(Op::Copy { dst, a: z });
            }
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add"
            | "vector.reduce.xor" | "vector.reduce.umax" | "vector.reduce.umin"
            | "vector.reduce.mul" | "vector.reduce.smax" | "vector.reduce.smin" => {
                let op = match base.as_str() {
                    "vector.reduce.or" => Bin::Or,
                    "vector.reduce.and" => Bin::And,
                    "vector.reduce.add" => Bin::Add,
                    "vector.reduce.xor" => Bin::Xor,
                    "vector.reduce.umax" => Bin::UMax,
                    "vector.reduce.mul" => Bin::Mul,
                    "vector.reduce.smax" => Bin::SMax,
                    "vector.reduce.smin" => Bin::SMin,
                    _ => Bin::UMin,
                };
                let mut acc = s[0][0];
                for i in 1..s[0].len() {
                    let d = if i + 1 == s[0].len() {
                        dst
                    } else {
                        self.fresh(1)
                    };
                    self.ops.push(Op::Bin {
                        op,
                        w: w as u8,
                        dst: d,
                        a: acc,
                        b: s[0][i],
                    });
                    acc = d;
                }
            }
            _ => self.unsup(&format!("intrinsic llvm.{}", name)),
        }
    }
}

impl<'a> Parser<'a> {
    fn text_defines(&self, n: &str) -> bool {
        thread_local! {
            static DEFS: std::cell::RefCell<Option<std::collections::HashSet<String>>> = const { std::cell::RefCell::new(None) };
        }
        DEFS.with(|d| {
            let mut d = d.borrow_mut();
            if d.is_none() {
                let mut s = std::collections::HashSet::new();
                for l in self.text.lines() {
                    if l.starts_with("define ") {
                        let at = l.find('@').unwrap();
                        let mut c = Cur::new(l);
                        c.i = at + 1;
                        s.insert(c.name());
                    }
                }
                *d = Some(s);
            }
            d.as_ref().unwrap().contains(n)
        })
    }
}

fn elt_width(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr => 64,
        Ty::Float(b) => *b,
        Ty::Vec(_, e) => elt_width(e),
        _ => 64,
    }
}

fn is_alias_cast(op: &str, t: &Ty, t2: &Ty) -> bool {
    match op {
        "ptrtoint" | "inttoptr" | "ptrtoaddr" => elt_width(t) == 64 && elt_width(t2) == 64,
        "bitcast" | "addrspacecast" => {
            t == t2
                || (elt_width(t) == elt_width(t2)
                    && t.nslots() == t2.nslots()
                    && elt_width(t) <= 64)
        }
        _ => false,
    }
}

fn result_slots(i: &I) -> usize {
    match i {
        I::Bin(_, t, ..) => t.nslots(),
        I::Icmp(_, t, ..) => match t {
            Ty::Vec(n, _) => *n,
            _ => 1,
        },
        I::Select(_, t, ..) => t.nslots(),
        I::Cast(_, _, _, t2) => t2.nslots(),
        I::Gep(..) => 1,
        I::Load(t, _) => t.nslots(),
        I::Alloca(..) => 1,
        I::Phi(t, _) => t.nslots(),
        I::Call(t, ..) => t.nslots(),
        I::Rmw(_, t, ..) => t.nslots(),
        I::CmpXchg(t, ..) => t.nslots() + 1,
        I::ExtractElement(Ty::Vec(_, e), ..) => e.nslots(),
        I::InsertElement(t, ..) => t.nslots(),
        _ => 1,
    }
}
