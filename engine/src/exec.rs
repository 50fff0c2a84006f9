//! Concolic interpreter: runs the lowered IR on concrete values while keeping,
//! for every register and memory byte that depends on the input, the exact
//! expression; every decision on such an expression is a solver question.
use crate::expr::*;
use crate::ir::{self, Bin, Ext, Module, Op, Ov, Pred, Un, FN_BASE, GLOBAL_BASE, R, RCONST};
use crate::z3::{Ans, Z3};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Abandon,
    Viol {
        kind: &'static str,
        code: u64,
        msg: String,
    },
    Limit(&'static str),
    Unsup(String),
    /// no time left
    Time,
    Internal(String),
}

#[derive(Clone)]
pub struct Item {
    pub inputs: Vec<u8>,
    pub bound: usize,
    pub prefix: Vec<u8>, // bit0 taken, bit1 implied
    pub excl: Vec<u64>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub abandoned: u64,
    pub insts: u64,
    pub events: u64,     // symbolic decisions met
    pub new_events: u64, // decisions at which the other side was queried
    pub implied: u64,    // other side infeasible
    pub forks: u64,
    pub by_search: u64, // decided exactly by a small backtracking search
    pub by_dom: u64,  // decided exactly on a finite byte domain
    pub by_eval: u64, // SAT certified by evaluating a candidate model
    pub by_cache: u64,
    pub by_z3: u64,
    pub asserts_const: u64,
    pub asserts_z3: u64,
    pub asserts_implied: u64, // symbolic, made constant by the path condition
    pub audits: u64,
    pub certified: u64, // paths whose assertions were discharged as one Z3 query
    pub concretized: u64,
    pub tables: u64,
    pub maxdepth: u64,
    pub max_insts: u64,
    pub max_nodes: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.abandoned += o.abandoned;
        self.insts += o.insts;
        self.events += o.events;
        self.new_events += o.new_events;
        self.implied += o.implied;
        self.forks += o.forks;
        self.by_search += o.by_search;
        self.by_dom += o.by_dom;
        self.by_eval += o.by_eval;
        self.by_cache += o.by_cache;
        self.by_z3 += o.by_z3;
        self.asserts_const += o.asserts_const;
        self.asserts_z3 += o.asserts_z3;
        self.asserts_implied += o.asserts_implied;
        self.audits += o.audits;
        self.certified += o.certified;
        self.concretized += o.concretized;
        self.tables += o.tables;
        self.maxdepth = self.maxdepth.max(o.maxdepth);
        self.max_insts = self.max_insts.max(o.max_insts);
        self.max_nodes = self.max_nodes.max(o.max_nodes);
    }
}

const STACK_SIZE: u64 = 8 << 20;
const HEAP_SIZE: u64 = 96 << 20;
const NSLOTS: usize = 4 << 20;

pub struct Limits {
    pub max_insts: u64,
    pub max_alloc: u64,
}

struct Frame {
    func: u32,
    pc: u32,
    base: u32,
    dst: u32,
    sp: u64,
}

pub struct Exec<'m> {
    m: &'m Module,
    pub a: Arena,
    pub z: Z3,
    vals: Vec<u64>,
    syms: Vec<u32>,
    nconst: usize,
    mem: Vec<u8>,
    sh: Vec<u32>,
    gend: u64,
    stack_base: u64,
    heap_base: u64,
    sp: u64,
    sp_max: u64,
    hp: u64,
    // bytes allocated and not freed, and their maximum since the last mark
    heap_live: u64,
    heap_peak: u64,
    hash_seed: u64,
    // path state
    pub inputs: Vec<u8>,
    nvars: usize,
    dom: Vec<[u64; 4]>,
    rep: Vec<u32>,
    repn: Vec<Id>,
    offs: Vec<u8>,        // value of j = value of rep[j] xor offs[j]
    dom0: Vec<[u64; 4]>,  // domains as declared
    raw: Vec<(Id, bool)>, // path condition as met, before any rewriting
    asserted: Vec<Id>,    // symbolic assertions as met, before any rewriting
    pub certify: u64,
    pub certify_implied: u64,
    pub deadline: Option<std::time::Instant>,
    path_ctr: u64,
    touched: VSet,
    multi: Vec<(Id, bool)>,
    memo: HashMap<Id, Id, Fx>,
    cache: HashMap<Vec<u64>, Ans, Fx>,
    pub trace: Vec<u8>,
    bound: usize,
    prefix: Vec<u8>,
    excl: Vec<u64>,
    pub out: Vec<Item>,
    pub incomplete: u64,
    pub stats: Stats,
    pub insts: u64,
    pub digest: u64,
    pub outbytes: Vec<u8>,
    pub reach: [u64; 64],
    reach_now: u64,
    pub cfg: Vec<u64>,
    pub lim: Limits,
    pub seen: Vec<bool>,
    stack: Vec<Frame>,
    audit: u64,
    audit_ctr: u64,
    pub validated_events: u64,
}

type Res<T> = Result<T, Stop>;

impl<'m> Exec<'m> {
    pub fn new(
        m: &'m Module,
        lim: Limits,
        timeout_ms: u32,
        seed: u64,
        audit: u64,
        dump_every: u64,
    ) -> Self {
        let gend = GLOBAL_BASE + m.mem.len() as u64;
        let stack_base = (gend + 0xffff) & !0xffff;
        let heap_base = stack_base + STACK_SIZE;
        let total = (heap_base + HEAP_SIZE - GLOBAL_BASE) as usize;
        let mut mem = vec![0u8; total];
        mem[..m.mem.len()].copy_from_slice(&m.mem);
        let nconst = m.consts.len();
        let mut vals = vec![0u64; nconst + NSLOTS];
        vals[..nconst].copy_from_slice(&m.consts);
        let mut z = Z3::new(timeout_ms, seed);
        z.dump_every = dump_every;
        Exec {
            m,
            a: Arena::new(),
            z,
            syms: vec![0u32; vals.len()],
            vals,
            nconst,
            sh: vec![0u32; total],
            mem,
            gend,
            stack_base,
            heap_base,
            sp: stack_base,
            sp_max: stack_base,
            hp: heap_base,
            heap_live: 0,
            heap_peak: 0,
            hash_seed: 0,
            inputs: vec![],
            nvars: 0,
            dom: vec![],
            rep: vec![],
            repn: vec![],
            offs: vec![],
            dom0: vec![],
            raw: vec![],
            asserted: vec![],
            certify: 1,
            certify_implied: 1,
            deadline: None,
            path_ctr: seed,
            touched: 0,
            multi: vec![],
            memo: HashMap::default(),
            cache: HashMap::default(),
            trace: vec![],
            bound: 0,
            prefix: vec![],
            excl: vec![],
            out: vec![],
            incomplete: 0,
            stats: Stats::default(),
            insts: 0,
            digest: 0,
            outbytes: vec![],
            reach: [0; 64],
            reach_now: 0,
            cfg: vec![],
            lim,
            seen: vec![false; m.funcs.len()],
            stack: vec![],
            audit,
            audit_ctr: seed,
            validated_events: 0,
        }
    }

    fn reset(&mut self) {
        let b = GLOBAL_BASE;
        let (s0, s1) = ((self.stack_base - b) as usize, (self.sp_max - b) as usize);
        self.mem[s0..s1].fill(0);
        self.sh[s0..s1].fill(0);
        let (h0, h1) = ((self.heap_base - b) as usize, (self.hp - b) as usize);
        self.mem[h0..h1].fill(0);
        self.sh[h0..h1].fill(0);
        for (a, n) in &self.m.mutable {
            let o = (a - b) as usize;
            let n = *n as usize;
            self.mem[o..o + n].copy_from_slice(&self.m.mem[o..o + n]);
            self.sh[o..o + n].fill(0);
        }
        self.sp = self.stack_base;
        self.sp_max = self.stack_base;
        self.hp = self.heap_base;
        self.heap_live = 0;
        self.heap_peak = 0;
        self.hash_seed = 0;
        self.nvars = 0;
        self.dom.clear();
        self.dom0.clear();
        self.offs.clear();
        self.raw.clear();
        self.asserted.clear();
        self.rep.clear();
        self.repn.clear();
        self.touched = 0;
        self.multi.clear();
        self.memo.clear();
        self.trace.clear();
        self.out.clear();
        self.insts = 0;
        self.digest = 0xcbf29ce484222325;
        self.outbytes.clear();
        self.reach_now = 0;
        self.stack.clear();
        if self.a.n.len() > 3_000_000 || self.cache.len() > 400_000 {
            self.renew();
        }
    }
    fn renew(&mut self) {
        self.a = Arena::new();
        self.cache.clear();
        let mut z = Z3::new(20000, 0);
        z.queries = self.z.queries;
        z.time_ns = self.z.time_ns;
        z.unknowns = self.z.unknowns;
        z.dump_every = self.z.dump_every;
        std::mem::swap(&mut z.dumps, &mut self.z.dumps);
        self.z = z;
    }

    /// one path
    pub fn run(&mut self, entry: usize, it: Item) -> Stop {
        self.reset();
        self.path_ctr += 1;
        self.inputs = it.inputs;
        self.bound = it.bound;
        self.prefix = it.prefix;
        self.excl = it.excl;
        let base = self.nconst as u32;
        self.stack.push(Frame {
            func: entry as u32,
            pc: 0,
            base,
            dst: 0,
            sp: self.sp,
        });
        let r = match self.go() {
            Ok(()) => match self.certificate() {
                Ok(()) => Stop::Done,
                Err(s) => s,
            },
            Err(s) => s,
        };
        self.stats.insts += self.insts;
        self.stats.max_insts = self.stats.max_insts.max(self.insts);
        self.stats.maxdepth = self.stats.maxdepth.max(self.trace.len() as u64);
        self.stats.max_nodes = self.stats.max_nodes.max(self.a.n.len() as u64);
        match r {
            Stop::Done => {
                self.stats.paths += 1;
                for i in 0..64 {
                    if self.reach_now >> i & 1 == 1 {
                        self.reach[i] += 1;
                    }
                }
                if self.trace.len() < self.bound {
                    return Stop::Internal("path ended before its recorded prefix".into());
                }
            }
            Stop::Abandon => self.stats.abandoned += 1,
            _ => {}
        }
        r
    }

    pub fn backtrace(&self) -> String {
        self.stack
            .iter()
            .rev()
            .take(8)
            .map(|f| demangle(&self.m.funcs[f.func as usize].name))
            .collect::<Vec<_>>()
            .join(" < ")
    }

    // ---------------------------------------------------------------- path state
    fn new_var(&mut self, lo: u8, hi: u8) -> Res<(u64, u32)> {
        let i = self.nvars;
        if i >= 128 {
            return Err(Stop::Unsup("more than 128 symbolic bytes".into()));
        }
        self.nvars += 1;
        let mut d = [0u64; 4];
        for v in lo as usize..=hi as usize {
            d[v >> 6] |= 1 << (v & 63);
        }
        if self.inputs.len() <= i {
            self.inputs.push(lo);
        } else if self.inputs[i] < lo || self.inputs[i] > hi {
            if self.trace.len() < self.bound {
                return Err(Stop::Internal("input outside its domain".into()));
            }
            self.inputs[i] = lo;
        }
        let n = self.a.var(i as u32);
        self.dom.push(d);
        self.dom0.push(d);
        self.rep.push(i as u32);
        self.repn.push(n);
        self.offs.push(0);
        let v = self.inputs[i] as u64;
        if lo == hi {
            return Ok((v, 0));
        }
        Ok((v, n))
    }
    #[inline]
    fn canon(&mut self, e: Id) -> Id {
        if self.a.vars[e as usize] & self.touched == 0 {
            return e;
        }
        let mut memo = std::mem::take(&mut self.memo);
        let r = self.a.subst(e, self.touched, &self.repn, &mut memo);
        self.memo = memo;
        r
    }
    fn touch(&mut self, set: VSet, work: &mut Vec<(Id, bool)>) {
        self.touched |= set;
        self.memo.clear();
        let mut i = 0;
        while i < self.multi.len() {
            let (e, p) = self.multi[i];
            if self.a.vars[e as usize] & set != 0 {
                self.multi.swap_remove(i);
                work.push((e, p));
            } else {
                i += 1;
            }
        }
    }
    fn add(&mut self, e: Id, pol: bool) -> Res<()> {
        let mut work = vec![(e, pol)];
        while let Some((e, mut pol)) = work.pop() {
            let mut e = self.canon(e);
            while let Some(x) = self.a.as_not(e) {
                e = x;
                pol = !pol;
            }
            if let Some(k) = self.a.cv(e) {
                if (k != 0) != pol {
                    return Err(Stop::Internal("contradictory path condition".into()));
                }
                continue;
            }
            let n = self.a.n[e as usize];
            if (n.op == O::And && pol) || (n.op == O::Or && !pol) {
                work.push((n.a, pol));
                work.push((n.b, pol));
                continue;
            }
            if n.op == O::Ite && n.w == 1 {
                // keep as is
            }
            let vs = self.a.vars[e as usize];
            if vs.count_ones() == 1 {
                let v = vs.trailing_zeros() as usize;
                let m = self.a.umask(e, pol);
                let mut cnt = 0;
                for i in 0..4 {
                    self.dom[v][i] &= m[i];
                    cnt += self.dom[v][i].count_ones();
                }
                if cnt == 0 {
                    return Err(Stop::Internal("empty domain".into()));
                }
                if cnt == 1 {
                    let set = self.fix(v);
                    self.touch(set, &mut work);
                }
                continue;
            }
            if n.op == O::Eq {
                if let (Some((p, kp)), Some((q, kq))) = (self.var_xor(n.a), self.var_xor(n.b)) {
                    // q = p ^ off, by the equality or because both have the same two values
                    let mut off = kp ^ kq;
                    let mut rel = pol && p != q;
                    if !pol && p != q {
                        if let (Some((a1, a2)), Some((b1, b2))) =
                            (two(&self.dom[p]), two(&self.dom[q]))
                        {
                            let d = a1 ^ a2;
                            if b1 ^ b2 == d && (a1 ^ off == b1 || a1 ^ off == b2) {
                                off ^= d;
                                rel = true;
                            }
                        }
                    }
                    if rel {
                        let (x, y) = (p.min(q), p.max(q));
                        let xn = self.a.var(x as u32);
                        let mut set: VSet = 0;
                        for j in 0..self.nvars {
                            if self.rep[j] as usize == y {
                                self.rep[j] = x as u32;
                                self.offs[j] ^= off;
                                let k = self.a.k(self.offs[j] as u64, 8);
                                self.repn[j] = self.a.bin(O::Xor, xn, k);
                                set |= 1 << j;
                            }
                        }
                        let mut cnt = 0;
                        for v in 0..256usize {
                            let u = v ^ off as usize;
                            if self.dom[x][v >> 6] >> (v & 63) & 1 == 1 {
                                if self.dom[y][u >> 6] >> (u & 63) & 1 == 0 {
                                    self.dom[x][v >> 6] &= !(1 << (v & 63));
                                } else {
                                    cnt += 1;
                                }
                            }
                        }
                        if cnt == 0 {
                            return Err(Stop::Internal("empty domain (merge)".into()));
                        }
                        if cnt == 1 {
                            set |= self.fix(x);
                        }
                        self.touch(set, &mut work);
                        continue;
                    }
                }
            }
            if !self.multi.contains(&(e, pol)) {
                self.multi.push((e, pol));
            }
        }
        Ok(())
    }
    fn set_class(&self, inp: &mut [u8], v: usize, val: u8) {
        for j in 0..self.nvars {
            if self.rep[j] as usize == v {
                inp[j] = val ^ self.offs[j];
            }
        }
    }
    /// class v has a single value left
    fn fix(&mut self, v: usize) -> VSet {
        let val = first_bit(&self.dom[v]).unwrap();
        let mut set: VSet = 0;
        for j in 0..self.nvars {
            if self.rep[j] as usize == v {
                self.repn[j] = self.a.k((val ^ self.offs[j]) as u64, 8);
                set |= 1 << j;
            }
        }
        set
    }
    fn var_xor(&self, e: Id) -> Option<(usize, u8)> {
        let n = self.a.n[e as usize];
        if n.op == O::Var {
            return Some((n.a as usize, 0));
        }
        if n.op == O::Xor {
            let (x, y) = (self.a.n[n.a as usize], self.a.n[n.b as usize]);
            if x.op == O::Var {
                if let Some(k) = self.a.cv(n.b) {
                    return Some((x.a as usize, k as u8));
                }
            }
            if y.op == O::Var {
                if let Some(k) = self.a.cv(n.a) {
                    return Some((y.a as usize, k as u8));
                }
            }
        }
        None
    }
    /// The whole path, once more and independently of every rewriting above: the
    /// declared domains, the branch decisions as met and the negation of the
    /// assertions, put to Z3 as one query.
    fn certificate(&mut self) -> Res<()> {
        if self.certify == 0 || self.asserted.is_empty() {
            return Ok(());
        }
        let asserted = std::mem::take(&mut self.asserted);
        let mut e = asserted[0];
        for x in &asserted[1..] {
            e = self.a.bin(O::And, e, *x);
        }
        let mut cs = std::mem::take(&mut self.raw);
        cs.push((e, false));
        let doms: Vec<(u32, [u64; 4])> = self
            .dom0
            .iter()
            .enumerate()
            .map(|(i, d)| (i as u32, *d))
            .collect();
        match self.z.solve(&self.a, &doms, &cs) {
            Ans::Unsat => {
                self.stats.certified += 1;
                Ok(())
            }
            Ans::Unknown => {
                self.incomplete += 1;
                Ok(())
            }
            Ans::Sat(_) => Err(Stop::Internal(
                "certificate: Z3 finds a violation the path analysis ruled out".into(),
            )),
        }
    }
    /// is path && (e == pol) satisfiable? Sat carries complete inputs.
    fn solve(&mut self, e: Id, pol: bool, force_z3: bool) -> Res<Result<Option<Vec<u8>>, ()>> {
        let vs = self.a.vars[e as usize];
        // slice of the path condition
        let mut s = vs;
        let mut sel: Vec<(Id, bool)> = Vec::new();
        if !self.multi.is_empty() {
            let mut used = vec![false; self.multi.len()];
            loop {
                let mut ch = false;
                for (i, (c, p)) in self.multi.iter().enumerate() {
                    if !used[i] && self.a.vars[*c as usize] & s != 0 {
                        used[i] = true;
                        s |= self.a.vars[*c as usize];
                        sel.push((*c, *p));
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let unary = vs.count_ones() == 1;
        if unary && !force_z3 {
            let v = vs.trailing_zeros() as usize;
            let m = self.a.umask(e, pol);
            let d = self.dom[v];
            let x = [d[0] & m[0], d[1] & m[1], d[2] & m[2], d[3] & m[3]];
            match first_bit(&x) {
                None => {
                    self.stats.by_dom += 1;
                    self.audit_check(e, pol, s, &sel, false)?;
                    return Ok(Ok(None));
                }
                Some(b) if sel.is_empty() => {
                    self.stats.by_dom += 1;
                    self.audit_check(e, pol, s, &sel, true)?;
                    let mut inp = self.inputs.clone();
                    self.set_class(&mut inp, v, b);
                    return Ok(Ok(Some(inp)));
                }
                _ => {}
            }
        }
        // candidate models, certified by evaluation
        {
            let mut budget = 400;
            let mut inp = self.inputs.clone();
            let mut vset = vs;
            while vset != 0 && budget > 0 {
                let v = vset.trailing_zeros() as usize;
                vset &= vset - 1;
                let old = inp[v];
                let d = self.dom[v];
                let mut cand: Vec<u8> = Vec::with_capacity(16);
                let mut o = vs & !(1 << v);
                while o != 0 {
                    let u = o.trailing_zeros() as usize;
                    o &= o - 1;
                    cand.push(self.inputs[u]);
                }
                for i in 0..256usize {
                    if d[i >> 6] >> (i & 63) & 1 == 1 {
                        cand.push(i as u8);
                    }
                }
                for c in cand {
                    if c == old || d[c as usize >> 6] >> (c & 63) & 1 == 0 {
                        continue;
                    }
                    if budget == 0 {
                        break;
                    }
                    budget -= 1;
                    self.set_class(&mut inp, v, c);
                    if (self.a.eval(e, &inp) != 0) == pol
                        && sel.iter().all(|(x, p)| (self.a.eval(*x, &inp) != 0) == *p)
                    {
                        self.stats.by_eval += 1;
                        self.audit_check(e, pol, s, &sel, true)?;
                        return Ok(Ok(Some(inp)));
                    }
                }
                self.set_class(&mut inp, v, old);
            }
        }
        // unsatisfiable already on the domains alone? (independent of the rest of the path)
        if !sel.is_empty() && !unary {
            if let Ans::Unsat = self.query(e, pol, vs, &[], force_z3)? {
                return Ok(Ok(None));
            }
        }
        match self.query(e, pol, s, &sel, force_z3)? {
            Ans::Unsat => Ok(Ok(None)),
            Ans::Unknown => Ok(Err(())),
            Ans::Sat(m) => {
                let mut inp = self.inputs.clone();
                for (v, x) in m {
                    self.set_class(&mut inp, v as usize, x);
                }
                // certify the model
                if (self.a.eval(e, &inp) != 0) != pol
                    || !sel.iter().all(|(x, p)| (self.a.eval(*x, &inp) != 0) == *p)
                {
                    return Err(Stop::Internal(
                        "solver model does not satisfy the query".into(),
                    ));
                }
                Ok(Ok(Some(inp)))
            }
        }
    }
    /// Decides by backtracking over the values of the bytes involved, if that is cheap.
    fn search(&mut self, e: Id, pol: bool, s: VSet, sel: &[(Id, bool)]) -> Option<Ans> {
        let size = |d: &[u64; 4]| d.iter().map(|x| x.count_ones() as usize).sum::<usize>();
        let mut left: Vec<usize> = Vec::new();
        let mut t = s;
        while t != 0 {
            left.push(t.trailing_zeros() as usize);
            t &= t - 1;
        }
        let own = self.a.vars[e as usize];
        let mut prod = 1usize;
        for &v in &left {
            if own >> v & 1 == 1 {
                prod = prod.saturating_mul(size(&self.dom[v]));
            }
        }
        if prod > 2048 {
            return None;
        }
        // order: the condition's own bytes, then whatever completes the most constraints
        let mut cs: Vec<(Id, bool, VSet)> = vec![(e, pol, own)];
        cs.extend(sel.iter().map(|&(x, p)| (x, p, self.a.vars[x as usize])));
        let mut order: Vec<usize> = Vec::new();
        let mut done: VSet = 0;
        let mut at: Vec<Vec<usize>> = Vec::new();
        let mut placed = vec![false; cs.len()];
        while !left.is_empty() {
            let mut best = (0, i64::MIN);
            for (i, &v) in left.iter().enumerate() {
                let d = size(&self.dom[v]) as i64;
                let mut sc = -d;
                if own & !done != 0 {
                    sc -= if own >> v & 1 == 1 { 0 } else { 1 << 40 };
                } else {
                    for (j, c) in cs.iter().enumerate() {
                        if !placed[j] && c.2 & !done & !(1 << v) == 0 {
                            sc += 300;
                        }
                    }
                }
                if sc > best.1 {
                    best = (i, sc);
                }
            }
            let v = left.swap_remove(best.0);
            order.push(v);
            done |= 1 << v;
            let mut now = Vec::new();
            for (j, c) in cs.iter().enumerate() {
                if !placed[j] && c.2 & !done == 0 {
                    placed[j] = true;
                    now.push(j);
                }
            }
            at.push(now);
        }
        let mut inp = self.inputs.clone();
        let mut budget = 6000usize;
        let vals: Vec<Vec<u8>> = order
            .iter()
            .map(|&v| {
                // the value at hand first
                let mut l = Vec::new();
                let cur = self.inputs[v];
                if self.dom[v][cur as usize >> 6] >> (cur & 63) & 1 == 1 {
                    l.push(cur);
                }
                for i in 0..=255u8 {
                    if i != cur && self.dom[v][i as usize >> 6] >> (i & 63) & 1 == 1 {
                        l.push(i);
                    }
                }
                l
            })
            .collect();
        let n = order.len();
        let mut idx = vec![0usize; n];
        let mut k = 0;
        loop {
            if k == n {
                let m = order.iter().map(|&v| (v as u32, inp[v])).collect();
                return Some(Ans::Sat(m));
            }
            if idx[k] == vals[k].len() {
                if k == 0 {
                    return Some(Ans::Unsat);
                }
                idx[k] = 0;
                k -= 1;
                continue;
            }
            let x = vals[k][idx[k]];
            idx[k] += 1;
            self.set_class(&mut inp, order[k], x);
            let mut ok = true;
            for &j in &at[k] {
                if budget == 0 {
                    return None;
                }
                budget -= 1;
                if (self.a.eval(cs[j].0, &inp) != 0) != cs[j].1 {
                    ok = false;
                    break;
                }
            }
            if ok {
                k += 1;
            }
        }
    }
    fn doms_of(&self, s: VSet) -> Vec<(u32, [u64; 4])> {
        let mut v = Vec::new();
        let mut t = s;
        while t != 0 {
            let i = t.trailing_zeros();
            t &= t - 1;
            v.push((i, self.dom[i as usize]));
        }
        v
    }
    fn query(&mut self, e: Id, pol: bool, s: VSet, sel: &[(Id, bool)], force_z3: bool) -> Res<Ans> {
        let mut cs: Vec<(Id, bool)> = sel.to_vec();
        cs.sort();
        cs.push((e, pol));
        let doms = self.doms_of(s);
        let mut key: Vec<u64> = Vec::with_capacity(cs.len() + doms.len() * 5);
        for (c, p) in &cs {
            key.push((*c as u64) << 1 | *p as u64);
        }
        key.push(u64::MAX);
        for (v, d) in &doms {
            key.push(*v as u64);
            key.extend_from_slice(d);
        }
        if !force_z3 {
            if let Some(r) = self.cache.get(&key) {
                self.stats.by_cache += 1;
                return Ok(r.clone());
            }
            if let Some(r) = self.search(e, pol, s, sel) {
                self.stats.by_search += 1;
                self.audit_check(e, pol, s, sel, r != Ans::Unsat)?;
                self.cache.insert(key, r.clone());
                return Ok(r);
            }
        }
        self.stats.by_z3 += 1;
        let r = self.z.solve(&self.a, &doms, &cs);
        if r != Ans::Unknown {
            self.cache.insert(key, r.clone());
        }
        Ok(r)
    }
    fn audit_check(&mut self, e: Id, pol: bool, s: VSet, sel: &[(Id, bool)], sat: bool) -> Res<()> {
        if self.audit == 0 {
            return Ok(());
        }
        self.audit_ctr += 1;
        if self.audit_ctr % self.audit != 0 {
            return Ok(());
        }
        let mut cs: Vec<(Id, bool)> = sel.to_vec();
        cs.push((e, pol));
        let doms = self.doms_of(s);
        let r = self.z.solve(&self.a, &doms, &cs);
        self.stats.audits += 1;
        match (r, sat) {
            (Ans::Unknown, _) | (Ans::Sat(_), true) | (Ans::Unsat, false) => Ok(()),
            (r, _) => {
                let inp = self.inputs.clone();
                let mut t = String::new();
                for (c, p) in &cs {
                    t += &format!(" [{} is {} wanted {}: {}]", c, self.a.eval(*c, &inp), p, self.a.show(*c, 14));
                }
                Err(Stop::Internal(format!("audit: fast verdict {} differs from Z3 {:?} at {} doms {:x?}: {}", sat, r, self.backtrace(), doms, t)))
            }
        }
    }

    /// time and space left?
    fn tick(&mut self) -> Res<()> {
        if self.a.n.len() > 12_000_000 {
            return Err(Stop::Unsup("more than 12 million expressions on a path".into()));
        }
        match self.deadline {
            Some(d) if std::time::Instant::now() > d => Err(Stop::Time),
            _ => Ok(()),
        }
    }
    /// symbolic decision: e is canonical and not constant
    fn event(&mut self, raw: (Id, bool), e: Id, taken: bool) -> Res<()> {
        let k = self.trace.len();
        self.stats.events += 1;
        if k < self.bound {
            let f = self.prefix[k];
            if (f & 1 == 1) != taken {
                let inp = self.inputs.clone();
                return Err(Stop::Internal(format!(
                    "divergence at decision {} of {} (expression {} canonical {} taken {}) in {}",
                    k, self.bound, self.a.eval(raw.0, &inp), self.a.eval(e, &inp), taken, self.backtrace()
                )));
            }
            self.trace.push(f);
            if f & 2 == 0 {
                self.raw.push(raw);
                self.add(e, taken)?;
            }
            return Ok(());
        }
        self.stats.new_events += 1;
        self.tick()?;
        match self.solve(e, !taken, false)? {
            Ok(None) => {
                self.stats.implied += 1;
                self.trace.push(taken as u8 | 2);
                self.note_implied(raw);
            }
            Ok(Some(inp)) => {
                self.stats.forks += 1;
                let mut prefix = Vec::with_capacity(k + 1);
                prefix.extend_from_slice(&self.trace);
                prefix.push(!taken as u8);
                self.out.push(Item {
                    inputs: inp,
                    bound: k + 1,
                    prefix,
                    excl: vec![],
                });
                self.trace.push(taken as u8);
                self.raw.push(raw);
                self.add(e, taken)?;
            }
            Err(()) => {
                self.incomplete += 1;
                self.trace.push(taken as u8);
                self.raw.push(raw);
                self.add(e, taken)?;
            }
        }
        Ok(())
    }
    /// a decision whose other side was found infeasible: part of the path's certificate
    fn note_implied(&mut self, raw: (Id, bool)) {
        if self.certify_implied != 0 && self.path_ctr % self.certify_implied == 0 {
            let e = if raw.1 { raw.0 } else { self.a.not(raw.0) };
            self.asserted.push(e);
        }
    }
    fn decide(&mut self, v: u64, s: u32) -> Res<bool> {
        if s == 0 {
            return Ok(v & 1 == 1);
        }
        let mut e = self.canon(s);
        if let Some(k) = self.a.cv(e) {
            debug_assert_eq!(k, v & 1);
            return Ok(k != 0);
        }
        let mut t = v & 1 == 1;
        let r = t;
        while let Some(x) = self.a.as_not(e) {
            e = x;
            t = !t;
        }
        self.event((s, r), e, t)?;
        Ok(r)
    }
    fn concretize(&mut self, v: u64, s: u32) -> Res<u64> {
        if s == 0 {
            return Ok(v);
        }
        let c = self.canon(s);
        if let Some(k) = self.a.cv(c) {
            return Ok(k);
        }
        let w = self.a.w(c);
        let kv = self.a.k(v, w);
        let e = self.a.eq(c, kv);
        if self.a.cv(e).is_some() {
            return Ok(v);
        }
        self.stats.concretized += 1;
        let k = self.trace.len();
        if k < self.bound {
            let rk = self.a.k(v, w);
            let re = self.a.eq(s, rk);
            self.event((re, true), e, true)?;
            return Ok(v);
        }
        self.stats.events += 1;
        self.stats.new_events += 1;
        let excl = if k == self.bound {
            std::mem::take(&mut self.excl)
        } else {
            vec![]
        };
        let mut f = self.a.not(e);
        for x in &excl {
            let kx = self.a.k(*x, w);
            let q = self.a.eq(c, kx);
            let nq = self.a.not(q);
            f = self.a.bin(O::And, f, nq);
        }
        let r = if self.a.cv(f) == Some(0) {
            Ok(None)
        } else {
            self.solve(f, true, false)?
        };
        match r {
            Ok(None) => {
                self.stats.implied += 1;
                if excl.is_empty() {
                    self.trace.push(3);
                    let rk = self.a.k(v, w);
                    let re = self.a.eq(s, rk);
                    self.note_implied((re, true));
                    return Ok(v);
                }
                self.trace.push(1);
            }
            Ok(Some(inp)) => {
                self.stats.forks += 1;
                let prefix = self.trace.clone();
                let mut ex = excl.clone();
                ex.push(v);
                self.out.push(Item {
                    inputs: inp,
                    bound: k,
                    prefix,
                    excl: ex,
                });
                self.trace.push(1);
            }
            Err(()) => {
                self.incomplete += 1;
                self.trace.push(1);
            }
        }
        let rk = self.a.k(v, w);
        let re = self.a.eq(s, rk);
        self.raw.push((re, true));
        self.add(e, true)?;
        Ok(v)
    }
    fn assume(&mut self, v: u64, s: u32) -> Res<()> {
        if s == 0 {
            return if v & 1 == 1 {
                Ok(())
            } else {
                Err(Stop::Abandon)
            };
        }
        let e = self.canon(s);
        if let Some(k) = self.a.cv(e) {
            return if k == 1 { Ok(()) } else { Err(Stop::Abandon) };
        }
        let k = self.trace.len();
        if v & 1 == 1 {
            self.stats.events += 1;
            if k < self.bound && self.prefix[k] & 1 != 1 {
                return Err(Stop::Internal("divergence at assumption".into()));
            }
            self.trace.push(1);
            self.raw.push((s, true));
            return self.add(e, true);
        }
        if k < self.bound {
            return Err(Stop::Internal(
                "assumption broken inside the recorded prefix".into(),
            ));
        }
        match self.solve(e, true, false)? {
            Ok(None) => {}
            Ok(Some(inp)) => {
                let prefix = self.trace.clone();
                self.out.push(Item {
                    inputs: inp,
                    bound: k,
                    prefix,
                    excl: std::mem::take(&mut self.excl),
                });
            }
            Err(()) => self.incomplete += 1,
        }
        Err(Stop::Abandon)
    }
    /// property assertion: always put to the SMT solver unless the path has made it constant
    fn assert(&mut self, v: u64, s: u32, code: u64) -> Res<()> {
        let fail = |c: u64| {
            Err(Stop::Viol {
                kind: "assert",
                code: c,
                msg: String::new(),
            })
        };
        if s == 0 {
            self.stats.asserts_const += 1;
            return if v & 1 == 1 { Ok(()) } else { fail(code) };
        }
        self.asserted.push(s);
        let e = self.canon(s);
        if let Some(k) = self.a.cv(e) {
            self.stats.asserts_implied += 1;
            return if k == 1 { Ok(()) } else { fail(code) };
        }
        let k = self.trace.len();
        if v & 1 == 0 {
            return fail(code);
        }
        self.stats.events += 1;
        if k < self.bound {
            let f = self.prefix[k];
            if f & 1 == 0 {
                return Err(Stop::Internal("divergence at assertion".into()));
            }
            self.trace.push(f);
            return if f & 2 == 0 {
                self.add(e, true)
            } else {
                Ok(())
            };
        }
        self.stats.asserts_z3 += 1;
        match self.solve(e, false, true)? {
            Ok(None) => {
                self.trace.push(3);
                Ok(())
            }
            Ok(Some(inp)) => {
                self.inputs = inp;
                fail(code)
            }
            Err(()) => {
                self.incomplete += 1;
                self.trace.push(1);
                self.add(e, true)
            }
        }
    }

    // ---------------------------------------------------------------- memory
    #[inline]
    fn off(&self, addr: u64, n: u64) -> Res<usize> {
        let o = addr.wrapping_sub(GLOBAL_BASE);
        if o.checked_add(n).map_or(true, |e| e > self.mem.len() as u64) || addr >= self.hp && n > 0
        {
            return Err(Stop::Viol {
                kind: "fault",
                code: addr,
                msg: format!(
                    "invalid memory access at {:#x}+{} in {}",
                    addr,
                    n,
                    self.backtrace()
                ),
            });
        }
        Ok(o as usize)
    }
    fn load(&mut self, addr: u64, w: u8) -> Res<(u64, u32)> {
        let nb = ((w as usize) + 7) / 8;
        let o = self.off(addr, nb as u64)?;
        let mut b = [0u8; 8];
        b[..nb].copy_from_slice(&self.mem[o..o + nb]);
        let v = u64::from_le_bytes(b) & mask(w);
        let mut any = 0u32;
        for x in &self.sh[o..o + nb] {
            any |= x;
        }
        if any == 0 {
            return Ok((v, 0));
        }
        let mut e = 0;
        for i in (0..nb).rev() {
            let s = self.sh[o + i];
            let x = if s == 0 {
                self.a.k(self.mem[o + i] as u64, 8)
            } else {
                s
            };
            e = if i == nb - 1 { x } else { self.a.concat(e, x) };
        }
        let full = (nb * 8) as u8;
        if full > w {
            e = self.a.extract(e, 0, w);
        }
        if self.a.cv(e).is_some() {
            return Ok((v, 0));
        }
        Ok((v, e))
    }
    fn store(&mut self, addr: u64, w: u8, v: u64, s: u32) -> Res<()> {
        let nb = ((w as usize) + 7) / 8;
        let o = self.off(addr, nb as u64)?;
        self.mem[o..o + nb].copy_from_slice(&v.to_le_bytes()[..nb]);
        if s == 0 {
            self.sh[o..o + nb].fill(0);
            return Ok(());
        }
        let full = (nb * 8) as u8;
        let e = if full > w { self.a.zext(s, full) } else { s };
        for i in 0..nb {
            let x = self.a.extract(e, (i * 8) as u8, 8);
            self.sh[o + i] = if self.a.cv(x).is_some() { 0 } else { x };
        }
        Ok(())
    }
    /// load through an address depending on one input byte: tabulate
    fn table_load(&mut self, v: u64, s: u32, off: u64, w: u8) -> Res<Option<(u64, u32)>> {
        let c = self.canon(s);
        if self.a.cv(c).is_some() {
            return Ok(None);
        }
        let vs = self.a.vars[c as usize];
        if vs.count_ones() != 1 {
            return Ok(None);
        }
        let var = vs.trailing_zeros();
        let t = self.a.utab(c);
        let nb = ((w as usize) + 7) / 8;
        let d = self.dom[var as usize];
        let mut r = [0u64; 256];
        for i in 0..256usize {
            if d[i >> 6] >> (i & 63) & 1 == 0 {
                continue;
            }
            let addr = t[i].wrapping_add(off);
            let o = addr.wrapping_sub(GLOBAL_BASE);
            if o >= self.mem.len() as u64 || o as usize + nb > self.mem.len() {
                return Ok(None);
            }
            let o = o as usize;
            if self.sh[o..o + nb].iter().any(|x| *x != 0) {
                return Ok(None);
            }
            let mut b = [0u8; 8];
            b[..nb].copy_from_slice(&self.mem[o..o + nb]);
            r[i] = u64::from_le_bytes(b) & mask(w);
        }
        self.stats.tables += 1;
        let e = self.a.tab(var, &r, w);
        let (val, _) = self.load(v.wrapping_add(off), w)?;
        Ok(Some((val, e)))
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.off(s, n)?;
        let dof = self.off(d, n)?;
        let n = n as usize;
        self.mem.copy_within(so..so + n, dof);
        self.sh.copy_within(so..so + n, dof);
        Ok(())
    }
    fn alloc(&mut self, n: u64, align: u64) -> Res<u64> {
        self.heap_live = self.heap_live.saturating_add(n);
        self.heap_peak = self.heap_peak.max(self.heap_live);
        let al = align.max(16);
        let p = (self.hp + al - 1) / al * al;
        if n > self.lim.max_alloc || p + n + 64 > self.heap_base + HEAP_SIZE {
            return Err(if n > self.lim.max_alloc {
                Stop::Viol {
                    kind: "alloc",
                    code: n,
                    msg: format!("allocation of {} bytes in {}", n, self.backtrace()),
                }
            } else {
                Stop::Limit("heap")
            });
        }
        self.hp = p + n.max(1);
        Ok(p)
    }

    // ---------------------------------------------------------------- interpreter
    #[inline(always)]
    fn rd(&self, base: u32, r: R) -> (u64, u32) {
        let i = if r & RCONST != 0 {
            (r & !RCONST) as usize
        } else {
            (base + r) as usize
        };
        unsafe { (*self.vals.get_unchecked(i), *self.syms.get_unchecked(i)) }
    }
    #[inline(always)]
    fn wr(&mut self, base: u32, d: u32, v: u64, s: u32) {
        let i = (base + d) as usize;
        unsafe {
            *self.vals.get_unchecked_mut(i) = v;
            *self.syms.get_unchecked_mut(i) = s;
        }
    }
    #[inline]
    fn node(&mut self, v: u64, s: u32, w: u8) -> Id {
        if s == 0 {
            self.a.k(v, w)
        } else {
            s
        }
    }
    #[inline]
    fn fin(&self, e: Id) -> u32 {
        if self.a.cv(e).is_some() {
            0
        } else {
            e
        }
    }

    fn bin(&mut self, op: Bin, w: u8, a: (u64, u32), b: (u64, u32)) -> Res<(u64, u32)> {
        let m = mask(w);
        let (x, y) = (a.0, b.0);
        let v = match op {
            Bin::Add => x.wrapping_add(y) & m,
            Bin::Sub => x.wrapping_sub(y) & m,
            Bin::Mul => x.wrapping_mul(y) & m,
            Bin::And => x & y,
            Bin::Or => x | y,
            Bin::Xor => x ^ y,
            Bin::Shl => apply2(O::Shl, w, x, y),
            Bin::LShr => apply2(O::LShr, w, x, y),
            Bin::AShr => apply2(O::AShr, w, x, y),
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                if y == 0 && b.1 == 0 {
                    return Err(Stop::Viol {
                        kind: "fault",
                        code: 0,
                        msg: "division by zero".into(),
                    });
                }
                let o = match op {
                    Bin::UDiv => O::UDiv,
                    Bin::URem => O::URem,
                    Bin::SDiv => O::SDiv,
                    _ => O::SRem,
                };
                apply2(o, w, x, y)
            }
            Bin::UMin => x.min(y),
            Bin::UMax => x.max(y),
            Bin::SMin => {
                if sx(x, w) <= sx(y, w) {
                    x
                } else {
                    y
                }
            }
            Bin::SMax => {
                if sx(x, w) >= sx(y, w) {
                    x
                } else {
                    y
                }
            }
            Bin::UAddSat => {
                let s = (x as u128) + (y as u128);
                if s > m as u128 {
                    m
                } else {
                    s as u64
                }
            }
            Bin::USubSat => x.saturating_sub(y),
            Bin::SAddSat | Bin::SSubSat => {
                let (p, q) = (sx(x, w) as i128, sx(y, w) as i128);
                let r = if op == Bin::SAddSat { p + q } else { p - q };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                r.clamp(lo, hi) as u64 & m
            }
        };
        if a.1 | b.1 == 0 {
            return Ok((v, 0));
        }
        if op == Bin::Mul && a.1 != 0 && b.1 != 0 && w > 32 {
            let y = self.concretize(b.0, b.1)?;
            return self.bin(op, w, a, (y, 0));
        }
        let ea = self.node(a.0, a.1, w);
        let eb = self.node(b.0, b.1, w);
        let e = match op {
            Bin::Add => self.a.bin(O::Add, ea, eb),
            Bin::Sub => self.a.bin(O::Sub, ea, eb),
            Bin::Mul => self.a.bin(O::Mul, ea, eb),
            Bin::And => self.a.bin(O::And, ea, eb),
            Bin::Or => self.a.bin(O::Or, ea, eb),
            Bin::Xor => self.a.bin(O::Xor, ea, eb),
            Bin::Shl => self.a.bin(O::Shl, ea, eb),
            Bin::LShr => self.a.bin(O::LShr, ea, eb),
            Bin::AShr => self.a.bin(O::AShr, ea, eb),
            Bin::UDiv => self.a.bin(O::UDiv, ea, eb),
            Bin::URem => self.a.bin(O::URem, ea, eb),
            Bin::SDiv => self.a.bin(O::SDiv, ea, eb),
            Bin::SRem => self.a.bin(O::SRem, ea, eb),
            Bin::UMin => {
                let c = self.a.ult(eb, ea);
                self.a.ite(c, eb, ea)
            }
            Bin::UMax => {
                let c = self.a.ult(ea, eb);
                self.a.ite(c, eb, ea)
            }
            Bin::SMin => {
                let c = self.a.slt(eb, ea);
                self.a.ite(c, eb, ea)
            }
            Bin::SMax => {
                let c = self.a.slt(ea, eb);
                self.a.ite(c, eb, ea)
            }
            Bin::UAddSat => {
                let s = self.a.bin(O::Add, ea, eb);
                let c = self.a.ult(s, ea);
                let k = self.a.k(m, w);
                self.a.ite(c, k, s)
            }
            Bin::USubSat => {
                let s = self.a.bin(O::Sub, ea, eb);
                let c = self.a.ult(ea, eb);
                let k = self.a.k(0, w);
                self.a.ite(c, k, s)
            }
            Bin::SAddSat | Bin::SSubSat => {
                let o = if op == Bin::SAddSat { O::Add } else { O::Sub };
                let s = self.a.bin(o, ea, eb);
                let z = self.a.k(0, w);
                let (na, nb, ns) = (self.a.slt(ea, z), self.a.slt(eb, z), self.a.slt(s, z));
                let x = self.a.bin(O::Xor, na, nb);
                let same = if o == O::Add { self.a.not(x) } else { x };
                let diff = self.a.bin(O::Xor, ns, na);
                let over = self.a.bin(O::And, same, diff);
                let (lo, hi) = (self.a.k(1 << (w - 1), w), self.a.k(m >> 1, w));
                let k = self.a.ite(na, lo, hi);
                self.a.ite(over, k, s)
            }
        };
        Ok((v, self.fin(e)))
    }

    fn bit64(&mut self, b: (u64, u32)) -> (u64, u32) {
        (b.0, if b.1 == 0 { 0 } else { self.a.zext(b.1, 64) })
    }

    /// 64 x 64 -> 128
    fn mul_full(&mut self, a: (u64, u32), b: (u64, u32)) -> Res<[(u64, u32); 2]> {
        let b = if a.1 != 0 && b.1 != 0 {
            (self.concretize(b.0, b.1)?, 0)
        } else {
            b
        };
        let m = (0xffff_ffffu64, 0);
        let h = (32u64, 0);
        let a0 = self.bin(Bin::And, 64, a, m)?;
        let a1 = self.bin(Bin::LShr, 64, a, h)?;
        let b0 = self.bin(Bin::And, 64, b, m)?;
        let b1 = self.bin(Bin::LShr, 64, b, h)?;
        let p00 = self.bin(Bin::Mul, 64, a0, b0)?;
        let p01 = self.bin(Bin::Mul, 64, a0, b1)?;
        let p10 = self.bin(Bin::Mul, 64, a1, b0)?;
        let p11 = self.bin(Bin::Mul, 64, a1, b1)?;
        let x = self.bin(Bin::LShr, 64, p00, h)?;
        let y = self.bin(Bin::And, 64, p01, m)?;
        let z = self.bin(Bin::And, 64, p10, m)?;
        let mid = self.bin(Bin::Add, 64, x, y)?;
        let mid = self.bin(Bin::Add, 64, mid, z)?;
        let lo = self.bin(Bin::Mul, 64, a, b)?;
        let y = self.bin(Bin::LShr, 64, p01, h)?;
        let z = self.bin(Bin::LShr, 64, p10, h)?;
        let u = self.bin(Bin::LShr, 64, mid, h)?;
        let hi = self.bin(Bin::Add, 64, p11, y)?;
        let hi = self.bin(Bin::Add, 64, hi, z)?;
        let hi = self.bin(Bin::Add, 64, hi, u)?;
        Ok([lo, hi])
    }

    /// Arithmetic on 128 bits with symbolic operands, in halves.
    fn bin2(&mut self, op: Bin, a: [(u64, u32); 2], b: [(u64, u32); 2]) -> Res<[(u64, u32); 2]> {
        match op {
            Bin::Add => {
                let lo = self.bin(Bin::Add, 64, a[0], b[0])?;
                let c = self.icmp(Pred::Ult, 64, lo, a[0]);
                let c = self.bit64(c);
                let hi = self.bin(Bin::Add, 64, a[1], b[1])?;
                Ok([lo, self.bin(Bin::Add, 64, hi, c)?])
            }
            Bin::Sub => {
                let lo = self.bin(Bin::Sub, 64, a[0], b[0])?;
                let c = self.icmp(Pred::Ult, 64, a[0], b[0]);
                let c = self.bit64(c);
                let hi = self.bin(Bin::Sub, 64, a[1], b[1])?;
                Ok([lo, self.bin(Bin::Sub, 64, hi, c)?])
            }
            Bin::Mul => {
                let [lo, hi] = self.mul_full(a[0], b[0])?;
                let x = self.bin(Bin::Mul, 64, a[0], b[1])?;
                let y = self.bin(Bin::Mul, 64, a[1], b[0])?;
                let hi = self.bin(Bin::Add, 64, hi, x)?;
                Ok([lo, self.bin(Bin::Add, 64, hi, y)?])
            }
            Bin::Shl | Bin::LShr | Bin::AShr => {
                let k = self.concretize(b[0].0, b[0].1)?;
                let h = self.concretize(b[1].0, b[1].1)?;
                if h != 0 || k >= 128 {
                    return Err(Stop::Unsup("i128 shift".into()));
                }
                let left = op == Bin::Shl;
                let fill = if op == Bin::AShr {
                    self.bin(Bin::AShr, 64, a[1], (63, 0))?
                } else {
                    (0, 0)
                };
                // the half the bits come from first
                let (near, far) = if left { (a[0], a[1]) } else { (a[1], a[0]) };
                let (one, back) = if left { (Bin::Shl, Bin::LShr) } else { (Bin::LShr, Bin::Shl) };
                let end = if op == Bin::AShr { Bin::AShr } else { one };
                let (n, f) = if k == 0 {
                    (near, far)
                } else if k >= 64 {
                    (fill, self.bin(end, 64, near, (k - 64, 0))?)
                } else {
                    let over = self.bin(back, 64, near, (64 - k, 0))?;
                    let f = self.bin(one, 64, far, (k, 0))?;
                    (self.bin(end, 64, near, (k, 0))?, self.bin(Bin::Or, 64, f, over)?)
                };
                Ok(if left { [n, f] } else { [f, n] })
            }
            Bin::UDiv | Bin::URem if a[1] == (0, 0) && b[1] == (0, 0) => {
                Ok([self.bin(op, 64, a[0], b[0])?, (0, 0)])
            }
            _ => Err(Stop::Unsup("symbolic i128 arithmetic".into())),
        }
    }

    fn ov2(&mut self, op: Ov, a: [(u64, u32); 2], b: [(u64, u32); 2]) -> Res<([(u64, u32); 2], (u64, u32))> {
        let less = |e: &mut Self, x: [(u64, u32); 2], y: [(u64, u32); 2]| -> Res<(u64, u32)> {
            let h = e.icmp(Pred::Ult, 64, x[1], y[1]);
            let q = e.icmp(Pred::Eq, 64, x[1], y[1]);
            let l = e.icmp(Pred::Ult, 64, x[0], y[0]);
            let t = e.bin(Bin::And, 1, q, l)?;
            e.bin(Bin::Or, 1, h, t)
        };
        match op {
            Ov::UAdd => {
                let r = self.bin2(Bin::Add, a, b)?;
                let o = less(self, r, a)?;
                Ok((r, o))
            }
            Ov::USub => {
                let r = self.bin2(Bin::Sub, a, b)?;
                let o = less(self, a, b)?;
                Ok((r, o))
            }
            Ov::UMul => {
                let (mut a, mut b) = (a, b);
                if b[0].1 | b[1].1 != 0 {
                    std::mem::swap(&mut a, &mut b);
                }
                let y = (self.concretize(b[0].0, b[0].1)? as u128) | (self.concretize(b[1].0, b[1].1)? as u128) << 64;
                let b = [(y as u64, 0), ((y >> 64) as u64, 0)];
                let r = self.bin2(Bin::Mul, a, b)?;
                let o = if y == 0 {
                    (0, 0)
                } else {
                    let k = u128::MAX / y;
                    less(self, [(k as u64, 0), ((k >> 64) as u64, 0)], a)?
                };
                Ok((r, o))
            }
            Ov::SAdd | Ov::SSub => {
                let add = op == Ov::SAdd;
                let r = self.bin2(if add { Bin::Add } else { Bin::Sub }, a, b)?;
                let top = |e: &mut Self, x: (u64, u32)| e.icmp(Pred::Slt, 64, x, (0, 0));
                let (na, nb, nr) = (top(self, a[1]), top(self, b[1]), top(self, r[1]));
                let x = self.bin(Bin::Xor, 1, na, nb)?;
                let same = if add { self.bin(Bin::Xor, 1, x, (1, 0))? } else { x };
                let diff = self.bin(Bin::Xor, 1, nr, na)?;
                let o = self.bin(Bin::And, 1, same, diff)?;
                Ok((r, o))
            }
            Ov::SMul => Err(Stop::Unsup("i128 smul".into())),
        }
    }
    fn icmp(&mut self, p: Pred, w: u8, a: (u64, u32), b: (u64, u32)) -> (u64, u32) {
        let (x, y) = (a.0, b.0);
        let v = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => sx(x, w) < sx(y, w),
            Pred::Sle => sx(x, w) <= sx(y, w),
            Pred::Sgt => sx(x, w) > sx(y, w),
            Pred::Sge => sx(x, w) >= sx(y, w),
        } as u64;
        if a.1 | b.1 == 0 {
            return (v, 0);
        }
        let ea = self.node(a.0, a.1, w);
        let eb = self.node(b.0, b.1, w);
        let (e, neg) = match p {
            Pred::Eq => (self.a.eq(ea, eb), false),
            Pred::Ne => (self.a.eq(ea, eb), true),
            Pred::Ult => (self.a.ult(ea, eb), false),
            Pred::Uge => (self.a.ult(ea, eb), true),
            Pred::Ugt => (self.a.ult(eb, ea), false),
            Pred::Ule => (self.a.ult(eb, ea), true),
            Pred::Slt => (self.a.slt(ea, eb), false),
            Pred::Sge => (self.a.slt(ea, eb), true),
            Pred::Sgt => (self.a.slt(eb, ea), false),
            Pred::Sle => (self.a.slt(eb, ea), true),
        };
        let e = if neg { self.a.not(e) } else { e };
        (v, self.fin(e))
    }

    fn take_edge(&mut self, f: &'m ir::Func, base: u32, e: u32) -> u32 {
        let ed = &f.edges[e as usize];
        if ed.moves.is_empty() {
            return ed.pc;
        }
        if !ed.hazard {
            for &(d, s) in ed.moves.iter() {
                let (v, y) = self.rd(base, s);
                self.wr(base, d, v, y);
            }
        } else {
            let mut tmp: Vec<(u64, u32)> = Vec::with_capacity(ed.moves.len());
            for &(_, s) in ed.moves.iter() {
                tmp.push(self.rd(base, s));
            }
            for (i, &(d, _)) in ed.moves.iter().enumerate() {
                self.wr(base, d, tmp[i].0, tmp[i].1);
            }
        }
        ed.pc
    }

    fn go(&mut self) -> Res<()> {
        let m = self.m;
        let mut fr = self.stack.pop().unwrap();
        let mut f = &m.funcs[fr.func as usize];
        self.seen[fr.func as usize] = true;
        macro_rules! sync {
            () => {
                self.stack.push(Frame {
                    func: fr.func,
                    pc: fr.pc,
                    base: fr.base,
                    dst: fr.dst,
                    sp: fr.sp,
                })
            };
        }
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(s) => {
                        sync!();
                        let s = match s {
                            Stop::Viol { kind, code, msg } if msg.is_empty() => Stop::Viol {
                                kind,
                                code,
                                msg: self.backtrace(),
                            },
                            x => x,
                        };
                        return Err(s);
                    }
                }
            };
        }
        loop {
            self.insts += 1;
            if self.insts > self.lim.max_insts {
                sync!();
                return Err(Stop::Limit("instructions"));
            }
            if self.insts & 0xffff == 0 {
                tri!(self.tick());
            }
            let op = unsafe { f.ops.get_unchecked(fr.pc as usize) };
            fr.pc += 1;
            let base = fr.base;
            match op {
                Op::Bin { op, w, dst, a, b } => {
                    let x = self.rd(base, *a);
                    let y = self.rd(base, *b);
                    let r = tri!(self.bin(*op, *w, x, y));
                    self.wr(base, *dst, r.0, r.1);
                }
                Op::Icmp { p, w, dst, a, b } => {
                    let x = self.rd(base, *a);
                    let y = self.rd(base, *b);
                    let r = self.icmp(*p, *w, x, y);
                    self.wr(base, *dst, r.0, r.1);
                }
                Op::Icmp2 { p, dst, a, b } => {
                    let al = self.rd(base, a[0]);
                    let ah = self.rd(base, a[1]);
                    let bl = self.rd(base, b[0]);
                    let bh = self.rd(base, b[1]);
                    let r = match p {
                        Pred::Eq | Pred::Ne => {
                            let x = self.icmp(Pred::Eq, 64, al, bl);
                            let y = self.icmp(Pred::Eq, 64, ah, bh);
                            let z = tri!(self.bin(Bin::And, 1, x, y));
                            if *p == Pred::Ne {
                                tri!(self.bin(Bin::Xor, 1, z, (1, 0)))
                            } else {
                                z
                            }
                        }
                        _ => {
                            let (lo, hi) = match p {
                                Pred::Ult => (Pred::Ult, Pred::Ult),
                                Pred::Ule => (Pred::Ule, Pred::Ult),
                                Pred::Ugt => (Pred::Ugt, Pred::Ugt),
                                Pred::Uge => (Pred::Uge, Pred::Ugt),
                                Pred::Slt => (Pred::Ult, Pred::Slt),
                                Pred::Sle => (Pred::Ule, Pred::Slt),
                                Pred::Sgt => (Pred::Ugt, Pred::Sgt),
                                _ => (Pred::Uge, Pred::Sgt),
                            };
                            let h = self.icmp(hi, 64, ah, bh);
                            let e = self.icmp(Pred::Eq, 64, ah, bh);
                            let l = self.icmp(lo, 64, al, bl);
                            let t = tri!(self.bin(Bin::And, 1, e, l));
                            tri!(self.bin(Bin::Or, 1, h, t))
                        }
                    };
                    self.wr(base, *dst, r.0, r.1);
                }
                Op::Bin2 { op, dst, a, b } => {
                    let al = self.rd(base, a[0]);
                    let ah = self.rd(base, a[1]);
                    let bl = self.rd(base, b[0]);
                    let bh = self.rd(base, b[1]);
                    if al.1 | ah.1 | bl.1 | bh.1 != 0 {
                        let [lo, hi] = tri!(self.bin2(*op, [al, ah], [bl, bh]));
                        self.wr(base, *dst, lo.0, lo.1);
                        self.wr(base, *dst + 1, hi.0, hi.1);
                        continue;
                    }
                    let x = (al.0 as u128) | (ah.0 as u128) << 64;
                    let y = (bl.0 as u128) | (bh.0 as u128) << 64;
                    let r = match op {
                        Bin::Add => x.wrapping_add(y),
                        Bin::Sub => x.wrapping_sub(y),
                        Bin::Mul => x.wrapping_mul(y),
                        Bin::UDiv if y != 0 => x / y,
                        Bin::URem if y != 0 => x % y,
                        Bin::Shl if y < 128 => x << y,
                        Bin::LShr if y < 128 => x >> y,
                        Bin::AShr if y < 128 => ((x as i128) >> y) as u128,
                        _ => {
                            sync!();
                            return Err(Stop::Unsup("i128 op".into()));
                        }
                    };
                    self.wr(base, *dst, r as u64, 0);
                    self.wr(base, *dst + 1, (r >> 64) as u64, 0);
                }
                Op::Ov2 { op, dst, a, b } => {
                    let al = self.rd(base, a[0]);
                    let ah = self.rd(base, a[1]);
                    let bl = self.rd(base, b[0]);
                    let bh = self.rd(base, b[1]);
                    let (r, o) = tri!(self.ov2(*op, [al, ah], [bl, bh]));
                    self.wr(base, *dst, r[0].0, r[0].1);
                    self.wr(base, *dst + 1, r[1].0, r[1].1);
                    self.wr(base, *dst + 2, o.0, o.1);
                }
                Op::Select {
                    w,
                    ptr,
                    dst,
                    c,
                    a,
                    b,
                } => {
                    let cc = self.rd(base, *c);
                    let x = self.rd(base, *a);
                    let y = self.rd(base, *b);
                    if cc.1 == 0 {
                        let r = if cc.0 & 1 == 1 { x } else { y };
                        self.wr(base, *dst, r.0, r.1);
                    } else if *ptr && x != y {
                        let t = tri!(self.decide(cc.0, cc.1));
                        let r = if t { x } else { y };
                        self.wr(base, *dst, r.0, r.1);
                    } else {
                        let v = if cc.0 & 1 == 1 { x.0 } else { y.0 };
                        let ex = self.node(x.0, x.1, *w);
                        let ey = self.node(y.0, y.1, *w);
                        let e = self.a.ite(cc.1, ex, ey);
                        let e = self.fin(e);
                        self.wr(base, *dst, v, e);
                    }
                }
                Op::Un { op, w, dst, a } => {
                    let x = self.rd(base, *a);
                    let w = *w;
                    let un = |x: u64| -> u64 {
                        match op {
                            Un::Ctlz => {
                                if x == 0 {
                                    w as u64
                                } else {
                                    x.leading_zeros() as u64 - (64 - w as u64)
                                }
                            }
                            Un::Cttz => {
                                if x == 0 {
                                    w as u64
                                } else {
                                    x.trailing_zeros() as u64
                                }
                            }
                            Un::Ctpop => x.count_ones() as u64,
                            Un::Bswap => x.swap_bytes() >> (64 - w),
                            Un::BitRev => x.reverse_bits() >> (64 - w),
                            Un::Abs => sx(x, w).unsigned_abs() & mask(w),
                        }
                    };
                    if x.1 == 0 {
                        self.wr(base, *dst, un(x.0), 0);
                    } else if matches!(op, Un::Cttz | Un::Ctlz) {
                        // which bit is the first one is decided bit by bit: such numbers
                        // are places in texts
                        let mut r = w as u64;
                        for i in 0..w {
                            let at = if *op == Un::Cttz { i } else { w - 1 - i };
                            self.a.narrow = true;
                            let b = self.a.extract(x.1, at, 1);
                            self.a.narrow = false;
                            let b = self.fin(b);
                            if tri!(self.decide(x.0 >> at & 1, b)) {
                                r = i as u64;
                                break;
                            }
                        }
                        self.wr(base, *dst, r, 0);
                    } else {
                        let e = match op {
                            Un::Cttz | Un::Ctlz => unreachable!(),
                            Un::Ctpop => {
                                let mut acc = self.a.k(0, w);
                                for i in 0..w {
                                    let b = self.a.extract(x.1, i, 1);
                                    let z = self.a.zext(b, w);
                                    acc = self.a.bin(O::Add, acc, z);
                                }
                                acc
                            }
                            Un::Bswap => {
                                let mut acc = self.a.extract(x.1, 0, 8);
                                for i in 1..w / 8 {
                                    let b = self.a.extract(x.1, i * 8, 8);
                                    acc = self.a.concat(acc, b);
                                }
                                acc
                            }
                            Un::BitRev => {
                                let mut acc = self.a.extract(x.1, 0, 1);
                                for i in 1..w {
                                    let b = self.a.extract(x.1, i, 1);
                                    acc = self.a.concat(acc, b);
                                }
                                acc
                            }
                            Un::Abs => {
                                let z = self.a.k(0, w);
                                let n = self.a.bin(O::Sub, z, x.1);
                                let c = self.a.slt(x.1, z);
                                self.a.ite(c, n, x.1)
                            }
                        };
                        let e = self.fin(e);
                        self.wr(base, *dst, un(x.0), e);
                    }
                }
                Op::Ov { op, w, dst, a, b } => {
                    let x = self.rd(base, *a);
                    let mut y = self.rd(base, *b);
                    let w = *w;
                    let (xu, yu) = (x.0 as u128, y.0 as u128);
                    let (xs, ys) = (sx(x.0, w) as i128, sx(y.0, w) as i128);
                    let mx = mask(w) as u128;
                    let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    let o = match op {
                        Ov::UAdd => xu + yu > mx,
                        Ov::USub => xu < yu,
                        Ov::UMul => xu * yu > mx,
                        Ov::SAdd => xs + ys < smin || xs + ys > smax,
                        Ov::SSub => xs - ys < smin || xs - ys > smax,
                        Ov::SMul => xs * ys < smin || xs * ys > smax,
                    } as u64;
                    let bo = match op {
                        Ov::UAdd | Ov::SAdd => Bin::Add,
                        Ov::USub | Ov::SSub => Bin::Sub,
                        _ => Bin::Mul,
                    };
                    let mut x = x;
                    if matches!(op, Ov::UMul | Ov::SMul) && x.1 != 0 && y.1 != 0 {
                        let v = tri!(self.concretize(y.0, y.1));
                        y = (v, 0);
                    }
                    if matches!(op, Ov::UMul | Ov::SMul) && x.1 == 0 && y.1 != 0 {
                        std::mem::swap(&mut x, &mut y);
                    }
                    let r = tri!(self.bin(bo, w, x, y));
                    let mut oe = 0;
                    if x.1 | y.1 != 0 {
                        let ex = self.node(x.0, x.1, w);
                        let ey = self.node(y.0, y.1, w);
                        let er = self.node(r.0, r.1, w);
                        let e = match op {
                            Ov::UAdd => self.a.ult(er, ex),
                            Ov::USub => self.a.ult(ex, ey),
                            Ov::UMul => {
                                let c = y.0;
                                if c == 0 {
                                    self.a.k(0, 1)
                                } else {
                                    let k = self.a.k(mask(w) / c, w);
                                    self.a.ult(k, ex)
                                }
                            }
                            Ov::SAdd | Ov::SSub => {
                                // sign rule
                                let z = self.a.k(0, w);
                                let sa = self.a.slt(ex, z);
                                let sb = self.a.slt(ey, z);
                                let sr = self.a.slt(er, z);
                                let same = self.a.bin(O::Xor, sa, sb);
                                let same = if *op == Ov::SAdd {
                                    self.a.not(same)
                                } else {
                                    same
                                };
                                let diff = self.a.bin(O::Xor, sr, sa);
                                self.a.bin(O::And, same, diff)
                            }
                            Ov::SMul => {
                                let v = tri!(self.concretize(x.0, x.1));
                                let _ = v;
                                self.a.k(o, 1)
                            }
                        };
                        oe = self.fin(e);
                    }
                    self.wr(base, *dst, r.0, r.1);
                    self.wr(base, *dst + 1, o, oe);
                }
                Op::Fsh {
                    left,
                    w,
                    dst,
                    a,
                    b,
                    c,
                } => {
                    let w = *w;
                    let x = self.rd(base, *a);
                    let y = self.rd(base, *b);
                    let s = self.rd(base, *c);
                    let s = tri!(self.concretize(s.0, s.1)) % w as u64;
                    let sh = if *left { s } else { (w as u64 - s) % w as u64 };
                    if s == 0 {
                        let r = if *left { x } else { y };
                        self.wr(base, *dst, r.0, r.1);
                    } else {
                        let h = tri!(self.bin(Bin::Shl, w, x, (sh, 0)));
                        let l = tri!(self.bin(Bin::LShr, w, y, (w as u64 - sh, 0)));
                        let r = tri!(self.bin(Bin::Or, w, h, l));
                        self.wr(base, *dst, r.0, r.1);
                    }
                }
                Op::Cmp3 {
                    signed,
                    w,
                    wd,
                    dst,
                    a,
                    b,
                } => {
                    let x = self.rd(base, *a);
                    let y = self.rd(base, *b);
                    let lt = self.icmp(if *signed { Pred::Slt } else { Pred::Ult }, *w, x, y);
                    let gt = self.icmp(if *signed { Pred::Slt } else { Pred::Ult }, *w, y, x);
                    let v = if lt.0 == 1 { mask(*wd) } else { gt.0 };
                    if lt.1 | gt.1 == 0 {
                        self.wr(base, *dst, v, 0);
                    } else {
                        let le = self.node(lt.0, lt.1, 1);
                        let ge = self.node(gt.0, gt.1, 1);
                        let m1 = self.a.k(mask(*wd), *wd);
                        let g = self.a.zext(ge, *wd);
                        let e = self.a.ite(le, m1, g);
                        let e = self.fin(e);
                        self.wr(base, *dst, v, e);
                    }
                }
                Op::ZExt { dst, a, to, .. } => {
                    let x = self.rd(base, *a);
                    let e = if x.1 == 0 { 0 } else { self.a.zext(x.1, *to) };
                    self.wr(base, *dst, x.0, e);
                }
                Op::SExt { dst, a, from, to } => {
                    let x = self.rd(base, *a);
                    let e = if x.1 == 0 { 0 } else { self.a.sext(x.1, *to) };
                    self.wr(base, *dst, sx(x.0, *from) as u64 & mask(*to), e);
                }
                Op::Trunc { dst, a, to, .. } => {
                    let x = self.rd(base, *a);
                    let e = if x.1 == 0 {
                        0
                    } else {
                        let e = self.a.extract(x.1, 0, *to);
                        self.fin(e)
                    };
                    self.wr(base, *dst, x.0 & mask(*to), e);
                }
                Op::Copy { dst, a } => {
                    let x = self.rd(base, *a);
                    self.wr(base, *dst, x.0, x.1);
                }
                Op::AddOff { dst, a, off } => {
                    let x = self.rd(base, *a);
                    let r = tri!(self.bin(Bin::Add, 64, x, (*off as u64, 0)));
                    self.wr(base, *dst, r.0, r.1);
                }
                Op::Gep {
                    dst,
                    a,
                    idx,
                    iw,
                    scale,
                    off,
                } => {
                    let b = self.rd(base, *a);
                    let i = self.rd(base, *idx);
                    if b.1 | i.1 == 0 {
                        let x = sx(i.0, *iw);
                        let v =
                            b.0.wrapping_add((x.wrapping_mul(*scale)) as u64)
                                .wrapping_add(*off as u64);
                        self.wr(base, *dst, v, 0);
                    } else {
                        let i64v = if *iw < 64 {
                            let e = if i.1 == 0 { 0 } else { self.a.sext(i.1, 64) };
                            (sx(i.0, *iw) as u64, e)
                        } else {
                            i
                        };
                        let p = tri!(self.bin(Bin::Mul, 64, i64v, (*scale as u64, 0)));
                        let q = tri!(self.bin(Bin::Add, 64, b, p));
                        let r = tri!(self.bin(Bin::Add, 64, q, (*off as u64, 0)));
                        self.wr(base, *dst, r.0, r.1);
                    }
                }
                Op::Load { dst, p, off, w } => {
                    let a = self.rd(base, *p);
                    if a.1 == 0 {
                        let r = tri!(self.load(a.0.wrapping_add(*off as u64), *w));
                        self.wr(base, *dst, r.0, r.1);
                    } else {
                        let r = match tri!(self.table_load(a.0, a.1, *off as u64, *w)) {
                            Some(r) => r,
                            None => {
                                let x = tri!(self.concretize(a.0, a.1));
                                tri!(self.load(x.wrapping_add(*off as u64), *w))
                            }
                        };
                        self.wr(base, *dst, r.0, r.1);
                    }
                }
                Op::Store { v, p, off, w } => {
                    let a = self.rd(base, *p);
                    let x = self.rd(base, *v);
                    let ad = tri!(self.concretize(a.0, a.1));
                    tri!(self.store(ad.wrapping_add(*off as u64), *w, x.0, x.1));
                }
                Op::Alloca { dst, size, align } => {
                    let al = (*align).max(8);
                    let p = (self.sp + al - 1) / al * al;
                    if p + size + 64 > self.heap_base {
                        sync!();
                        return Err(Stop::Viol {
                            kind: "stack",
                            code: 0,
                            msg: "stack exhausted".into(),
                        });
                    }
                    self.sp = p + size;
                    self.sp_max = self.sp_max.max(self.sp);
                    self.wr(base, *dst, p, 0);
                }
                Op::Pack { dst, lw, lanes } => {
                    let mut v = 0u64;
                    let mut any = 0;
                    for (i, l) in lanes.iter().enumerate() {
                        let x = self.rd(base, *l);
                        v |= x.0 << (i as u32 * *lw as u32);
                        any |= x.1;
                    }
                    let mut e = 0;
                    if any != 0 {
                        for (i, l) in lanes.iter().enumerate().rev() {
                            let x = self.rd(base, *l);
                            let n = self.node(x.0, x.1, *lw);
                            e = if i == lanes.len() - 1 {
                                n
                            } else {
                                self.a.concat(e, n)
                            };
                        }
                        e = self.fin(e);
                    }
                    self.wr(base, *dst, v, e);
                }
                Op::Unpack { dst, lw, n, a } => {
                    let x = self.rd(base, *a);
                    for i in 0..*n {
                        let sh = i * *lw as u32;
                        let e = if x.1 == 0 {
                            0
                        } else {
                            let e = self.a.extract(x.1, sh as u8, *lw);
                            self.fin(e)
                        };
                        self.wr(base, *dst + i, (x.0 >> sh) & mask(*lw), e);
                    }
                }
                Op::Br { e } => {
                    fr.pc = self.take_edge(f, base, *e);
                }
                Op::CondBr { c, t, f: fe } => {
                    let x = self.rd(base, *c);
                    let tk = tri!(self.decide(x.0, x.1));
                    fr.pc = self.take_edge(f, base, if tk { *t } else { *fe });
                }
                Op::Switch { v, w, cases, def } => {
                    let x = self.rd(base, *v);
                    let mut target = *def;
                    if x.1 == 0 {
                        for (k, e) in cases.iter() {
                            if *k == x.0 {
                                target = *e;
                                break;
                            }
                        }
                    } else {
                        for (k, e) in cases.iter() {
                            let kk = self.a.k(*k, *w);
                            let c = self.a.eq(x.1, kk);
                            let c = self.fin_or(c);
                            let hit = match c {
                                Ok(b) => b,
                                Err(c) => tri!(self.decide((*k == x.0) as u64, c)),
                            };
                            if hit {
                                target = *e;
                                break;
                            }
                        }
                    }
                    fr.pc = self.take_edge(f, base, target);
                }
                Op::Ret { slots } => {
                    let sp = fr.sp;
                    match self.stack.pop() {
                        None => {
                            return Ok(());
                        }
                        Some(c) => {
                            for (i, s) in slots.iter().enumerate() {
                                let x = self.rd(base, *s);
                                self.wr(c.base, fr.dst + i as u32, x.0, x.1);
                            }
                            self.sp = sp;
                            fr = c;
                            f = &m.funcs[fr.func as usize];
                        }
                    }
                }
                Op::Call { f: fi, args, dst } => {
                    let nb = base + f.nslots;
                    let g = &m.funcs[*fi as usize];
                    if nb as usize + g.nslots as usize + 16 > self.vals.len()
                        || self.stack.len() > 20000
                    {
                        sync!();
                        return Err(Stop::Viol {
                            kind: "stack",
                            code: 0,
                            msg: "call stack exhausted".into(),
                        });
                    }
                    for (i, r) in args.iter().enumerate() {
                        let x = self.rd(base, *r);
                        self.wr(nb, i as u32, x.0, x.1);
                    }
                    let nf = Frame {
                        func: *fi,
                        pc: 0,
                        base: nb,
                        dst: *dst,
                        sp: self.sp,
                    };
                    self.stack.push(std::mem::replace(&mut fr, nf));
                    f = g;
                    self.seen[*fi as usize] = true;
                }
                Op::CallInd { p, args, dst, nret } => {
                    let t = self.rd(base, *p);
                    let t = tri!(self.concretize(t.0, t.1));
                    let fi = t.wrapping_sub(FN_BASE) / 16;
                    if t < FN_BASE || t % 16 != 0 || fi as usize >= m.funcs.len() {
                        sync!();
                        return Err(Stop::Viol {
                            kind: "fault",
                            code: t,
                            msg: "call through an invalid pointer".into(),
                        });
                    }
                    let g = &m.funcs[fi as usize];
                    if !g.defined {
                        let mut av = Vec::new();
                        for r in args.iter() {
                            av.push(self.rd(base, *r));
                        }
                        let (v, n) = tri!(self.ext(g.ext, &g.name, &av));
                        for i in 0..(*nret as usize).min(n) {
                            self.wr(base, *dst + i as u32, v[i].0, v[i].1);
                        }
                    } else {
                        let nb = base + f.nslots;
                        if nb as usize + g.nslots as usize + 16 > self.vals.len()
                            || self.stack.len() > 20000
                        {
                            sync!();
                            return Err(Stop::Viol {
                                kind: "stack",
                                code: 0,
                                msg: "call stack exhausted".into(),
                            });
                        }
                        for (i, r) in args.iter().enumerate() {
                            let x = self.rd(base, *r);
                            self.wr(nb, i as u32, x.0, x.1);
                        }
                        let nf = Frame {
                            func: fi as u32,
                            pc: 0,
                            base: nb,
                            dst: *dst,
                            sp: self.sp,
                        };
                        self.stack.push(std::mem::replace(&mut fr, nf));
                        f = g;
                        self.seen[fi as usize] = true;
                    }
                }
                Op::CallExt {
                    e,
                    name,
                    args,
                    dst,
                    nret,
                } => {
                    let mut av: [(u64, u32); 8] = [(0, 0); 8];
                    let n = args.len().min(8);
                    for i in 0..n {
                        av[i] = self.rd(base, args[i]);
                    }
                    let (v, n) = tri!(self.ext(*e, &m.strings[*name as usize], &av[..n]));
                    for i in 0..(*nret as usize).min(n) {
                        self.wr(base, *dst + i as u32, v[i].0, v[i].1);
                    }
                }
                Op::RmwAdd { dst, p, v, w, kind } => {
                    let a = self.rd(base, *p);
                    let ad = tri!(self.concretize(a.0, a.1));
                    let old = tri!(self.load(ad, *w));
                    let x = self.rd(base, *v);
                    let n = match kind {
                        0 => tri!(self.bin(Bin::Add, *w, old, x)),
                        1 => tri!(self.bin(Bin::Sub, *w, old, x)),
                        2 => x,
                        3 => tri!(self.bin(Bin::And, *w, old, x)),
                        _ => tri!(self.bin(Bin::Or, *w, old, x)),
                    };
                    tri!(self.store(ad, *w, n.0, n.1));
                    self.wr(base, *dst, old.0, old.1);
                }
                Op::CmpXchg { dst, p, c, n, w } => {
                    let a = self.rd(base, *p);
                    let ad = tri!(self.concretize(a.0, a.1));
                    let old = tri!(self.load(ad, *w));
                    let cv = self.rd(base, *c);
                    let e = self.icmp(Pred::Eq, *w, old, cv);
                    let t = tri!(self.decide(e.0, e.1));
                    if t {
                        let x = self.rd(base, *n);
                        tri!(self.store(ad, *w, x.0, x.1));
                    }
                    self.wr(base, *dst, old.0, old.1);
                    self.wr(base, *dst + 1, t as u64, 0);
                }
                Op::Unreachable => {
                    sync!();
                    return Err(Stop::Viol {
                        kind: "unreachable",
                        code: 0,
                        msg: self.backtrace(),
                    });
                }
                Op::Unsupported { msg } => {
                    sync!();
                    return Err(Stop::Unsup(format!(
                        "{} in {}",
                        m.strings[*msg as usize],
                        self.backtrace()
                    )));
                }
            }
        }
    }
    fn fin_or(&self, e: Id) -> Result<bool, Id> {
        match self.a.cv(e) {
            Some(k) => Ok(k != 0),
            None => Err(e),
        }
    }

    fn ext(&mut self, e: Ext, name: &str, a: &[(u64, u32)]) -> Res<([(u64, u32); 2], usize)> {
        let none = ([(0, 0); 2], 0);
        let one = |v: u64, s: u32| ([(v, s), (0, 0)], 1);
        Ok(match e {
            Ext::Nop => none,
            Ext::Alloc | Ext::AllocZeroed => {
                let n = self.concretize(a[0].0, a[0].1)?;
                let al = self.concretize(a[1].0, a[1].1)?;
                let p = self.alloc(n, al)?;
                one(p, 0)
            }
            Ext::Dealloc => {
                let n = self.concretize(a[1].0, a[1].1)?;
                self.heap_live = self.heap_live.saturating_sub(n);
                none
            }
            Ext::Realloc => {
                let p = self.concretize(a[0].0, a[0].1)?;
                let old = self.concretize(a[1].0, a[1].1)?;
                let al = self.concretize(a[2].0, a[2].1)?;
                let new = self.concretize(a[3].0, a[3].1)?;
                let q = self.alloc(new, al)?;
                self.copy(q, p, old.min(new))?;
                self.heap_live = self.heap_live.saturating_sub(old);
                one(q, 0)
            }
            Ext::Memcpy | Ext::Memmove => {
                let d = self.concretize(a[0].0, a[0].1)?;
                let s = self.concretize(a[1].0, a[1].1)?;
                let n = self.concretize(a[2].0, a[2].1)?;
                self.copy(d, s, n)?;
                self.insts += n / 16;
                one(d, 0)
            }
            Ext::Memset => {
                let d = self.concretize(a[0].0, a[0].1)?;
                let n = self.concretize(a[2].0, a[2].1)?;
                if n > 0 {
                    let o = self.off(d, n)?;
                    let n = n as usize;
                    self.mem[o..o + n].fill(a[1].0 as u8);
                    let s = if a[1].1 == 0 {
                        0
                    } else {
                        let e = self.a.extract(a[1].1, 0, 8);
                        self.fin(e)
                    };
                    self.sh[o..o + n].fill(s);
                    self.insts += n as u64 / 16;
                }
                one(d, 0)
            }
            Ext::Bcmp | Ext::Memcmp => {
                let x = self.concretize(a[0].0, a[0].1)?;
                let y = self.concretize(a[1].0, a[1].1)?;
                let n = self.concretize(a[2].0, a[2].1)?;
                if n == 0 {
                    return Ok(one(0, 0));
                }
                let xo = self.off(x, n)?;
                let yo = self.off(y, n)?;
                let n = n as usize;
                self.insts += n as u64 / 16;
                let cmp = self.mem[xo..xo + n].cmp(&self.mem[yo..yo + n]);
                let cv = match cmp {
                    std::cmp::Ordering::Less => 0xffff_ffffu64,
                    std::cmp::Ordering::Equal => 0,
                    std::cmp::Ordering::Greater => 1,
                };
                if e == Ext::Bcmp {
                    let v = (cv != 0) as u64;
                    let mut acc = self.a.k(1, 1);
                    let mut symb = false;
                    for i in 0..n {
                        let (sa, sb) = (self.sh[xo + i], self.sh[yo + i]);
                        if sa | sb == 0 {
                            if self.mem[xo + i] != self.mem[yo + i] {
                                return Ok(one(1, 0));
                            }
                        } else if sa != sb {
                            symb = true;
                        }
                    }
                    if symb {
                        for i in 0..n {
                            let (sa, sb) = (self.sh[xo + i], self.sh[yo + i]);
                            if sa != sb {
                                let p = self.node(self.mem[xo + i] as u64, sa, 8);
                                let q = self.node(self.mem[yo + i] as u64, sb, 8);
                                let q2 = self.a.eq(p, q);
                                acc = self.a.bin(O::And, acc, q2);
                            }
                        }
                    }
                    let z = self.a.k(0, 32);
                    let o = self.a.k(1, 32);
                    let r = self.a.ite(acc, z, o);
                    let r = self.fin(r);
                    one(v, r)
                } else {
                    let mut acc = self.a.k(0, 32);
                    for i in (0..n).rev() {
                        let (sa, sb) = (self.sh[xo + i], self.sh[yo + i]);
                        let p = self.node(self.mem[xo + i] as u64, sa, 8);
                        let q = self.node(self.mem[yo + i] as u64, sb, 8);
                        let lt = self.a.ult(p, q);
                        let gt = self.a.ult(q, p);
                        let m1 = self.a.k(0xffff_ffff, 32);
                        let p1 = self.a.k(1, 32);
                        let t = self.a.ite(gt, p1, acc);
                        acc = self.a.ite(lt, m1, t);
                    }
                    let r = self.fin(acc);
                    one(cv, r)
                }
            }
            Ext::Strlen => {
                let p = self.concretize(a[0].0, a[0].1)?;
                let mut i = 0;
                loop {
                    let (v, s) = self.load(p + i, 8)?;
                    if self.concretize(v, s)? == 0 {
                        break;
                    }
                    i += 1;
                }
                one(i, 0)
            }
            Ext::Panic => {
                return Err(Stop::Viol {
                    kind: "panic",
                    code: 0,
                    msg: String::new(),
                })
            }
            Ext::Trap => {
                return Err(Stop::Viol {
                    kind: "abort",
                    code: 0,
                    msg: String::new(),
                })
            }
            Ext::RandomKeys => ([(0x1234, 0), (0x5678, 0)], 2),
            Ext::SymByte => {
                let (v, s) = self.new_var(a[0].0 as u8, a[1].0 as u8)?;
                one(v, s)
            }
            Ext::SymCfg => {
                let i = a[0].0 as usize;
                one(*self.cfg.get(i).unwrap_or(&0), 0)
            }
            Ext::SymAssume => {
                self.assume_v(a[0])?;
                none
            }
            Ext::SymFail => {
                return Err(Stop::Viol {
                    kind: "assert",
                    code: a[0].0,
                    msg: String::new(),
                })
            }
            Ext::SymAssert => {
                let (v, s) = self.bit(a[0]);
                self.assert(v, s, a[1].0)?;
                none
            }
            Ext::SymReach => {
                self.reach_now |= 1 << (a[0].0 & 63);
                none
            }
            Ext::SymObserve => {
                self.obs(a[0].0);
                none
            }
            Ext::SymOut => {
                let p = self.concretize(a[0].0, a[0].1)?;
                let n = self.concretize(a[1].0, a[1].1)?;
                self.obs(n);
                if n > 0 {
                    let o = self.off(p, n)?;
                    for i in 0..n as usize {
                        let b = self.mem[o + i];
                        self.digest = (self.digest ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                }
                none
            }
            Ext::SymSteps => one(self.insts, 0),
            Ext::SymHeap => {
                self.heap_peak = self.heap_live;
                one(self.heap_live, 0)
            }
            Ext::SymHeapPeak => one(self.heap_peak, 0),
            Ext::SymHashSeed => {
                self.hash_seed = self.concretize(a[0].0, a[0].1)?;
                none
            }
            // a hash of bytes that start with "pad:" or are an integer, nothing for others; the bytes a
            // value depends on become concrete on the path
            Ext::SymHash => {
                let st = self.concretize(a[0].0, a[0].1)?;
                let p = self.concretize(a[1].0, a[1].1)?;
                let n = self.concretize(a[2].0, a[2].1)?;
                // another seed: everything is hashed, shorter keys too
                let all = self.hash_seed != 0;
                if n < 5 && !all {
                    return Ok(one(st, 0));
                }
                // integers (keys of eight bytes) are hashed always
                for (i, &c) in b"pad:".iter().enumerate().take(if n == 8 || all { 0 } else { 4 }) {
                    let (v, s) = self.load(p + i as u64, 8)?;
                    let is = if s == 0 {
                        v == c as u64
                    } else {
                        let x = self.node(v, s, 8);
                        let k = self.a.k(c as u64, 8);
                        let e = self.a.eq(x, k);
                        let e = self.fin(e);
                        self.concretize((v == c as u64) as u64, e)? != 0
                    };
                    if !is {
                        return Ok(one(st, 0));
                    }
                }
                let mut h = st ^ 0xcbf2_9ce4_8422_2325 ^ self.hash_seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                for i in 0..n {
                    let (v, s) = self.load(p + i, 8)?;
                    let b = self.concretize(v, s)?;
                    h = (h ^ b).wrapping_mul(0x100_0000_01b3);
                }
                h ^= h >> 33;
                h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
                h ^= h >> 33;
                one(h, 0)
            }
            Ext::Unknown => return Err(Stop::Unsup(format!("external function {}", name))),
        })
    }
    fn obs(&mut self, x: u64) {
        for b in x.to_le_bytes() {
            self.digest = (self.digest ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn bit(&mut self, a: (u64, u32)) -> (u64, u32) {
        if a.1 == 0 {
            return (a.0 & 1, 0);
        }
        let e = self.a.extract(a.1, 0, 1);
        (a.0 & 1, self.fin(e))
    }
    fn assume_v(&mut self, a: (u64, u32)) -> Res<()> {
        let (v, s) = self.bit(a);
        self.assume(v, s)
    }
    pub fn gend(&self) -> u64 {
        self.gend
    }
}

fn two(m: &[u64; 4]) -> Option<(u8, u8)> {
    let mut it = (0..256usize).filter(|v| m[v >> 6] >> (v & 63) & 1 == 1);
    match (it.next(), it.next(), it.next()) {
        (Some(a), Some(b), None) => Some((a as u8, b as u8)),
        _ => None,
    }
}
fn first_bit(m: &[u64; 4]) -> Option<u8> {
    for i in 0..4 {
        if m[i] != 0 {
            return Some((i as u32 * 64 + m[i].trailing_zeros()) as u8);
        }
    }
    None
}

/// readable tail of a v0-mangled name (identifiers only)
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<&str> = Vec::new();
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let len: usize = n[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if len > 0 && s + len <= b.len() && !b[s].is_ascii_digit() {
                out.push(&n[s..s + len]);
                i = s + len;
                continue;
            }
        }
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.dedup();
    out.join("::")
}
