//! Minimal Z3 binding (C API) and the translation of expressions to Z3 terms.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("Z3 API error {}", e);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe {
        CStr::from_ptr(Z3_get_full_version())
            .to_string_lossy()
            .into_owned()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    cfg: P,
    c: P,
    s: P,
    sorts: HashMap<u8, P>,
    memo: HashMap<Id, P, Fx>,
    vars: HashMap<u32, P>,
    doms: HashMap<(u32, [u64; 4]), P>,
    pub queries: u64,
    pub time_ns: u64,
    pub unknowns: u64,
    pub dumps: Vec<(String, bool)>,
    pub dump_every: u64,
}

impl Z3 {
    pub fn new(timeout_ms: u32, seed: u64) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let a = CString::new(k).unwrap();
                let b = CString::new(v).unwrap();
                Z3_set_param_value(cfg, a.as_ptr(), b.as_ptr());
            };
            set("model", "true");
            set("timeout", &timeout_ms.to_string());
            let _ = seed;
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3 {
                cfg,
                c,
                s,
                sorts: HashMap::new(),
                memo: HashMap::default(),
                vars: HashMap::new(),
                doms: HashMap::new(),
                queries: 0,
                time_ns: 0,
                unknowns: 0,
                dumps: vec![],
                dump_every: 0,
            }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        let c = self.c;
        *self
            .sorts
            .entry(w)
            .or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }
    fn var(&mut self, i: u32) -> P {
        if let Some(p) = self.vars.get(&i) {
            return *p;
        }
        let s = self.sort(8);
        let n = CString::new(format!("x{}", i)).unwrap();
        let p = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) };
        self.vars.insert(i, p);
        p
    }
    fn num(&mut self, v: u64, w: u8) -> P {
        let s = self.sort(w);
        unsafe { Z3_mk_unsigned_int64(self.c, v, s) }
    }
    /// w==1 expressions are Bool, others bit-vectors
    fn bv(&mut self, a: &Arena, id: Id) -> P {
        let t = self.tr(a, id);
        if a.w(id) == 1 {
            let o = self.num(1, 1);
            let z = self.num(0, 1);
            unsafe { Z3_mk_ite(self.c, t, o, z) }
        } else {
            t
        }
    }
    fn unbv(&mut self, w: u8, t: P) -> P {
        if w == 1 {
            let o = self.num(1, 1);
            unsafe { Z3_mk_eq(self.c, t, o) }
        } else {
            t
        }
    }
    pub fn tr(&mut self, a: &Arena, id: Id) -> P {
        if let Some(p) = self.memo.get(&id) {
            return *p;
        }
        let n = a.n[id as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                O::Const => {
                    if n.w == 1 {
                        if n.k != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.k, n.w)
                    }
                }
                O::Var => self.var(n.a),
                O::Tab => {
                    // ite chain over runs of equal values
                    let t = a.tabs[n.k as usize].clone();
                    let v = self.var(n.a);
                    let mut acc = if n.w == 1 {
                        if t[255] != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(t[255], n.w)
                    };
                    let mut i = 255usize;
                    while i > 0 {
                        // run ending at i (exclusive) with value t[i-1]
                        if t[i - 1] != t[i] {
                            let lim = self.num(i as u64, 8);
                            let cond = Z3_mk_bvult(c, v, lim);
                            let val = if n.w == 1 {
                                if t[i - 1] != 0 {
                                    Z3_mk_true(c)
                                } else {
                                    Z3_mk_false(c)
                                }
                            } else {
                                self.num(t[i - 1], n.w)
                            };
                            acc = Z3_mk_ite(c, cond, val, acc);
                        }
                        i -= 1;
                    }
                    acc
                }
                O::Ite => {
                    let x = self.tr(a, n.a);
                    let y = self.tr(a, n.b);
                    let z = self.tr(a, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                O::ZExt => {
                    let x = self.bv(a, n.a);
                    Z3_mk_zero_ext(c, (n.w - a.w(n.a)) as c_uint, x)
                }
                O::SExt => {
                    let x = self.bv(a, n.a);
                    Z3_mk_sign_ext(c, (n.w - a.w(n.a)) as c_uint, x)
                }
                O::Extract => {
                    let x = self.bv(a, n.a);
                    let e = Z3_mk_extract(c, (n.k as u8 + n.w - 1) as c_uint, n.k as c_uint, x);
                    self.unbv(n.w, e)
                }
                O::Concat => {
                    let x = self.bv(a, n.a);
                    let y = self.bv(a, n.b);
                    Z3_mk_concat(c, x, y)
                }
                O::Eq => {
                    let x = self.tr(a, n.a);
                    let y = self.tr(a, n.b);
                    Z3_mk_eq(c, x, y)
                }
                O::Ult => {
                    let x = self.bv(a, n.a);
                    let y = self.bv(a, n.b);
                    Z3_mk_bvult(c, x, y)
                }
                O::Slt => {
                    let x = self.bv(a, n.a);
                    let y = self.bv(a, n.b);
                    Z3_mk_bvslt(c, x, y)
                }
                O::And | O::Or | O::Xor if n.w == 1 => {
                    let x = self.tr(a, n.a);
                    let y = self.tr(a, n.b);
                    match n.op {
                        O::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        O::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => {
                            if a.cv(n.b) == Some(1) {
                                Z3_mk_not(c, x)
                            } else {
                                Z3_mk_xor(c, x, y)
                            }
                        }
                    }
                }
                _ => {
                    let x = self.bv(a, n.a);
                    let y = self.bv(a, n.b);
                    let f = match n.op {
                        O::Add => Z3_mk_bvadd,
                        O::Sub => Z3_mk_bvsub,
                        O::Mul => Z3_mk_bvmul,
                        O::UDiv => Z3_mk_bvudiv,
                        O::URem => Z3_mk_bvurem,
                        O::SDiv => Z3_mk_bvsdiv,
                        O::SRem => Z3_mk_bvsrem,
                        O::And => Z3_mk_bvand,
                        O::Or => Z3_mk_bvor,
                        O::Xor => Z3_mk_bvxor,
                        O::Shl => Z3_mk_bvshl,
                        O::LShr => Z3_mk_bvlshr,
                        _ => Z3_mk_bvashr,
                    };
                    let e = f(c, x, y);
                    self.unbv(n.w, e)
                }
            }
        };
        self.memo.insert(id, r);
        r
    }
    fn dom(&mut self, v: u32, m: [u64; 4]) -> P {
        if let Some(p) = self.doms.get(&(v, m)) {
            return *p;
        }
        let x = self.var(v);
        let mut parts: Vec<P> = Vec::new();
        let has = |i: usize| m[i >> 6] >> (i & 63) & 1 == 1;
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if !has(i) {
                    i += 1;
                    continue;
                }
                let st = i;
                while i < 256 && has(i) {
                    i += 1;
                }
                let en = i - 1;
                let lo = self.num(st as u64, 8);
                let p = if st == en {
                    Z3_mk_eq(self.c, x, lo)
                } else {
                    let hi = self.num(en as u64, 8);
                    let a = Z3_mk_bvule(self.c, lo, x);
                    let b = Z3_mk_bvule(self.c, x, hi);
                    Z3_mk_and(self.c, 2, [a, b].as_ptr())
                };
                parts.push(p);
            }
            let r = match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
            };
            self.doms.insert((v, m), r);
            r
        }
    }
    pub fn solve(&mut self, a: &Arena, doms: &[(u32, [u64; 4])], cs: &[(Id, bool)]) -> Ans {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let ans;
        unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, m) in doms {
                if *m != [!0u64; 4] {
                    let d = self.dom(*v, *m);
                    Z3_solver_assert(self.c, self.s, d);
                }
            }
            for (e, p) in cs {
                let t = self.tr(a, *e);
                let t = if *p { t } else { Z3_mk_not(self.c, t) };
                Z3_solver_assert(self.c, self.s, t);
            }
            let r = Z3_solver_check(self.c, self.s);
            if self.dump_every > 0
                && self.queries % self.dump_every == 0
                && r != 0
                && self.dumps.len() < 200
            {
                let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s))
                    .to_string_lossy()
                    .into_owned();
                self.dumps.push((s, r == 1));
            }
            ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::new();
                    for (v, _) in doms {
                        let x = self.var(*v);
                        let mut e: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, x, true, &mut e) {
                            let mut u = 0u64;
                            if Z3_get_numeral_uint64(self.c, e, &mut u) {
                                out.push((*v, u as u8));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Ans::Sat(out)
                }
                -1 => Ans::Unsat,
                _ => {
                    self.unknowns += 1;
                    Ans::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
        }
        self.time_ns += t0.elapsed().as_nanos() as u64;
        ans
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_del_context(self.c);
            Z3_del_config(self.cfg);
        }
    }
}
