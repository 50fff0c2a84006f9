//! Creating, applying and reversing patches (C01 - C04).
use crate::api::*;
use crate::gen::*;
use crate::sym::*;
use diffy::*;

/// A created patch; ctx = 99 stands for the library's default function.
pub fn make<'a, T: Api + ?Sized>(ctx: u64, a: &'a [u8], b: &'a [u8]) -> Patch<'a, T> {
    if ctx == 99 {
        T::create_default(T::of(a), T::of(b))
    } else {
        T::create(&opts(ctx), T::of(a), T::of(b))
    }
}

flavour!(h_roundtrip, roundtrip);
/// C01: cfg = mode ctx text text
fn roundtrip<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    match T::apply_to(T::of(&a), &p) {
        Ok(r) => {
            out(&r);
            check_eq(&r, &b, 1);
            reach(0);
        }
        Err(_) => fail(2),
    }
    if !p.hunks().is_empty() {
        reach(1);
    }
}

fn same_str<T: AsRef<[u8]> + ?Sized>(a: Option<&T>, b: Option<&T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.as_ref() == b.as_ref(),
        (None, None) => true,
        _ => false,
    }
}

fn same_range(a: HunkRange, b: HunkRange) -> bool {
    a.start() == b.start() && a.len() == b.len()
}

/// The structural part of "reverse": names, ranges and line kinds swapped.
pub fn check_reversed<T: Api + ?Sized>(p: &Patch<'_, T>, r: &Patch<'_, T>) {
    check(same_str(p.original(), r.modified()), 10);
    check(same_str(p.modified(), r.original()), 11);
    check(p.hunks().len() == r.hunks().len(), 12);
    for (h, k) in p.hunks().iter().zip(r.hunks()) {
        check(same_range(h.old_range(), k.new_range()), 13);
        check(same_range(h.new_range(), k.old_range()), 14);
        check(h.lines().len() == k.lines().len(), 15);
        check(same_str(h.function_context(), k.function_context()), 16);
        for (x, y) in h.lines().iter().zip(k.lines()) {
            match (x, y) {
                (Line::Context(s), Line::Context(t)) | (Line::Delete(s), Line::Insert(t)) | (Line::Insert(s), Line::Delete(t)) => {
                    check_eq(s.as_ref(), t.as_ref(), 17)
                }
                _ => fail(18),
            }
        }
    }
    let rr = r.reverse();
    check(T::eq_patch(&rr, p), 19);
}

flavour!(h_reverse, reverse);
/// C02: cfg = mode ctx text text
fn reverse<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    let r = p.reverse();
    check_reversed(&p, &r);
    match T::apply_to(T::of(&b), &r) {
        Ok(t) => {
            out(&t);
            check_eq(&t, &a, 1);
            reach(0);
        }
        Err(_) => fail(2),
    }
    if !p.hunks().is_empty() {
        reach(1);
    }
}

/// C03's reading of a patch against the two texts it describes.
pub fn check_describes<T: Api + ?Sized>(p: &Patch<'_, T>, a: &[&[u8]], b: &[&[u8]], ctx: usize) {
    let (n, m) = (a.len(), b.len());
    let (mut i, mut j) = (0usize, 0usize);
    for h in p.hunks() {
        let (o, w) = (h.old_range(), h.new_range());
        // accessors agree with each other
        check(o.is_empty() == (o.len() == 0) && w.is_empty() == (w.len() == 0), 30);
        check(o.end() == o.start() + o.len() && w.end() == w.start() + w.len(), 31);
        check(o.range() == (o.start()..o.end()) && w.range() == (w.start()..w.end()), 32);
        // first line of each range, counted from 0
        let so = if o.len() == 0 { o.start() } else { o.start().wrapping_sub(1) };
        let sw = if w.len() == 0 { w.start() } else { w.start().wrapping_sub(1) };
        // ordered and disjoint; the same number of lines skipped on both sides
        check(so >= i && so <= n && sw >= j && sw <= m, 33);
        check(so - i == sw - j, 34);
        while i < so {
            check_eq(a[i], b[j], 35);
            i += 1;
            j += 1;
        }
        check(o.len() <= n - i && w.len() <= m - j, 36);
        let mut run = 0usize;
        let mut changes = 0usize;
        for l in h.lines() {
            match l {
                Line::Context(s) => {
                    check(i < n && j < m, 37);
                    check_eq(s.as_ref(), a[i], 38);
                    check_eq(s.as_ref(), b[j], 39);
                    i += 1;
                    j += 1;
                    run += 1;
                    continue;
                }
                _ => {}
            }
            if changes == 0 {
                // leading context: as much as was asked for, where the text has it
                check(run == ctx.min(i), 40);
            } else {
                check(run <= ctx.saturating_mul(2), 41);
            }
            run = 0;
            changes += 1;
            match l {
                Line::Delete(s) => {
                    check(i < n, 42);
                    check_eq(s.as_ref(), a[i], 43);
                    i += 1;
                }
                Line::Insert(s) => {
                    check(j < m, 44);
                    check_eq(s.as_ref(), b[j], 45);
                    j += 1;
                }
                _ => {}
            }
        }
        check(changes > 0, 46);
        // trailing context; what follows it is still to come, so count from here
        check(run == ctx.min((n - i + run).min(m - j + run)), 47);
        check(i == so + o.len() && j == sw + w.len(), 48);
    }
    check(n - i == m - j, 49);
    while i < n {
        check_eq(a[i], b[j], 50);
        i += 1;
        j += 1;
    }
}

flavour!(h_describe, describe);
/// C03: cfg = mode ctx text text
fn describe<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    let (la, lb) = (split(&a), split(&b));
    let eff = if ctx == 99 { 3 } else { ctx as usize };
    check_describes(&p, &la, &lb, eff);
    observe(p.hunks().len() as u64);
    if p.hunks().is_empty() {
        // follows from the above; stated for the record
        check_eq(&a, &b, 60);
        reach(2);
    } else {
        if a == b {
            fail(61);
        }
        reach(1);
        if p.hunks().len() > 1 {
            reach(3);
        }
    }
    // a text against itself
    let q = make::<T>(ctx, &a, &a);
    check(q.hunks().is_empty(), 62);
    reach(0);
}

/// Longest common subsequence of two line lists.
pub fn lcs(mut a: &[&[u8]], mut b: &[&[u8]]) -> usize {
    // lines in common at either end belong to some longest one
    let mut ends = 0;
    while let (Some((x, s)), Some((y, t))) = (a.split_first(), b.split_first()) {
        if x != y {
            break;
        }
        ends += 1;
        a = s;
        b = t;
    }
    while let (Some((x, s)), Some((y, t))) = (a.split_last(), b.split_last()) {
        if x != y {
            break;
        }
        ends += 1;
        a = s;
        b = t;
    }
    let m = b.len();
    let mut prev = vec![0usize; m + 1];
    let mut cur = vec![0usize; m + 1];
    for x in a {
        for j in 0..m {
            cur[j + 1] = if *x == b[j] { prev[j] + 1 } else { cur[j].max(prev[j + 1]) };
        }
        std::mem::swap(&mut prev, &mut cur);
    }
    ends + prev[m]
}

flavour!(h_minimal, minimal);
/// C04: cfg = mode ctx text text
fn minimal<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    let (mut del, mut ins) = (0usize, 0usize);
    for h in p.hunks() {
        for l in h.lines() {
            match l {
                Line::Delete(_) => del += 1,
                Line::Insert(_) => ins += 1,
                _ => {}
            }
        }
    }
    let (la, lb) = (split(&a), split(&b));
    let best = la.len() + lb.len() - 2 * lcs(&la, &lb);
    observe(del as u64);
    observe(ins as u64);
    check(del + ins == best, 1);
    reach(0);
    if best > 2 {
        reach(1);
    }
}

flavour!(h_reverse_parsed, reverse_parsed);
/// C02 on parsed patches: cfg = mode text
fn reverse_parsed<T: Api + ?Sized>(c: &mut Cfg) {
    let t = Gen::new().text(c);
    if let Ok(p) = T::parse(T::of(&t)) {
        let r = p.reverse();
        check_reversed(&p, &r);
        reach(0);
        if !p.hunks().is_empty() {
            reach(1);
        }
    } else {
        reach(2);
    }
}
