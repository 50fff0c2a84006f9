//! The printed format, purity, placement and cost (C21 - C24).
use crate::api::*;
use crate::diffs::make;
use crate::gen::*;
use crate::merging::mopts;
use crate::sym::*;
use diffy::*;

/// Moves past `want`.
fn expect(t: &[u8], i: &mut usize, want: &[u8], code: u64) {
    check(t.len() - *i >= want.len(), code);
    check_eq(&t[*i..*i + want.len()], want, code);
    *i += want.len();
}

/// The number at `i` is `n`, written without leading zeros.
fn expect_num(t: &[u8], i: &mut usize, n: usize, code: u64) {
    let s = *i;
    let mut v = 0usize;
    while *i < t.len() && t[*i].is_ascii_digit() {
        v = v.wrapping_mul(10).wrapping_add((t[*i] - b'0') as usize);
        *i += 1;
    }
    check(*i > s && *i - s <= 20, code);
    check(t[s] != b'0' || *i == s + 1, code);
    check(v == n, code);
}

fn expect_range(t: &[u8], i: &mut usize, r: HunkRange, code: u64) {
    expect_num(t, i, r.start(), code);
    if r.len() != 1 {
        expect(t, i, b",", code);
        expect_num(t, i, r.len(), code);
    }
}

/// `t` is the unified diff a patch stands for, read along its accessors.
fn standard<T: Api + ?Sized>(t: &[u8], p: &Patch<'_, T>, blanks: bool, code: u64) {
    let i = &mut 0usize;
    for (mark, name) in [(b"--- ", p.original()), (b"+++ ", p.modified())] {
        if let Some(name) = name {
            expect(t, i, mark, code);
            expect(t, i, name.as_ref(), code);
            expect(t, i, b"\n", code);
        }
    }
    for h in p.hunks() {
        expect(t, i, b"@@ -", code);
        expect_range(t, i, h.old_range(), code);
        expect(t, i, b" +", code);
        expect_range(t, i, h.new_range(), code);
        expect(t, i, b" @@", code);
        if let Some(f) = h.function_context() {
            expect(t, i, b" ", code);
            expect(t, i, f.as_ref(), code);
        }
        expect(t, i, b"\n", code);
        for l in h.lines() {
            let (sign, s): (&[u8], &[u8]) = match l {
                Line::Context(s) => (b" ", s.as_ref()),
                Line::Delete(s) => (b"-", s.as_ref()),
                Line::Insert(s) => (b"+", s.as_ref()),
            };
            if sign != b" " || blanks || s != b"\n" {
                expect(t, i, sign, code);
            }
            expect(t, i, s, code);
            if s.last() != Some(&b'\n') {
                expect(t, i, b"\n\\ No newline at end of file\n", code);
            }
        }
    }
    check(*i == t.len(), code);
}

/// Reads a number at `i`, which moves past it.
fn get_num(l: &[u8], i: &mut usize) -> usize {
    let s = *i;
    let mut n = 0usize;
    while *i < l.len() && l[*i].is_ascii_digit() {
        n = n * 10 + (l[*i] - b'0') as usize;
        *i += 1;
    }
    check(*i > s, 20);
    n
}

fn get_range(l: &[u8], i: &mut usize) -> (usize, usize) {
    let a = get_num(l, i);
    if *i < l.len() && l[*i] == b',' {
        *i += 1;
        return (a, get_num(l, i));
    }
    (a, 1)
}

/// Applies a printed patch the way a tool does that believes its numbers: no searching,
/// every line compared.
fn strict(text: &[u8], base: &[u8]) -> Vec<u8> {
    let ls = split(text);
    let a = split(base);
    let mut o: Vec<u8> = Vec::new();
    let (mut i, mut j, mut l) = (0usize, 0usize, 2usize);
    check(ls.len() >= 2, 21);
    check_eq(ls[0], b"--- original\n", 22);
    check_eq(ls[1], b"+++ modified\n", 23);
    while l < ls.len() {
        let h = ls[l];
        l += 1;
        check(h.starts_with(b"@@ -"), 24);
        let mut k = 4;
        let (oa, on) = get_range(h, &mut k);
        check(h[k..].starts_with(b" +"), 25);
        k += 2;
        let (na, nn) = get_range(h, &mut k);
        check_eq(&h[k..], b" @@\n", 26);
        // an empty range names the line before it
        let so = if on == 0 { oa } else { oa.wrapping_sub(1) };
        let sn = if nn == 0 { na } else { na.wrapping_sub(1) };
        check(so >= i && so <= a.len(), 27);
        while i < so {
            o.extend_from_slice(a[i]);
            i += 1;
            j += 1;
        }
        check(sn == j, 28);
        let (mut on, mut nn) = (on, nn);
        let mut inserted = false;
        while on > 0 || nn > 0 {
            check(l < ls.len(), 29);
            let t = ls[l];
            l += 1;
            let (sign, t) = if t == b"\n" { (b' ', t) } else { (t[0], &t[1..]) };
            let bare = l < ls.len() && ls[l][0] == b'\\';
            let t = if bare {
                check_eq(ls[l], b"\\ No newline at end of file\n", 30);
                l += 1;
                &t[..t.len() - 1]
            } else {
                t
            };
            if sign != b'+' {
                check(on > 0 && i < a.len(), 31);
                check_eq(a[i], t, 32);
                i += 1;
                on -= 1;
            }
            if sign != b'-' {
                check(nn > 0, 33);
                o.extend_from_slice(t);
                j += 1;
                nn -= 1;
            }
            // within a change deletions come first
            match sign {
                b' ' => inserted = false,
                b'+' => inserted = true,
                b'-' => check(!inserted, 34),
                _ => fail(35),
            }
        }
    }
    while i < a.len() {
        o.extend_from_slice(a[i]);
        i += 1;
    }
    o
}

flavour!(h_standard, standard_created);
/// C21: cfg = mode ctx text text
fn standard_created<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    let s = T::print(&p);
    out(&s);
    standard(&s, &p, false, 1);
    let r = strict(&s, &a);
    check_eq(&r, &b, 2);
    let f = PatchFormatter::new().suppress_blank_empty(false);
    let s = T::print_with(&f, &p);
    standard(&s, &p, true, 3);
    reach(0);
    if p.hunks().len() > 1 {
        reach(1);
    }
}

flavour!(h_standard_parsed, standard_parsed);
/// C21: cfg = mode text (file names only of plain characters)
fn standard_parsed<T: Api + ?Sized>(c: &mut Cfg) {
    let mut g = Gen::new();
    let s = g.text(c);
    match T::parse(T::of(&s)) {
        Ok(p) => {
            let t = T::print(&p);
            out(&t);
            standard(&t, &p, false, 1);
            let f = PatchFormatter::new().suppress_blank_empty(false);
            standard(&T::print_with(&f, &p), &p, true, 3);
            reach(0);
            if p.hunks().iter().any(|h| h.function_context().is_some()) {
                reach(1);
            }
        }
        Err(_) => reach(2),
    }
}

fn same_apply<T: Api + ?Sized>(base: &T, p: &Patch<'_, T>, q: &Patch<'_, T>, code: u64) {
    match (T::apply_to(base, p), T::apply_to(base, q)) {
        (Ok(x), Ok(y)) => check_eq(&x, &y, code),
        (Err(x), Err(y)) => check(x.to_string() == y.to_string(), code),
        _ => fail(code),
    }
}

flavour!(h_pure, pure);
/// C22: cfg = mode ctx text text
fn pure<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let (ta, tb) = (T::of(&a), T::of(&b));
    let o = opts(ctx);
    let p = T::create(&o, ta, tb);
    let s = T::print(&p);
    out(&s);
    // the same options object after other work, and under another seed of HashMap
    hash_seed(byte(0, 1) as u64);
    let back = T::create(&o, tb, ta);
    let q = T::create(&o, ta, tb);
    check(T::eq_patch(&p, &q), 1);
    check(T::eq_patch(&back, &T::create(&o, tb, ta)), 2);
    // the same texts elsewhere in memory, parts of one another's memory or not
    let mut both = a.clone();
    both.extend_from_slice(&b);
    let (ca, cb) = both.split_at(a.len());
    check(T::eq_patch(&p, &T::create(&o, T::of(ca), T::of(cb))), 3);
    // equal texts in the same memory
    check(T::create(&o, ta, ta).hunks().is_empty() && T::create(&o, ta, T::of(ca)).hunks().is_empty(), 4);
    // setters in any order, the last one counts, defaults are defaults
    let n = if ctx == 99 { 3 } else { ctx as usize };
    let mut x = DiffOptions::default();
    x.set_context_len(0).set_modified_filename("m").set_context_len(usize::MAX).set_original_filename("o").set_context_len(n);
    let mut y = DiffOptions::new();
    y.set_original_filename("z").set_context_len(n).set_original_filename(String::from("o")).set_modified_filename("m");
    let (px, py) = (T::create(&x, ta, tb), T::create(&y, ta, tb));
    check(T::eq_patch(&px, &py), 5);
    check(px.original().map(|s| s.as_ref()) == Some(b"o") && px.modified().map(|s| s.as_ref()) == Some(b"m"), 6);
    check(px.hunks() == p.hunks(), 7);
    // names change nothing but the names
    for (o, m) in [("/dev/null", "m"), ("o", "/dev/null"), ("", "a\tb")] {
        let mut z = DiffOptions::new();
        z.set_context_len(n).set_original_filename(o).set_modified_filename(m);
        check(T::create(&z, ta, tb).hunks() == p.hunks(), 18);
    }
    // overlapping texts
    let last = both[..both.len().saturating_sub(1)].iter().rposition(|x| *x == b'\n').map_or(0, |x| x + 1);
    let copy = both.clone();
    for (i, j, k) in [(0, both.len(), a.len()), (0, both.len(), last), (0, a.len(), 0), (a.len(), both.len(), last)] {
        let x = T::create(&o, T::of(&both[i..j]), T::of(&both[k..]));
        let y = T::create(&o, T::of(&both[i..j]), T::of(&copy[k..]));
        check(T::eq_patch(&x, &y), 19);
        let z = T::create(&o, T::of(&both[k..]), T::of(&both[i..j]));
        let w = T::create(&o, T::of(&copy[k..]), T::of(&both[i..j]));
        check(T::eq_patch(&z, &w), 20);
    }
    if n == 3 {
        check(T::eq_patch(&p, &T::create_default(ta, tb)), 8);
        check(T::eq_patch(&p, &T::create(&DiffOptions::default(), ta, tb)), 9);
    }
    // a clone is equal, prints and applies alike
    let k = p.clone();
    check(T::eq_patch(&p, &k), 10);
    check_eq(&s, &T::print(&k), 11);
    check_eq(&s, &T::print(&q), 12);
    same_apply(ta, &p, &k, 13);
    same_apply(tb, &p, &q, 14);
    same_apply(ta, &p, &p, 15);
    // a patch is not changed by what is done with it
    let _ = (p.reverse(), T::print(&p));
    check(T::eq_patch(&p, &q), 16);
    // different patches are different
    check(!T::eq_patch(&p, &p.reverse()) && !T::eq_patch(&p, &px), 17);
    reach(0);
    if !p.hunks().is_empty() {
        reach(1);
    }
}

flavour!(h_pure_merge, pure_merge);
/// C22: cfg = mode style len text text text
fn pure_merge<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let len = c.n();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let d = g.text(c);
    let (ta, tb, td) = (T::of(&a), T::of(&b), T::of(&d));
    let o = mopts(style, len);
    let same = |x: &Result<Vec<u8>, Vec<u8>>, y: &Result<Vec<u8>, Vec<u8>>, code: u64| match (x, y) {
        (Ok(x), Ok(y)) | (Err(x), Err(y)) => check_eq(x, y, code),
        _ => fail(code),
    };
    let r = T::merge(&o, ta, tb, td);
    match &r {
        Ok(t) | Err(t) => out(t),
    }
    hash_seed(byte(0, 1) as u64);
    let _ = T::merge(&o, tb, ta, td);
    same(&r, &T::merge(&o, ta, tb, td), 1);
    let mut all = d.clone();
    all.extend_from_slice(&a);
    all.extend_from_slice(&b);
    let (cd, rest) = all.split_at(d.len());
    let (ca, cb) = rest.split_at(a.len());
    same(&r, &T::merge(&o, T::of(ca), T::of(cb), T::of(cd)), 2);
    // overlapping texts
    let (n, copy, end) = (all.len(), all.clone(), d.len() + a.len());
    for (i, j, k) in [(end, 0, end), (n, end, 0), (d.len(), end, d.len()), (d.len(), end, 0), (0, n, 0)] {
        let x = T::merge(&o, T::of(&all[..i]), T::of(&all[..j]), T::of(&all[k..]));
        let (ci, ck) = (copy[..i].to_vec(), copy[k..].to_vec());
        same(&x, &T::merge(&o, T::of(&ci), T::of(&copy[..j]), T::of(&ck)), 7);
    }
    // setters in any order, the last one counts
    let st = |s: u64| if s == 0 { ConflictStyle::Merge } else { ConflictStyle::Diff3 };
    let mut x = MergeOptions::default();
    x.set_conflict_style(st(style ^ 1)).set_conflict_marker_length(len + 1).set_conflict_style(st(style)).set_conflict_marker_length(len);
    same(&r, &T::merge(&x, ta, tb, td), 3);
    let mut x = MergeOptions::new();
    x.set_conflict_marker_length(0).set_conflict_style(st(style)).set_conflict_marker_length(len).set_conflict_style(st(style ^ 1)).set_conflict_style(st(style));
    same(&r, &T::merge(&x, ta, tb, td), 8);
    let def = T::merge_default(ta, tb, td);
    same(&def, &T::merge(&MergeOptions::new(), ta, tb, td), 4);
    same(&def, &T::merge(&MergeOptions::default(), ta, tb, td), 5);
    // the defaults are diff3 style and markers of seven characters
    same(&def, &T::merge(&mopts(1, 7), ta, tb, td), 6);
    reach(0);
    if r.is_err() {
        reach(1);
    }
}

/// Equality as one formula.
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

flavour!(h_late, late);
/// C23: cfg = mode text text
fn late<T: Api + ?Sized>(c: &mut Cfg) {
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = T::create(&opts(1 << 20), T::of(&a), T::of(&b));
    out(&T::print(&p));
    check(p.hunks().len() <= 1, 1);
    let mut early = false;
    for h in p.hunks() {
        let ls = h.lines();
        let n = ls.len();
        let mut i = 0;
        while i < n {
            let s = i;
            while i < n && matches!(ls[i], Line::Delete(_)) {
                i += 1;
            }
            let d = i;
            while i < n && matches!(ls[i], Line::Insert(_)) {
                i += 1;
            }
            // deletions first, then insertions, then something unchanged
            check(i == n || matches!(ls[i], Line::Context(_)), 2);
            if i > s && i < n {
                let Line::Context(next) = ls[i] else { fail(3) };
                if let Line::Delete(x) = ls[s] {
                    early |= same(x.as_ref(), next.as_ref());
                    reach(1);
                }
                if d < i {
                    let Line::Insert(x) = ls[d] else { fail(5) };
                    early |= same(x.as_ref(), next.as_ref());
                    reach(2);
                }
            }
            if i == s {
                i += 1;
            }
        }
    }
    check(!early, 4);
    reach(0);
}

fn edits<T: Api + ?Sized>(p: &Patch<'_, T>) -> u64 {
    let mut d = 0;
    for h in p.hunks() {
        for l in h.lines() {
            if !matches!(l, Line::Context(_)) {
                d += 1;
            }
        }
    }
    d
}

/// What is measured; natively, callgrind counts the instructions of exactly this.
#[inline(never)]
#[no_mangle]
pub extern "C" fn cost_region(f: &mut dyn FnMut()) {
    f()
}

fn within(bytes: usize, lines: usize, d: u64, per: (u64, u64, u64), mut f: impl FnMut()) {
    let budget = per.0 * bytes as u64 + per.1 * lines as u64 * (d + 1) + 20000;
    let heap_budget = per.2 * (bytes as u64 + lines as u64) + 8192;
    limit(budget);
    let (t0, m0) = (steps(), heap());
    cost_region(&mut f);
    let (t1, m1) = (steps(), heap_peak());
    check(t1 - t0 <= budget, 1);
    check(m1 - m0 <= heap_budget, 2);
    reach(0);
}

flavour!(h_cost_diff, cost_diff);
/// C24: cfg = mode ctx steps-per-byte steps-per-line-and-edit heap text text
fn cost_diff<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let per = (c.next(), c.next(), c.next());
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let d = edits(&make::<T>(0, &a, &b));
    let n = count(&a) + count(&b);
    within(a.len() + b.len(), n, d, per, || {
        let p = make::<T>(ctx, &a, &b);
        std::hint::black_box(&p);
    });
    if d > 0 {
        reach(1);
    }
}

flavour!(h_cost_merge, cost_merge);
/// C24: cfg = mode style steps-per-byte steps-per-line-and-edit heap text text text
fn cost_merge<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let per = (c.next(), c.next(), c.next());
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let e = g.text(c);
    let d = edits(&make::<T>(0, &a, &b)) + edits(&make::<T>(0, &a, &e));
    let n = count(&a) + count(&b) + count(&e);
    let o = mopts(style, 7);
    within(a.len() + b.len() + e.len(), n, d, per, || {
        let r = T::merge(&o, T::of(&a), T::of(&b), T::of(&e));
        std::hint::black_box(&r);
    });
    if d > 0 {
        reach(1);
    }
}
