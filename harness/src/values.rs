//! Patches as values and lines as opaque things (C25 - C27).
use crate::api::*;
use crate::diffs::{check_reversed, make};
use crate::gen::*;
use crate::merging::mopts;
use crate::sym::*;
use diffy::*;

fn same_opt<T: AsRef<[u8]> + ?Sized>(a: Option<&T>, b: Option<&T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.as_ref() == b.as_ref(),
        (None, None) => true,
        _ => false,
    }
}

/// What the accessors report is the same.
fn same<T: Api + ?Sized>(p: &Patch<'_, T>, q: &Patch<'_, T>) -> bool {
    if !same_opt(p.original(), q.original()) || !same_opt(p.modified(), q.modified()) || p.hunks().len() != q.hunks().len() {
        return false;
    }
    p.hunks().iter().zip(q.hunks()).all(|(h, k)| same_hunk(h, k))
}

fn same_hunk<T: Api + ?Sized>(h: &Hunk<'_, T>, k: &Hunk<'_, T>) -> bool {
    let nums = |h: &Hunk<'_, T>| [h.old_range().start(), h.old_range().len(), h.new_range().start(), h.new_range().len()];
    nums(h) == nums(k)
        && same_opt(h.function_context(), k.function_context())
        && h.lines().len() == k.lines().len()
        && h.lines().iter().zip(k.lines()).all(|(x, y)| same_line(x, y))
}

fn same_line<T: Api + ?Sized>(x: &Line<'_, T>, y: &Line<'_, T>) -> bool {
    match (x, y) {
        (Line::Context(s), Line::Context(t)) | (Line::Delete(s), Line::Delete(t)) | (Line::Insert(s), Line::Insert(t)) => s.as_ref() == t.as_ref(),
        _ => false,
    }
}

/// The text a strict tool makes of `base`: it believes every number and never searches.
/// None if the numbers or lines do not fit.
fn strictly<T: Api + ?Sized>(p: &Patch<'_, T>, base: &[u8]) -> Option<Vec<u8>> {
    let im = split(base);
    let (mut i, mut lines) = (0usize, Vec::with_capacity(im.len() + 16));
    for h in p.hunks() {
        let (o, w) = (h.old_range(), h.new_range());
        let so = if o.len() == 0 { o.start() } else { o.start().wrapping_sub(1) };
        let sw = if w.len() == 0 { w.start() } else { w.start().wrapping_sub(1) };
        if so < i || so > im.len() {
            return None;
        }
        lines.extend_from_slice(&im[i..so]);
        i = so;
        if lines.len() != sw {
            return None;
        }
        for l in h.lines() {
            match l {
                Line::Insert(s) => lines.push(s.as_ref()),
                Line::Context(s) | Line::Delete(s) => {
                    if i >= im.len() || im[i] != s.as_ref() {
                        return None;
                    }
                    if let Line::Context(s) = l {
                        lines.push(s.as_ref());
                    }
                    i += 1;
                }
            }
        }
    }
    lines.extend_from_slice(&im[i..]);
    // a line without newline can only be the last one, and has to say something
    let ends = lines.len();
    for (k, l) in lines.iter().enumerate() {
        if l.is_empty() || (l.last() != Some(&b'\n') && k + 1 != ends) {
            return None;
        }
    }
    Some(lines.concat())
}

flavour!(h_undo, undo);
/// C25: cfg = mode patch-text base-text
fn undo<T: Api + ?Sized>(c: &mut Cfg) {
    let mut g = Gen::new();
    let s = g.text(c);
    let base = g.text(c);
    let Ok(p) = T::parse(T::of(&s)) else {
        reach(2);
        return;
    };
    let Some(want) = strictly(&p, &base) else {
        reach(3);
        return;
    };
    match T::apply_to(T::of(&base), &p) {
        Ok(t) => {
            out(&t);
            check_eq(&t, &want, 1);
        }
        Err(_) => fail(2),
    }
    let r = p.reverse();
    check_reversed(&p, &r);
    match T::apply_to(T::of(&want), &r) {
        Ok(t) => check_eq(&t, &base, 3),
        Err(_) => fail(4),
    }
    // the reverse is a patch like any other
    let t = T::print(&r);
    match T::parse(T::of(&t)) {
        Ok(q) => {
            check(same(&q, &r), 5);
            check(T::eq_patch(&q, &r), 6);
            match T::apply_to(T::of(&want), &q) {
                Ok(t) => check_eq(&t, &base, 7),
                Err(_) => fail(8),
            }
        }
        Err(_) => fail(9),
    }
    reach(0);
    if p.hunks().len() > 1 {
        reach(1);
    }
}

flavour!(h_equal, equal);
/// C26: cfg = mode patch-text patch-text
fn equal<T: Api + ?Sized>(c: &mut Cfg) {
    let mut g = Gen::new();
    let s = g.text(c);
    let t = g.text(c);
    let (Ok(p), Ok(q)) = (T::parse(T::of(&s)), T::parse(T::of(&t))) else {
        reach(2);
        return;
    };
    let alike = same(&p, &q);
    check(T::eq_patch(&p, &q) == alike, 1);
    check(T::eq_patch(&q, &p) == alike, 2);
    let d = p.clone();
    check(T::eq_patch(&p, &p) && T::eq_patch(&d, &p) && T::eq_patch(&p, &d), 3);
    check(same(&d, &p), 4);
    check(T::eq_patch(&d, &q) == alike, 5);
    if p.hunks().len() == q.hunks().len() {
        for (h, k) in p.hunks().iter().zip(q.hunks()) {
            check((*h == *k) == same_hunk(h, k), 6);
            check(h.clone() == *h && same_hunk(&h.clone(), h), 7);
            for (a, b) in [(h.old_range(), k.old_range()), (h.new_range(), k.new_range()), (h.old_range(), h.new_range())] {
                check((a == b) == (a.start() == b.start() && a.len() == b.len()), 8);
                check(a.range() == (a.start()..a.end()) && a.end() - a.start() == a.len() && a.is_empty() == (a.len() == 0), 9);
            }
            for (x, y) in h.lines().iter().zip(k.lines()) {
                check((*x == *y) == same_line(x, y), 10);
                let z = *x;
                check(z == *x && z.clone() == *x && same_line(&z, x), 11);
                let r = x.reverse();
                check(r.reverse() == *x && (r == *x) == matches!(x, Line::Context(_)), 12);
            }
        }
    }
    // equal patches print and act alike
    if alike {
        check_eq(&T::print(&p), &T::print(&q), 13);
        reach(0);
    } else {
        reach(1);
    }
}

/// Texts over a few kinds of lines, in two vocabularies.
struct Words {
    said: Vec<Vec<u8>>,
}

impl Words {
    /// n words from the configuration, all different and without newlines
    fn new(g: &mut Gen, c: &mut Cfg, n: usize) -> Words {
        let mut said: Vec<Vec<u8>> = Vec::new();
        for _ in 0..n {
            let w = g.text(c);
            for b in &w {
                assume(*b != b'\n');
            }
            for v in &said {
                assume(*v != w);
            }
            said.push(w);
        }
        Words { said }
    }
    /// A text of n lines, in letters and in words; the final newline may be missing.
    fn text(&self, n: usize) -> (Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (Vec::new(), Vec::new());
        let mut bare = true;
        for _ in 0..n {
            let k = pick(0, (self.said.len() - 1) as u8);
            a.push(b'a' + k);
            a.push(b'\n');
            b.extend_from_slice(&self.said[k as usize]);
            b.push(b'\n');
            bare = self.said[k as usize].is_empty();
        }
        if !bare && byte(0, 1) == 1 {
            a.pop();
            b.pop();
        }
        show(&b);
        (a, b)
    }
    /// Letters to words, line by line; other lines stay.
    fn say(&self, t: &[u8]) -> Vec<u8> {
        let mut o = Vec::with_capacity(t.len() * 8 + 64);
        for l in split(t) {
            let k = l[0].wrapping_sub(b'a') as usize;
            if k < self.said.len() && (l.len() == 1 || l[1] == b'\n') {
                o.extend_from_slice(&self.said[k]);
                o.extend_from_slice(&l[1..]);
            } else {
                o.extend_from_slice(l);
            }
        }
        o
    }
}

flavour!(h_opaque_diff, opaque_diff);
/// C27: cfg = mode ctx number-of-words word-texts old-lines new-lines other-lines
fn opaque_diff<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let n = c.n();
    let mut g = Gen::new();
    let w = Words::new(&mut g, c, n);
    let (a, a2) = w.text(c.n());
    let (b, b2) = w.text(c.n());
    let (o, o2) = w.text(c.n());
    let p = make::<T>(ctx, &a, &b);
    let q = make::<T>(ctx, &a2, &b2);
    check(p.hunks().len() == q.hunks().len(), 1);
    for (h, k) in p.hunks().iter().zip(q.hunks()) {
        check(h.old_range() == k.old_range() && h.new_range() == k.new_range(), 2);
        check(h.lines().len() == k.lines().len(), 3);
        for (x, y) in h.lines().iter().zip(k.lines()) {
            match (x, y) {
                (Line::Context(s), Line::Context(t)) | (Line::Delete(s), Line::Delete(t)) | (Line::Insert(s), Line::Insert(t)) => {
                    check_eq(&w.say(s.as_ref()), t.as_ref(), 4)
                }
                _ => fail(5),
            }
        }
        reach(1);
    }
    match (T::apply_to(T::of(&o), &p), T::apply_to(T::of(&o2), &q)) {
        (Ok(x), Ok(y)) => {
            // a line without newline in the middle runs into the next one
            if split(&x).iter().all(|l| l.len() == 1 || l[1..] == b"\n"[..]) {
                check_eq(&w.say(&x), &y, 6);
            }
            reach(2);
        }
        (Err(x), Err(y)) => {
            check(x.to_string() == y.to_string(), 7);
            reach(3);
        }
        _ => fail(8),
    }
    reach(0);
}

flavour!(h_opaque_merge, opaque_merge);
/// C27: cfg = mode style number-of-words word-texts lines lines lines
fn opaque_merge<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let n = c.n();
    let mut g = Gen::new();
    let w = Words::new(&mut g, c, n);
    let (a, a2) = w.text(c.n());
    let (x, x2) = w.text(c.n());
    let (y, y2) = w.text(c.n());
    let o = mopts(style, 7);
    match (T::merge(&o, T::of(&a), T::of(&x), T::of(&y)), T::merge(&o, T::of(&a2), T::of(&x2), T::of(&y2))) {
        (Ok(p), Ok(q)) => {
            check_eq(&w.say(&p), &q, 1);
            reach(1);
        }
        (Err(p), Err(q)) => {
            check_eq(&w.say(&p), &q, 2);
            reach(2);
        }
        _ => fail(3),
    }
    reach(0);
}
