//! The text and the bytes API side by side (C15).
use crate::api::*;
use crate::diffs::make;
use crate::gen::*;
use crate::sym::*;
use diffy::*;

fn opt(a: Option<&str>, b: Option<&[u8]>, code: u64) {
    match (a, b) {
        (Some(a), Some(b)) => check_eq(a.as_bytes(), b, code),
        (None, None) => {}
        _ => fail(code),
    }
}

fn same_patch(p: &Patch<'_, str>, q: &Patch<'_, [u8]>) {
    opt(p.original(), q.original(), 10);
    opt(p.modified(), q.modified(), 11);
    check(p.hunks().len() == q.hunks().len(), 12);
    for (h, k) in p.hunks().iter().zip(q.hunks()) {
        check(h.old_range() == k.old_range(), 13);
        check(h.new_range() == k.new_range(), 14);
        opt(h.function_context(), k.function_context(), 15);
        check(h.lines().len() == k.lines().len(), 16);
        for (l, m) in h.lines().iter().zip(k.lines()) {
            match (l, m) {
                (Line::Context(s), Line::Context(t)) | (Line::Delete(s), Line::Delete(t)) | (Line::Insert(s), Line::Insert(t)) => check_eq(s.as_bytes(), t, 17),
                _ => fail(18),
            }
        }
    }
    let s = p.to_string();
    let t = q.to_bytes();
    out(&t);
    check_eq(s.as_bytes(), &t, 19);
}

fn same_result<E, F>(a: Result<String, E>, b: Result<Vec<u8>, F>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            check_eq(a.as_bytes(), &b, 20);
            reach(1);
            true
        }
        (Err(_), Err(_)) => {
            reach(2);
            false
        }
        _ => fail(21),
    }
}

fn text(b: &[u8]) -> &str {
    <str as Api>::of(b)
}

/// cfg = ctx text text
pub fn h_twin_create() {
    let mut c = Cfg::new();
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(&mut c);
    let b = g.text(&mut c);
    let p = make::<str>(ctx, &a, &b);
    let q = make::<[u8]>(ctx, &a, &b);
    same_patch(&p, &q);
    same_patch(&p.reverse(), &q.reverse());
    same_result(apply(text(&a), &p), apply_bytes(&a, &q));
    same_result(apply(text(&b), &p.reverse()), apply_bytes(&b, &q.reverse()));
    reach(0);
}

/// cfg = text
pub fn h_twin_parse() {
    let mut c = Cfg::new();
    let s = Gen::new().text(&mut c);
    match (Patch::from_str(text(&s)), Patch::from_bytes(&s)) {
        (Ok(p), Ok(q)) => {
            same_patch(&p, &q);
            reach(0);
            if !p.hunks().is_empty() {
                reach(1);
            }
        }
        (Err(_), Err(_)) => reach(2),
        _ => fail(1),
    }
}

/// cfg = patch-text base-text
pub fn h_twin_apply() {
    let mut c = Cfg::new();
    let mut g = Gen::new();
    let s = g.text(&mut c);
    let base = g.text(&mut c);
    match (Patch::from_str(text(&s)), Patch::from_bytes(&s)) {
        (Ok(p), Ok(q)) => {
            let a = apply(text(&base), &p);
            let b = apply_bytes(&base, &q);
            if let (Err(e), Err(f)) = (&a, &b) {
                check_eq(e.to_string().as_bytes(), f.to_string().as_bytes(), 2);
            }
            same_result(a, b);
            reach(0);
        }
        (Err(_), Err(_)) => reach(3),
        _ => fail(1),
    }
}

/// cfg = style marker-length text text text
pub fn h_twin_merge() {
    let mut c = Cfg::new();
    let style = c.next();
    let len = c.n();
    let mut g = Gen::new();
    let a = g.text(&mut c);
    let b = g.text(&mut c);
    let d = g.text(&mut c);
    let mut o = MergeOptions::new();
    o.set_conflict_marker_length(len);
    o.set_conflict_style(if style == 0 { ConflictStyle::Merge } else { ConflictStyle::Diff3 });
    let x = o.merge(text(&a), text(&b), text(&d));
    let y = o.merge_bytes(&a, &b, &d);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            out(&y);
            check_eq(x.as_bytes(), &y, 1);
            reach(1)
        }
        (Err(x), Err(y)) => {
            out(&y);
            check_eq(x.as_bytes(), &y, 2);
            reach(2)
        }
        _ => fail(3),
    }
    let x = merge(text(&a), text(&b), text(&d));
    let y = merge_bytes(&a, &b, &d);
    match (x, y) {
        (Ok(x), Ok(y)) | (Err(x), Err(y)) => check_eq(x.as_bytes(), &y, 4),
        _ => fail(5),
    }
    reach(0);
}
