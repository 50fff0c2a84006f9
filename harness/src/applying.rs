//! Applying patches that may not fit (C09, C10, C19).
use crate::api::*;
use crate::gen::*;
use crate::sym::*;
use crate::text::rparse;
use diffy::*;

pub struct H {
    /// where the header says the hunk goes, as an index into the text as patched so far
    at: u64,
    lines: Vec<(u8, [u8; 2])>,
}

const PREFIX: [u64; 5] = [
    0,
    184467440737095516,
    42949672,
    92233720368547758,
    99999999999999999,
];

/// Reads `nhunks (lines signs letters lo hi)*`: hunks with symbolic kinds and contents
/// whose headers name a symbolic line; returns them with the patch text.
/// lo = 100+d: a number of d symbolic digits behind PREFIX[hi] instead (single hunk only);
/// lo = 1000+v: one of v..=v+hi.
pub fn gen_patch(c: &mut Cfg) -> (Vec<H>, Vec<u8>) {
    let nh = c.n();
    let mut hs = Vec::new();
    let mut t = Vec::new();
    let mut delta: i64 = 0;
    for _ in 0..nh {
        let n = c.n();
        let signs = SIGNS[c.n()];
        let k = c.next() as u8;
        let lo = c.next();
        let hi = c.next();
        let mut lines = Vec::new();
        let (mut ol, mut nl) = (0u64, 0u64);
        for _ in 0..n {
            let s = signs[pick(0, (signs.len() - 1) as u8) as usize];
            let l = byte(b'a', b'a' + k - 1);
            lines.push((s, [l, b'\n']));
            if s != b'+' {
                ol += 1;
            }
            if s != b'-' {
                nl += 1;
            }
        }
        let at;
        t.extend_from_slice(b"@@ -");
        if lo >= 100 && lo < 1000 {
            let d = lo - 100;
            let mut num = Vec::new();
            let mut v = PREFIX[hi as usize];
            if v > 0 {
                dec(&mut num, v);
            }
            for _ in 0..d {
                let x = byte(b'0', b'9');
                num.push(x);
                // as the parser will read it; too large a number is not accepted anyway
                v = v.wrapping_mul(10).wrapping_add((x - b'0') as u64);
            }
            t.extend_from_slice(&num);
            t.push(b',');
            dec(&mut t, ol);
            t.extend_from_slice(b" +");
            t.extend_from_slice(&num);
            at = if nl == 0 { v } else { v.saturating_sub(1) };
            // a pure insertion names one place in the old and another in the new file
            // with the same number; leave that to the concrete headers
            assume(ol > 0);
        } else {
            at = if lo >= 1000 {
                lo - 1000 + pick(0, hi as u8) as u64
            } else {
                pick(lo as u8, hi as u8) as u64
            };
            let old = at as i64 - delta;
            let old = if old < 0 { 0 } else { old as u64 };
            dec(&mut t, if ol == 0 { old } else { old + 1 });
            t.push(b',');
            dec(&mut t, ol);
            t.extend_from_slice(b" +");
            dec(&mut t, if nl == 0 { at } else { at + 1 });
        }
        t.push(b',');
        dec(&mut t, nl);
        t.extend_from_slice(b" @@\n");
        for l in &lines {
            t.push(l.0);
            t.extend_from_slice(&l.1);
        }
        delta += nl as i64 - ol as i64;
        hs.push(H { at, lines });
    }
    show(&t);
    (hs, t)
}

/// Lines, and whether a hunk put them there.
type Image<'a> = Vec<(&'a [u8], bool)>;

fn image(base: &[u8]) -> Image<'_> {
    split(base).into_iter().map(|l| (l, false)).collect()
}

fn fits(im: &Image, h: &H, pos: usize) -> bool {
    let mut i = pos;
    for l in &h.lines {
        if l.0 == b'+' {
            continue;
        }
        if i >= im.len() || im[i].1 {
            return false;
        }
        if im[i].0[..] != l.1[..] {
            return false;
        }
        i += 1;
    }
    true
}

fn put<'a>(im: &Image<'a>, h: &'a H, pos: usize) -> Image<'a> {
    let mut o: Image<'a> = im[..pos].to_vec();
    let mut i = pos;
    for l in &h.lines {
        if l.0 != b'-' {
            o.push((&l.1[..], true));
        }
        if l.0 != b'+' {
            i += 1;
        }
    }
    o.extend_from_slice(&im[i..]);
    o
}

fn flat(im: &Image) -> Vec<u8> {
    let mut o = Vec::new();
    for l in im {
        o.extend_from_slice(l.0);
    }
    o
}

fn hunk_named(e: &ApplyError) -> u64 {
    let s = e.to_string();
    let mut v = 0;
    let mut any = false;
    for c in s.bytes() {
        if c.is_ascii_digit() {
            v = v * 10 + (c - b'0') as u64;
            any = true;
        }
    }
    check(any, 80);
    v
}

flavour!(h_apply_sound, apply_sound);
/// C09: cfg = mode hunks base
fn apply_sound<T: Api + ?Sized>(c: &mut Cfg) {
    let (hs, t) = gen_patch(c);
    let base = Gen::new().text(c);
    let Ok(p) = T::parse(T::of(&t)) else {
        // overlapping headers
        reach(3);
        return;
    };
    let r = T::apply_to(T::of(&base), &p);
    // every way of placing the hunks, first hunk first
    let mut states = vec![image(&base)];
    let named = match &r {
        Err(e) => hunk_named(e) as usize,
        Ok(_) => hs.len() + 1,
    };
    for (i, h) in hs.iter().enumerate() {
        let mut next = Vec::new();
        let mut stuck = false;
        for im in &states {
            let mut any = false;
            for pos in 0..=im.len() {
                if fits(im, h, pos) {
                    any = true;
                    next.push(put(im, h, pos));
                }
            }
            stuck |= !any;
        }
        if named == i + 1 {
            // reported as the first hunk that does not fit: it must not fit in some
            // placement of the ones before it
            check(stuck, 1);
            reach(2);
            return;
        }
        // no placement at all: apply has to fail here
        check(!next.is_empty(), 2);
        states = next;
    }
    match r {
        Ok(o) => {
            out(&o);
            let mut found = false;
            for im in &states {
                if flat(im) == o {
                    found = true;
                    break;
                }
            }
            check(found, 3);
            reach(0);
        }
        // named a hunk that is not there
        Err(_) => fail(4),
    }
}

flavour!(h_apply_placed, apply_placed);
/// C09: cfg = mode patch-text base-text; hunks that fit in one place at most
fn apply_placed<T: Api + ?Sized>(c: &mut Cfg) {
    let mut g = Gen::new();
    let s = g.text(c);
    let base = g.text(c);
    let (Ok(r), Ok(p)) = (rparse(&s), T::parse(T::of(&s))) else {
        reach(4);
        return;
    };
    let res = T::apply_to(T::of(&base), &p);
    let mut im = image(&base);
    for (i, h) in r.hunks.iter().enumerate() {
        let old: Vec<&[u8]> = h.lines.iter().filter(|l| l.0 != b'+').map(|l| l.1).collect();
        let new: Vec<(&[u8], bool)> = h.lines.iter().filter(|l| l.0 != b'-').map(|l| (l.1, true)).collect();
        if old.is_empty() {
            // fits everywhere
            reach(3);
            return;
        }
        let mut found = None;
        let mut pos = 0;
        while pos + old.len() <= im.len() {
            if old.iter().zip(&im[pos..]).all(|(a, b)| !b.1 && *a == b.0) {
                if found.is_some() {
                    reach(3);
                    return;
                }
                found = Some(pos);
            }
            pos += 1;
        }
        let Some(pos) = found else {
            match res {
                Ok(_) => fail(1),
                Err(e) => check(hunk_named(&e) == i as u64 + 1, 2),
            }
            reach(2);
            return;
        };
        im.splice(pos..pos + old.len(), new);
    }
    match res {
        Ok(o) => {
            out(&o);
            check_eq(&o, &flat(&im), 3);
            reach(0);
        }
        Err(_) => fail(4),
    }
}

flavour!(h_apply_nearest, apply_nearest);
/// C10: cfg = mode hunks base
fn apply_nearest<T: Api + ?Sized>(c: &mut Cfg) {
    let (hs, t) = gen_patch(c);
    let base = Gen::new().text(c);
    let p = match T::parse(T::of(&t)) {
        Ok(p) => p,
        Err(_) => {
            reach(3);
            return;
        }
    };
    let mut im = image(&base);
    for h in &hs {
        let n = im.len();
        // the line named, as an index; beyond the end counts as the end
        let mut at = n;
        let mut k = 0;
        while k < n {
            if h.at == k as u64 {
                at = k;
            }
            k += 1;
        }
        let mut found = None;
        let mut d = 0;
        while d <= n {
            if d <= at && fits(&im, h, at - d) {
                found = Some(at - d);
                break;
            }
            if d > 0 && at + d <= n && fits(&im, h, at + d) {
                found = Some(at + d);
                break;
            }
            d += 1;
        }
        match found {
            Some(pos) => {
                if pos != at {
                    reach(1);
                }
                im = put(&im, h, pos)
            }
            None => {
                // nothing to say about where it goes
                reach(2);
                return;
            }
        }
    }
    match T::apply_to(T::of(&base), &p) {
        Ok(o) => {
            out(&o);
            check_eq(&o, &flat(&im), 1);
            reach(0);
        }
        Err(_) => fail(2),
    }
}

flavour!(h_work, work);
/// C19: cfg = mode per-byte-budget heap-per-byte patch-text base-text
fn work<T: Api + ?Sized>(c: &mut Cfg) {
    let per = c.next();
    let heap_per = c.next();
    let mut g = Gen::new();
    let s = g.text(c);
    let base = g.text(c);
    let size = (s.len() + base.len()) as u64;
    let (t0, m0) = (steps(), heap());
    let p = T::parse(T::of(&s));
    if let Ok(p) = p {
        match T::apply_to(T::of(&base), &p) {
            Ok(_) => reach(1),
            Err(_) => reach(2),
        }
        match T::apply_to(T::of(&base), &p.reverse()) {
            Ok(_) => reach(3),
            Err(_) => reach(4),
        }
    } else {
        reach(5);
    }
    let (t1, m1) = (steps(), heap_peak());
    check(t1 - t0 <= per * size + 6000, 1);
    check(m1 - m0 <= heap_per * size + 4096, 2);
    reach(0);
}
