//! Three-way merge (C11 - C14).
use crate::api::*;
use crate::gen::*;
use crate::sym::*;
use diffy::*;

pub fn mopts(style: u64, len: usize) -> MergeOptions {
    let mut o = MergeOptions::new();
    o.set_conflict_marker_length(len);
    o.set_conflict_style(if style == 0 { ConflictStyle::Merge } else { ConflictStyle::Diff3 });
    o
}

flavour!(h_merge_identity, merge_identity);
/// C11: cfg = mode style len text text
fn merge_identity<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let len = c.n();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let o = mopts(style, len);
    let (ta, tb) = (T::of(&a), T::of(&b));
    let rs = [T::merge(&o, ta, tb, ta), T::merge(&o, ta, ta, tb), T::merge(&o, ta, tb, tb), T::merge_default(ta, tb, ta), T::merge_default(ta, ta, tb), T::merge_default(ta, tb, tb)];
    for (i, r) in rs.iter().enumerate() {
        match r {
            Ok(t) => {
                out(t);
                check_eq(t, &b, 1 + i as u64)
            }
            Err(_) => fail(11 + i as u64),
        }
    }
    reach(0);
    if a != b {
        reach(1);
    }
}

/// For every line of `a`, the line of `b` it is kept as, according to the diff.
fn kept<T: Api + ?Sized>(a: &[u8], b: &[u8]) -> Vec<Option<usize>> {
    let n = count(a);
    let mut v = vec![None; n];
    // so much context that the one hunk shows everything
    let p = T::create(&opts(1 << 20), T::of(a), T::of(b));
    if p.hunks().is_empty() {
        for i in 0..n {
            v[i] = Some(i);
        }
        return v;
    }
    let (mut i, mut j) = (0, 0);
    for h in p.hunks() {
        for l in h.lines() {
            match l {
                Line::Context(_) => {
                    v[i] = Some(j);
                    i += 1;
                    j += 1;
                }
                Line::Delete(_) => i += 1,
                Line::Insert(_) => j += 1,
            }
        }
    }
    v
}

pub enum Piece {
    Same(Vec<u8>),
    /// ancestor, ours, theirs
    Conflict(Vec<u8>, Vec<u8>, Vec<u8>),
}

fn cat(l: &[&[u8]]) -> Vec<u8> {
    let mut o = Vec::new();
    for x in l {
        o.extend_from_slice(x);
    }
    o
}

fn same_lines(a: &[&[u8]], b: &[&[u8]]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}

/// The three-way merge the property describes.
fn reference<T: Api + ?Sized>(a: &[u8], b: &[u8], c: &[u8]) -> Vec<Piece> {
    let (ko, kt) = (kept::<T>(a, b), kept::<T>(a, c));
    let (la, lb, lc) = (split(a), split(b), split(c));
    let mut out = Vec::new();
    let (mut i0, mut j0, mut k0) = (0, 0, 0);
    let mut i = 0;
    loop {
        let anchor = if i < la.len() {
            match (ko[i], kt[i]) {
                (Some(j), Some(k)) => Some((j, k)),
                _ => {
                    i += 1;
                    continue;
                }
            }
        } else {
            None
        };
        let (j, k) = anchor.unwrap_or((lb.len(), lc.len()));
        let (x, y, z) = (&la[i0..i], &lb[j0..j], &lc[k0..k]);
        if same_lines(y, z) {
            out.push(Piece::Same(cat(y)));
        } else if same_lines(x, y) {
            out.push(Piece::Same(cat(z)));
        } else if same_lines(x, z) {
            out.push(Piece::Same(cat(y)));
        } else {
            out.push(Piece::Conflict(cat(x), cat(y), cat(z)));
        }
        if anchor.is_none() {
            return out;
        }
        out.push(Piece::Same(la[i].to_vec()));
        i += 1;
        i0 = i;
        j0 = j + 1;
        k0 = k + 1;
    }
}

fn marker(c: u8) -> bool {
    c == b'<' || c == b'|' || c == b'=' || c == b'>'
}

/// Reads a merge result whose texts contain no marker characters, whatever the exact
/// shape of the markers.
fn pieces(t: &[u8]) -> Vec<Piece> {
    let mut v = Vec::new();
    let mut i = 0;
    let n = t.len();
    // text up to the next marker character, which is skipped with its line
    let mut next = |i: &mut usize| -> (Vec<u8>, u8) {
        let s = *i;
        while *i < n && !marker(t[*i]) {
            *i += 1;
        }
        let x = t[s..*i].to_vec();
        if *i == n {
            return (x, 0);
        }
        let m = t[*i];
        while *i < n && t[*i] != b'\n' {
            *i += 1;
        }
        if *i < n {
            *i += 1;
        }
        (x, m)
    };
    loop {
        let (x, m) = next(&mut i);
        v.push(Piece::Same(x));
        if m == 0 {
            return v;
        }
        check(m == b'<', 60);
        let (o, mut m) = next(&mut i);
        let mut anc = Vec::new();
        if m == b'|' {
            let (a, k) = next(&mut i);
            anc = a;
            m = k;
        }
        check(m == b'=', 61);
        let (th, m) = next(&mut i);
        check(m == b'>', 62);
        v.push(Piece::Conflict(anc, o, th));
    }
}

/// The text one side's resolution gives; section newlines are completed.
fn resolve(v: &[Piece], side: u8) -> Vec<u8> {
    let mut o = Vec::new();
    for p in v {
        match p {
            Piece::Same(t) => o.extend_from_slice(t),
            Piece::Conflict(a, b, c) => {
                let s = match side {
                    0 => a,
                    1 => b,
                    _ => c,
                };
                o.extend_from_slice(s);
                if let Some(l) = s.last() {
                    if *l != b'\n' {
                        o.push(b'\n');
                    }
                }
            }
        }
    }
    o
}

flavour!(h_merge_spec, merge_spec);
/// C12: cfg = mode text text text
fn merge_spec<T: Api + ?Sized>(c: &mut Cfg) {
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let d = g.text(c);
    let r = T::merge_default(T::of(&a), T::of(&b), T::of(&d));
    let want = reference::<T>(&a, &b, &d);
    let mut conflicts = 0;
    for p in &want {
        if let Piece::Conflict(..) = p {
            conflicts += 1;
        }
    }
    match r {
        Ok(t) => {
            out(&t);
            check(conflicts == 0, 1);
            check_eq(&t, &resolve(&want, 1), 2);
            reach(0);
        }
        Err(t) => {
            out(&t);
            check(conflicts > 0, 3);
            let got = pieces(&t);
            check_eq(&resolve(&got, 1), &resolve(&want, 1), 4);
            check_eq(&resolve(&got, 2), &resolve(&want, 2), 5);
            reach(1);
        }
    }
}

flavour!(h_merge_symmetric, merge_symmetric);
/// C14: cfg = mode style text text text
fn merge_symmetric<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let d = g.text(c);
    let o = mopts(style, 7);
    let x = T::merge(&o, T::of(&a), T::of(&b), T::of(&d));
    let y = T::merge(&o, T::of(&a), T::of(&d), T::of(&b));
    match (x, y) {
        (Ok(x), Ok(y)) => {
            out(&x);
            check_eq(&x, &y, 1);
            reach(0);
        }
        (Err(x), Err(y)) => {
            out(&x);
            let (p, q) = (pieces(&x), pieces(&y));
            check(p.len() == q.len(), 2);
            for (u, v) in p.iter().zip(&q) {
                match (u, v) {
                    (Piece::Same(u), Piece::Same(v)) => check_eq(u, v, 3),
                    (Piece::Conflict(a1, o1, t1), Piece::Conflict(a2, o2, t2)) => {
                        check_eq(a1, a2, 4);
                        check_eq(o1, t2, 5);
                        check_eq(t1, o2, 6);
                    }
                    _ => fail(7),
                }
            }
            reach(1);
        }
        _ => fail(8),
    }
}

struct Block<'a> {
    /// lines of the output before this conflict block since the previous one
    before: Vec<&'a [u8]>,
    sect: [Vec<&'a [u8]>; 3],
}

fn is_marker(l: &[u8], c: u8, len: usize, label: &[u8]) -> bool {
    if l.len() != len + label.len() {
        return false;
    }
    for i in 0..len {
        if l[i] != c {
            return false;
        }
    }
    for i in 0..label.len() {
        if l[len + i] != label[i] {
            return false;
        }
    }
    true
}

/// Strict reading of diff3-style output with markers of length 7.
fn strict(t: &[u8]) -> (Vec<Block<'_>>, Vec<&[u8]>) {
    let mut v = Vec::new();
    let mut cur: Vec<&[u8]> = Vec::new();
    let mut before = Vec::new();
    let mut sect = [Vec::new(), Vec::new(), Vec::new()];
    let mut st = 0;
    for l in split(t) {
        if marker(l[0]) {
            let done = std::mem::take(&mut cur);
            match st {
                0 => {
                    check(is_marker(l, b'<', 7, b" ours\n"), 20);
                    before = done;
                }
                1 => {
                    check(is_marker(l, b'|', 7, b" original\n"), 21);
                    sect[1] = done;
                }
                2 => {
                    check(is_marker(l, b'=', 7, b"\n"), 22);
                    sect[0] = done;
                }
                _ => {
                    check(is_marker(l, b'>', 7, b" theirs\n"), 23);
                    sect[2] = done;
                    v.push(Block { before: std::mem::take(&mut before), sect: std::mem::take(&mut sect) });
                }
            }
            st = (st + 1) % 4;
        } else {
            // markers only ever start a line
            for c in l {
                if marker(*c) {
                    fail(24)
                }
            }
            cur.push(l);
        }
    }
    check(st == 0, 25);
    (v, cur)
}

/// l as it appears in the output, s in the text (which may lack the last newline)
fn line_is(l: &[u8], s: &[u8]) -> bool {
    if l.len() == s.len() {
        return l == s;
    }
    l.len() == s.len() + 1 && l[l.len() - 1] == b'\n' && l[..s.len()] == *s && (s.is_empty() || s[s.len() - 1] != b'\n')
}

/// The sections of one side are, in order, complete stretches of that side's lines
/// between the lines that surround the conflicts in the output.
fn sections_from(src: &[&[u8]], v: &[Block], rest: &[&[u8]], side: usize, code: u64) {
    let mut pos = 0;
    for (i, b) in v.iter().enumerate() {
        let s = &b.sect[side];
        let pred = b.before.last();
        let succ = if i + 1 < v.len() { v[i + 1].before.first() } else { rest.first() };
        let mut found = false;
        let mut p = pos;
        while p + s.len() <= src.len() {
            let mut ok = match pred {
                Some(l) => p > 0 && line_is(l, src[p - 1]),
                None => p == 0 || i > 0,
            };
            let e = p + s.len();
            if ok {
                ok = match succ {
                    Some(l) => e < src.len() && line_is(l, src[e]),
                    None => e == src.len() || i + 1 < v.len(),
                };
            }
            if ok {
                for k in 0..s.len() {
                    if !line_is(s[k], src[p + k]) {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                found = true;
                pos = e;
                break;
            }
            p += 1;
        }
        check(found, code);
    }
}

fn push_marker(o: &mut Vec<u8>, c: u8, len: usize, label: &[u8]) {
    for _ in 0..len {
        o.push(c);
    }
    o.extend_from_slice(label);
    o.push(b'\n');
}

fn push_lines(o: &mut Vec<u8>, l: &[&[u8]]) {
    for x in l {
        o.extend_from_slice(x);
    }
}

flavour!(h_merge_render, merge_render);
/// C13: cfg = mode style len text text text
fn merge_render<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let len = c.n();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let d = g.text(c);
    let (ta, tb, td) = (T::of(&a), T::of(&b), T::of(&d));
    let x = T::merge_default(ta, tb, td);
    let y = T::merge(&mopts(style, len), ta, tb, td);
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => {
            check_eq(&x, &y, 1);
            reach(0);
            return;
        }
        (Err(x), Err(y)) => (x, y),
        _ => fail(2),
    };
    out(&x);
    out(&y);
    let (v, rest) = strict(&x);
    check(!v.is_empty(), 3);
    sections_from(&split(&b), &v, &rest, 1, 4);
    sections_from(&split(&a), &v, &rest, 0, 5);
    sections_from(&split(&d), &v, &rest, 2, 6);
    // the other style and length show the same, and nothing else
    let mut w = Vec::new();
    for k in &v {
        push_lines(&mut w, &k.before);
        push_marker(&mut w, b'<', len, b" ours");
        push_lines(&mut w, &k.sect[1]);
        if style != 0 {
            push_marker(&mut w, b'|', len, b" original");
            push_lines(&mut w, &k.sect[0]);
        }
        push_marker(&mut w, b'=', len, b"");
        push_lines(&mut w, &k.sect[2]);
        push_marker(&mut w, b'>', len, b" theirs");
    }
    push_lines(&mut w, &rest);
    check_eq(&y, &w, 7);
    reach(1);
    if v.len() > 1 {
        reach(2);
    }
}

fn start_marker(o: &mut Vec<u8>, c: u8, len: usize, label: &[u8]) {
    // a marker always starts a line
    if let Some(l) = o.last() {
        if *l != b'\n' {
            o.push(b'\n');
        }
    }
    push_marker(o, c, len, label);
}

flavour!(h_merge_full, merge_full);
/// C13: cfg = mode style len text text text; the whole output, whatever the texts
/// contain (marker characters and marker lines included)
fn merge_full<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let len = c.n();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let d = g.text(c);
    let r = T::merge(&mopts(style, len), T::of(&a), T::of(&b), T::of(&d));
    let mut w = Vec::new();
    let mut conflicts = 0;
    for p in reference::<T>(&a, &b, &d) {
        match p {
            Piece::Same(t) => w.extend_from_slice(&t),
            Piece::Conflict(x, y, z) => {
                conflicts += 1;
                start_marker(&mut w, b'<', len, b" ours");
                w.extend_from_slice(&y);
                if style != 0 {
                    start_marker(&mut w, b'|', len, b" original");
                    w.extend_from_slice(&x);
                }
                start_marker(&mut w, b'=', len, b"");
                w.extend_from_slice(&z);
                start_marker(&mut w, b'>', len, b" theirs");
            }
        }
    }
    match r {
        Ok(t) => {
            out(&t);
            check(conflicts == 0, 1);
            check_eq(&t, &w, 2);
            reach(0);
        }
        Err(t) => {
            out(&t);
            check(conflicts > 0, 3);
            check_eq(&t, &w, 4);
            reach(1);
        }
    }
}

flavour!(h_merge_swap, merge_swap);
/// C14: cfg = mode style len text text text; what can be told of texts that contain
/// marker characters
fn merge_swap<T: Api + ?Sized>(c: &mut Cfg) {
    let style = c.next();
    let len = c.n();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let d = g.text(c);
    let o = mopts(style, len);
    let x = T::merge(&o, T::of(&a), T::of(&b), T::of(&d));
    let y = T::merge(&o, T::of(&a), T::of(&d), T::of(&b));
    match (x, y) {
        (Ok(x), Ok(y)) => {
            out(&x);
            check_eq(&x, &y, 1);
            reach(0);
        }
        (Err(x), Err(y)) => {
            out(&x);
            check(x.len() == y.len(), 2);
            reach(1);
        }
        _ => fail(3),
    }
}
