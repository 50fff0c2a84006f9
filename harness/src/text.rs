//! Printing and parsing patches (C05 - C08, C16 - C18, C20).
use crate::api::*;
use crate::diffs::make;
use crate::gen::*;
use crate::sym::*;
use diffy::*;
use std::io;

flavour!(h_print_parse, print_parse);
/// C05: cfg = mode ctx text text
fn print_parse<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    let s = T::print(&p);
    out(&s);
    match T::parse(T::of(&s)) {
        Ok(q) => {
            check(T::eq_patch(&p, &q), 1);
            match T::apply_to(T::of(&a), &q) {
                Ok(r) => check_eq(&r, &b, 2),
                Err(_) => fail(3),
            }
            reach(0);
        }
        Err(_) => fail(4),
    }
    // the writer renders the same text
    let mut w = Vec::new();
    match PatchFormatter::new().write_patch_into(&p, &mut w) {
        Ok(()) => check_eq(&w, &s, 5),
        Err(_) => fail(6),
    }
    if !p.hunks().is_empty() {
        reach(1);
    }
}

fn no_nl(t: &[u8]) -> bool {
    match t.last() {
        Some(l) => *l != b'\n',
        None => false,
    }
}

flavour!(h_final_newline, final_newline);
/// C20: cfg = mode ctx text text
fn final_newline<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    let (na, nb) = (no_nl(&a), no_nl(&b));
    if a != b {
        check(!p.hunks().is_empty(), 1);
    }
    let s = T::print(&p);
    out(&s);
    // every marker stands after a line that ends a text without newline, and
    // every such line has one
    let (n, m) = (count(&a), count(&b));
    let lines = split(&s);
    let mut l = 2;
    for h in p.hunks() {
        let (o, w) = (h.old_range(), h.new_range());
        let mut i = if o.len() == 0 { o.start() } else { o.start() - 1 };
        let mut j = if w.len() == 0 { w.start() } else { w.start() - 1 };
        check(l < lines.len(), 2);
        check(lines[l][0] == b'@', 3);
        l += 1;
        while l < lines.len() && lines[l][0] != b'@' {
            let k = lines[l][0];
            l += 1;
            let bare = match k {
                b' ' | b'\n' => {
                    i += 1;
                    j += 1;
                    // a context line is one line of both texts
                    let x = i == n && na;
                    let y = j == m && nb;
                    check(x == y, 4);
                    x
                }
                b'-' => {
                    i += 1;
                    i == n && na
                }
                b'+' => {
                    j += 1;
                    j == m && nb
                }
                _ => fail(5),
            };
            let marked = l < lines.len() && lines[l][0] == b'\\';
            check(bare == marked, 6);
            if marked {
                l += 1;
                reach(2);
            }
        }
    }
    match T::parse(T::of(&s)) {
        Ok(q) => {
            match T::apply_to(T::of(&a), &q) {
                Ok(r) => check_eq(&r, &b, 7),
                Err(_) => fail(8),
            }
            let r = q.reverse();
            match T::apply_to(T::of(&b), &r) {
                Ok(r) => check_eq(&r, &a, 9),
                Err(_) => fail(10),
            }
        }
        Err(_) => fail(11),
    }
    reach(0);
}

fn touch_all<T: Api + ?Sized>(p: &Patch<'_, T>) {
    let mut n = 0usize;
    for s in [p.original(), p.modified()] {
        if let Some(s) = s {
            n = n.wrapping_add(s.as_ref().len());
        }
    }
    for h in p.hunks() {
        for r in [h.old_range(), h.new_range()] {
            n ^= r.start() ^ r.end() ^ r.len() ^ r.range().end ^ r.is_empty() as usize;
        }
        if let Some(f) = h.function_context() {
            n = n.wrapping_add(f.as_ref().len());
        }
        for l in h.lines() {
            match l {
                Line::Context(s) | Line::Delete(s) | Line::Insert(s) => n = n.wrapping_add(s.as_ref().len()),
            }
        }
    }
    std::hint::black_box(n);
}

flavour!(h_parse_safe, parse_safe);
/// C06: cfg = mode flags patch-text base-text; flags: 1 print, 2 reverse, 4 apply
fn parse_safe<T: Api + ?Sized>(c: &mut Cfg) {
    let flags = c.next();
    let mut g = Gen::new();
    let s = g.text(c);
    let base = g.text(c);
    if std::mem::size_of::<&T>() == 16 && flags & 8 != 0 {
        // the text flavour only takes UTF-8
        if std::str::from_utf8(&s).is_err() || std::str::from_utf8(&base).is_err() {
            return;
        }
    }
    match T::parse(T::of(&s)) {
        Ok(p) => {
            touch_all(&p);
            if flags & 1 != 0 {
                out(&T::print(&p));
            }
            if flags & 2 != 0 {
                let r = p.reverse();
                touch_all(&r);
                check(r.hunks().len() == p.hunks().len(), 1);
            }
            if flags & 4 != 0 {
                for q in [&p, &p.reverse()] {
                    match T::apply_to(T::of(&base), q) {
                        Ok(t) => {
                            out(&t);
                            reach(3);
                        }
                        Err(_) => reach(4),
                    }
                }
            }
            reach(0);
            if !p.hunks().is_empty() {
                reach(1);
            }
        }
        Err(e) => {
            std::hint::black_box(&e);
            reach(2)
        }
    }
}

// ------------------------------------------------------------------ reference parser

pub struct RHunk<'a> {
    pub old: (u64, u64),
    pub new: (u64, u64),
    pub ctx: Option<&'a [u8]>,
    pub lines: Vec<(u8, &'a [u8])>,
}
pub struct RPatch<'a> {
    pub names: [Option<Vec<u8>>; 2],
    pub hunks: Vec<RHunk<'a>>,
}
pub enum RErr {
    /// not a patch
    Bad,
    /// the property does not say (a number written with a plus sign)
    Unspecified,
}
type R<T> = Result<T, RErr>;

fn starts(s: &[u8], p: &[u8]) -> bool {
    if s.len() < p.len() {
        return false;
    }
    for i in 0..p.len() {
        if s[i] != p[i] {
            return false;
        }
    }
    true
}

fn rnum(s: &[u8]) -> R<u64> {
    if s.is_empty() {
        return Err(RErr::Bad);
    }
    if s[0] == b'+' {
        return Err(RErr::Unspecified);
    }
    let mut v = 0u64;
    for c in s {
        if *c < b'0' || *c > b'9' {
            return Err(RErr::Bad);
        }
        v = match v.checked_mul(10) {
            Some(v) => v,
            None => return Err(RErr::Bad),
        };
        v = match v.checked_add((*c - b'0') as u64) {
            Some(v) => v,
            None => return Err(RErr::Bad),
        };
    }
    Ok(v)
}

fn rrange(s: &[u8]) -> R<(u64, u64)> {
    let r = match s.iter().position(|c| *c == b',') {
        // an unspecified field counts only if the other one is not wrong already
        Some(k) => match (rnum(&s[..k]), rnum(&s[k + 1..])) {
            (Err(RErr::Bad), _) | (_, Err(RErr::Bad)) => return Err(RErr::Bad),
            (a, b) => (a?, b?),
        },
        None => (rnum(s)?, 1),
    };
    // a range has to end somewhere
    if r.0.checked_add(r.1).is_none() {
        return Err(RErr::Bad);
    }
    Ok(r)
}

fn rheader(l: &[u8]) -> R<((u64, u64), (u64, u64), Option<&[u8]>)> {
    if !starts(l, b"@@ ") {
        return Err(RErr::Bad);
    }
    let l = &l[3..];
    let mut e = None;
    let mut i = 0;
    while i + 3 <= l.len() {
        if l[i] == b' ' && l[i + 1] == b'@' && l[i + 2] == b'@' {
            e = Some(i);
            break;
        }
        i += 1;
    }
    let Some(e) = e else { return Err(RErr::Bad) };
    let (ranges, tail) = (&l[..e], &l[e + 3..]);
    let Some(sp) = ranges.iter().position(|c| *c == b' ') else { return Err(RErr::Bad) };
    let (r1, r2) = (&ranges[..sp], &ranges[sp + 1..]);
    if !starts(r1, b"-") || !starts(r2, b"+") {
        return Err(RErr::Bad);
    }
    let (old, new) = match (rrange(&r1[1..]), rrange(&r2[1..])) {
        (Err(RErr::Bad), _) | (_, Err(RErr::Bad)) => return Err(RErr::Bad),
        (a, b) => (a?, b?),
    };
    let ctx = if starts(tail, b" ") {
        let mut t = &tail[1..];
        if let Some(x) = t.last() {
            if *x == b'\n' {
                t = &t[..t.len() - 1];
            }
        }
        Some(t)
    } else {
        None
    };
    Ok((old, new, ctx))
}

fn special(c: u8) -> bool {
    c == b'\n' || c == b'\t' || c == 0 || c == b'\r' || c == b'"' || c == b'\\'
}

fn rname(l: &[u8]) -> R<Vec<u8>> {
    let l = &l[4..];
    let mut e = None;
    for i in 0..l.len() {
        if l[i] == b'\t' {
            e = Some(i);
            break;
        }
    }
    if e.is_none() {
        e = l.iter().position(|c| *c == b'\n');
    }
    let Some(e) = e else { return Err(RErr::Bad) };
    let n = &l[..e];
    if n.len() >= 2 && n[0] == b'"' && n[n.len() - 1] == b'"' {
        let n = &n[1..n.len() - 1];
        let mut o = Vec::new();
        let mut i = 0;
        while i < n.len() {
            let c = n[i];
            if c == b'\\' {
                i += 1;
                if i == n.len() {
                    return Err(RErr::Bad);
                }
                let d = n[i];
                o.push(if d == b'n' {
                    b'\n'
                } else if d == b't' {
                    b'\t'
                } else if d == b'0' {
                    0
                } else if d == b'r' {
                    b'\r'
                } else if d == b'"' {
                    b'"'
                } else if d == b'\\' {
                    b'\\'
                } else {
                    return Err(RErr::Bad);
                });
            } else if special(c) {
                return Err(RErr::Bad);
            } else {
                o.push(c);
            }
            i += 1;
        }
        Ok(o)
    } else {
        for c in n {
            if special(*c) {
                return Err(RErr::Bad);
            }
        }
        Ok(n.to_vec())
    }
}

/// What the property says a patch text means.
pub fn rparse(t: &[u8]) -> R<RPatch<'_>> {
    let ls = split(t);
    let mut i = 0;
    while i < ls.len() && !starts(ls[i], b"--- ") && !starts(ls[i], b"+++ ") && !starts(ls[i], b"@@ ") {
        i += 1;
    }
    let mut names = [None, None];
    while i < ls.len() {
        let k = if starts(ls[i], b"--- ") {
            0
        } else if starts(ls[i], b"+++ ") {
            1
        } else {
            break;
        };
        if names[k].is_some() {
            return Err(RErr::Bad);
        }
        names[k] = Some(rname(ls[i])?);
        i += 1;
    }
    let mut hunks: Vec<RHunk> = Vec::new();
    // a number the property leaves open decides nothing if the text is bad anyway
    let mut open = false;
    while i < ls.len() {
        let h = match rheader(ls[i]) {
            Ok(h) => h,
            Err(RErr::Bad) => return Err(RErr::Bad),
            Err(RErr::Unspecified) => {
                open = true;
                ((0, 0), (0, 0), None)
            }
        };
        i += 1;
        let mut lines: Vec<(u8, &[u8])> = Vec::new();
        // per kind: no further line of it may come (context: no line at all)
        let (mut endc, mut endd, mut endi) = (false, false, false);
        while i < ls.len() && ls[i][0] != b'@' {
            let l = ls[i];
            let k = l[0];
            if endc {
                return Err(RErr::Bad);
            }
            if k == b' ' {
                lines.push((b' ', &l[1..]));
            } else if k == b'\n' {
                lines.push((b' ', l));
            } else if k == b'-' {
                if endd {
                    return Err(RErr::Bad);
                }
                lines.push((b'-', &l[1..]));
            } else if k == b'+' {
                if endi {
                    return Err(RErr::Bad);
                }
                lines.push((b'+', &l[1..]));
            } else if starts(l, b"\\ No newline at end of file") {
                let Some(last) = lines.last_mut() else { return Err(RErr::Bad) };
                let s = last.1;
                if s.is_empty() || s[s.len() - 1] != b'\n' {
                    return Err(RErr::Bad);
                }
                last.1 = &s[..s.len() - 1];
                match last.0 {
                    b' ' => endc = true,
                    b'-' => endd = true,
                    _ => endi = true,
                }
            } else {
                return Err(RErr::Bad);
            }
            i += 1;
        }
        let (mut o, mut n) = (0u64, 0u64);
        for l in &lines {
            if l.0 != b'+' {
                o += 1;
            }
            if l.0 != b'-' {
                n += 1;
            }
        }
        if !open && (o != h.0 .1 || n != h.1 .1) {
            return Err(RErr::Bad);
        }
        if let Some(p) = hunks.last() {
            if !open && (p.old.0 + p.old.1 > h.0 .0 || p.new.0 + p.new.1 > h.1 .0) {
                return Err(RErr::Bad);
            }
        }
        hunks.push(RHunk { old: h.0, new: h.1, ctx: h.2, lines });
    }
    if open {
        return Err(RErr::Unspecified);
    }
    Ok(RPatch { names, hunks })
}

fn same_name<T: AsRef<[u8]> + ?Sized>(a: Option<&T>, b: &Option<Vec<u8>>, code: u64) {
    match (a, b) {
        (Some(a), Some(b)) => check_eq(a.as_ref(), b, code),
        (None, None) => {}
        _ => fail(code),
    }
}

fn against_reference<T: Api + ?Sized>(s: &[u8], names: bool) {
    let r = rparse(s);
    let p = T::parse(T::of(s));
    match (p, r) {
        (_, Err(RErr::Unspecified)) => reach(3),
        (Err(_), Err(RErr::Bad)) => reach(2),
        (Ok(_), Err(RErr::Bad)) => fail(1),
        (Err(_), Ok(_)) => fail(2),
        (Ok(p), Ok(r)) => {
            reach(0);
            if names {
                same_name(p.original(), &r.names[0], 3);
                same_name(p.modified(), &r.names[1], 4);
                return;
            }
            check(p.original().is_some() == r.names[0].is_some(), 3);
            check(p.modified().is_some() == r.names[1].is_some(), 4);
            check(p.hunks().len() == r.hunks.len(), 5);
            for (h, k) in p.hunks().iter().zip(&r.hunks) {
                reach(1);
                let (o, w) = (h.old_range(), h.new_range());
                check(o.start() as u64 == k.old.0, 6);
                check(o.len() as u64 == k.old.1, 7);
                check(w.start() as u64 == k.new.0, 8);
                check(w.len() as u64 == k.new.1, 9);
                match (h.function_context(), k.ctx) {
                    (Some(a), Some(b)) => check_eq(a.as_ref(), b, 10),
                    (None, None) => {}
                    _ => fail(11),
                }
                check(h.lines().len() == k.lines.len(), 12);
                observe(k.lines.len() as u64);
                for (l, m) in h.lines().iter().zip(&k.lines) {
                    let (sg, t) = match l {
                        Line::Context(s) => (b' ', s),
                        Line::Delete(s) => (b'-', s),
                        Line::Insert(s) => (b'+', s),
                    };
                    check(sg == m.0, 13);
                    check_eq(t.as_ref(), m.1, 14);
                }
            }
        }
    }
}

flavour!(h_parse_spec, parse_spec);
/// C07: cfg = mode text
fn parse_spec<T: Api + ?Sized>(c: &mut Cfg) {
    let s = Gen::new().text(c);
    against_reference::<T>(&s, false);
}

flavour!(h_names_parse, names_parse);
/// C18, reading: cfg = mode text
fn names_parse<T: Api + ?Sized>(c: &mut Cfg) {
    let s = Gen::new().text(c);
    against_reference::<T>(&s, true);
}

flavour!(h_reprint, reprint);
/// C08: cfg = mode text
fn reprint<T: Api + ?Sized>(c: &mut Cfg) {
    let s = Gen::new().text(c);
    match T::parse(T::of(&s)) {
        Ok(p) => {
            let t = T::print(&p);
            out(&t);
            match T::parse(T::of(&t)) {
                Ok(q) => {
                    check(T::eq_patch(&p, &q), 1);
                    let u = T::print(&q);
                    check_eq(&t, &u, 2);
                }
                Err(_) => fail(3),
            }
            let mut w = Vec::new();
            match PatchFormatter::new().write_patch_into(&p, &mut w) {
                Ok(()) => check_eq(&w, &t, 4),
                Err(_) => fail(5),
            }
            reach(0);
            if !p.hunks().is_empty() {
                reach(1);
                if p.hunks()[0].function_context().is_some() {
                    reach(3);
                }
            }
        }
        Err(_) => reach(2),
    }
}

flavour!(h_names_set, names_set);
/// C18, writing: cfg = mode flags text text; flags: 1 original left default, 2 modified left default
fn names_set<T: Api + ?Sized>(c: &mut Cfg) {
    let flags = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let st = |x: &[u8]| unsafe { String::from_utf8_unchecked(x.to_vec()) };
    let mut o = DiffOptions::new();
    if flags & 1 == 0 {
        o.set_original_filename(st(&a));
    }
    if flags & 2 == 0 {
        o.set_modified_filename(st(&b));
    }
    let (ea, eb): (&[u8], &[u8]) = (if flags & 1 == 0 { &a } else { b"original" }, if flags & 2 == 0 { &b } else { b"modified" });
    let p = T::create(&o, T::of(b"a\n"), T::of(b"b\n"));
    match (p.original(), p.modified()) {
        (Some(x), Some(y)) => {
            check_eq(x.as_ref(), ea, 1);
            check_eq(y.as_ref(), eb, 2);
        }
        _ => fail(3),
    }
    let s = T::print(&p);
    out(&s);
    let ls = split(&s);
    check(ls.len() == 5, 4);
    check(starts(ls[0], b"--- ") && starts(ls[1], b"+++ "), 5);
    check(starts(ls[2], b"@@ ") && starts(ls[3], b"-a") && starts(ls[4], b"+b"), 6);
    match T::parse(T::of(&s)) {
        Ok(q) => {
            match (q.original(), q.modified()) {
                (Some(x), Some(y)) => {
                    check_eq(x.as_ref(), ea, 7);
                    check_eq(y.as_ref(), eb, 8);
                }
                _ => fail(9),
            }
            check(T::eq_patch(&p, &q), 10);
        }
        Err(_) => fail(11),
    }
    let mut w = Vec::new();
    match PatchFormatter::new().write_patch_into(&p, &mut w) {
        Ok(()) => check_eq(&w, &s, 12),
        Err(_) => fail(13),
    }
    reach(0);
    if ls[0].len() > 5 + ea.len() {
        reach(1);
    }
}

fn strip_ansi(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == 0x1b && i + 1 < s.len() && s[i + 1] == b'[' {
            i += 2;
            while i < s.len() && s[i] != b'm' {
                i += 1;
            }
            i += 1;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn formatter(f: u64) -> PatchFormatter {
    let mut p = PatchFormatter::new();
    if f & 1 != 0 {
        p = p.with_color();
    }
    p.missing_newline_message(f & 2 == 0).suppress_blank_empty(f & 4 == 0)
}

pub fn written<T: Api + ?Sized>(f: u64, p: &Patch<'_, T>) -> Vec<u8> {
    let mut w = Vec::new();
    if formatter(f).write_patch_into(p, &mut w).is_err() {
        fail(90)
    }
    w
}

flavour!(h_format, format);
/// C16: cfg = mode ctx text text
fn format<T: Api + ?Sized>(c: &mut Cfg) {
    let ctx = c.next();
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = make::<T>(ctx, &a, &b);
    // (in a text that has escape characters itself, nothing says which ones are colours)
    presented(&p, a.contains(&0x1b) || b.contains(&0x1b));
}

flavour!(h_format_parsed, format_parsed);
/// C16: cfg = mode text
fn format_parsed<T: Api + ?Sized>(c: &mut Cfg) {
    let s = Gen::new().text(c);
    if let Ok(p) = T::parse(T::of(&s)) {
        presented(&p, s.contains(&0x1b));
        if p.hunks().iter().any(|h| h.function_context().is_some()) {
            reach(4);
        }
    }
}

fn presented<T: Api + ?Sized>(p: &Patch<'_, T>, esc: bool) {
    // 0: plain; 1: colour, 2: no message, 4: blanks not suppressed
    let bare = p.hunks().iter().any(|h| h.lines().iter().any(|l| matches!(l, Line::Context(t) if t.as_ref().is_empty())));
    let plain = written(0, p);
    out(&plain);
    for f in 0..8 {
        let w = written(f, p);
        let d = T::print_with(&formatter(f), p);
        check_eq(&w, &d, 1);
        if f & 1 == 1 && !esc {
            check_eq(&strip_ansi(&w), &written(f & !1, p), 2);
        }
    }
    for f in [0, 2] {
        // blank context lines are all that differs
        let (x, y) = (written(f, p), written(f | 4, p));
        let (x, y) = (split(&x), split(&y));
        check(x.len() == y.len(), 3);
        for (u, v) in x.iter().zip(&y) {
            if v.len() == 2 && v[0] == b' ' && v[1] == b'\n' && u.len() == 1 {
                reach(2);
                check(u[0] == b'\n', 4);
            } else {
                check_eq(u, v, 5);
            }
        }
        // suppressed output has no blank-only context line left unless it lacks its newline
        for (i, u) in x.iter().enumerate() {
            if u.len() == 2 && u[0] == b' ' && u[1] == b'\n' {
                // (a line of a foreign patch may be empty even of its newline: it prints like that too)
                check(i + 1 < x.len() && x[i + 1][0] == b'\\' || f == 2 && bare, 6);
            }
        }
    }
    for f in [0, 4] {
        // the messages are all that differs
        let (x, y) = (written(f, p), written(f | 2, p));
        let mut z = Vec::new();
        for l in split(&x) {
            if l[0] == b'\\' {
                reach(3);
            } else {
                z.extend_from_slice(l);
            }
        }
        check_eq(&y, &z, 7);
        // both blank styles parse to the same patch
        match T::parse(T::of(&x)) {
            Ok(q) => check(T::eq_patch(p, &q), 8),
            Err(_) => fail(9),
        }
    }
    reach(0);
    if !p.hunks().is_empty() {
        reach(1);
    }
}

/// A writer whose behaviour at one or two of its calls is the solver's choice.
struct Faulty {
    got: Vec<u8>,
    calls: u32,
    at: u32,
    kind: u64,
    short: usize,
    fail_at: u32,
    failed: bool,
    chunk: usize,
}

impl io::Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.failed {
            // whatever still comes (a buffer flushed on drop, say) does not count
            return Ok(b.len());
        }
        let mut n = b.len().min(self.chunk);
        if k == self.at {
            reach(2);
            match self.kind {
                0 => {
                    self.failed = true;
                    return Err(io::ErrorKind::PermissionDenied.into());
                }
                1 => {
                    if b.is_empty() {
                        return Ok(0);
                    }
                    self.failed = true;
                    return Ok(0);
                }
                2 => return Err(io::ErrorKind::Interrupted.into()),
                _ => n = n.min(self.short),
            }
        }
        if self.kind == 3 && k == self.fail_at {
            reach(3);
            self.failed = true;
            return Err(io::ErrorKind::PermissionDenied.into());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

flavour!(h_writer, writer);
/// C17: cfg = mode flags ctx kind chunk maxcall text text
fn writer<T: Api + ?Sized>(c: &mut Cfg) {
    let flags = c.next();
    let ctx = c.next();
    let kind = c.next();
    let chunk = c.n();
    let max = c.next() as u8;
    let mut g = Gen::new();
    let a = g.text(c);
    let b = g.text(c);
    let p = if flags & 8 != 0 {
        // with a name that needs quoting
        let mut o = opts(ctx);
        o.set_original_filename("x\t\"y");
        T::create(&o, T::of(&a), T::of(&b))
    } else {
        make::<T>(ctx, &a, &b)
    };
    faulted(flags, kind, chunk, max, &p);
}

flavour!(h_writer_parsed, writer_parsed);
/// C17: cfg = mode flags kind chunk maxcall text
fn writer_parsed<T: Api + ?Sized>(c: &mut Cfg) {
    let flags = c.next();
    let kind = c.next();
    let chunk = c.n();
    let max = c.next() as u8;
    let s = Gen::new().text(c);
    if let Ok(p) = T::parse(T::of(&s)) {
        faulted(flags, kind, chunk, max, &p);
    }
}

fn faulted<T: Api + ?Sized>(flags: u64, kind: u64, chunk: usize, max: u8, p: &Patch<'_, T>) {
    let full = written(flags & 7, p);
    out(&full);
    let at = byte(0, max);
    let (mut short, mut fail_at) = (0, 0);
    if kind >= 3 {
        short = byte(1, 3) as usize;
    }
    if kind == 3 {
        fail_at = byte(0, max);
    }
    let mut w = Faulty { got: Vec::new(), calls: 0, at: at as u32, kind, short, fail_at: fail_at as u32, failed: false, chunk };
    let r = formatter(flags & 7).write_patch_into(p, &mut w);
    match r {
        Ok(()) => {
            check(!w.failed, 1);
            check_eq(&w.got, &full, 2);
            reach(0);
        }
        Err(e) => {
            check(w.failed, 3);
            let want = if kind == 1 { io::ErrorKind::WriteZero } else { io::ErrorKind::PermissionDenied };
            check(e.kind() == want, 4);
            check(w.got.len() <= full.len(), 5);
            check_eq(&w.got, &full[..w.got.len()], 6);
            reach(1);
        }
    }
}
