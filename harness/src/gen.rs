//! Builds symbolic texts from a job's specification.
use crate::sym::*;

/// Byte classes for raw symbolic bytes.
pub const CLASSES: [&[u8]; 12] = [
    b"",                        // 0: any ASCII byte
    b"",                        // 1: any byte
    b"\nab",                    // 2
    b" -+\\\n@a",               // 3: what starts a patch line
    b"\n\r a",                  // 4
    b"0189,-+ @\nx",            // 5: what a hunk header is made of
    b"\"\\nt0r\t\n\r\0a ",      // 6: what file names are sensitive to
    b"\na",                     // 7
    b"-+ @\n\\ab0\"",           // 8
    b"\n \ta",                  // 9
    b"<=>|\na",                 // 10
    b"-+ \n",                   // 11
];

pub const LITERALS: [&[u8]; 24] = [
    b"--- ",                                        // 0
    b"+++ ",                                        // 1
    b"@@ -",                                        // 2
    b" +",                                          // 3
    b" @@",                                         // 4
    b"\n",                                          // 5
    b",",                                           // 6
    b"\\ No newline at end of file\n",              // 7
    b"--- a\n+++ b\n",                              // 8
    b" fn f()\n",                                   // 9
    b"@@ -1,2 +1,2 @@\n",                           // 10
    b"@@ -1 +1 @@\n",                               // 11
    b"@@ -1,2 +1,2 @@",                             // 12
    b"-a\n+b\n c\n",                                // 13
    b"diff --git a/x b/x\nindex 1..2\n",            // 14
    b"@@ ",                                         // 15
    b"-",                                           // 16
    b"+",                                           // 17
    b" ",                                           // 18
    b"\"",                                          // 19
    b"-a\n+b\n",                                    // 20
    b"\t",                                          // 21
    b"@@ -1,3 +1,3 @@\n",                           // 22
    b"\\ No newline at end of file",                // 23
];

/// The body-line starts segment type 8 chooses from.
pub const SIGNS: [&[u8]; 8] = [b" -+", b" -+\\", b"-+", b" -", b" +", b"-", b"+", b" "];

/// The kinds of whole lines segment types 13 and 14 choose from.
pub const KINDS: [&[u8]; 8] = [b" -+", b" -+\\", b" -+\\\n\r", b"-+", b"-+\\", b" -+\n", b" ", b"-"];

/// Lines that look like conflict markers, among others.
pub const MARKS: [&[u8]; 8] = [
    b"a\n",
    b"=======\n",
    b"<<<<<<< ours\n",
    b">>>>>>> theirs\n",
    b"||||||| original\n",
    b"\n",
    b"=======",
    b"======= x\n",
];

/// Lines met in and around patches, or that look like them.
pub const SAYS: [&[u8]; 40] = [
    b"a\n",
    b"-- a/x\n",
    b"++ b/x\n",
    b"-- \n",
    b"--- a/x\n",
    b"+++ b/x\n",
    b"@@ -1 +1 @@\n",
    b"@ -1 +1 @@\n",
    b"diff --git a/x b/x\n",
    b"index 12ab..34cd 100644\n",
    b"\\ No newline at end of file\n",
    b"\\\n",
    b"Index: x\n",
    b"===================\n",
    b"new file mode 100644\n",
    b"rename from x\n",
    b"Binary files a/x and b/x differ\n",
    b"GIT binary patch\n",
    b"Only in a: x\n",
    b"2.30.0\n",
    b"From 0123456789 Mon Sep 17 00:00:00 2001\n",
    b"*** a/x\t2020\n",
    b"--- 1,2 ----\n",
    b"1,2c1,2\n",
    b"> a\n",
    b"< a\n",
    b"---\n",
    b"+++\n",
    b"@@\n",
    b"@@ \n",
    b"--\n",
    b"++ \n",
    b"-\n",
    b"+\n",
    b" \n",
    b"\t\n",
    b"\r\n",
    b"# a\n",
    b"--- /dev/null\n",
    b"+++ /dev/null\n",
];

pub struct Gen {
    pub segs: Vec<Vec<u8>>,
    /// Where the hunks of this text have got to, in the old and the new file.
    at: (u64, u64),
}

/// One of lo..=hi, concrete on every path.
pub fn pick(lo: u8, hi: u8) -> u8 {
    let b = byte(lo, hi);
    let mut v = lo;
    while v < hi {
        if b == v {
            return v;
        }
        v += 1;
    }
    hi
}

/// n lines of the solver's choice with the numbers of old and new lines they stand for.
fn lines(n: usize, kinds: &[u8]) -> (Vec<u8>, u64, u64) {
    let mut o = Vec::with_capacity(n * 32);
    let (mut ol, mut nl) = (0, 0);
    for _ in 0..n {
        let s = kinds[pick(0, (kinds.len() - 1) as u8) as usize];
        match s {
            b'\\' => o.extend_from_slice(LITERALS[7]),
            b'\n' => o.push(b'\n'),
            b'\r' => o.extend_from_slice(b"\r\n"),
            _ => {
                o.push(s);
                o.push(byte(b'a', b'b'));
                o.push(b'\n');
            }
        }
        if s != b'+' && s != b'\\' {
            ol += 1;
        }
        if s != b'-' && s != b'\\' {
            nl += 1;
        }
    }
    (o, ol, nl)
}

#[inline(always)]
fn table(t: &'static [u8], i: u8) -> u8 {
    unsafe { *t.get_unchecked(i as usize) }
}

pub fn raw(class: usize) -> u8 {
    match class {
        0 => byte(0, 127),
        1 => byte(0, 255),
        c => {
            let t = CLASSES[c];
            let i = byte(0, (t.len() - 1) as u8);
            table(t, i)
        }
    }
}

pub fn dec(o: &mut Vec<u8>, mut n: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    o.extend_from_slice(&b[i..]);
}

impl Gen {
    pub fn new() -> Self {
        Gen { segs: Vec::new(), at: (0, 0) }
    }

    pub fn seg(&mut self, ty: u64, n: usize, k: usize) -> Vec<u8> {
        let mut o = Vec::with_capacity(16 * (n % 4000) + 64);
        match ty {
            0 => {
                for _ in 0..n {
                    o.push(byte(b'a', b'a' + (k - 1) as u8));
                    o.push(b'\n');
                }
            }
            1 => {
                for i in 0..n {
                    // lines that start so are told apart by their hash as well
                    o.extend_from_slice(b"pad:");
                    dec(&mut o, (k + i) as u64);
                    o.push(b'\n');
                }
            }
            2 => {
                for _ in 0..n {
                    o.push(raw(k));
                }
            }
            3 => {
                for _ in 0..n {
                    o.push(b'a' + k as u8);
                    o.push(b'\n');
                }
            }
            4 => o.extend_from_slice(&self.segs[k]),
            5 => {
                for _ in 0..n {
                    match k {
                        2 => o.push(byte(0xc2, 0xdf)),
                        3 => {
                            o.push(byte(0xe1, 0xec));
                            o.push(byte(0x80, 0xbf));
                        }
                        // U+E000 to U+FFFF, byte order marks among them
                        5 => {
                            o.push(byte(0xee, 0xef));
                            o.push(byte(0x80, 0xbf));
                        }
                        _ => {
                            o.push(byte(0xf1, 0xf3));
                            o.push(byte(0x80, 0xbf));
                            o.push(byte(0x80, 0xbf));
                        }
                    }
                    o.push(byte(0x80, 0xbf));
                }
            }
            6 => {
                for _ in 0..n {
                    o.push(byte(b'0', b'9'));
                }
            }
            7 => {
                for _ in 0..n {
                    o.extend_from_slice(LITERALS[k]);
                }
            }
            8 => {
                let t = SIGNS[k];
                for _ in 0..n {
                    let i = byte(0, (t.len() - 1) as u8);
                    o.push(table(t, i));
                    o.push(byte(b'a', b'b'));
                    o.push(b'\n');
                }
            }
            // n lines of one symbolic two-byte character out of k
            9 => {
                for _ in 0..n {
                    o.push(0xc3);
                    o.push(byte(0x80, 0x80 + (k - 1) as u8));
                    o.push(b'\n');
                }
            }
            // n concrete digits k (k = 10: the decimal digits of n)
            10 => {
                if k == 10 {
                    dec(&mut o, n as u64)
                } else {
                    for _ in 0..n {
                        o.push(b'0' + k as u8)
                    }
                }
            }
            // n lines, each chosen among "", "a", "b" (k = 3) or "", "a" (k = 2), ...
            11 => {
                for _ in 0..n {
                    let c = byte(0, (k - 1) as u8);
                    if c != 0 {
                        o.push(b'a' - 1 + c);
                    }
                    o.push(b'\n');
                }
            }
            // n lines of a symbolic letter with a symbolic second column (k choices each)
            12 => {
                for _ in 0..n {
                    o.push(b' ');
                    o.push(byte(b'a', b'a' + (k - 1) as u8));
                    o.push(b'\r');
                    o.push(b'\n');
                }
            }
            // n lines of the solver's kinds, whole markers among them
            13 => o = lines(n, KINDS[k]).0,
            // a hunk of n such lines with a header that counts them; k = kinds + 8 * the
            // largest number of lines between it and the hunk before it
            // (+ 64: old and new number independent of each other, overlap included)
            14 => {
                let (b, ol, nl) = lines(n, KINDS[k % 8]);
                let gap = (k % 64 / 8) as u8;
                let (mut x, mut y) = self.at;
                if k < 64 {
                    let g = pick(0, gap) as u64;
                    x += g;
                    y += g;
                } else {
                    x = (x + pick(0, gap + 1) as u64).saturating_sub(1);
                    y = (y + pick(0, gap + 1) as u64).saturating_sub(1);
                }
                o.extend_from_slice(b"@@ -");
                dec(&mut o, if ol > 0 { x + 1 } else { x });
                o.push(b',');
                dec(&mut o, ol);
                o.extend_from_slice(b" +");
                dec(&mut o, if nl > 0 { y + 1 } else { y });
                o.push(b',');
                dec(&mut o, nl);
                o.extend_from_slice(b" @@\n");
                o.extend_from_slice(&b);
                self.at = (x + ol, y + nl);
            }
            // n times the byte k
            15 => o.resize(n, k as u8),
            // n fixed one-line hunks, k lines between them, that fit a text of `pad:` lines
            16 => {
                for _ in 0..n {
                    let (x, y) = self.at;
                    o.extend_from_slice(b"@@ -");
                    dec(&mut o, x + 1);
                    o.extend_from_slice(b" +");
                    dec(&mut o, y + 1);
                    o.extend_from_slice(b" @@\n-pad:");
                    dec(&mut o, x);
                    o.extend_from_slice(b"\n+pad:");
                    dec(&mut o, x + 5000);
                    o.push(b'\n');
                    self.at = (x + 1 + k as u64, y + 1 + k as u64);
                }
            }
            // n times a distinct fixed line and a letter: k % 8; with j = k / 8 > 0 the
            // first of every j letters is `a`
            17 => {
                for i in 0..n {
                    o.extend_from_slice(b"pad:");
                    dec(&mut o, 10 * i as u64);
                    o.push(b'\n');
                    o.push(b'a' + if k >= 8 && i % (k / 8) == 0 { 0 } else { k as u8 % 8 });
                    o.push(b'\n');
                }
            }
            // n lines, each one of the first k of MARKS
            18 => {
                for _ in 0..n {
                    o.extend_from_slice(MARKS[pick(0, (k - 1) as u8) as usize]);
                }
            }
            // n lines, each one of the first k of SAYS
            19 => {
                for _ in 0..n {
                    o.extend_from_slice(SAYS[pick(0, (k - 1) as u8) as usize]);
                }
            }
            _ => {}
        }
        o
    }

    /// Reads `nseg (type n k)* strip` from the configuration.
    pub fn text(&mut self, c: &mut Cfg) -> Vec<u8> {
        let nseg = c.n();
        self.at = (0, 0);
        let mut o = Vec::new();
        for _ in 0..nseg {
            let ty = c.next();
            let n = c.n();
            let k = c.n();
            let s = self.seg(ty, n, k);
            o.extend_from_slice(&s);
            self.segs.push(s);
        }
        // strip: 0 keep, 1 drop the final newline, 2 solver's choice
        let strip = c.next();
        let drop = match strip {
            0 => false,
            1 => true,
            _ => byte(0, 1) == 1,
        };
        if drop {
            if let Some(l) = o.last() {
                if *l == b'\n' {
                    o.pop();
                }
            }
        }
        show(&o);
        o
    }
}

/// Lines of a text, terminators included.
pub fn split(t: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut s = 0;
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'\n' {
            v.push(&t[s..=i]);
            s = i + 1;
        }
        i += 1;
    }
    if s < t.len() {
        v.push(&t[s..]);
    }
    v
}

/// Number of lines a text has.
pub fn count(t: &[u8]) -> usize {
    split(t).len()
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}
