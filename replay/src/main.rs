//! Runs harnesses natively on concrete inputs, one case per line of the case file:
//! `<harness> <cfg,cfg,...|-> <hex inputs|->`. Prints one verdict per line:
//! `ok <digest> <reach>`, `fail <code>`, `panic <message>`, `assume`, `input`.
use harness::sym::{self, End};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

struct Counting;
fn more(n: usize) {
    let now = sym::HEAP.fetch_add(n as u64, Relaxed) + n as u64;
    sym::PEAK.fetch_max(now, Relaxed);
}
fn less(n: usize) {
    sym::HEAP.fetch_sub(n as u64, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        less(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        more(n);
        less(l.size());
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn main() {
    let path = std::env::args().nth(1).expect("case file");
    let text = std::fs::read_to_string(path).expect("read case file");
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = std::io::stdout();
    if std::env::args().nth(2).is_some() {
        sym::SHOW.store(1, Relaxed);
    }
    for l in text.lines() {
        let mut it = l.split(' ');
        let name = it.next().unwrap_or("");
        let cfg: Vec<u64> = match it.next() {
            Some("-") | None => vec![],
            Some(s) => s.split(',').map(|x| x.parse().unwrap()).collect(),
        };
        let hex = it.next().unwrap_or("-");
        let inp: Vec<u8> = if hex == "-" { vec![] } else { (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect() };
        let Some((_, f)) = harness::TABLE.iter().find(|x| x.0 == name) else {
            let _ = writeln!(w, "missing {}", name);
            continue;
        };
        sym::begin(&cfg, &inp);
        let r = std::panic::catch_unwind(|| f());
        let _ = match r {
            Ok(()) => sym::ST.with(|s| {
                let s = s.borrow();
                writeln!(w, "ok {:016x} {:x}", s.digest, s.reach)
            }),
            Err(e) => {
                if let Some(e) = e.downcast_ref::<End>() {
                    match e {
                        End::Assume => writeln!(w, "assume"),
                        End::Fail(c) => writeln!(w, "fail {}", c),
                        End::Input => writeln!(w, "input"),
                    }
                } else {
                    let m = if let Some(s) = e.downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = e.downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "?".into()
                    };
                    writeln!(w, "panic {}", m.replace('\n', " "))
                }
            }
        };
        let _ = w.flush();
    }
}
