#![allow(dead_code, unused_variables, unused_assignments)]
mod exec;
mod expr;
mod ir;
mod z3;

use exec::{Exec, Item, Limits, Stats, Stop};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    name: String,
    entry: usize,
    cfg: Vec<u64>,
}

#[derive(Default)]
struct JobRes {
    stats: Stats,
    reach: Vec<u64>,
    incomplete: u64,
    limits: u64,
    unsup: BTreeMap<String, u64>,
    internal: Vec<String>,
    viols: Vec<(String, u64, String, Vec<u8>)>,
    leaves: Vec<(Vec<u8>, u64)>,
    limit_inputs: Vec<(String, Vec<u8>)>,
    t_first: f64,
    t_last: f64,
    done: u64,
    rng: u64,
    cpu: f64,
    over: bool,
}

struct Shared {
    pool: Mutex<VecDeque<(usize, Item)>>,
    cv: Condvar,
    hungry: AtomicI64,
    next_job: AtomicU64,
    outstanding: Vec<AtomicI64>,
    stop: AtomicBool,
    stop_job: Vec<AtomicBool>,
    active: AtomicI64,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn stats_js(s: &Stats) -> String {
    format!(
        "{{\"paths\":{},\"abandoned\":{},\"insts\":{},\"events\":{},\"new_events\":{},\"implied\":{},\"forks\":{},\"by_search\":{},\"by_dom\":{},\"by_eval\":{},\"by_cache\":{},\"by_z3\":{},\"asserts_const\":{},\"asserts_z3\":{},\"asserts_implied\":{},\"certified\":{},\"audits\":{},\"concretized\":{},\"tables\":{},\"maxdepth\":{},\"max_insts\":{},\"max_nodes\":{}}}",
        s.paths, s.abandoned, s.insts, s.events, s.new_events, s.implied, s.forks, s.by_search, s.by_dom, s.by_eval, s.by_cache, s.by_z3, s.asserts_const, s.asserts_z3, s.asserts_implied, s.certified, s.audits, s.concretized, s.tables, s.maxdepth, s.max_insts, s.max_nodes
    )
}

/// Resident memory of this process.
fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 256
}

struct End<'a>(&'a AtomicI64);
impl Drop for End<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

fn main() {
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let k = a.trim_start_matches("--").to_string();
        let v = args.next().unwrap_or_default();
        opt.insert(k, v);
    }
    let get = |k: &str, d: u64| -> u64 { opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d) };
    let t0 = Instant::now();
    let ll = std::fs::read_to_string(&opt["ll"]).expect("read ll");
    let m = ir::parse_module(&ll);
    let t_parse = t0.elapsed().as_secs_f64();
    let plan = std::fs::read_to_string(&opt["plan"]).expect("read plan");
    let mut jobs = Vec::new();
    for l in plan.lines() {
        let mut it = l.split_whitespace();
        let Some(n) = it.next() else { continue };
        let cfg: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
        let entry = *m.fmap.get(n).unwrap_or_else(|| panic!("no harness {}", n));
        jobs.push(Job {
            name: n.to_string(),
            entry,
            cfg,
        });
    }
    let nthreads = get("threads", 8) as usize;
    let budget = get("budget", 60);
    let max_insts = get("max-insts", 3_000_000);
    let max_alloc = get("max-alloc", 32 << 20);
    let leaves_per_job = get("leaves", 200) as usize;
    let seed = get("seed", 1);
    let audit = get("audit", 64);
    let dump = get("dump", 0);
    let certify = get("certify", 1);
    let certify_implied = get("certify-implied", 4);
    let timeout = get("z3-timeout", 20000) as u32;
    let job_budget = get("job-budget", 1_000_000) as f64;
    let stop_on_viol = get("stop-on-violation", 1) == 1;
    let nj = jobs.len();
    let sh = Shared {
        pool: Mutex::new(VecDeque::new()),
        cv: Condvar::new(),
        hungry: AtomicI64::new(0),
        next_job: AtomicU64::new(0),
        outstanding: (0..nj).map(|_| AtomicI64::new(-1)).collect(),
        stop: AtomicBool::new(false),
        stop_job: (0..nj).map(|_| AtomicBool::new(false)).collect(),
        active: AtomicI64::new(0),
    };
    let deadline = t0 + Duration::from_secs(budget);
    let results: Vec<Mutex<JobRes>> = (0..nj)
        .map(|_| {
            Mutex::new(JobRes {
                reach: vec![0; 64],
                ..Default::default()
            })
        })
        .collect();
    let seen = Mutex::new(vec![false; m.funcs.len()]);
    let dumps: Mutex<Vec<(String, bool)>> = Mutex::new(vec![]);
    let zq = AtomicU64::new(0);
    let zt = AtomicU64::new(0);
    let zu = AtomicU64::new(0);
    // report: what is known so far
    let report = || {
    let mut o = String::from("{\n");
    let _ = write!(o, "\"parse_s\":{:.3},\"wall_s\":{:.3},\"z3_queries\":{},\"z3_s\":{:.3},\"z3_unknown\":{},\"z3_version\":{},\n", t_parse, t0.elapsed().as_secs_f64(), zq.load(SeqCst), zt.load(SeqCst) as f64 / 1e9, zu.load(SeqCst), js(&z3::version()));
    let seen = seen.lock().unwrap();
    let mut fns: Vec<String> = m
        .funcs
        .iter()
        .enumerate()
        .filter(|(i, _)| seen[*i])
        .map(|(_, f)| js(&f.name))
        .collect();
    fns.sort();
    let ninst: u64 = m
        .funcs
        .iter()
        .enumerate()
        .filter(|(i, _)| seen[*i])
        .map(|(_, f)| f.ninst as u64)
        .sum();
    let _ = write!(
        o,
        "\"ir_insts_encoded\":{},\n\"functions\":[{}],\n\"jobs\":[\n",
        ninst,
        fns.join(",")
    );
    for (j, job) in jobs.iter().enumerate() {
        let r = results[j].lock().unwrap();
        let out = sh.outstanding[j].load(SeqCst);
        let started = out >= 0;
        let complete = started
            && out == 0
            && r.incomplete == 0
            && r.limits == 0
            && !r.over
            && r.unsup.is_empty()
            && r.internal.is_empty()
            && r.viols.is_empty();
        let _ = write!(o, "{{\"harness\":{},\"cfg\":{:?},\"started\":{},\"complete\":{},\"pending\":{},\"unknown\":{},\"limits\":{},\"over\":{},\"cpu\":{:.2},\"t0\":{:.2},\"t1\":{:.2},\"stats\":{},", js(&job.name), job.cfg, started, complete, out.max(0), r.incomplete, r.limits, r.over, r.cpu, r.t_first, r.t_last, stats_js(&r.stats));
        let rc: Vec<String> = r
            .reach
            .iter()
            .enumerate()
            .filter(|(_, c)| **c > 0)
            .map(|(i, c)| format!("\"{}\":{}", i, c))
            .collect();
        let _ = write!(o, "\"reach\":{{{}}},", rc.join(","));
        let us: Vec<String> = r
            .unsup
            .iter()
            .map(|(k, c)| format!("{}:{}", js(k), c))
            .collect();
        let _ = write!(o, "\"unsupported\":{{{}}},", us.join(","));
        let is: Vec<String> = r.internal.iter().take(5).map(|k| js(k)).collect();
        let _ = write!(o, "\"internal\":[{}],", is.join(","));
        let vs: Vec<String> = r
            .viols
            .iter()
            .map(|(k, c, m, i)| {
                format!(
                    "{{\"kind\":{},\"code\":{},\"msg\":{},\"inputs\":\"{}\"}}",
                    js(k),
                    c,
                    js(m),
                    hex(i)
                )
            })
            .collect();
        let _ = write!(o, "\"violations\":[{}],", vs.join(","));
        let ls: Vec<String> = r
            .limit_inputs
            .iter()
            .map(|(k, i)| format!("{{\"kind\":{},\"inputs\":\"{}\"}}", js(k), hex(i)))
            .collect();
        let _ = write!(o, "\"limit_inputs\":[{}],", ls.join(","));
        let lv: Vec<String> = r
            .leaves
            .iter()
            .map(|(i, d)| format!("[\"{}\",\"{:016x}\"]", hex(i), d))
            .collect();
        let _ = write!(
            o,
            "\"leaves\":[{}]}}{}\n",
            lv.join(","),
            if j + 1 < nj { "," } else { "" }
        );
    }
    o.push_str("],\n\"dumps\":[");
    let d = dumps.lock().unwrap();
    let ds: Vec<String> = d
        .iter()
        .map(|(s, r)| format!("[{},{}]", js(s), r))
        .collect();
    o.push_str(&ds.join(","));
    o.push_str("]}\n");
    std::fs::write(&opt["out"], o).expect("write out");
    };
    let running = AtomicI64::new(nthreads as i64);
    std::thread::scope(|s| {
        // the answer is due whatever the workers are doing
        let (rd, rp, sp) = (&running, &report, &sh.stop);
        s.spawn(move || {
            while rd.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                let m = rss_mb();
                if m > 16_000 {
                    sp.store(true, SeqCst);
                }
                if m > 22_000 || Instant::now() > deadline + Duration::from_secs(25) {
                    rp();
                    std::process::exit(0);
                }
            }
        });
        for tid in 0..nthreads {
            let (sh, m, jobs, results, seen, dumps, zq, zt, zu) =
                (&sh, &m, &jobs, &results, &seen, &dumps, &zq, &zt, &zu);
            let rd = &running;
            let b = std::thread::Builder::new().stack_size(1 << 30);
            let _ = b.spawn_scoped(s, move || {
                let _end = End(rd);
                let mut ex = Exec::new(
                    m,
                    Limits {
                        max_insts,
                        max_alloc,
                    },
                    timeout,
                    seed + tid as u64,
                    audit,
                    dump,
                );
                ex.certify = certify;
                ex.certify_implied = certify_implied;
                ex.deadline = Some(deadline);
                let mut local: Vec<(usize, Item)> = Vec::new();
                let mut ctr = 0u64;
                loop {
                    ctr += 1;
                    if ctr % 16 == 0 && Instant::now() > deadline {
                        sh.stop.store(true, SeqCst);
                    }
                    if sh.stop.load(SeqCst) {
                        sh.cv.notify_all();
                        break;
                    }
                    let it = match local.pop() {
                        Some(x) => Some(x),
                        None => {
                            let mut g = sh.pool.lock().unwrap();
                            loop {
                                if let Some(x) = g.pop_front() {
                                    sh.active.fetch_add(1, SeqCst);
                                    break Some(x);
                                }
                                let j = sh.next_job.load(SeqCst) as usize;
                                if j < nj {
                                    sh.next_job.store(j as u64 + 1, SeqCst);
                                    sh.outstanding[j].store(1, SeqCst);
                                    results[j].lock().unwrap().t_first = t0.elapsed().as_secs_f64();
                                    sh.active.fetch_add(1, SeqCst);
                                    break Some((
                                        j,
                                        Item {
                                            inputs: vec![],
                                            bound: 0,
                                            prefix: vec![],
                                            excl: vec![],
                                        },
                                    ));
                                }
                                if sh.active.load(SeqCst) == 0 || sh.stop.load(SeqCst) {
                                    break None;
                                }
                                sh.hungry.fetch_add(1, SeqCst);
                                let (g2, _) =
                                    sh.cv.wait_timeout(g, Duration::from_millis(20)).unwrap();
                                g = g2;
                                sh.hungry.fetch_sub(1, SeqCst);
                                if Instant::now() > deadline {
                                    sh.stop.store(true, SeqCst);
                                }
                            }
                        }
                    };
                    let Some((j, it)) = it else {
                        sh.cv.notify_all();
                        break;
                    };
                    if sh.stop_job[j].load(SeqCst) {
                        sh.outstanding[j].fetch_sub(1, SeqCst);
                        if local.is_empty() {
                            sh.active.fetch_sub(1, SeqCst);
                        }
                        continue;
                    }
                    ex.cfg = jobs[j].cfg.clone();
                    ex.stats = Stats::default();
                    ex.incomplete = 0;
                    ex.reach = [0; 64];
                    let t_run = Instant::now();
                    let st = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        ex.run(jobs[j].entry, it)
                    })) {
                        Ok(s) => s,
                        Err(_) => {
                            ex = Exec::new(
                                m,
                                Limits {
                                    max_insts,
                                    max_alloc,
                                },
                                timeout,
                                seed + tid as u64,
                                audit,
                                dump,
                            );
                            ex.certify = certify;
                            ex.certify_implied = certify_implied;
                            ex.deadline = Some(deadline);
                            Stop::Internal("engine panic".into())
                        }
                    };
                    let mut outs = std::mem::take(&mut ex.out);
                    sh.outstanding[j].fetch_add(outs.len() as i64, SeqCst);
                    {
                        let mut r = results[j].lock().unwrap();
                        r.stats.add(&ex.stats);
                        r.cpu += t_run.elapsed().as_secs_f64();
                        if r.cpu > job_budget && !r.over {
                            r.over = true;
                            sh.stop_job[j].store(true, SeqCst);
                        }
                        r.incomplete += ex.incomplete;
                        for i in 0..64 {
                            r.reach[i] += ex.reach[i];
                        }
                        match st {
                            Stop::Done => {
                                // a uniform sample of the job's paths (reservoir)
                                r.done += 1;
                                let n = r.leaves.len();
                                if n < leaves_per_job {
                                    let inp = ex.inputs.clone();
                                    r.leaves.push((inp, ex.digest));
                                } else if n > 0 {
                                    r.rng = r.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 + seed);
                                    let k = ((r.rng >> 33) % r.done) as usize;
                                    if k < n {
                                        let inp = ex.inputs.clone();
                                        r.leaves[k] = (inp, ex.digest);
                                    }
                                }
                            }
                            Stop::Abandon => {}
                            Stop::Viol { kind, code, msg } => {
                                r.viols
                                    .push((kind.to_string(), code, msg, ex.inputs.clone()));
                                if r.viols.len() >= 3 {
                                    sh.stop_job[j].store(true, SeqCst);
                                }
                                if stop_on_viol {
                                    sh.stop.store(true, SeqCst);
                                }
                            }
                            Stop::Limit(w) => {
                                r.limits += 1;
                                if r.limit_inputs.len() < 3 {
                                    let i = ex.inputs.clone();
                                    r.limit_inputs.push((w.to_string(), i));
                                }
                            }
                            Stop::Unsup(u) => *r.unsup.entry(u).or_insert(0) += 1,
                            Stop::Time => {
                                // this path stays pending
                                sh.outstanding[j].fetch_add(1, SeqCst);
                                sh.stop.store(true, SeqCst);
                            }
                            Stop::Internal(u) => {
                                let s = format!("{} [{}]", u, hex(&ex.inputs));
                                r.internal.push(s);
                                sh.stop_job[j].store(true, SeqCst);
                            }
                        }
                        r.t_last = t0.elapsed().as_secs_f64();
                    }
                    outs.reverse();
                    for o in outs {
                        local.push((j, o));
                    }
                    sh.outstanding[j].fetch_sub(1, SeqCst);
                    if sh.hungry.load(SeqCst) > 0 && local.len() > 1 {
                        let h = local.len() / 2;
                        let mut g = sh.pool.lock().unwrap();
                        for x in local.drain(..h) {
                            g.push_back(x);
                        }
                        drop(g);
                        sh.cv.notify_all();
                    }
                    if local.is_empty() {
                        sh.active.fetch_sub(1, SeqCst);
                    }
                }
                let mut s = seen.lock().unwrap();
                for (i, b) in ex.seen.iter().enumerate() {
                    if *b {
                        s[i] = true;
                    }
                }
                dumps.lock().unwrap().append(&mut ex.z.dumps);
                zq.fetch_add(ex.z.queries, SeqCst);
                zt.fetch_add(ex.z.time_ns, SeqCst);
                zu.fetch_add(ex.z.unknowns, SeqCst);
            });
        }
    });
    report();
}
