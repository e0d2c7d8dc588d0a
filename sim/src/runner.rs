//! Runs plans in child processes, searches seeds, minimises failures.

use crate::plan::*;
use simrt::prng::{mix, Prng};
use simrt::report::{self, PAGE};
use simrt::sched::{self, Mode};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct Scen {
    pub id: &'static str,
    pub gen: fn(&mut Prng, &mut Plan),
    pub exec: fn(&Plan),
    /// Fixed plans run before the random ones.
    /// One plan in so many is large.
    pub large: u64,
    pub directed: fn() -> Vec<Plan>,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub kind: String,
    pub class: String,
    pub detail: String,
    pub steps: u64,
    pub mem: u64,
    pub switches: u64,
    pub hash: u64,
    pub probes: Vec<(String, u64)>,
    pub sched: Vec<(u64, u8)>,
    pub fired: Vec<usize>,
    pub log: Vec<String>,
    pub meta: Vec<String>,
}

pub fn scen(id: &str) -> &'static Scen {
    crate::SCENS.iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

/// Body of a child process: one simulated run.
fn child(p: &Plan, verbose: bool) -> ! {
    unsafe {
        libc::signal(libc::SIGALRM, libc::SIG_DFL);
        libc::alarm(300);
        let cpu = libc::rlimit { rlim_cur: 40, rlim_max: 60 };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        libc::signal(libc::SIGXCPU, libc::SIG_DFL);
    }
    simrt::install_hooks();
    let cap = if p.p("large") + p.p("hist") > 0 { 8 * CAP } else { CAP };
    sched::init(p.mode, p.sseed, p.sched.clone(), p.faults.clone(), cap);
    sched::sim().verbose = verbose;
    unsafe { simrt::arena::REUSE = p.p("reuse") == 1 };
    (scen(&p.prop).exec)(p);
    simrt::arena::check_all();
    report::ok()
}

pub fn run_plan(p: &Plan, verbose: bool) -> Outcome {
    unsafe {
        (PAGE as *mut u64).write_volatile(0);
        let pid = libc::fork();
        if pid == 0 {
            child(p, verbose);
        }
        if pid < 0 {
            eprintln!("harness: fork failed");
            std::process::exit(2);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let n = (PAGE as *mut u64).read_volatile() as usize;
        let mut o = Outcome::default();
        if n > 0 {
            let b = std::slice::from_raw_parts(PAGE.add(8), n);
            parse(&String::from_utf8_lossy(b), &mut o);
        } else if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            match sig {
                libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP => {
                    o.kind = "violation".into();
                    o.class = format!("crash-signal-{}", sig);
                    o.detail = format!("the process running the library was ended by signal {}", sig);
                }
                libc::SIGXCPU => {
                    o.kind = "violation".into();
                    o.class = "no-progress".into();
                    o.detail = "the run used 40 s of processor time (runs take milliseconds) without ending".into();
                }
                _ => {
                    o.kind = "error".into();
                    o.class = "harness".into();
                    o.detail = format!("child ended by signal {}", sig);
                }
            }
        } else {
            o.kind = "error".into();
            o.class = "harness".into();
            o.detail = format!("child exited with status {} and no result", libc::WEXITSTATUS(st));
        }
        o
    }
}

fn parse(t: &str, o: &mut Outcome) {
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "kind" => o.kind = v.into(),
            "class" => o.class = v.into(),
            "detail" => o.detail = v.into(),
            "steps" => o.steps = v.parse().unwrap_or(0),
            "mem" => o.mem = v.parse().unwrap_or(0),
            "switches" => o.switches = v.parse().unwrap_or(0),
            "hash" => o.hash = u64::from_str_radix(v, 16).unwrap_or(0),
            "probe" => {
                if let Some((a, b)) = v.rsplit_once(' ') {
                    o.probes.push((a.into(), b.parse().unwrap_or(0)));
                }
            }
            "fired" => o.fired.push(v.parse().unwrap_or(0)),
            "meta" => o.meta.push(v.into()),
            "log" => o.log.push(v.into()),
            "sched" => {
                if let Some((a, b)) = v.split_once(' ') {
                    o.sched.push((a.parse().unwrap_or(0), b.parse().unwrap_or(0)));
                }
            }
            _ => {}
        }
    }
}

pub fn make(id: &str, seed: u64, index: u64) -> Plan {
    let s = scen(id);
    let d = (s.directed)();
    if (index as usize) < d.len() {
        return d[index as usize].clone();
    }
    let mut h = 0u64;
    for b in id.bytes().chain(crate::PROFILE.bytes()) {
        h = mix(h, b as u64);
    }
    let rs = mix(mix(seed, h), index);
    let mut r = Prng::new(rs);
    let mut p = Plan::new(id, rs);
    p.sseed = r.next();
    let n = std::env::var("HSIM_LARGE").ok().and_then(|x| x.parse().ok()).unwrap_or(s.large);
    let crowd = std::env::var("HSIM_CROWD").ok().and_then(|x| x.parse().ok()).unwrap_or(80);
    if r.chance(1, n) {
        crate::scen::util::gen_large(&mut r, &mut p, s.gen);
    } else if r.chance(1, crowd) {
        crate::scen::util::gen_crowd(&mut r, &mut p, s.gen);
    } else {
        (s.gen)(&mut r, &mut p);
    }
    // Sometimes a long history: the operations of many plans one after the other.
    let n = std::env::var("HSIM_HIST").ok().and_then(|x| x.parse().ok()).unwrap_or(150);
    if p.p("large") + p.p("crowd") + p.p("long") == 0 && r.chance(1, n) {
        p.set("hist", 1);
        for _ in 0..r.range(3, 40) {
            let mut q = Plan::new(id, rs);
            (s.gen)(&mut r, &mut q);
            if q.p("long") == 0 {
                for (a, b) in p.tasks.iter_mut().zip(q.tasks) {
                    a.extend(b);
                }
            }
        }
        for f in &mut p.faults {
            let n = p.tasks.get(f.task).map_or(0, |t| t.len() as u64);
            if f.op >= 0 && n > 0 && r.chance(1, 2) {
                f.op = r.below(n) as i64;
            }
        }
    }
    // Some operations are made from inside others.
    let n = std::env::var("HSIM_INSIDE").ok().and_then(|x| x.parse().ok()).unwrap_or(6);
    if r.chance(1, n) {
        let n = r.range(1, 5) as u64;
        // No allocation fails during unwinding: a failure there ends the process.
        let hows = crate::scen::within::HOWS - (id == "C06") as u64;
        for op in p.tasks.iter_mut().flatten() {
            if r.chance(1, n) {
                op.k = format!("@{}{}", r.below(hows), op.k);
            }
        }
    }
    // How the allocator treats released memory.
    if r.chance(1, 3) {
        p.set("reuse", 1);
    }
    p
}

#[derive(Default)]
struct Stats {
    runs: u64,
    steps: u64,
    mem: u64,
    switches: u64,
    ops: u64,
    probes: BTreeMap<String, u64>,
    modes: BTreeMap<String, u64>,
    opk: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    errors: Vec<String>,
    violation: Option<u64>,
    repeated: u64,
    differed: u64,
}

/// One run in so many is made twice: once more from its seed, once more from its record.
const REPEAT: u64 = 211;

pub struct Job {
    pub prop: String,
    pub seed: u64,
    pub runs: u64,
    pub workers: u64,
    pub secs: f64,
    pub out: String,
    pub hashes_out: Option<String>,
}

fn now() -> f64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64()
}

pub fn search(j: &Job) -> i32 {
    let shared = report::map_page();
    let min = unsafe { &*(shared as *const AtomicI64) };
    let done = unsafe { &*(shared.add(64) as *const AtomicU64) };
    min.store(i64::MAX, Ordering::SeqCst);
    let t0 = now();
    let mut pids = vec![];
    for w in 0..j.workers {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                PAGE = report::map_page();
                let mut st = Stats::default();
                let mut lines = String::new();
                let mut i = w;
                while i < j.runs && (i as i64) < min.load(Ordering::SeqCst) && now() - t0 < j.secs {
                    let p = make(&j.prop, j.seed, i);
                    let o = run_plan(&p, false);
                    done.fetch_add(1, Ordering::SeqCst);
                    st.runs += 1;
                    st.steps += o.steps;
                    st.mem += o.mem;
                    st.switches += o.switches;
                    st.ops += p.nops() as u64;
                    for (k, v) in &o.probes {
                        *st.probes.entry(k.clone()).or_default() += v;
                    }
                    let m = match p.mode {
                        Mode::Serial => "serial",
                        Mode::Rand { .. } => "random",
                        Mode::Pct { .. } => "pct",
                        Mode::Replay => "replay",
                    };
                    *st.modes.entry(m.into()).or_default() += 1;
                    for op in p.tasks.iter().flatten() {
                        *st.opk.entry(op.kind().to_string()).or_default() += 1;
                    }
                    st.hashes.insert(o.hash);
                    if o.switches > p.tasks.len() as u64 || !o.fired.is_empty() || o.probes.iter().any(|x| x.0.starts_with("fault.")) {
                        st.nontrivial.insert(o.hash);
                    }
                    if j.hashes_out.is_some() {
                        lines.push_str(&format!("{} {} {} {:016x} {}\n", i, o.kind, o.steps, o.hash, o.class));
                    }
                    if o.kind == "ok" && i % REPEAT == 7 {
                        let again = run_plan(&p, false);
                        let mut q = p.clone();
                        q.mode = Mode::Replay;
                        q.sched = again.sched.clone();
                        let rec = run_plan(&q, false);
                        st.repeated += 1;
                        for (x, how) in [(&again, "from its seed"), (&rec, "from its record")] {
                            if (x.hash, x.steps, &x.kind) != (o.hash, o.steps, &o.kind) {
                                st.differed += 1;
                                eprintln!("note: run {} did not repeat {}: {:016x} {} {} / {:016x} {} {}",
                                    i, how, o.hash, o.steps, o.kind, x.hash, x.steps, x.kind);
                            }
                        }
                    }
                    if o.kind == "violation" {
                        min.fetch_min(i as i64, Ordering::SeqCst);
                        if st.violation.is_none() {
                            st.violation = Some(i);
                        }
                        break;
                    } else if o.kind != "ok" {
                        st.errors.push(format!("run {}: {}", i, o.detail));
                        if st.errors.len() > 3 {
                            break;
                        }
                    }
                    i += j.workers;
                }
                let mut s = String::new();
                use std::fmt::Write;
                let _ = writeln!(s, "runs {}\nsteps {}\nmem {}\nswitches {}\nops {}", st.runs, st.steps, st.mem, st.switches, st.ops);
                let _ = writeln!(s, "repeated {}\ndiffered {}", st.repeated, st.differed);
                for (k, v) in &st.probes {
                    let _ = writeln!(s, "probe {} {}", k, v);
                }
                for (k, v) in &st.modes {
                    let _ = writeln!(s, "mode {} {}", k, v);
                }
                for (k, v) in &st.opk {
                    let _ = writeln!(s, "opk {} {}", k, v);
                }
                for h in &st.hashes {
                    let _ = writeln!(s, "{} {:016x}", if st.nontrivial.contains(h) { "n" } else { "h" }, h);
                }
                for e in &st.errors {
                    let _ = writeln!(s, "error {}", e);
                }
                if let Some(v) = st.violation {
                    let _ = writeln!(s, "violation {}", v);
                }
                let _ = std::fs::write(format!("{}.w{}", j.out, w), s);
                if let Some(h) = &j.hashes_out {
                    let _ = std::fs::write(format!("{}.w{}", h, w), lines);
                }
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe {
            while libc::waitpid(p, &mut st, 0) < 0 {}
        }
    }
    // Merge.
    let mut num: BTreeMap<String, u64> = BTreeMap::new();
    let mut maps: BTreeMap<String, u64> = BTreeMap::new();
    let (mut hs, mut ns) = (HashSet::new(), HashSet::new());
    let mut errs = vec![];
    let mut viol = i64::MAX;
    for w in 0..j.workers {
        let f = format!("{}.w{}", j.out, w);
        let Ok(t) = std::fs::read_to_string(&f) else {
            eprintln!("harness: worker {} left no result", w);
            return 2;
        };
        let _ = std::fs::remove_file(&f);
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap();
            match k {
                "h" => { hs.insert(v.to_string()); }
                "n" => { hs.insert(v.to_string()); ns.insert(v.to_string()); }
                "error" => errs.push(v.to_string()),
                "violation" => viol = viol.min(v.parse().unwrap()),
                "probe" | "mode" | "opk" => {
                    let (a, b) = v.rsplit_once(' ').unwrap();
                    *maps.entry(format!("{} {}", k, a)).or_default() += b.parse::<u64>().unwrap();
                }
                _ => *num.entry(k.into()).or_default() += v.parse::<u64>().unwrap(),
            }
        }
    }
    let mut s = String::new();
    for (k, v) in num.iter().chain(maps.iter()) {
        s.push_str(&format!("{} {}\n", k, v));
    }
    s.push_str(&format!("distinct {}\nnontrivial {}\nwall {:.3}\nprofile {}\n", hs.len(), ns.len(), now() - t0, crate::PROFILE));
    for e in &errs {
        s.push_str(&format!("error {}\n", e));
    }
    if viol != i64::MAX {
        s.push_str(&format!("violation {}\n", viol));
    }
    let _ = std::fs::write(&j.out, s);
    if viol != i64::MAX {
        1
    } else if !errs.is_empty() {
        2
    } else {
        0
    }
}

// ---------------------------------------------------------------- minimisation

pub struct Min {
    pub best: Plan,
    class: String,
    tries: u64,
    until: f64,
}

impl Min {
    /// Does the candidate still show the violation?  If so it becomes the best plan.
    fn attempt(&mut self, c: &Plan) -> bool {
        if now() > self.until {
            return false;
        }
        let mut modes: Vec<(Mode, u64)> = vec![(Mode::Replay, c.sseed), (Mode::Serial, c.sseed)];
        if c.tasks.iter().filter(|t| !t.is_empty()).count() > 1 {
            for k in 0..6u64 {
                modes.push((Mode::Rand { exp: 1 + k % 3, mem: [0, 3, 20, 100, 7, 1000][k as usize] }, c.sseed.wrapping_add(k + 1)));
            }
        }
        for (m, s) in modes {
            let mut p = c.clone();
            p.mode = m;
            p.sseed = s;
            self.tries += 1;
            let o = run_plan(&p, false);
            if o.kind == "violation" && o.class == self.class {
                p.mode = Mode::Replay;
                p.sched = o.sched;
                // The recorded schedule alone must do it.
                let o2 = run_plan(&p, false);
                if o2.kind == "violation" && o2.class == self.class {
                    p.class = o2.class;
                    p.detail = o2.detail;
                    self.best = p;
                    return true;
                }
            }
            if now() > self.until {
                break;
            }
        }
        false
    }
    fn attempt_replay(&mut self, c: &Plan) -> bool {
        if now() > self.until {
            return false;
        }
        self.tries += 1;
        let mut p = c.clone();
        p.mode = Mode::Replay;
        let o = run_plan(&p, false);
        if o.kind == "violation" && o.class == self.class {
            p.detail = o.detail;
            p.class = o.class;
            self.best = p;
            return true;
        }
        false
    }
}

fn drop_ops(p: &Plan, t: usize, a: usize, b: usize) -> Plan {
    let mut q = p.clone();
    q.tasks[t].drain(a..b);
    let n = (b - a) as i64;
    q.faults.retain(|f| f.task != t || f.op < a as i64 || f.op >= b as i64);
    for f in q.faults.iter_mut() {
        if f.task == t && f.op >= b as i64 {
            f.op -= n;
        }
    }
    q
}

pub fn minimise(p: &Plan, secs: f64) -> Option<Plan> {
    let o = run_plan(p, false);
    if o.kind != "violation" {
        return None;
    }
    let mut q = p.clone();
    q.mode = Mode::Replay;
    q.sched = o.sched;
    q.class = o.class.clone();
    q.detail = o.detail;
    let o2 = run_plan(&q, false);
    if o2.kind != "violation" || o2.class != o.class {
        // Not reproducible from the recorded schedule: report the plan as generated.
        let mut q = p.clone();
        q.class = o.class;
        q.detail = o2.detail;
        return Some(q);
    }
    let mut m = Min { best: q, class: o.class, tries: 0, until: now() + secs };
    loop {
        let before = (m.best.nops(), m.best.faults.len(), m.best.sched.len(), size(&m.best));
        // faults
        let mut c = m.best.clone();
        c.faults.clear();
        if m.best.faults.is_empty() || !m.attempt(&c) {
            let mut i = 0;
            while i < m.best.faults.len() {
                let mut c = m.best.clone();
                c.faults.remove(i);
                if !m.attempt(&c) {
                    i += 1;
                }
            }
        }
        // operations
        for t in 0..m.best.tasks.len() {
            let n = m.best.tasks[t].len();
            if n > 0 && m.best.nops() > n {
                let c = drop_ops(&m.best, t, 0, n);
                m.attempt(&c);
            }
            let mut len = m.best.tasks[t].len() / 2;
            while len >= 1 {
                let mut a = 0;
                while a < m.best.tasks[t].len() {
                    let b = (a + len).min(m.best.tasks[t].len());
                    if m.best.nops() == b - a {
                        break;
                    }
                    let c = drop_ops(&m.best, t, a, b);
                    if !m.attempt(&c) {
                        a = b;
                    }
                }
                len /= 2;
            }
        }
        // numbers
        for i in 0..m.best.params.len() {
            if m.best.params[i].0 == "ty" {
                continue;
            }
            for v in shrinks(m.best.params[i].1) {
                let mut c = m.best.clone();
                c.params[i].1 = v;
                if m.attempt(&c) {
                    break;
                }
            }
        }
        for t in 0..m.best.tasks.len() {
            for i in 0..m.best.tasks[t].len() {
                if let Some((_, o)) = m.best.tasks[t][i].inside() {
                    let mut c = m.best.clone();
                    c.tasks[t][i] = o;
                    m.attempt(&c);
                }
                for k in 0..m.best.tasks[t][i].a.len() {
                    for v in shrinks(m.best.tasks[t][i].a[k]) {
                        let mut c = m.best.clone();
                        c.tasks[t][i].a[k] = v;
                        if m.attempt_replay(&c) {
                            break;
                        }
                    }
                }
            }
        }
        // context switches
        let mut len = m.best.sched.len();
        while len >= 1 {
            let mut a = 0;
            while a < m.best.sched.len() {
                let b = (a + len).min(m.best.sched.len());
                let mut c = m.best.clone();
                c.sched.drain(a..b);
                if !m.attempt_replay(&c) {
                    a = b;
                }
                if now() > m.until {
                    break;
                }
            }
            len /= 2;
        }
        let after = (m.best.nops(), m.best.faults.len(), m.best.sched.len(), size(&m.best));
        if after == before || now() > m.until {
            break;
        }
    }
    Some(m.best)
}

fn size(p: &Plan) -> i64 {
    let a: i64 = p.params.iter().map(|x| x.1.saturating_abs().min(1 << 20)).sum();
    let b: i64 = p.tasks.iter().flatten().flat_map(|o| o.a.iter()).map(|x| x.saturating_abs().min(1 << 20)).sum();
    a + b
}

fn shrinks(v: i64) -> Vec<i64> {
    let mut o = vec![];
    for c in [0, 1, 2, v / 2, v - 1] {
        if c >= 0 && c < v && !o.contains(&c) {
            o.push(c);
        }
    }
    o
}
