//! The scheduler: real OS threads, of which exactly one runs at any time; who runs next is decided
//! here, at every instrumented memory access, allocation, explicit yield and intercepted system call.

use crate::prng::Prng;
use crate::{armed, set_armed, Disarm};
use std::cell::Cell;
use std::fmt::Write;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 44;
const MAIN: usize = MAXT;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Done,
    Dead,
    Blocked(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK {
    /// The task never runs again; nothing it holds is dropped.
    Kill,
    /// The task is not scheduled for `len` steps.
    Stall,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: FK,
    pub task: usize,
    /// The fault strikes `at` own steps after the task began its operation `op`.
    pub op: i64,
    pub at: u64,
    pub len: u64,
    /// If not 0, `at` counts from the so-manieth access to static data within the operation.
    pub hot: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// Run each task until it ends or blocks.
    Serial,
    /// Switch at explicit yields with probability 1/exp and at memory accesses with probability 1/mem
    /// (0 = never).
    Rand { exp: u64, mem: u64 },
    /// Priorities with `d` change points within `est` steps (PCT).
    Pct { d: u64, est: u64 },
    /// Only the listed decisions.
    Replay,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ev {
    Mem,
    /// An access to writable static data, through which calls could disturb one another.
    Hot,
    /// A basic-block edge shortly after such an access (read-modify-write instructions are not seen
    /// themselves).
    HotEdge,
    Alloc,
    Explicit,
    Sys,
}

pub struct TaskCtl {
    st: St,
    own: u64,
    armed_steps: u64,
    stall_until: u64,
    /// The scheduler prefers other tasks until then; unlike a stall this is only a choice.
    parked_until: u64,
    idle_edges: u32,
    next_fault: u64,
    op_start: u64,
    /// Accesses to static data in the operation in hand, and edges that are scheduling points yet.
    hot: u64,
    hot_edges: u32,
    prio: u64,
    stack_lo: usize,
    stack_hi: usize,
    op: i64,
    pc: u64,
    // allocation accounting of the current library call
    a_cnt: u64,
    a_live: i64,
    a_peak: i64,
    a_max: usize,
    fail_at: u64,
    entropy: Prng,
    ent_calls: u64,
    ent_fault: Option<(u64, u8)>,
}

pub struct Sim {
    n: usize,
    cur: usize,
    pub steps: u64,
    cap: u64,
    mode: Mode,
    rng: Prng,
    replay: Vec<(u64, u8)>,
    rpos: usize,
    pub rec: Vec<(u64, u8)>,
    t: [TaskCtl; MAXT],
    pub faults: Vec<Fault>,
    fired: Vec<bool>,
    /// Own step of the static access a fault counts from.
    hot_at: Vec<u64>,
    cps: Vec<u64>,
    cpi: usize,
    low: u64,
    probes: Vec<(&'static str, u64)>,
    hash: u64,
    switches: u64,
    forced: u64,
    budget: usize,
    foreign_threads: bool,
    pub on_switch: Option<fn(usize)>,
    pub on_kill: Option<fn(usize)>,
    log: Vec<String>,
    pub verbose: bool,
    meta: Vec<String>,
    mem_events: u64,
    clock_ns: u64,
}

#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAXT + 1] = [Z; MAXT + 1];
static mut SIM: Option<Box<Sim>> = None;

#[allow(static_mut_refs)]
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap_unchecked() }
}

#[allow(static_mut_refs)]
pub fn active() -> bool {
    unsafe { SIM.is_some() }
}

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(MAIN) };
}

#[inline]
pub fn me() -> usize {
    TASK.with(|t| t.get())
}

pub fn raw_futex(addr: *const AtomicU32, op: i32, val: u32) {
    unsafe {
        crate::sys::raw(libc::SYS_futex, addr as usize, op as usize, val as usize, 0, 0, 0);
    }
}

fn go(t: usize) {
    GO[t].store(1, Ordering::SeqCst);
    raw_futex(&GO[t], libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
}

fn wait_go(t: usize) {
    while GO[t].swap(0, Ordering::SeqCst) == 0 {
        raw_futex(&GO[t], libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0);
    }
}

pub fn init(mode: Mode, seed: u64, replay: Vec<(u64, u8)>, faults: Vec<Fault>, cap: u64) {
    let mut rng = Prng::new(seed);
    let mut cps = Vec::new();
    if let Mode::Pct { d, est } = mode {
        for _ in 0..d {
            cps.push(1 + rng.below(est.max(1)));
        }
        cps.sort();
    }
    let mk = |i: usize, rng: &mut Prng| TaskCtl {
        st: St::Ready,
        own: 0,
        armed_steps: 0,
        stall_until: 0,
        parked_until: 0,
        idle_edges: 0,
        next_fault: u64::MAX,
        op_start: 0,
        hot: 0,
        hot_edges: 0,
        prio: (1 << 32) + rng.below(1 << 20) * 64 + i as u64,
        stack_lo: 0,
        stack_hi: 0,
        op: -1,
        pc: 0,
        a_cnt: 0,
        a_live: 0,
        a_peak: 0,
        a_max: 0,
        fail_at: 0,
        entropy: Prng::new(7),
        ent_calls: 0,
        ent_fault: None,
    };
    let t = std::array::from_fn(|i| mk(i, &mut rng));
    let fired = vec![false; faults.len()];
    let hot_at = vec![u64::MAX; faults.len()];
    unsafe {
        SIM = Some(Box::new(Sim {
            n: 0,
            cur: MAIN,
            steps: 0,
            cap,
            mode,
            rng,
            replay,
            rpos: 0,
            rec: Vec::with_capacity(1 << 12),
            t,
            faults,
            fired,
            hot_at,
            cps,
            cpi: 0,
            low: 1 << 20,
            probes: Vec::new(),
            hash: 0xcbf29ce484222325,
            switches: 0,
            forced: 0,
            budget: usize::MAX,
            foreign_threads: false,
            on_switch: None,
            on_kill: None,
            log: Vec::new(),
            verbose: false,
            meta: Vec::new(),
            mem_events: 0,
            clock_ns: 1_000_000_000,
        }));
    }
}

impl Sim {
    /// Own step of task `c` at which fault `i` is due, given the operation in hand.
    fn due(&self, i: usize, c: usize) -> u64 {
        let f = &self.faults[i];
        if f.task == c && f.op == self.t[c].op && !self.fired[i] {
            let from = if f.hot > 0 { self.hot_at[i] } else { self.t[c].op_start };
            from.saturating_add(f.at.max(1))
        } else {
            u64::MAX
        }
    }
    fn next_fault(&mut self, c: usize) {
        let m = (0..self.faults.len()).map(|i| self.due(i, c)).filter(|d| *d > self.t[c].own).min();
        self.t[c].next_fault = m.unwrap_or(u64::MAX);
    }
    fn hash(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ (x >> 7);
    }
    fn runnable(&self, i: usize) -> bool {
        i < self.n && self.t[i].st == St::Ready && self.t[i].stall_until <= self.steps
    }
    fn cands(&self) -> ([usize; MAXT], usize) {
        let mut v = [0; MAXT];
        let mut k = 0;
        for i in 0..self.n {
            if self.runnable(i) {
                v[k] = i;
                k += 1;
            }
        }
        (v, k)
    }
    /// Runnable tasks that are not parked.
    fn keen(&self) -> ([usize; MAXT], usize) {
        let (v, k) = self.cands();
        let mut w = [0; MAXT];
        let mut n = 0;
        for i in v[..k].iter().copied() {
            if self.t[i].parked_until <= self.steps {
                w[n] = i;
                n += 1;
            }
        }
        (w, n)
    }
    /// Voluntary choice at a yield of task `c`.
    fn choose(&mut self, c: usize, ev: Ev) -> usize {
        match self.mode {
            Mode::Serial => c,
            Mode::Replay => {
                while self.rpos < self.replay.len() && self.replay[self.rpos].0 < self.steps {
                    self.rpos += 1;
                }
                if self.rpos < self.replay.len() && self.replay[self.rpos].0 == self.steps {
                    let x = self.replay[self.rpos].1 as usize;
                    self.rpos += 1;
                    if self.runnable(x) {
                        return x;
                    }
                }
                c
            }
            Mode::Rand { exp, mem } => {
                let den = match ev {
                    Ev::Mem | Ev::Alloc => mem,
                    Ev::Hot => 3,
                    Ev::HotEdge => 16,
                    _ => exp,
                };
                if den == 0 || !self.rng.chance(1, den) {
                    return c;
                }
                if matches!(ev, Ev::Hot | Ev::HotEdge) {
                    self.t[c].parked_until = self.steps + self.rng.logu(5000);
                }
                let (v, k) = self.keen();
                if k == 0 {
                    return c;
                }
                v[self.rng.below(k as u64) as usize]
            }
            Mode::Pct { d, .. } => {
                let mut hit = !matches!(ev, Ev::Mem | Ev::Hot | Ev::HotEdge);
                if ev == Ev::Hot && self.rng.chance(1, 4) || ev == Ev::HotEdge && self.rng.chance(1, 32) {
                    // below every other task
                    self.low = self.low.saturating_sub(1);
                    self.t[c].prio = self.low;
                    hit = true;
                }
                while self.cpi < self.cps.len() && self.cps[self.cpi] <= self.steps {
                    self.t[c].prio = (1 << 20) + d - self.cpi as u64;
                    self.cpi += 1;
                    hit = true;
                }
                if !hit {
                    return c;
                }
                let (v, k) = self.cands();
                v[..k].iter().copied().max_by_key(|i| self.t[*i].prio).unwrap_or(c)
            }
        }
    }
    /// Choice when the current task cannot go on.
    fn forced_choice(&mut self) -> Option<usize> {
        self.steps += 1;
        let (v, mut k) = self.cands();
        let mut v = v;
        if k == 0 {
            // Only stalled tasks are left: time passes until the first of them resumes.
            let first = (0..self.n)
                .filter(|i| self.t[*i].st == St::Ready)
                .min_by_key(|i| (self.t[*i].stall_until, *i));
            match first {
                None => return None,
                Some(i) => {
                    self.t[i].stall_until = 0;
                    v[0] = i;
                    k = 1;
                }
            }
        }
        self.forced += 1;
        let x = match self.mode {
            Mode::Serial => v[0],
            Mode::Replay => {
                while self.rpos < self.replay.len() && self.replay[self.rpos].0 < self.steps {
                    self.rpos += 1;
                }
                if self.rpos < self.replay.len() && self.replay[self.rpos].0 == self.steps {
                    let x = self.replay[self.rpos].1 as usize;
                    self.rpos += 1;
                    if v[..k].contains(&x) { x } else { v[0] }
                } else {
                    v[0]
                }
            }
            Mode::Rand { .. } => {
                let (w, n) = self.keen();
                if n > 0 { w[self.rng.below(n as u64) as usize] } else { v[self.rng.below(k as u64) as usize] }
            }
            Mode::Pct { .. } => v[..k].iter().copied().max_by_key(|i| self.t[*i].prio).unwrap(),
        };
        if x != v[0] {
            self.rec.push((self.steps, x as u8));
        }
        Some(x)
    }
}

/// Hand the baton to `x` and, unless `x` is the caller, wait to get it back (or for ever).
fn transfer(c: usize, x: usize, forever: bool) {
    let s = sim();
    if let Some(f) = s.on_switch {
        f(c);
    }
    let s = sim();
    s.switches += 1;
    let st = s.steps;
    s.hash(st);
    s.hash(x as u64 + 1000);
    if s.verbose {
        let m = format!("{:>8}  switch t{} -> t{}", s.steps, c, x);
        s.log.push(m);
    }
    s.cur = x;
    go(x);
    if forever {
        loop {
            wait_go(c);
        }
    }
    wait_go(c);
}

fn leave(c: usize, forever: bool) {
    let s = sim();
    match s.forced_choice() {
        Some(x) => {
            if x == c && !forever {
                return;
            }
            transfer(c, x, forever)
        }
        None => {
            if let Some(f) = s.on_switch {
                f(c);
            }
            let s = sim();
            if (0..s.n).any(|i| matches!(s.t[i].st, St::Blocked(_))) {
                let who: Vec<String> = (0..s.n)
                    .filter(|i| matches!(s.t[*i].st, St::Blocked(_)))
                    .map(|i| format!("t{} (op {})", i, s.t[i].op))
                    .collect();
                let dead: Vec<String> =
                    (0..s.n).filter(|i| s.t[*i].st == St::Dead).map(|i| format!("t{}", i)).collect();
                crate::report::violate(
                    "blocked",
                    &format!("{} wait for ever inside a library call; stopped tasks: [{}]", who.join(", "), dead.join(", ")),
                );
            }
            s.cur = MAIN;
            go(MAIN);
            if forever {
                loop {
                    wait_go(c);
                }
            }
        }
    }
}

/// A scheduling point of the current task.  ARMED must be off.
fn step(ev: Ev) {
    let c = me();
    if c >= MAXT {
        return;
    }
    let s = sim();
    if s.cur != c {
        return;
    }
    s.steps += 1;
    s.t[c].own += 1;
    s.t[c].idle_edges = 0;
    if s.steps > s.cap {
        crate::report::violate("no-progress", &format!("step budget of {} exhausted in op {} of t{}", s.cap, s.t[c].op, c));
    }
    if s.t[c].own == s.t[c].next_fault {
        fault(c);
        return;
    }
    let x = s.choose(c, ev);
    if x != c {
        s.rec.push((s.steps, x as u8));
        transfer(c, x, false);
    }
}

fn fault(c: usize) {
    let s = sim();
    let own = s.t[c].own;
    let mut kill = false;
    let mut stall = 0;
    for i in 0..s.faults.len() {
        if s.due(i, c) == own {
            s.fired[i] = true;
            match s.faults[i].kind {
                FK::Kill => kill = true,
                FK::Stall => stall = s.faults[i].len,
            }
        }
    }
    s.next_fault(c);
    let st = s.steps;
    s.hash(st ^ 0xfa17);
    if kill {
        probe("fault.kill");
        if s.verbose {
            let m = format!("{:>8}  t{} stops for good (own step {}, op {})", s.steps, c, own, s.t[c].op);
            s.log.push(m);
        }
        s.t[c].st = St::Dead;
        if let Some(f) = s.on_kill {
            f(c);
        }
        leave(c, true);
    } else {
        probe("fault.stall");
        if s.verbose {
            let m = format!("{:>8}  t{} stalls for {} steps (op {})", s.steps, c, stall, s.t[c].op);
            s.log.push(m);
        }
        s.t[c].stall_until = s.steps + stall;
        leave(c, false);
    }
}

// ---------------------------------------------------------------- seams

/// A load or store of library code.
#[inline]
pub fn bus(addr: usize, size: usize, store: bool) {
    if !armed() {
        return;
    }
    let c = me();
    if c >= MAXT {
        return;
    }
    let s = sim();
    let t = &mut s.t[c];
    t.armed_steps += 1;
    if addr >= t.stack_lo && addr < t.stack_hi {
        return;
    }
    let _g = Disarm::new();
    s.mem_events += 1;
    if crate::arena::contains(addr) {
        check_access(c, addr, size, store);
    } else if is_static(addr) {
        hot(c);
        step(Ev::Hot);
        return;
    }
    step(Ev::Mem);
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Writable static data of the program.
#[inline]
fn is_static(addr: usize) -> bool {
    unsafe { addr >= &raw const __data_start as usize && addr < &raw const _end as usize }
}

/// Task `c` accesses static data.
fn hot(c: usize) {
    let s = sim();
    s.t[c].hot += 1;
    s.t[c].hot_edges = 48;
    let mut any = false;
    for i in 0..s.faults.len() {
        let f = &s.faults[i];
        if f.task == c && f.op == s.t[c].op && f.hot == s.t[c].hot {
            s.hot_at[i] = s.t[c].own;
            any = true;
        }
    }
    if any {
        s.next_fault(c);
    }
}

fn check_access(c: usize, addr: usize, size: usize, store: bool) {
    use crate::arena::*;
    for k in 0..size {
        let v = unsafe { *shadow(addr + k) };
        let what = if store { "store" } else { "load" };
        let op = sim().t[c].op;
        let bad = match v {
            S_LIVE => continue,
            S_INVALID => "out-of-bounds-access",
            S_FREED => "use-after-free",
            S_READONLY => {
                if store {
                    "shared-storage-written"
                } else {
                    continue;
                }
            }
            S_FRAME => "foreign-cell-access",
            o => {
                if (o - S_TASK0) as usize == c {
                    continue;
                }
                "foreign-element-access"
            }
        };
        let b = unsafe { find(addr + k) };
        #[allow(static_mut_refs)]
        let off = b.map(|i| unsafe { (addr + k) as i64 - ARENA.blocks[i].addr as i64 }).unwrap_or(-1);
        crate::report::violate(bad, &format!("{} of {} bytes by t{} in op {} at byte {} of a storage block", what, size, c, op, off));
    }
}

/// A basic-block edge of library code: only counted, to bound loops that touch no memory.
#[inline]
pub fn edge() {
    if !armed() {
        return;
    }
    let c = me();
    if c >= MAXT {
        return;
    }
    let s = sim();
    s.t[c].pc += 1;
    s.t[c].idle_edges += 1;
    if s.t[c].hot_edges > 0 {
        s.t[c].hot_edges -= 1;
        let _g = Disarm::new();
        step(Ev::HotEdge);
        return;
    }
    if s.t[c].idle_edges >= 64 {
        // A long stretch without memory accesses that can be seen (a loop on read-modify-write
        // instructions, say) must not keep the other tasks out.
        let _g = Disarm::new();
        step(Ev::Mem);
        return;
    }
    if s.t[c].pc > 2_000_000_000 {
        crate::report::violate("no-progress", &format!("endless loop in op {} of t{}", s.t[c].op, c));
    }
}

pub unsafe fn on_alloc(size: usize, align: usize) -> *mut u8 {
    let _g = Disarm::new();
    let c = me();
    if c < MAXT {
        let s = sim();
        s.t[c].a_cnt += 1;
        let panicking = std::thread::panicking();
        if !panicking {
            if s.t[c].fail_at != 0 && s.t[c].a_cnt == s.t[c].fail_at {
                s.t[c].fail_at = 0;
                probe("fault.alloc_nth");
                return std::ptr::null_mut();
            }
            if s.budget != usize::MAX && crate::arena::live().1 + size > s.budget {
                probe("fault.alloc_budget");
                return std::ptr::null_mut();
            }
        }
        s.t[c].a_live += size as i64;
        s.t[c].a_peak = s.t[c].a_peak.max(s.t[c].a_live);
        s.t[c].a_max = s.t[c].a_max.max(size);
    }
    let p = crate::arena::arena_alloc(size, align, c as u8);
    if p.is_null() {
        if size > (64 << 20) {
            probe("fault.alloc_huge");
            return p;
        }
        crate::report::harness_error("arena exhausted");
    }
    if c < MAXT {
        step(Ev::Alloc);
    }
    p
}

pub unsafe fn on_free(p: *mut u8, size: usize) {
    let was = armed();
    let _g = Disarm::new();
    crate::arena::arena_free(p, size);
    let c = me();
    if c < MAXT && active() {
        sim().t[c].a_live -= size as i64;
        if was {
            step(Ev::Alloc);
        }
    }
}

/// Explicit scheduling point (operation boundaries, callbacks, simulated storage and generators).
pub fn yield_now() {
    let _g = Disarm::new();
    step(Ev::Explicit);
}

pub fn sys_yield() {
    let _g = Disarm::new();
    step(Ev::Sys);
}

/// Block the current task on a futex address until it is woken.
pub fn block_on(addr: usize, may_timeout: bool) -> bool {
    let c = me();
    let s = sim();
    probe("seam.futex_wait");
    s.t[c].st = St::Blocked(addr);
    if may_timeout {
        // Deadlines expire only when nothing else can run.
        let (_, k) = s.cands();
        if k == 0 {
            s.t[c].st = St::Ready;
            return false;
        }
    }
    leave(c, false);
    true
}

pub fn wake(addr: usize, n: usize) -> usize {
    let s = sim();
    let mut k = 0;
    for i in 0..s.n {
        if k < n && s.t[i].st == St::Blocked(addr) {
            s.t[i].st = St::Ready;
            k += 1;
        }
    }
    k
}

pub fn foreign() -> bool {
    active() && sim().foreign_threads
}

pub fn set_foreign() {
    sim().foreign_threads = true;
    probe("seam.thread_created_by_library");
}

pub fn clock() -> u64 {
    let s = sim();
    s.clock_ns += 1000;
    s.clock_ns
}

pub fn entropy(buf: &mut [u8]) -> isize {
    let c = me();
    let t = &mut sim().t[c];
    t.ent_calls += 1;
    probe("seam.getrandom");
    let mut n = buf.len();
    if let Some((at, kind)) = t.ent_fault {
        if t.ent_calls == at {
            match kind {
                0 => {
                    probe("fault.entropy_eintr");
                    return -(libc::EINTR as isize);
                }
                1 => {
                    if n > 1 {
                        probe("fault.entropy_short");
                        n = 1 + n / 3;
                    }
                }
                _ => {
                    probe("fault.entropy_eio");
                    return -(libc::EIO as isize);
                }
            }
        }
    }
    for b in buf[..n].iter_mut() {
        *b = t.entropy.next() as u8;
    }
    n as isize
}

pub fn set_entropy(seed: u64, fault: Option<(u64, u8)>) {
    let t = &mut sim().t[me()];
    t.entropy = Prng::new(seed);
    t.ent_calls = 0;
    t.ent_fault = fault;
}

// ---------------------------------------------------------------- harness interface

pub fn probe(name: &'static str) {
    probe_n(name, 1)
}

pub fn probe_n(name: &'static str, n: u64) {
    let _g = Disarm::new();
    if !active() {
        return;
    }
    let p = &mut sim().probes;
    for e in p.iter_mut() {
        if std::ptr::eq(e.0, name) || e.0 == name {
            e.1 += n;
            return;
        }
    }
    p.push((name, n));
}

/// Free-form lines passed to the parent with the result.
pub fn meta(line: String) {
    sim().meta.push(line);
}

pub fn event(x: u64) {
    sim().hash(x);
}

pub fn note(f: impl FnOnce() -> String) {
    let _g = Disarm::new();
    let s = sim();
    if s.verbose {
        let m = format!("{:>8}  t{} {}", s.steps, me(), f());
        sim().log.push(m);
    }
}

/// Fail the `n`-th allocation (1-based) of the current task from now on; 0 disables.
pub fn fail_alloc(n: u64) {
    let t = &mut sim().t[me()];
    t.a_cnt = 0;
    t.fail_at = n;
}

pub fn set_budget(b: usize) {
    sim().budget = b;
}

pub struct AllocStat {
    pub count: u64,
    pub live: i64,
    pub peak: i64,
    pub max: usize,
}

pub fn alloc_reset() {
    let t = &mut sim().t[me()];
    t.a_cnt = 0;
    t.a_live = 0;
    t.a_peak = 0;
    t.a_max = 0;
}

pub fn alloc_stat() -> AllocStat {
    let t = &sim().t[me()];
    AllocStat { count: t.a_cnt, live: t.a_live, peak: t.a_peak, max: t.a_max }
}

pub fn steps() -> u64 {
    sim().steps
}
/// Scheduling steps taken by the current task.
pub fn own_steps() -> u64 {
    sim().t[me()].own
}
/// Memory accesses (stack included) made by the current task in library code.
pub fn work() -> u64 {
    let t = &sim().t[me()];
    t.armed_steps + t.pc
}
pub fn set_op(i: i64) {
    let s = sim();
    let c = me();
    if c >= MAXT {
        return;
    }
    s.t[c].op = i;
    s.t[c].op_start = s.t[c].own;
    s.t[c].hot = 0;
    s.next_fault(c);
    s.hash((me() as u64) << 32 | (i as u64 & 0xffff_ffff));
}
pub fn op_of(t: usize) -> i64 {
    sim().t[t].op
}
pub fn is_dead(t: usize) -> bool {
    sim().t[t].st == St::Dead
}
pub fn is_done(t: usize) -> bool {
    sim().t[t].st == St::Done
}

pub fn spawn(f: Box<dyn FnOnce() + Send>) {
    let id = sim().n;
    assert!(id < MAXT);
    sim().n += 1;
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            wait_go(id);
            TASK.with(|t| t.set(id));
            let here = &id as *const usize as usize;
            {
                let t = &mut sim().t[id];
                t.stack_lo = here - (1 << 20) + (64 << 10);
                t.stack_hi = here + 4096;
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            set_armed(false);
            if let Err(e) = r {
                crate::report::harness_error(&format!("panic in harness code: {}", crate::panic_text(&*e)));
            }
            let s = sim();
            s.t[id].st = St::Done;
            let d = s.steps;
            s.hash(d ^ 0xd0e);
            leave(id, true);
        })
        .unwrap_or_else(|_| crate::report::harness_error("cannot create a thread"));
}

/// Run all spawned tasks until each is done or stopped.
pub fn run() {
    let s = sim();
    if s.n == 0 {
        return;
    }
    if let Some(x) = s.forced_choice() {
        s.cur = x;
        go(x);
        wait_go(MAIN);
    }
}

pub fn dump(o: &mut String) {
    if !active() {
        return;
    }
    let s = sim();
    let _ = writeln!(o, "steps {}", s.steps);
    let _ = writeln!(o, "mem {}", s.mem_events);
    let _ = writeln!(o, "switches {}", s.switches);
    let _ = writeln!(o, "forced {}", s.forced);
    let _ = writeln!(o, "hash {:016x}", s.hash);
    let own: Vec<String> = (0..s.n).map(|i| s.t[i].own.to_string()).collect();
    let _ = writeln!(o, "own {}", own.join(" "));
    for (n, c) in &s.probes {
        let _ = writeln!(o, "probe {} {}", n, c);
    }
    for (i, f) in s.fired.iter().enumerate() {
        if *f {
            let _ = writeln!(o, "fired {}", i);
        }
    }
    for m in &s.meta {
        let _ = writeln!(o, "meta {}", m);
    }
    for (a, b) in &s.rec {
        let _ = writeln!(o, "sched {} {}", a, b);
    }
    if s.verbose {
        let k = s.log.len().saturating_sub(4000);
        for l in &s.log[k..] {
            let _ = writeln!(o, "log {}", l);
        }
    }
}
