//! Shared parts of the scenarios.

use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use rand::RngCore;
use simrt::prng::Prng;
use simrt::sched::{self, MAXT};
use simrt::{arena, inject, lib, pause, report, Injected, Stop};

/// Asserts nothing about thread safety: the scheduler runs one task at a time.
pub struct Sh<T>(pub T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Sh<T> {
    pub fn take(self) -> T {
        self.0
    }
}

pub fn leak<T>(x: T) -> &'static mut T {
    Box::leak(Box::new(x))
}

pub fn bad(class: &str, detail: String) -> ! {
    report::violate(class, &detail)
}

/// The call must return normally.
pub fn need<R>(r: Result<R, Stop>, what: &str) -> R {
    match r {
        Ok(v) => v,
        Err(Stop::Panic(m)) => bad("unexpected-panic", format!("{}: {}", what, m)),
        Err(Stop::Injected(k)) => report::harness_error(&format!("{}: stray {:?}", what, k)),
    }
}

/// The call must be refused.
pub fn refused<R>(r: Result<R, Stop>, what: &str) {
    match r {
        Err(Stop::Panic(_)) => sched::probe("fault.misused_call"),
        Err(Stop::Injected(k)) => report::harness_error(&format!("{}: stray {:?}", what, k)),
        Ok(_) => bad("misuse-accepted", what.to_string()),
    }
}

pub fn eq<T: Sc>(got: T, want: T, what: &str) {
    if !got.same(want) {
        bad("wrong-value", format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}

pub fn eqn<X: PartialEq + std::fmt::Debug>(got: X, want: X, what: &str) {
    if got != want {
        bad("wrong-shape", format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}

pub fn bits_eq<T: Sc>(got: T, want: T, what: &str) {
    if got.comp() != want.comp() {
        bad("wrong-value", format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}

/// Task body: run the operations of task `t` one after the other.
pub fn spawn_ops(t: usize, ops: &[Op], f: impl FnMut(usize, &Op) + 'static) {
    let _ = t;
    spawn_ops_from(0, ops, f)
}

/// The same with operations numbered from `base`.
pub fn spawn_ops_from(base: i64, ops: &[Op], mut f: impl FnMut(usize, &Op) + 'static) {
    let ops: Vec<Op> = ops.to_vec();
    let b = Sh(move || {
        for (i, o) in ops.iter().enumerate() {
            sched::set_op(base + i as i64);
            sched::note(|| format!("op {} {} {:?}", i, o.k, o.a));
            sched::yield_now();
            match o.inside() {
                None => f(i, o),
                Some((how, o)) => crate::scen::within::within(how, &mut || f(i, &o)),
            }
            sched::set_op(-1);
            sched::yield_now();
        }
    });
    sched::spawn(Box::new(move || {
        let b = b;
        (b.take())()
    }));
}

// ---------------------------------------------------------------- generators

/// Sizes of the plan being made, if it is a large one: the last two dimensions drawn, and the
/// number of elements an object may have.
static mut LARGE: Option<[i64; 3]> = None;

/// Makes the plan with few but large objects (sizes beyond any small-size special case).
pub fn gen_large(r: &mut Prng, p: &mut Plan, gen: fn(&mut Prng, &mut Plan)) {
    let n = std::env::var("HSIM_HUGE").ok().and_then(|x| x.parse().ok()).unwrap_or(3);
    let huge = r.chance(1, n);
    unsafe { LARGE = Some([1, 1, if huge { 70_000 } else { 9000 }]) };
    gen(r, p);
    unsafe { LARGE = None };
    p.set("large", 1);
    // The storage of a triangular matrix grows with the square of its dimension.
    let tri: Vec<String> = p.params.iter().filter(|x| x.0.starts_with("lay") && x.1 == 8).map(|x| x.0[3..].to_string()).collect();
    let fam = p.p("fam") == 7;
    for (k, v) in &mut p.params {
        if tri.iter().any(|i| *k == format!("r{}", i)) || fam && (k == "er" || k == "ec") {
            *v = (*v).min(if huge { 300 } else { 100 });
        }
    }
    let nops = 1 + r.below(2) as usize;
    for t in &mut p.tasks {
        // any of them, but the first (it may build what the others use)
        while t.len() > nops {
            let i = 1 + r.below(t.len() as u64 - 1) as usize;
            t.remove(i);
        }
    }
    use simrt::sched::Mode;
    p.mode = match r.below(4) {
        0 => Mode::Serial,
        1 => Mode::Rand { exp: 64, mem: *r.pick(&[0, 1000, 5000]) },
        _ => Mode::Pct { d: 1 + r.below(5), est: *r.pick(&[5000, 50000, 500000]) },
    };
    for f in &mut p.faults {
        if f.hot == 0 {
            f.at *= 1 + r.below(400);
        }
    }
}

/// Whether the plan being made is one of many threads.
static mut CROWD: bool = false;

/// Makes the plan with many threads that do little each.
pub fn gen_crowd(r: &mut Prng, p: &mut Plan, gen: fn(&mut Prng, &mut Plan)) {
    unsafe { CROWD = true };
    gen(r, p);
    unsafe { CROWD = false };
    p.set("crowd", 1);
    for t in &mut p.tasks {
        let n = 1 + r.below(3) as usize;
        t.truncate(n.max(2));
    }
}

/// The most threads of one kind.
pub const CROWD_MAX: usize = 20;

/// Number of threads: `lo` and fewer than `n` more, or a crowd.
pub fn gthreads(r: &mut Prng, lo: u64, n: u64) -> usize {
    let x = (lo + r.below(n)) as usize;
    if unsafe { CROWD } {
        r.range(5, CROWD_MAX as i64) as usize
    } else {
        x
    }
}

/// Small dimensions, with the odd large or degenerate one.
pub fn gdim(r: &mut Prng, zero: bool) -> i64 {
    #[allow(static_mut_refs)]
    if let Some(q) = unsafe { &mut LARGE } {
        let lim = q[2] / (q[0] * q[1]).max(1);
        let d = match r.below(if q[2] > 9000 { 12 } else { 6 }) {
            0 => r.range(1, 3),
            1 => r.range(17, 40),
            2 => r.range(60, 130),
            3 => *r.pick(&[255, 256, 257, 300, 511, 512, 513, 700]),
            6.. => *r.pick(&[10_001, 16_384, 16_385, 20_000, 32_768, 40_000, 65_535, 65_536, 65_537, 69_000, 70_000, 70_000]),
            _ => *r.pick(&[1000, 1023, 1024, 1025, 1026, 2048, 2049, 3000, 4095, 4096, 4097, 4098, 5000, 8193]),
        };
        let d = d.min(lim).max(1);
        *q = [q[1], d, q[2]];
        return d;
    }
    match r.below(100) {
        0..=1 if zero => 0,
        0..=9 => 1,
        10..=79 => r.range(2, 7),
        80..=95 => r.range(8, 13),
        _ => r.range(14, 24),
    }
}

/// Two dimensions among the arguments of an operation, drawn by `gdim`.
pub fn dims_at(op: &Op, i: usize, j: usize) -> (usize, usize) {
    let (r, c) = (op.n(i).clamp(0, 70_000) as usize, op.n(j).clamp(0, 70_000) as usize);
    if r * c > 70_000 {
        (r.min(100), c.min(100))
    } else {
        (r, c)
    }
}

/// The simulated random generator: words are a function of the seed; every draw is a scheduling
/// point and is recorded; the `fail_at`-th draw (1-based) fails.
pub struct SimRng {
    p: Prng,
    pub words: u64,
    pub fail_at: u64,
    /// First words forced to extreme values.
    pub extreme: u32,
    kind: u64,
    pub quiet: bool,
}

impl SimRng {
    pub fn new(seed: i64) -> SimRng {
        let mut p = Prng::new(seed as u64 ^ 0x51b0_7a11);
        // Some streams begin with runs of extreme words, which drive the tails of the sampler.
        let extreme = if p.chance(1, 3) { 1 + p.below(24) as u32 } else { 0 };
        let kind = p.below(5);
        SimRng { p, words: 0, fail_at: 0, extreme, kind, quiet: false }
    }
    pub fn quiet(seed: i64) -> SimRng {
        let mut r = SimRng::new(seed);
        r.quiet = true;
        r
    }
    fn word(&mut self) -> u64 {
        self.words += 1;
        let w = self.p.next();
        if self.extreme > 0 {
            self.extreme -= 1;
            match self.kind {
                0 => 0,
                1 => u64::MAX,
                2 => w & 0xff,
                3 => w | !0xfff,
                _ => if w & 1 == 0 { 0 } else { u64::MAX },
            }
        } else {
            w
        }
    }
}

impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.quiet {
            return self.word();
        }
        let fail = pause(|| {
            sched::yield_now();
            if self.fail_at != 0 {
                self.fail_at -= 1;
                self.fail_at == 0
            } else {
                false
            }
        });
        if fail {
            inject(Injected::Generator);
        }
        pause(|| self.word())
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for ch in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            let n = ch.len();
            ch.copy_from_slice(&w[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

// ---------------------------------------------------------------- storage with a model

/// What an unfinished operation of a task may already have done.
pub enum Inflight<T> {
    None,
    /// Each of these cells holds its old value or the one given.
    Cells(Vec<(usize, T)>),
    /// These cells may hold anything.
    Any(Vec<usize>),
}

/// One storage block, the values it must hold and who may be writing it.
pub struct World<T: Sc> {
    pub cells: Cells<T>,
    pub exp: Vec<T>,
    pub fl: [Inflight<T>; MAXT],
    pub checks: u64,
    /// A write made by a callback must be in storage when the callback is called again.
    pub strict: bool,
}

impl<T: Sc> World<T> {
    pub fn new(cells: Cells<T>) -> &'static mut World<T> {
        let exp = (0..cells.n).map(|i| cells.get(i)).collect();
        let fl: [Inflight<T>; MAXT] = std::array::from_fn(|_| Inflight::None);
        leak(World { cells, exp, fl, checks: 0, strict: false })
    }
    /// The callback of an element-wise update is about to write element `k`.
    pub fn step(&mut self, news: &[(usize, T)], k: usize) {
        if self.strict {
            if k > 0 {
                self.done_as(&news[k - 1..k]);
            }
            if k < news.len() {
                self.begin(vec![news[k]]);
            }
            self.glance("inside for_each");
        }
    }
    /// An element-wise update is about to start.
    pub fn begin_each(&mut self, news: &[(usize, T)]) {
        if !self.strict {
            self.begin(news.to_vec());
        }
    }
    pub fn again(&mut self) -> &'static mut World<T> {
        unsafe { &mut *(self as *mut World<T>) }
    }
    /// Check at a context switch: of large storage only now and then.
    pub fn glance(&mut self, when: &str) {
        if self.cells.n > 512 && (self.checks + 1) % (self.cells.n as u64 / 64) != 0 {
            self.checks += 1;
            return;
        }
        self.check(when)
    }
    /// Storage equals the model, up to operations in hand.
    pub fn check(&mut self, when: &str) {
        self.checks += 1;
        let bytes = self.cells.n * std::mem::size_of::<T>();
        let same = pause(|| unsafe {
            bytes == 0 || std::slice::from_raw_parts(self.cells.ptr as *const u8, bytes) == std::slice::from_raw_parts(self.exp.as_ptr() as *const u8, bytes)
        });
        if same {
            return;
        }
        let mut any = vec![false; self.cells.n];
        let mut to: Vec<(usize, T)> = vec![];
        for f in &self.fl {
            match f {
                Inflight::None => {}
                Inflight::Cells(v) => to.extend(v.iter().copied()),
                Inflight::Any(v) => v.iter().for_each(|c| any[*c] = true),
            }
        }
        to.sort_by_key(|x| x.0);
        for i in 0..self.cells.n {
            let g = self.cells.get(i).comp();
            let e = self.exp[i].comp();
            if g == e || any[i] {
                continue;
            }
            let mut fine = false;
            let from = to.partition_point(|x| x.0 < i);
            for (_, n) in to[from..].iter().take_while(|x| x.0 == i) {
                let n = n.comp();
                if (g[0] == e[0] || g[0] == n[0]) && (g[1] == e[1] || g[1] == n[1]) {
                    fine = true;
                }
            }
            if !fine {
                bad("storage-corrupted", format!("{}: cell {} holds {:?}, expected {:?}", when, i, self.cells.get(i), self.exp[i]));
            }
        }
    }
    /// The operation in hand may change these cells to these values.
    pub fn begin(&mut self, v: Vec<(usize, T)>) {
        self.fl[sched::me()] = Inflight::Cells(v);
    }
    pub fn begin_any(&mut self, v: Vec<usize>) {
        self.fl[sched::me()] = Inflight::Any(v);
    }
    /// The operation in hand is complete: its cells hold the new values.
    pub fn done(&mut self) {
        let f = std::mem::replace(&mut self.fl[sched::me()], Inflight::None);
        if let Inflight::Cells(v) = f {
            for (c, n) in v {
                self.exp[c] = n;
            }
        }
    }
    /// The operation in hand was cut short; `v` is what must have been completed.
    pub fn done_as(&mut self, v: &[(usize, T)]) {
        self.fl[sched::me()] = Inflight::None;
        for (c, n) in v {
            self.exp[*c] = *n;
        }
    }
    pub fn cancel(&mut self) {
        self.fl[sched::me()] = Inflight::None;
    }
}

/// Integer-valued and small: sums of products stay exact.
pub fn small_int<T: Sc>(v: T, lim: f64) -> bool {
    let c = parts(v);
    c.iter().all(|x| x.fract() == 0.0 && x.abs() <= lim)
}

pub fn parts<T: Sc>(v: T) -> [f64; 2] {
    use num::ToPrimitive;
    [v.re().to_f64().unwrap_or(f64::NAN), v.im().to_f64().unwrap_or(f64::NAN)]
}

/// How large an integer element may be for a product with `small_vals` over `k` terms to be exact
/// in single precision.
pub fn mm_limit(k: usize) -> f64 {
    ((1 << 24) as f64 / (6 * k.max(1)) as f64).min(65536.0)
}

/// alpha*A*B + beta*C, exactly, in 64-bit integers.
pub fn ref_mm<T: Sc>(al: (i64, i64), a: &[T], b: &[T], be: (i64, i64), c: &[T], m: usize, k: usize, n: usize) -> Vec<T> {
    let cx = T::NC == 2;
    let int = |v: T| -> (i64, i64) {
        let p = parts(v);
        (p[0] as i64, if cx { p[1] as i64 } else { 0 })
    };
    let mul = |x: (i64, i64), y: (i64, i64)| (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
    let al = if cx { al } else { (al.0, 0) };
    let be = if cx { be } else { (be.0, 0) };
    let mut o = Vec::with_capacity(m * n);
    for i in 0..m {
        for j in 0..n {
            let mut s = (0, 0);
            for l in 0..k {
                let p = mul(int(a[i * k + l]), int(b[l * n + j]));
                s = (s.0 + p.0, s.1 + p.1);
            }
            let mut r = mul(al, s);
            if be != (0, 0) {
                let q = mul(be, int(c[i * n + j]));
                r = (r.0 + q.0, r.1 + q.1);
            }
            o.push(T::mk(r.0, r.1));
        }
    }
    o
}

/// Private operand of a product: a fresh matrix with small integers.
pub fn small_mat<T: Sc, L: BaseLayoutType>(r: usize, c: usize, seed: i64) -> MatrixD<T, L> {
    let mut m = need(lib(|| MatrixD::<T, L>::zeros_from_dim(r, c)), "zeros_from_dim");
    for i in 0..r {
        for j in 0..c {
            let v = small_val::<T>(seed, i, j);
            let p = m.layout().convert_2d_raw(i, j);
            unsafe { m.get_pointer_mut().add(p).write_volatile(v) };
        }
    }
    m
}

pub fn small_val<T: Sc>(seed: i64, i: usize, j: usize) -> T {
    let h = simrt::prng::mix(seed as u64, (i * 1_000_003 + j) as u64);
    T::mk((h % 7) as i64 - 3, ((h >> 8) % 7) as i64 - 3)
}

pub fn small_vals<T: Sc>(r: usize, c: usize, seed: i64) -> Vec<T> {
    (0..r * c).map(|k| small_val::<T>(seed, k / c.max(1), k % c.max(1))).collect()
}

pub fn small_scalar(x: i64) -> (i64, i64) {
    *[(1, 0), (0, 0), (-1, 0), (2, 1), (3, 0), (0, 1), (-2, 1)].get(x.unsigned_abs() as usize % 7).unwrap()
}

fn unit_run(v: &View, i: usize, j: usize, len: usize) -> Vec<usize> {
    // cells of consecutive storage positions starting at (i, j)
    if v.cs == 1 && v.ord != Ord1::Tri {
        (j..(j + len).min(v.c)).map(|y| v.cell(i, y)).collect()
    } else if v.rs == 1 && v.ord != Ord1::Tri {
        (i..(i + len).min(v.r)).map(|x| v.cell(x, j)).collect()
    } else {
        vec![v.cell(i, j)]
    }
}

pub const MV_OPS: &[&str] = &[
    "get", "get1", "getu", "set", "set1", "setu", "set1u", "setseq", "each", "fill", "rslice", "wslice", "wptr", "bget", "bset", "bset2", "beach", "eval",
    "mm", "mmop", "eachpanic", "conv", "misuse", "readall", "rget", "rset",
];

pub fn gen_mv(r: &mut Prng, p: &mut Plan, t: usize) {
    let k = *r.pick(MV_OPS);
    let a: Vec<i64> = (0..8).map(|_| r.below(1 << 16) as i64).collect();
    p.op(t, k, &a);
}

/// Dimension, size and (of vectors) length are as in the model.
pub fn shape_eq<T: Sc>(m: &dyn RMat<T>, v: &View, what: &str) {
    eqn(need(lib(|| m.dim()), "dim"), (v.r, v.c), &format!("dimension of {}", what));
    eqn(need(lib(|| m.nel()), "number_of_elements"), v.n(), &format!("number of elements of {}", what));
    if let Some(l) = need(lib(|| m.len()), "length") {
        eqn(l, v.r * v.c, &format!("length of {}", what));
    }
}

/// One operation on a mutable row- or column-major (possibly strided) matrix whose element (i,j)
/// must be cell `v.cell(i,j)` of the world, and which nobody else uses.
pub fn mv_op<T: Sc>(w: &mut World<T>, m: &mut dyn KMatM<T>, v: &View, op: &Op, fresh: &mut i64) {
    let n = v.n();
    let e = |w: &World<T>, i: usize, j: usize| w.exp[v.cell(i, j)];
    eqn(need(lib(|| m.dim()), "dim"), (v.r, v.c), "dimension of the view");
    if n == 0 {
        sched::probe("op.on_empty_view");
        eqn(need(lib(|| m.nel()), "number_of_elements"), 0, "number of elements of an empty view");
        let mut cnt = 0;
        need(lib(|| m.each(&mut |_| cnt += 1)), "for_each on an empty view");
        eqn(cnt, 0, "elements visited in an empty view");
        refused(lib(|| m.get(0, 0)), "get(0,0) on an empty view");
        return;
    }
    let (i, j) = (op.m(0, v.r), op.m(1, v.c));
    let kk = v.idx(i, j);
    let mut new = || {
        *fresh += 1;
        val::<T>(*fresh)
    };
    match op.k.as_str() {
        "get" => {
            let g = need(lib(|| m.get(i, j)), "get");
            bits_eq(g, e(w, i, j), &format!("get({},{})", i, j));
        }
        "get1" => {
            let g = need(lib(|| m.get1(kk)), "get1d");
            bits_eq(g, e(w, i, j), &format!("get1d({})", kk));
        }
        "getu" => {
            let g = need(lib(|| m.get_un(i, j)), "get_unchecked");
            bits_eq(g, e(w, i, j), "get_unchecked");
            let g = need(lib(|| m.get1_un(kk)), "get1d_unchecked");
            bits_eq(g, e(w, i, j), "get1d_unchecked");
        }
        "set" | "set1" | "setu" | "set1u" => {
            let x = new();
            w.begin(vec![(v.cell(i, j), x)]);
            need(
                lib(|| match op.k.as_str() {
                    "set" => *m.mref(i, j) = x,
                    "set1" => *m.mref1(kk) = x,
                    "setu" => *m.mref_un(i, j) = x,
                    _ => *m.mref1_un(kk) = x,
                }),
                "element write",
            );
            w.done();
            w.check("after an element write");
        }
        "rget" => {
            let g = need(lib(|| if op.n(3) % 2 == 0 { m.rget(op.m(2, 6), i, j, kk) } else { m.rmget(op.m(2, 6), i, j, kk) }), "read through a reference");
            bits_eq(g, e(w, i, j), "element read through a reference to a matrix");
        }
        "rset" => {
            let x = new();
            w.begin(vec![(v.cell(i, j), x)]);
            need(lib(|| m.rset(op.m(2, 6), i, j, kk, x)), "write through a mutable reference");
            w.done();
            w.check("after a write through a mutable reference to a matrix");
        }
        "setseq" => {
            // A run of writes with a value carried from one element to the next.
            for s in 0..3usize {
                let (x, y) = ((i + s) % v.r, (j + s) % v.c);
                let g = need(lib(|| m.get(x, y)), "get");
                bits_eq(g, e(w, x, y), "get");
                let nv = new();
                w.begin(vec![(v.cell(x, y), nv)]);
                need(lib(|| *m.mref(x, y) = nv), "element write");
                w.done();
            }
        }
        "each" | "eachpanic" => {
            let stop = if op.k == "eachpanic" { op.m(2, n) } else { usize::MAX };
            let half = op.n(3) % 2 == 0;
            let news: Vec<(usize, T)> = (0..n).map(|k| (v.cell1(k), new())).collect();
            w.begin_each(&news);
            let mut k = 0;
            let r = lib(|| {
                m.each(&mut |x: &mut T| {
                    if k >= n {
                        pause(|| bad("visited-twice", format!("for_each called its function more than {} times", n)));
                    }
                    let old = *x;
                    let boom = pause(|| {
                        w.step(&news, k);
                        sched::yield_now();
                        bits_eq(old, w.exp[news[k].0], &format!("element number {} handed out by for_each", k));
                        k == stop
                    });
                    if boom && half {
                        inject(Injected::Callback);
                    }
                    *x = news[k].1;
                    if boom {
                        inject(Injected::Callback);
                    }
                    k += 1;
                })
            });
            match r {
                Ok(()) => {
                    if stop != usize::MAX {
                        bad("panic-swallowed", "for_each returned normally although its function panicked".into());
                    }
                    eqn(k, n, "elements visited by for_each");
                    w.done();
                }
                Err(Stop::Injected(Injected::Callback)) => {
                    let upto = if half { stop } else { stop + 1 };
                    w.done_as(&news[..upto]);
                }
                Err(x) => bad("unexpected-panic", format!("for_each: {:?}", x)),
            }
            w.check("after for_each");
        }
        "fill" => {
            let mut q = SimRng::quiet(op.n(2));
            let news: Vec<(usize, T)> = (0..n).map(|k| (v.cell1(k), T::reference_normal(&mut q))).collect();
            w.begin(news);
            let mut g = SimRng::new(op.n(2));
            need(lib(|| m.fill(&mut g)), "fill_from_rand_standard_normal");
            w.done();
            eqn(g.words, q.words, "words drawn from the generator");
            w.check("after a fill");
        }
        "rslice" | "wslice" => {
            let cells = unit_run(v, i, j, 1 + op.m(2, 6));
            let a = cells[0] - v.base;
            let b = a + cells.len();
            if op.k == "rslice" {
                let s = need(lib(|| m.slice(a, b).iter().copied().collect::<Vec<T>>()), "get_slice");
                eqn(s.len(), cells.len(), "length of a raw slice");
                for (x, c) in s.iter().zip(&cells) {
                    bits_eq(*x, w.exp[*c], "raw slice element");
                }
                drop_in_lib(s);
            } else {
                let news: Vec<(usize, T)> = cells.iter().map(|c| (*c, new())).collect();
                w.begin(news.clone());
                need(
                    lib(|| {
                        let s = m.slice_m(a, b);
                        for (x, y) in s.iter_mut().zip(&news) {
                            *x = y.1;
                        }
                    }),
                    "get_slice_mut",
                );
                w.done();
                w.check("after a raw slice write");
            }
        }
        "wptr" => {
            let off = v.cell(i, j) - v.base;
            let x = new();
            let g = need(lib(|| unsafe { *m.ptr().add(off) }), "get_pointer");
            bits_eq(g, e(w, i, j), "element read through get_pointer");
            w.begin(vec![(v.cell(i, j), x)]);
            need(lib(|| unsafe { *m.ptr_m().add(off) = x }), "get_pointer_mut");
            w.done();
            w.check("after a write through get_pointer_mut");
        }
        "bget" | "bset" | "bset2" | "beach" => {
            let tl = (i, j);
            let d = (1 + op.m(2, v.r - i), 1 + op.m(3, v.c - j));
            let sv = v.sub(tl, d);
            let (x, y) = (op.m(4, d.0), op.m(5, d.1));
            match op.k.as_str() {
                "bget" => {
                    let b = need(lib(|| m.as_k().blk(tl, d)), "block");
                    eqn(need(lib(|| b.b().dim()), "dim"), d, "dimension of a block");
                    let g = need(lib(|| b.b().get(x, y)), "get on a block");
                    bits_eq(g, w.exp[sv.cell(x, y)], "element of a block");
                    let k = sv.idx(x, y);
                    let g = need(lib(|| b.b().get1(k)), "get1d on a block");
                    bits_eq(g, w.exp[sv.cell(x, y)], "element of a block by 1-D index");
                }
                "bset" => {
                    let nv = new();
                    let mut b = need(lib(|| m.blk_m(tl, d)), "block_mut");
                    w.begin(vec![(sv.cell(x, y), nv)]);
                    need(lib(|| *b.w().mref(x, y) = nv), "write through a block");
                    w.done();
                    w.check("after a write through a block");
                }
                "bset2" => {
                    let nv = new();
                    let d2 = (1 + op.m(6, d.0 - x), 1 + op.m(7, d.1 - y));
                    let sv2 = sv.sub((x, y), d2);
                    let (p, q) = (d2.0 - 1, d2.1 - 1);
                    let mut b = need(lib(|| m.blk_m(tl, d)), "block_mut");
                    let mut b2 = need(lib(|| b.km().blk_m((x, y), d2)), "block_mut of a block");
                    let k = sv2.idx(p, q);
                    w.begin(vec![(sv2.cell(p, q), nv)]);
                    need(lib(|| *b2.w().mref1(k) = nv), "write through a block of a block");
                    w.done();
                    let g = need(lib(|| b2.b().get(0, 0)), "get");
                    bits_eq(g, w.exp[sv2.cell(0, 0)], "element of a block of a block");
                    w.check("after a write through a block of a block");
                }
                _ => {
                    let bn = sv.n();
                    let news: Vec<(usize, T)> = (0..bn).map(|k| (sv.cell1(k), new())).collect();
                    let mut b = need(lib(|| m.blk_m(tl, d)), "block_mut");
                    w.begin_each(&news);
                    let mut k = 0;
                    need(
                        lib(|| {
                            b.w().each(&mut |x| {
                                if k < bn {
                                    pause(|| w.step(&news, k));
                                    *x = news[k].1;
                                }
                                k += 1;
                            })
                        }),
                        "for_each on a block",
                    );
                    eqn(k, bn, "elements of a block visited");
                    w.done();
                    w.check("after for_each on a block");
                }
            }
        }
        "eval" => {
            let r = need(lib(|| m.as_k().ev()), "eval");
            for x in 0..v.r {
                for y in 0..v.c {
                    let g = need(lib(|| r.get(x, y)), "get");
                    bits_eq(g, e(w, x, y), "evaluated view");
                }
            }
            lib(|| drop_box(r)).ok();
        }
        "mm" => {
            // the view is the accumulation target
            let k = 1 + op.m(2, 6);
            let ints = v.cells().iter().all(|c| small_int(w.exp[*c], 262144.0));
            let al = small_scalar(op.n(3));
            let be = if ints { *[(0, 0), (1, 0), (-1, 0)].get(op.m(4, 3)).unwrap() } else { (0, 0) };
            let (sa, sb) = (op.n(5), op.n(6));
            let cur: Vec<T> = (0..v.r * v.c).map(|x| if ints { e(w, x / v.c, x % v.c) } else { T::mk(0, 0) }).collect();
            let want = ref_mm(al, &small_vals::<T>(v.r, k, sa), &small_vals::<T>(k, v.c, sb), be, &cur, v.r, k, v.c);
            let a = small_mat::<T, RowMajor>(v.r, k, sa);
            let b = small_mat::<T, ColumnMajor>(k, v.c, sb);
            w.begin_any(v.cells());
            need(lib(|| mm_into(T::mk(al.0, al.1), &a, &b, T::mk(be.0, be.1), m, op.n(7))), "matmul");
            for x in 0..v.r {
                for y in 0..v.c {
                    eq(w.cells.get(v.cell(x, y)), want[x * v.c + y], "product accumulated into a view");
                    w.exp[v.cell(x, y)] = w.cells.get(v.cell(x, y));
                }
            }
            w.done();
            w.check("after matmul");
            lib(|| drop((a, b))).ok();
        }
        "mmop" => {
            // the view is an operand
            if !v.cells().iter().all(|c| small_int(w.exp[*c], mm_limit(v.c))) {
                return;
            }
            let nn = 1 + op.m(2, 5);
            let sb = op.n(5);
            let cur: Vec<T> = (0..v.r * v.c).map(|x| e(w, x / v.c, x % v.c)).collect();
            let zero = vec![T::mk(0, 0); v.r * nn];
            let want = ref_mm((1, 0), &cur, &small_vals::<T>(v.c, nn, sb), (0, 0), &zero, v.r, v.c, nn);
            let b = small_mat::<T, RowMajor>(v.c, nn, sb);
            let mut c = need(lib(|| MatrixD::<T, ColumnMajor>::zeros_from_dim(v.r, nn)), "zeros_from_dim");
            need(lib(|| mm_operand(m, &b, &mut c)), "matmul");
            for x in 0..v.r {
                for y in 0..nn {
                    eq(RMat::get(&c, x, y), want[x * nn + y], "product with a view as operand");
                }
            }
            lib(|| drop((b, c))).ok();
        }
        "conv" => {
            let a = need(lib(|| m.at(kk)), "convert_1d_2d");
            eqn(a, (i, j), "position of a 1-D index");
            eqn(need(lib(|| m.idx(i, j)), "convert_2d_1d"), kk, "1-D index of a position");
            eqn(need(lib(|| m.raw(i, j)), "convert_2d_raw"), v.cell(i, j) - v.base, "raw index of a position");
            eqn(need(lib(|| m.raw1(kk)), "convert_1d_raw"), v.cell(i, j) - v.base, "raw index of a 1-D index");
        }
        "misuse" => {
            let far = *[0usize, 1, 1000, usize::MAX / 2, usize::MAX - v.r].get(op.m(3, 5)).unwrap();
            let x = new();
            match op.m(2, 9) {
                6 => refused(lib(|| m.rget(0, v.r.saturating_add(far), j, kk)), "get beyond the last row through a reference"),
                7 => refused(lib(|| m.rget(1, i, j, n.saturating_add(far))), "get1d beyond the last element through a reference"),
                8 => {
                    refused(lib(|| m.rset(0, i, v.c.saturating_add(far), kk, x)), "get_mut beyond the last column through a reference");
                    refused(lib(|| m.rset(1, i, j, n.saturating_add(far), x)), "get1d_mut beyond the last element through a reference")
                }
                0 => refused(lib(|| m.get(v.r.saturating_add(far), j)), "get beyond the last row"),
                1 => refused(lib(|| m.get(i, v.c.saturating_add(far))), "get beyond the last column"),
                2 => refused(lib(|| m.get1(n.saturating_add(far))), "get1d beyond the last element"),
                3 => refused(lib(|| *m.mref(v.r.saturating_add(far), j) = x), "get_mut beyond the last row"),
                4 => refused(lib(|| *m.mref(i, v.c.saturating_add(far)) = x), "get_mut beyond the last column"),
                _ => refused(lib(|| *m.mref1(n.saturating_add(far)) = x), "get1d_mut beyond the last element"),
            }
            w.check("after a refused call");
        }
        "readall" => {
            for k in 0..n {
                let (x, y) = v.at(k);
                let g = need(lib(|| if k % 2 == 0 { m.get(x, y) } else { m.get1(k) }), "element read");
                bits_eq(g, e(w, x, y), &format!("element ({},{})", x, y));
            }
        }
        o => report::harness_error(&format!("unknown operation {}", o)),
    }
}

pub fn drop_in_lib<X>(x: X) {
    need(lib(|| drop(x)), "drop")
}

pub fn drop_box<X: ?Sized>(b: Box<X>) {
    // The box itself is harness memory; what it holds may be arena memory.
    drop(b)
}

/// Drop something boxed as library code would; a panic while dropping is a violation.
pub fn drop_lib<X: ?Sized>(b: Box<X>) {
    need(lib(|| drop(b)), "drop")
}

/// C += into a row- or column-major strided view, through its concrete type.
pub fn mm_into<T: Sc>(al: T, a: &MatrixD<T, RowMajor>, b: &MatrixD<T, ColumnMajor>, be: T, m: &mut dyn KMatM<T>, _x: i64) {
    let d = m.dim();
    match m.blk_m((0, 0), d) {
        SVM::R(mut c) => T::mm(al, a, b, be, &mut c),
        SVM::C(mut c) => T::mm(al, a, b, be, &mut c),
    }
}

pub fn mm_operand<T: Sc>(m: &mut dyn KMatM<T>, b: &MatrixD<T, RowMajor>, c: &mut MatrixD<T, ColumnMajor>) {
    let d = m.dim();
    let (one, zero) = (T::mk(1, 0), T::mk(0, 0));
    match m.as_k().blk((0, 0), d) {
        SV::R(a) => T::mm(one, &a, b, zero, c),
        SV::C(a) => T::mm(one, &a, b, zero, c),
    }
}

/// Marks each view's cells as usable by one task only.
pub fn own<T: Sc>(cells: &Cells<T>, v: &View, task: usize) {
    for c in v.cells() {
        cells.mark(c, arena::S_TASK0 + task as u8);
    }
}
