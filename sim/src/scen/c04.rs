//! C04: interrupted in-place updates stop exactly where they were.

use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use simrt::prng::Prng;
use simrt::sched::{self, MAXT};
use simrt::{arena, inject, lib, pause, report, Injected, Stop};

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 3);
    p.set("nobj", nt as i64);
    for i in 0..nt {
        gen_obj(r, p, i, true);
    }
    // Sometimes one interruption after the other.
    let burst = r.chance(1, 12);
    let no = if burst { 8 + r.below(10) } else { 1 + r.below(6) };
    for t in 0..nt {
        for _ in 0..no {
            let k = if burst { *r.pick(&["eachp", "eachp", "fillp"]) } else { *r.pick(&["each", "each", "eachp", "eachp", "eachp", "fill", "fillp", "fillp", "eachnest", "set"]) };
            let a: Vec<i64> = (0..8).map(|_| r.below(1 << 16) as i64).collect();
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (60, 10), (30, 30), (100, 0), (0, 30)]);
    p.rand_faults(r, k, s, 600);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

/// A storage block being updated in place by one task.
pub struct Obs<T: Sc> {
    cells: Cells<T>,
    exp: Vec<T>,
    /// The update in hand: cells in the order in which they must change, with their new values.
    prog: Vec<(usize, T)>,
    /// At least / at most so many of them are complete.
    kmin: usize,
    kmax: usize,
    checks: u64,
}

impl<T: Sc> Obs<T> {
    fn begin(&mut self, news: Vec<(usize, T)>) {
        self.kmin = 0;
        self.kmax = news.len();
        self.prog = news;
    }
    /// Exactly the first `k` are complete, and the operation is over.
    fn end(&mut self, k: usize) {
        for (c, v) in self.prog.drain(..).take(k) {
            self.exp[c] = v;
        }
    }
    /// Check while the update goes on: of large storage only now and then.
    fn glance(&mut self, when: &str) {
        if self.cells.n > 512 && (self.checks + 1) % (self.cells.n as u64 / 16) != 0 {
            self.checks += 1;
            return;
        }
        self.check(when)
    }
    pub fn check(&mut self, when: &str) {
        self.checks += 1;
        let n = self.prog.len();
        let mut k = 0;
        while k < n && self.cells.get(self.prog[k].0).comp() == self.prog[k].1.comp() {
            k += 1;
        }
        if k < self.kmin.min(n) {
            bad("update-lost", format!("{}: {} elements must be updated, but element number {} is not", when, self.kmin, k));
        }
        let mut want = self.exp.clone();
        for (c, v) in &self.prog[..k] {
            want[*c] = *v;
        }
        let hand = if k < n { self.prog[k].0 } else { usize::MAX };
        for i in 0..self.cells.n {
            let g = self.cells.get(i).comp();
            let e = want[i].comp();
            if g == e {
                continue;
            }
            if i == hand && k < self.kmax {
                let w = self.prog[k].1.comp();
                if (g[0] == e[0] || g[0] == w[0]) && (g[1] == e[1] || g[1] == w[1]) {
                    continue;
                }
            }
            let pos = self.prog.iter().position(|x| x.0 == i);
            bad(
                "storage-corrupted",
                format!(
                    "{}: cell {} ({}) holds {:?}, expected {:?}, with the first {} elements updated",
                    when,
                    i,
                    pos.map(|p| format!("element number {}", p)).unwrap_or("no element of this update".into()),
                    self.cells.get(i),
                    want[i],
                    k
                ),
            );
        }
        if k > self.kmax && self.prog[self.kmax].1.comp() != self.exp[self.prog[self.kmax].0].comp() {
            bad("update-too-early", format!("{}: element number {} is already updated", when, self.kmax));
        }
    }
}

static mut ALL: Vec<Box<dyn FnMut(&str, bool)>> = Vec::new();

#[allow(static_mut_refs)]
fn on_switch(c: usize) {
    unsafe {
        if c < MAXT && c < ALL.len() {
            ALL[c]("at a context switch", false)
        }
    }
}
#[allow(static_mut_refs)]
fn on_kill(c: usize) {
    unsafe {
        if c < ALL.len() {
            ALL[c]("at the instant its thread stopped", true)
        }
    }
}

#[allow(static_mut_refs)]
fn go<T: Sc>(p: &Plan) {
    let nobj = p.u("nobj").clamp(1, CROWD_MAX);
    let mut objs = vec![];
    for i in 0..nobj {
        let o = obj_of::<T>(p, i, false, &|x| val(100 + x as i64));
        o.mark_elems(arena::S_TASK0 + i as u8);
        o.mark_gaps(FRAME);
        objs.push(o);
    }
    let mut obs = vec![];
    for o in &objs {
        let exp = (0..o.cells.n).map(|i| o.cells.get(i)).collect();
        let b: &'static mut Obs<T> = leak(Obs { cells: o.cells, exp, prog: vec![], kmin: 0, kmax: 0, checks: 0 });
        let bp = b as *mut Obs<T>;
        unsafe { ALL.push(Box::new(move |w, all| if all { (*bp).check(w) } else { (*bp).glance(w) })) };
        obs.push(bp);
    }
    sched::sim().on_switch = Some(on_switch);
    sched::sim().on_kill = Some(on_kill);
    let keep = objs.iter().map(|o| (o.cells, o.v)).collect::<Vec<_>>();
    for (t, o) in objs.into_iter().enumerate() {
        // Alive for the whole run, like the observer of its cells.
        let o = leak(o);
        let bp = obs[t];
        let mut fresh = 1000;
        if t < p.tasks.len() {
            spawn_ops(t, &p.tasks[t], move |_, op| run_op(o, unsafe { &mut *bp }, op, &mut fresh));
        }
    }
    sched::run();
    sched::sim().on_switch = None;
    for (t, b) in obs.iter().enumerate() {
        if !sched::is_dead(t) {
            unsafe { (**b).check("at the end") };
        }
    }
    for (c, _) in keep {
        c.mark_all(arena::S_LIVE);
    }
}

fn run_op<T: Sc>(o: &mut Obj<T>, b: &mut Obs<T>, op: &Op, fresh: &mut i64) {
    // The whole matrix or a block of it.
    let whole = o.v;
    let cells = o.cells;
    let name = o.name();
    if op.m(0, 3) == 0 && o.k().is_some() && whole.n() > 0 {
        let tl = (op.m(1, whole.r), op.m(2, whole.c));
        let d = (op.m(3, whole.r - tl.0 + 1), op.m(4, whole.c - tl.1 + 1));
        let v = whole.sub(tl, d);
        let km = o.km().unwrap();
        let mut blk = need(lib(|| km.blk_m(tl, d)), "block_mut");
        update(blk.w(), &v, cells, b, op, fresh, "a block view");
    } else {
        update(o.w(), &whole, cells, b, op, fresh, name);
    }
    b.check("after an operation");
}

fn update<T: Sc>(m: &mut dyn WMat<T>, v: &View, cells: Cells<T>, b: &mut Obs<T>, op: &Op, fresh: &mut i64, name: &str) {
    let n = v.n();
    let mut new = || {
        *fresh += 1;
        val::<T>(*fresh)
    };
    shape_eq(m.as_b().as_r(), v, name);
    match op.k.as_str() {
        "set" => {
            if n == 0 {
                return;
            }
            let k = op.m(5, n);
            let (i, j) = v.at(k);
            let x = new();
            b.begin(vec![(v.cell1(k), x)]);
            need(
                lib(|| match op.n(6) % 4 {
                    0 => *m.mref1(k) = x,
                    1 => *m.mref(i, j) = x,
                    _ => m.rset(op.m(7, 6), i, j, k, x),
                }),
                "element write",
            );
            b.end(1);
        }
        "each" | "eachp" | "eachnest" => {
            let news: Vec<(usize, T)> = (0..n).map(|k| (v.cell1(k), new())).collect();
            let stop = if op.k == "eachp" && n > 0 { op.m(5, n) } else { usize::MAX };
            let how = op.m(6, 3);
            let bp = b as *mut Obs<T>;
            b.begin(news.clone());
            b.kmax = 0;
            let mut k = 0;
            let news2 = &news;
            let r = lib(|| {
                m.each(&mut |x: &mut T| {
                    let px = x as *mut T;
                    let boom = pause(|| {
                        let b = unsafe { &mut *bp };
                        sched::yield_now();
                        if k >= n {
                            bad("visited-twice", format!("for_each on {} called its function more than {} times", name, n));
                        }
                        let want = unsafe { cells.ptr.add(news2[k].0) };
                        if px != want {
                            let off = (px as isize - cells.ptr as isize) / std::mem::size_of::<T>() as isize;
                            bad("wrong-order", format!("call {} of the function on {} got cell {} instead of cell {}", k, name, off, news2[k].0));
                        }
                        b.kmin = k;
                        b.glance(&format!("when the function was called for element number {} of {}", k, name));
                        b.kmax = k + 1;
                        if op.k == "eachnest" && op.m(7, n.max(1)) == k {
                            nested::<T>(op.m(4, 4), op.m(5, 8));
                        }
                        k == stop
                    });
                    if boom && how == 0 {
                        inject(Injected::Callback);
                    }
                    *x = news2[k].1;
                    if boom {
                        inject(Injected::Callback);
                    }
                    k += 1;
                })
            });
            b.kmin = 0;
            b.kmax = n;
            match r {
                Ok(()) => {
                    if stop != usize::MAX {
                        bad("panic-swallowed", "for_each returned normally although its function panicked".into());
                    }
                    eqn(k, n, "elements visited by for_each");
                    b.end(n);
                }
                Err(Stop::Injected(Injected::Callback)) => {
                    let done = if how == 0 { stop } else { stop + 1 };
                    interrupted(m, v, b, done, &news, op);
                }
                Err(x) => bad("unexpected-panic", format!("for_each: {:?}", x)),
            }
        }
        "fill" | "fillp" => {
            let seed = op.n(5);
            let mut q = SimRng::quiet(seed);
            let mut ends = vec![];
            let news: Vec<(usize, T)> = (0..n)
                .map(|k| {
                    let x = T::reference_normal(&mut q);
                    ends.push(q.words);
                    (v.cell1(k), x)
                })
                .collect();
            let mut g = SimRng::new(seed);
            let fail = if op.k == "fillp" && n > 0 { 1 + op.m(6, q.words as usize) as u64 } else { 0 };
            g.fail_at = fail;
            b.begin(news.clone());
            let r = lib(|| m.fill(&mut g));
            match r {
                Ok(()) => {
                    if fail != 0 {
                        bad("panic-swallowed", "a fill returned normally although its generator panicked".into());
                    }
                    eqn(g.words, q.words, "words drawn from the generator");
                    b.end(n);
                }
                Err(Stop::Injected(Injected::Generator)) => {
                    let done = ends.iter().filter(|e| **e < fail).count();
                    interrupted(m, v, b, done, &news, op);
                }
                Err(x) => bad("unexpected-panic", format!("fill: {:?}", x)),
            }
        }
        x => report::harness_error(&format!("unknown operation {}", x)),
    }
}

/// The first `done` elements are updated.  Leave it at that, or resume from there.
fn interrupted<T: Sc>(m: &mut dyn WMat<T>, v: &View, b: &mut Obs<T>, done: usize, news: &[(usize, T)], op: &Op) {
    b.end(done);
    b.check("after an interrupted update");
    match op.m(7, 5) {
        0 => {}
        way => {
            sched::probe("resumed_update");
            for k in done..news.len() {
                let x = news[k].1;
                b.begin(vec![news[k]]);
                match way {
                    4 => need(lib(|| m.rset(1, 0, 0, k, x)), "get1d_mut through a reference"),
                    1 => need(lib(|| *m.mref1(k) = x), "get1d_mut"),
                    2 => {
                        let (i, j) = need(lib(|| m.at(k)), "convert_1d_2d");
                        need(lib(|| *m.mref(i, j) = x), "get_mut at the position of a 1-D index")
                    }
                    _ => {
                        let (i, j) = v.at(k);
                        need(lib(|| *m.mref(i, j) = x), "get_mut")
                    }
                }
                b.end(1);
                b.glance("while resuming an update");
            }
        }
    }
}

/// An update from within the callback of another update.
/// An update of another matrix, `deep` more inside it, which may be interrupted at element `stop`.
fn nested<T: Sc>(deep: usize, stop: usize) {
    use householder::*;
    let mut m = need(lib(|| MatrixD::<T, ColumnMajor>::zeros_from_dim(2, 2)), "zeros_from_dim");
    let mut k = 0;
    let r = lib(|| {
        m.for_each(|x| {
            if k == stop {
                inject(Injected::Callback);
            }
            k += 1;
            *x = pause(|| {
                if k == 2 && deep > 0 {
                    sched::probe("reach.deep_nesting");
                    nested::<T>(deep - 1, (stop + deep) % 6);
                }
                val(k as i64)
            })
        })
    });
    match r {
        Ok(()) if stop >= 4 => {}
        Err(Stop::Injected(Injected::Callback)) if stop < 4 => {}
        x => bad("unexpected-result", format!("for_each inside another one: {:?}", x)),
    }
    for k in 0..4 {
        let want = if k < stop { val(k as i64 + 1) } else { T::mk(0, 0) };
        bits_eq(need(lib(|| RMat::get1(&m, k)), "get1d"), want, "element of a nested update");
    }
    drop_in_lib(m);
}
