//! C09: views write through at once, however they end.

use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{arena, inject, lib, pause, report, Injected, Stop};

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 4);
    p.set("nobj", nt as i64);
    // 0: a matrix each; 1: matrices interleaved in one caller-supplied storage; 2: quarters of one matrix
    let mode = r.below(3) as i64;
    p.set("mode", if nt > 4 { mode % 2 } else { mode });
    for i in 0..nt.max(4) {
        gen_obj(r, p, i, true);
        let l = r.below(4) as i64;
        p.params.iter_mut().find(|x| x.0 == format!("lay{}", i)).unwrap().1 = l;
    }
    for t in 0..nt {
        for _ in 0..1 + r.below(6) {
            let k = *r.pick(&["chain", "chain", "chain", "rchain", "lay", "rlay", "split"]);
            let a: Vec<i64> = (0..6).map(|_| r.below(1 << 16) as i64).collect();
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (20, 20), (0, 40), (50, 0), (70, 0)]);
    p.rand_faults(r, k, s, 1500);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

static mut SWITCHES: u64 = 0;
static mut EVERY: u64 = 1;
static mut CHECK: Option<Box<dyn Fn(&str)>> = None;

#[allow(static_mut_refs)]
fn look(w: &str) {
    unsafe {
        if let Some(f) = &CHECK {
            f(w)
        }
    }
}
#[allow(static_mut_refs)]
fn on_switch(_c: usize) {
    unsafe {
        SWITCHES += 1;
        // looking at large storage takes long
        if SWITCHES % EVERY == 0 {
            look("while views are in use")
        }
    }
}
fn on_kill(_c: usize) {
    look("when a view's thread was stopped")
}

struct St<T: Sc> {
    m: &'static mut dyn KMatM<T>,
    v: View,
    w: &'static mut World<T>,
    fresh: i64,
    /// More storage of this thread's own, for matrices laid over it.
    mem: &'static mut World<T>,
}

fn go<T: Sc>(p: &Plan) {
    let nobj = p.u("nobj").clamp(1, CROWD_MAX);
    let mut worlds: Vec<*mut World<T>> = vec![];
    let mut roots: Vec<(&'static mut dyn KMatM<T>, View, &'static mut World<T>)> = vec![];
    let dim = |i: usize| (p.u(&format!("r{}", i)), p.u(&format!("c{}", i)));
    match p.u("mode") % 3 {
        0 => {
            for t in 0..nobj {
                let o = leak(obj_of::<T>(p, t, false, &|x| val(100 + x as i64)));
                let Body::K(m) = &mut o.body else { report::harness_error("layout without blocks") };
                let m: &'static mut dyn KMatM<T> = unsafe { &mut *(&mut **m as *mut dyn KMatM<T>) };
                o.mark_gaps(FRAME);
                o.mark_elems(arena::S_TASK0 + t as u8);
                let w = World::new(o.cells);
                worlds.push(w as *mut _);
                roots.push((m, o.v, w));
            }
        }
        1 => {
            let mut views = vec![];
            for t in 0..nobj {
                let row = p.u(&format!("lay{}", t)) % 2 == 0;
                let (r, c) = dim(t);
                let s = any_stride(p.u(&format!("sx{}", t)), r, c, row);
                views.push(View::new(t, (s.0 * nobj, s.1 * nobj), (r, c), if row { Ord1::Row } else { Ord1::Col }));
            }
            let n = views.iter().map(|v| v.span()).max().unwrap() + 3;
            let cells = Cells::filled(n, |i| val::<T>(100 + i as i64));
            cells.mark_all(FRAME);
            let w = World::new(cells);
            worlds.push(w as *mut _);
            for (t, v) in views.iter().enumerate() {
                own(&cells, v, t);
                let (d, s) = ((v.r, v.c), (v.rs, v.cs));
                let ptr = unsafe { cells.ptr.add(t) };
                let m: &'static mut dyn KMatM<T> = if v.ord == Ord1::Row {
                    leak(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), "from_pointer"))
                } else {
                    leak(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), "from_pointer"))
                };
                roots.push((m, *v, w.again()));
            }
        }
        _ => {
            let (r, c) = dim(0);
            let cells = Cells::filled(r * c + 3, |i| val::<T>(100 + i as i64));
            cells.mark_all(FRAME);
            let w = World::new(cells);
            worlds.push(w as *mut _);
            let m = leak(need(lib(|| G::from_data(AnyC::S(SliceContainerMut::new(cells.slice_mut())), RowMajor::new((r, c)))), "from_data"));
            let s = (p.u("r1").min(r), p.u("c1").min(c));
            let q = need(lib(|| m.split_in_four_mut(s)), "split_in_four_mut");
            let whole = View::rm(r, c);
            let views = [whole.sub((0, 0), s), whole.sub((0, s.1), (s.0, c - s.1)), whole.sub((s.0, 0), (r - s.0, s.1)), whole.sub(s, (r - s.0, c - s.1))];
            for (t, (q, v)) in [q.0, q.1, q.2, q.3].into_iter().zip(views).enumerate().take(nobj) {
                own(&cells, &v, t);
                roots.push((leak(q), v, w.again()));
            }
        }
    }
    for (t, (m, v, w)) in roots.into_iter().enumerate() {
        let mem = World::new(Cells::filled(80, |i| val::<T>(5000 + i as i64)));
        mem.cells.mark_all(arena::S_TASK0 + t as u8);
        worlds.push(mem as *mut _);
        let st: &'static mut St<T> = leak(St { m, v, w, fresh: 10000 * (t as i64 + 1), mem });
        let ops: &[Op] = p.tasks.get(t).map(|x| &x[..]).unwrap_or(&[]);
        spawn_ops(t, ops, move |_, op| run_op(st, op));
    }
    for w in &worlds {
        unsafe { (**w).strict = true }
    }
    let cells: usize = worlds.iter().map(|w| unsafe { (**w).cells.n }).sum();
    unsafe { EVERY = 1 + cells as u64 / 256 };
    let ws = worlds.clone();
    unsafe {
        CHECK = Some(Box::new(move |when| {
            for w in &ws {
                (**w).check(when)
            }
        }))
    };
    sched::sim().on_switch = Some(on_switch);
    sched::sim().on_kill = Some(on_kill);
    sched::run();
    sched::sim().on_switch = None;
    look("when all threads have ended");
}

const WRITES: &[&str] = &[
    "set", "set1", "setu", "set1u", "setseq", "each", "fill", "wslice", "wptr", "bset", "bset2", "beach", "eachpanic", "mm", "get", "get1", "getu", "rslice", "bget", "readall", "eval", "conv", "misuse",
    "mmop", "rget", "rset", "rset",
];

#[derive(Clone, Copy, PartialEq)]
enum End {
    Drop,
    Leak,
    Panic,
    /// The function given to for_each panics, and the panic takes the views with it.
    EachPanic,
}

struct Walk<'a, T: Sc> {
    w: &'a mut World<T>,
    fresh: &'a mut i64,
    r: Prng,
    end: End,
    between: bool,
}

fn gen_work(r: &mut Prng, kinds: &[&str]) -> Op {
    let k = *r.pick(kinds);
    Op { k: k.into(), a: (0..8).map(|_| r.below(1 << 16) as i64).collect() }
}

/// A block within r x c: sometimes everything, sometimes empty.
fn gen_block(r: &mut Prng, v: &View) -> ((usize, usize), (usize, usize)) {
    let mut ax = |n: usize| -> (usize, usize) {
        if n > 4096 && r.chance(1, 2) {
            let t = n - r.below(4000) as usize;
            return (t, if r.chance(1, 2) { n - t } else { r.below((n - t) as u64 + 1) as usize });
        }
        match r.below(10) {
            0 | 1 => (0, n),
            2 => {
                let t = r.below(n as u64 + 1) as usize;
                (t, n - t)
            }
            3 if n > 1 => (r.below(n as u64) as usize, 1),
            4 if r.chance(1, 4) => (r.below(n as u64 + 1) as usize, 0),
            _ => {
                let t = r.below((n as u64 + 1) / 2 + 1) as usize;
                (t, n - t - r.below((n - t) as u64 / 2 + 1) as usize)
            }
        }
    };
    let (a, b) = (ax(v.r), ax(v.c));
    ((a.0, b.0), (a.1, b.1))
}

/// Works on `m` or, `depth` levels down, on a view of it.
fn descend<T: Sc>(k: &mut Walk<T>, m: &mut dyn KMatM<T>, v: &View, depth: usize) -> Result<(), Stop> {
    if depth == 0 {
        for _ in 0..1 + k.r.below(3) {
            let op = gen_work(&mut k.r, WRITES);
            mv_op(k.w, m, v, &op, k.fresh);
        }
        match k.end {
            End::Panic => return lib(|| inject(Injected::Callback)),
            End::EachPanic if v.n() > 0 => return each_panic(k, m, v),
            _ => return Ok(()),
        }
    }
    let (tl, d) = gen_block(&mut k.r, v);
    let sv = v.sub(tl, d);
    let end = k.end;
    let what = format!("block_mut at {:?} of dimension {:?} of a {} x {} view", tl, d, v.r, v.c);
    let r = lib(|| {
        let mut b = m.blk_m(tl, d);
        let r = pause(|| {
            eqn(need(lib(|| b.b().dim()), "dim"), d, &what);
            descend(k, b.km(), &sv, depth - 1)
        });
        match r {
            Ok(()) => {}
            Err(Stop::Injected(x)) => inject(x),
            Err(Stop::Panic(x)) => pause(|| bad("unexpected-panic", x)),
        }
        if end == End::Leak {
            std::mem::forget(b)
        } else {
            drop(b)
        }
    });
    match r {
        Err(Stop::Panic(x)) => bad("unexpected-panic", format!("{}: {}", what, x)),
        Err(x) => {
            k.w.check("after a panic ended a view");
            return Err(x);
        }
        Ok(()) => k.w.check("after the end of a view"),
    }
    if k.between {
        // The view of this level is whole again: read and write through it.
        let op = gen_work(&mut k.r, WRITES);
        mv_op(k.w, m, v, &op, k.fresh);
    }
    Ok(())
}

fn each_panic<T: Sc>(k: &mut Walk<T>, m: &mut dyn KMatM<T>, v: &View) -> Result<(), Stop> {
    let n = v.n();
    let stop = k.r.below(n as u64) as usize;
    let news: Vec<(usize, T)> = (0..n)
        .map(|x| {
            *k.fresh += 1;
            (v.cell1(x), val(*k.fresh))
        })
        .collect();
    let w = &mut *k.w;
    w.begin_each(&news);
    let mut x = 0;
    let r = lib(|| {
        m.each(&mut |e: &mut T| {
            pause(|| w.step(&news, x));
            if x == stop {
                inject(Injected::Callback);
            }
            *e = news[x].1;
            x += 1;
            pause(sched::yield_now);
        })
    });
    match &r {
        Err(Stop::Injected(_)) => k.w.done_as(&news[..stop]),
        _ => bad("panic-swallowed", format!("for_each over a view: {:?}", r)),
    }
    k.w.check("after for_each over a view was ended by a panic");
    r
}

fn end_of(x: usize) -> End {
    match x % 6 {
        0 | 1 => End::Drop,
        2 | 3 => End::Leak,
        4 => End::Panic,
        _ => End::EachPanic,
    }
}

/// Read-only views of views.
fn look_down<T: Sc>(w: &World<T>, m: &dyn KMat<T>, v: &View, depth: usize, r: &mut Prng, end: End) -> Result<(), Stop> {
    for k in 0..v.n() {
        let (i, j) = v.at(k);
        let want = w.exp[v.cell(i, j)];
        let g = need(
            lib(|| match k % 4 {
                0 => m.get(i, j),
                1 => m.get1(k),
                2 => m.get_un(i, j),
                _ => m.get1_un(k),
            }),
            "element of a read-only view",
        );
        bits_eq(g, want, &format!("element ({}, {}) of a read-only view", i, j));
    }
    if depth == 0 {
        if r.chance(1, 2) {
            let e = need(lib(|| m.ev()), "eval");
            for k in 0..v.n() {
                bits_eq(need(lib(|| e.get1(k)), "get1d"), w.exp[v.cell1(k)], "evaluated read-only view");
            }
            drop_lib(e);
        }
        return if end == End::Panic { lib(|| inject(Injected::Callback)) } else { Ok(()) };
    }
    let (tl, d) = gen_block(r, v);
    let sv = v.sub(tl, d);
    let what = format!("block at {:?} of dimension {:?} of a {} x {} view", tl, d, v.r, v.c);
    let res = lib(|| {
        let b = m.blk(tl, d);
        let r = pause(|| {
            eqn(need(lib(|| b.b().dim()), "dim"), d, &what);
            if sv.n() > 0 {
                let g = need(lib(|| b.b().slice(0, 1)[0]), "get_slice of a read-only view");
                bits_eq(g, w.exp[sv.cell(0, 0)], "first element of a read-only view by raw slice");
                let last = sv.cell(d.0 - 1, d.1 - 1) - sv.base;
                let g = need(lib(|| unsafe { *b.b().ptr().add(last) }), "get_pointer of a read-only view");
                bits_eq(g, w.exp[sv.base + last], "last element of a read-only view by pointer");
            }
            look_down(w, b.k(), &sv, depth - 1, r, end)
        });
        match r {
            Ok(()) => {}
            Err(Stop::Injected(x)) => inject(x),
            Err(Stop::Panic(x)) => pause(|| bad("unexpected-panic", x)),
        }
        if end == End::Leak {
            std::mem::forget(b)
        }
    });
    match res {
        Err(Stop::Panic(x)) => bad("unexpected-panic", format!("{}: {}", what, x)),
        r => r,
    }
}

fn after<T: Sc>(w: &mut World<T>, r: Result<(), Stop>, end: End) {
    match r {
        Ok(()) => {}
        Err(Stop::Injected(Injected::Callback)) if end == End::Panic || end == End::EachPanic => {}
        Err(e) => bad("unexpected-panic", format!("{:?}", e)),
    }
    w.check("after all views have ended");
}

fn run_op<T: Sc>(st: &mut St<T>, op: &Op) {
    let St { m, v, w, fresh, mem } = st;
    let depth = op.m(0, 6);
    let end = end_of(op.m(1, 6));
    let r = Prng::new(op.n(2) as u64 ^ 0x7a11);
    match op.k.as_str() {
        "chain" => {
            let mut k = Walk { w, fresh, r, end, between: op.m(3, 2) == 0 };
            let res = descend(&mut k, &mut **m, v, depth);
            after(w, res, end);
            // read back through the matrix itself
            for x in 0..v.n() {
                bits_eq(need(lib(|| m.get1(x)), "get1d"), w.exp[v.cell1(x)], &format!("element {} of the viewed matrix", x));
            }
        }
        "rchain" => {
            let mut r = r;
            let res = look_down(w, m.as_k(), v, depth, &mut r, end);
            after(w, res, end);
        }
        "split" => {
            let mut r = r;
            let at = (r.below(v.r as u64 + 1) as usize, r.below(v.c as u64 + 1) as usize);
            let b = need(lib(|| m.quarters(at)), "split_in_four_mut");
            let Some(mut q) = b else { return };
            let qv = [
                v.sub((0, 0), at),
                v.sub((0, at.1), (at.0, v.c - at.1)),
                v.sub((at.0, 0), (v.r - at.0, at.1)),
                v.sub(at, (v.r - at.0, v.c - at.1)),
            ];
            for _ in 0..1 + r.below(3) {
                let i = r.below(4) as usize;
                let mut k = Walk { w, fresh, r: Prng::new(r.next()), end, between: true };
                let res = descend(&mut k, q[i].km(), &qv[i], depth % 3);
                after(w, res, end);
            }
            if end == End::Leak {
                std::mem::forget(q)
            } else {
                drop_in_lib(q)
            }
            w.check("after all quarters have ended");
        }
        "lay" | "rlay" => {
            // a matrix laid over caller-supplied memory
            let mut r = r;
            let lay = op.m(4, 4);
            let (a, b) = (r.below(7) as usize, r.below(7) as usize);
            let v0 = lay_view(lay, a, b, op.n(5) as usize);
            let room = mem.cells.n;
            if v0.span() > room {
                return;
            }
            let off = r.below((room - v0.span()) as u64 + 1) as usize;
            let v = View { base: off, ..v0 };
            let (d, s) = ((v.r, v.c), (v.rs, v.cs));
            let ptr = unsafe { mem.cells.ptr.add(off) };
            let wh = "from_pointer";
            if op.k == "lay" {
                let mut m: Box<dyn KMatM<T>> = match lay {
                    0 => Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, RowMajor, Dynamic, Dynamic>::from_pointer(ptr, d) }), wh)),
                    1 => Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ColumnMajor, Dynamic, Dynamic>::from_pointer(ptr, d) }), wh)),
                    2 => Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), wh)),
                    _ => Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), wh)),
                };
                let mut k = Walk { w: mem, fresh, r: Prng::new(r.next()), end, between: true };
                let res = descend(&mut k, &mut *m, &v, depth % 4);
                after(mem, res, end);
                if end == End::Leak {
                    std::mem::forget(m)
                } else {
                    drop_lib(m)
                }
                mem.check("after the end of a matrix over caller-supplied memory");
            } else {
                let ptr = ptr as *const T;
                let m: Box<dyn KMat<T>> = match lay {
                    0 => Box::new(need(lib(|| unsafe { SliceMatrix::<'static, T, RowMajor, Dynamic, Dynamic>::from_pointer(ptr, d) }), wh)),
                    1 => Box::new(need(lib(|| unsafe { SliceMatrix::<'static, T, ColumnMajor, Dynamic, Dynamic>::from_pointer(ptr, d) }), wh)),
                    2 => Box::new(need(lib(|| unsafe { SliceMatrix::<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), wh)),
                    _ => Box::new(need(lib(|| unsafe { SliceMatrix::<'static, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), wh)),
                };
                let res = look_down(mem, &*m, &v, depth % 4, &mut r, end);
                after(mem, res, end);
                drop_lib(m);
            }
        }
        x => report::harness_error(&format!("unknown operation {}", x)),
    }
}
