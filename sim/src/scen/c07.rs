//! C07: misuse is refused without effect.

use super::expr;
use super::prod;
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::traits::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{arena, lib, report};

const OPS: &[&str] = &[
    "valid", "valid", "valid", "index", "index", "index", "shared", "shared", "block", "block", "nested", "split", "range", "ptr", "short", "short", "zeros", "dims", "dims", "add",
    "xget", "edge", "edge",
];

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 4);
    p.set("nobj", nt as i64);
    for i in 0..nt {
        gen_obj(r, p, i, true);
    }
    // Seen by all threads.
    gen_obj(r, p, nt, true);
    p.set("fam", r.below(expr::NFAM as u64) as i64);
    p.set("shape", r.below(expr::NSHAPE as u64) as i64);
    let d = gdim(r, true);
    p.set("er", d);
    let d = gdim(r, true);
    p.set("ec", d);
    p.set("esx", r.below(64) as i64);
    for t in 0..nt {
        for _ in 0..1 + r.below(12) {
            let k = *r.pick(OPS);
            let mut a: Vec<i64> = (0..12).map(|_| r.below(1 << 16) as i64).collect();
            if r.chance(1, 2) {
                a[11] = r.below(64) as i64;
            }
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (0, 40), (20, 20)]);
    p.rand_faults(r, k, s, 1500);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

/// A number that is `n` or more, without wrapping.
fn beyond(n: usize, x: usize) -> usize {
    match x % 12 {
        0..=2 => n,
        3 => n.saturating_add(1),
        4 => n.saturating_add(2),
        5 => n.saturating_add(7),
        6 => n.saturating_add(1 << 31),
        7 => n.saturating_add(1 << 32),
        8 => n.max(usize::MAX / 2),
        9 => n.max(usize::MAX / 2 + 1),
        10 => usize::MAX - n,
        _ => usize::MAX,
    }
    .max(n)
}

static mut CHECK: Option<Box<dyn Fn()>> = None;

#[allow(static_mut_refs)]
fn on_switch(_c: usize) {
    unsafe {
        if let Some(f) = &CHECK {
            f()
        }
    }
}

struct St<T: Sc> {
    o: Obj<T>,
    w: &'static mut World<T>,
    shared: *const Obj<T>,
    x: *const expr::Ex<T>,
    xv: View,
    xfam: usize,
    xwant: Vec<T>,
    fresh: i64,
}

fn go<T: Sc>(p: &Plan) {
    let nobj = p.u("nobj").clamp(1, CROWD_MAX);
    let mut worlds: Vec<*mut World<T>> = vec![];
    let sh: &'static Obj<T> = leak(obj_of::<T>(p, nobj, true, &|x| val(5000 + x as i64)));
    sh.mark_gaps(FRAME);
    worlds.push(World::new(sh.cells));

    let fam = p.u("fam") % expr::NFAM;
    let shape = expr::shape_of(fam, p.u("shape"));
    let views = exviews(fam, p.u("er"), p.u("ec"), p.u("esx"));
    let mut ds = vec![];
    let mut cs = vec![];
    for (i, v) in views.iter().enumerate() {
        let (d, c) = any_c::<T>(5, v.span(), 50 + i as u32, &|x| val(7 * (i as i64 + 1) + x as i64));
        ds.push(d);
        cs.push(c);
    }
    for c in &cs {
        worlds.push(World::new(*c));
    }
    let ds: [AnyC<T>; 3] = ds.try_into().ok().unwrap();
    let x: &'static expr::Ex<T> = leak(need(expr::build(fam, shape, ds, views, T::mk(3, 0), T::mk(2, 0)), "expression"));
    let md = expr::model(shape, 3, 2);
    let xv = View { base: 0, ..views[0] };
    let xwant: Vec<T> = (0..xv.n())
        .map(|k| {
            let (i, j) = xv.at(k);
            expr::value(&md, |o| cs[o].get(views[o].cell(i, j)))
        })
        .collect();

    for t in 0..nobj {
        let o = obj_of::<T>(p, t, false, &|x| val(100 + x as i64));
        o.mark_gaps(FRAME);
        o.mark_elems(arena::S_TASK0 + t as u8);
        let w = World::new(o.cells);
        worlds.push(w as *mut _);
        let st: &'static mut St<T> =
            leak(St { o, w, shared: sh, x, xv, xfam: fam, xwant: xwant.clone(), fresh: 10000 * (t as i64 + 1) });
        let ops: &[Op] = p.tasks.get(t).map(|x| &x[..]).unwrap_or(&[]);
        spawn_ops(t, ops, move |_, op| run_op(st, op));
    }
    let ws = worlds.clone();
    unsafe {
        CHECK = Some(Box::new(move || {
            for w in &ws {
                (**w).check("while misused calls are made")
            }
        }))
    };
    sched::sim().on_switch = Some(on_switch);
    sched::run();
    sched::sim().on_switch = None;
    for w in worlds {
        unsafe { (*w).check("when all threads have ended") };
    }
}

fn exviews(fam: usize, er: usize, ec: usize, esx: usize) -> [View; 3] {
    let (lx, ly) = expr::fam_lays(fam);
    let ec = if fam % expr::NFAM == 7 { er } else { ec };
    [lay_view(lx, er, ec, esx), lay_view(ly, er, ec, esx / 8), lay_view(lx, er, ec, esx / 2)]
}

fn check<T: Sc>(st: &mut St<T>, what: &str) {
    st.w.check(what);
}

/// Element accesses out of range; `own` for the writing ones.
fn bad_index<T: Sc>(o: &mut Obj<T>, write: bool, op: &Op, fresh: T) {
    let v = o.v;
    let (i, j) = (op.m(0, v.r), op.m(1, v.c));
    let far = op.n(3) as usize;
    let (bi, bj) = (beyond(v.r, far), beyond(v.c, far));
    let bk = beyond(v.n(), far);
    let (i, j) = if v.ord == Ord1::Tri { (i.min(j), i.max(j)) } else { (i, j) };
    let name = o.name();
    if op.m(5, 6) == 0 {
        // the same through references to the matrix
        let (wi, wj) = if op.m(6, 2) == 0 { (bi, j) } else { (i, bj) };
        let what = format!("access through a reference at ({}, {}) or {} of a {} x {} matrix ({})", wi, wj, bk, v.r, v.c, name);
        match op.m(2, if write { 6 } else { 3 }) {
            0 => refused(lib(|| o.r().rget(0, wi, wj, 0)), &what),
            1 => refused(lib(|| o.r().rget(1, i, j, bk)), &what),
            2 => refused(lib(|| o.r().rget(4 + op.m(7, 2), wi, wj, bk)), &what),
            3 => refused(lib(|| o.w().rset(4 * op.m(7, 2), wi, wj, 0, fresh)), &what),
            4 => refused(lib(|| o.w().rset(1 + 4 * op.m(7, 2), i, j, bk, fresh)), &what),
            _ => refused(lib(|| o.w().rmget(op.m(7, 2), wi, wj, bk)), &what),
        }
        return;
    }
    let n = if write { 9 } else { 5 };
    let d = |a: usize, b: usize| format!("({}, {}) of a {} x {} matrix ({})", a, b, v.r, v.c, name);
    match op.m(2, n) {
        0 => refused(lib(|| o.r().get(bi, j)), &format!("get at {}", d(bi, j))),
        1 => refused(lib(|| o.r().get(i, bj)), &format!("get at {}", d(i, bj))),
        2 => refused(lib(|| o.r().get1(bk)), &format!("get1d at {} of {} elements ({})", bk, v.n(), name)),
        3 => refused(lib(|| o.r().get(bi, bj)), &format!("get at {}", d(bi, bj))),
        4 | 8 if v.ord == Ord1::Tri && v.r > 1 => {
            let hi = 1 + op.m(0, v.r - 1);
            let lo = op.m(1, hi);
            if op.m(2, n) == 4 {
                refused(lib(|| o.r().get(hi, lo)), &format!("get below the diagonal at {}", d(hi, lo)))
            } else {
                refused(lib(|| *o.w().mref(hi, lo) = fresh), &format!("get_mut below the diagonal at {}", d(hi, lo)))
            }
        }
        4 => {
            // Position within the transposed matrix only.
            if v.r != v.c {
                let (a, b) = if v.r < v.c { (v.r + op.m(0, v.c - v.r), op.m(1, v.r)) } else { (op.m(0, v.c), v.c + op.m(1, v.r - v.c)) };
                refused(lib(|| o.r().get(a, b)), &format!("get at {}", d(a, b)));
            }
        }
        5 => refused(lib(|| *o.w().mref(bi, j) = fresh), &format!("get_mut at {}", d(bi, j))),
        6 => refused(lib(|| *o.w().mref(i, bj) = fresh), &format!("get_mut at {}", d(i, bj))),
        7 => refused(lib(|| *o.w().mref1(bk) = fresh), &format!("get1d_mut at {} of {} elements ({})", bk, v.n(), name)),
        _ => {
            if v.r != v.c {
                let (a, b) = if v.r < v.c { (v.r + op.m(0, v.c - v.r), op.m(1, v.r)) } else { (op.m(0, v.c), v.c + op.m(1, v.r - v.c)) };
                refused(lib(|| *o.w().mref(a, b) = fresh), &format!("get_mut at {}", d(a, b)));
            }
        }
    }
}

/// A block that is not within r x c; (top left, dimension).
fn bad_block(op: &Op, r: usize, c: usize) -> ((usize, usize), (usize, usize)) {
    let axis = |n: usize, far: usize, how: usize, a: usize| -> (usize, usize) {
        match how {
            0 => {
                // begins inside, too long
                let t = a % (n + 1);
                (t, beyond(n - t + 1, far))
            }
            1 => (beyond(n + 1, far), 0),
            2 => (beyond(n + 1, far), 1),
            3 => {
                // the sum wraps around to something within the matrix
                let t = usize::MAX - a % 5;
                (t, (a % (n + 1)).wrapping_sub(t).max(1))
            }
            4 => {
                let len = usize::MAX - a % 5;
                ((a % (n + 1)).wrapping_sub(len), len)
            }
            _ => (1.min(n), usize::MAX),
        }
    };
    let good = |n: usize, a: usize| {
        let t = a % (n + 1);
        (t, (a / 7) % (n - t + 1))
    };
    let (mut x, mut y) = (good(r, op.n(5) as usize), good(c, op.n(6) as usize));
    let which = op.m(2, 5);
    if which < 2 || which == 4 {
        x = axis(r, op.n(3) as usize, op.m(7, 6), op.n(0) as usize);
    }
    if which >= 2 {
        y = axis(c, op.n(4) as usize, op.m(8, 6), op.n(1) as usize);
    }
    ((x.0, y.0), (x.1, y.1))
}

fn run_op<T: Sc>(st: &mut St<T>, op: &Op) {
    st.fresh += 100;
    let fresh: T = val(st.fresh);
    let v = st.o.v;
    match op.k.as_str() {
        "valid" => valid(st, op),
        "index" => {
            bad_index(&mut st.o, true, op, fresh);
            check(st, "after an access out of range");
        }
        "shared" => {
            let sh = st.shared as *mut Obj<T>;
            if op.m(4, 2) == 0 {
                bad_index(unsafe { &mut *sh }, false, op, fresh);
            } else {
                let sh = unsafe { &*sh };
                for k in 0..sh.v.n() {
                    bits_eq(need(lib(|| sh.r().get1(k)), "get1d"), sh.cells.get(sh.v.cell1(k)), "element of the shared matrix");
                }
            }
        }
        "block" => {
            let (tl, d) = bad_block(op, v.r, v.c);
            let name = st.o.name();
            let what = format!("block at {:?} of dimension {:?} in a {} x {} matrix ({})", tl, d, v.r, v.c, name);
            if op.m(9, 2) == 0 {
                if let Some(k) = st.o.k() {
                    refused(lib(|| drop(k.blk(tl, d))), &what);
                }
            } else if let Some(k) = st.o.km() {
                refused(lib(|| drop(k.blk_m(tl, d))), &what);
            }
            check(st, "after a refused block");
        }
        "nested" => {
            // Within the matrix, but outside of the block.
            let tl = (op.m(0, v.r + 1), op.m(1, v.c + 1));
            let d = (op.m(5, v.r - tl.0 + 1), op.m(6, v.c - tl.1 + 1));
            let Some(k) = st.o.km() else { return };
            let mut b = need(lib(|| k.blk_m(tl, d)), "block_mut");
            let what = |s: &str| format!("{} in a block of dimension {:?} at {:?} of a {} x {} matrix", s, d, tl, v.r, v.c);
            let far = op.n(3) as usize;
            match op.m(2, 9) {
                0 => {
                    let (tl2, d2) = bad_block(op, d.0, d.1);
                    refused(lib(|| drop(b.k().blk(tl2, d2))), &what(&format!("block at {:?} of dimension {:?}", tl2, d2)));
                }
                1 => {
                    let (tl2, d2) = bad_block(op, d.0, d.1);
                    refused(lib(|| drop(b.km().blk_m(tl2, d2))), &what(&format!("block_mut at {:?} of dimension {:?}", tl2, d2)));
                }
                2 => refused(lib(|| b.b().get(beyond(d.0, far), op.m(4, d.1))), &what("get beyond the last row")),
                3 => refused(lib(|| b.b().get(op.m(4, d.0), beyond(d.1, far))), &what("get beyond the last column")),
                4 => refused(lib(|| b.b().get1(beyond(d.0 * d.1, far))), &what("get1d beyond the last element")),
                5 => refused(lib(|| *b.w().mref(beyond(d.0, far), op.m(4, d.1)) = fresh), &what("get_mut beyond the last row")),
                6 => refused(lib(|| *b.w().mref(op.m(4, d.0), beyond(d.1, far)) = fresh), &what("get_mut beyond the last column")),
                7 => refused(lib(|| *b.w().mref1(beyond(d.0 * d.1, far)) = fresh), &what("get1d_mut beyond the last element")),
                _ => {
                    // The storage of a block ends with its last element.
                    let s = View { base: 0, r: d.0, c: d.1, ..v }.span();
                    let last = beyond(s + 1, far);
                    let first = if far % 2 == 0 { s.saturating_sub(1) } else { last - 1 };
                    refused(lib(|| b.b().slice(first, last).len()), &what("raw range beyond the last element"));
                }
            }
            drop_in_lib(b);
            check(st, "after a refused call on a block");
        }
        "split" => split_op::<T>(op),
        "range" => {
            let n = if st.o.con == 6 { v.span() } else { st.o.cells.n };
            let far = op.n(3) as usize;
            let (a, b) = match op.m(2, 5) {
                0 => (op.m(0, n.max(1)), beyond(n + 1, far)),
                1 => (n, beyond(n + 1, far)),
                2 => (beyond(n + 1, far).min(usize::MAX - 1), usize::MAX),
                3 => (0, beyond(n + 1, far)),
                _ => (1 + op.m(0, n + 2), op.m(1, 1 + op.m(0, n + 2))),
            };
            let what = format!("raw range {}..{} of a storage of {} elements ({})", a, b, n, st.o.name());
            if op.m(4, 2) == 0 {
                refused(lib(|| st.o.b().slice(a, b).len()), &format!("get_slice, {}", what));
            } else {
                refused(lib(|| st.o.w().slice_m(a, b).len()), &format!("get_slice_mut, {}", what));
            }
            check(st, "after a refused raw range");
        }
        "ptr" => laid::<T>(op),
        "short" => short::<T>(op),
        "zeros" => zeros::<T>(op),
        "dims" => dims::<T>(op),
        "add" => add::<T>(op),
        "xget" => {
            let x = unsafe { &*st.x };
            let xv = st.xv;
            let far = op.n(3) as usize;
            let r = x.r();
            let (i, j) = (op.m(0, xv.r), op.m(1, xv.c));
            let (i, j) = if xv.ord == Ord1::Tri { (i.min(j), i.max(j)) } else { (i, j) };
            let what = format!("of an expression of dimension {} x {} (family {})", xv.r, xv.c, st.xfam);
            match op.m(2, 5) {
                0 => refused(lib(|| r.get(beyond(xv.r, far), j)), &format!("get beyond the last row {}", what)),
                1 => refused(lib(|| r.get(i, beyond(xv.c, far))), &format!("get beyond the last column {}", what)),
                2 => refused(lib(|| r.get1(beyond(xv.n(), far))), &format!("get1d beyond the last element {}", what)),
                3 if xv.ord == Ord1::Tri && xv.r > 1 => {
                    let hi = 1 + op.m(0, xv.r - 1);
                    refused(lib(|| r.get(hi, op.m(1, hi))), &format!("get below the diagonal {}", what))
                }
                _ => {}
            }
            if xv.n() > 0 {
                let k = xv.n() - 1;
                eq(need(lib(|| r.get1(k)), "get1d of the last element"), st.xwant[k], "last element of the shared expression");
                let k = xv.idx(i, j);
                eq(need(lib(|| r.get(i, j)), "get"), st.xwant[k], "element of the shared expression");
            }
        }
        "edge" => edge(st, op),
        k => report::harness_error(&format!("unknown operation {}", k)),
    }
}

fn valid<T: Sc>(st: &mut St<T>, op: &Op) {
    let v = st.o.v;
    let St { o, w, fresh, .. } = st;
    if o.km().is_some() {
        let k = MV_OPS[op.m(11, MV_OPS.len())];
        let op = Op { k: k.into(), a: op.a[..8.min(op.a.len())].to_vec() };
        return mv_op(w, o.km().unwrap(), &v, &op, fresh);
    }
    let n = v.n();
    if n == 0 {
        return;
    }
    *fresh += 1;
    let x: T = val(*fresh);
    let k = op.m(0, n);
    let (i, j) = v.at(k);
    let c = v.cell(i, j);
    shape_eq(o.r(), &v, o.name());
    match op.m(11, 7) {
        5 => bits_eq(need(lib(|| o.r().rget(op.m(10, 6), i, j, k)), "get"), w.exp[c], "read through a reference"),
        6 => {
            w.begin(vec![(c, x)]);
            need(lib(|| o.w().rset(op.m(10, 6), i, j, k, x)), "write through a mutable reference");
            w.done();
        }
        0 => bits_eq(need(lib(|| o.r().get(i, j)), "get"), w.exp[c], "get"),
        1 => bits_eq(need(lib(|| o.r().get1(k)), "get1d"), w.exp[c], "get1d"),
        2 => {
            w.begin(vec![(c, x)]);
            need(lib(|| *o.w().mref(i, j) = x), "get_mut");
            w.done();
        }
        3 => {
            w.begin(vec![(c, x)]);
            need(lib(|| *o.w().mref1(k) = x), "get1d_mut");
            w.done();
        }
        _ => {
            let base = *fresh;
            let news: Vec<(usize, T)> = (0..n).map(|k| (v.cell1(k), val(base + k as i64))).collect();
            w.begin(news.clone());
            let mut k = 0;
            need(
                lib(|| {
                    o.w().each(&mut |e| {
                        if k < n {
                            *e = news[k].1;
                        }
                        k += 1;
                    })
                }),
                "for_each",
            );
            eqn(k, n, "elements visited");
            w.done();
        }
    }
    w.check("after a valid call");
}

/// Valid calls at the very edge of the range.
fn edge<T: Sc>(st: &mut St<T>, op: &Op) {
    let v = st.o.v;
    let n = v.n();
    let store = if st.o.con == 6 { v.span() } else { st.o.cells.n };
    match op.m(2, 6) {
        0 | 1 => {
            // blocks that end at the last row and column, down to empty ones
            let tl = match op.m(0, 4) {
                0 => (v.r, v.c),
                1 => (0, v.c),
                2 => (v.r, 0),
                _ => (op.m(5, v.r + 1), op.m(6, v.c + 1)),
            };
            let d = (v.r - tl.0, v.c - tl.1);
            let d = if op.m(1, 4) == 0 { (0, 0) } else { d };
            let w = format!("block at {:?} of dimension {:?} of a {} x {} matrix", tl, d, v.r, v.c);
            let sv = v.sub(tl, d);
            if op.m(2, 2) == 0 {
                let St { o, w: wd, .. } = st;
                if let Some(k) = o.k() {
                    let b = need(lib(|| k.blk(tl, d)), &w);
                    eqn(need(lib(|| b.b().dim()), "dim"), d, "dimension of a block");
                    if sv.n() > 0 {
                        let g = need(lib(|| b.b().get(d.0 - 1, d.1 - 1)), "last element of a block");
                        bits_eq(g, wd.exp[sv.cell(d.0 - 1, d.1 - 1)], "last element of a block");
                        let b2 = need(lib(|| b.k().blk((d.0, d.1), (0, 0))), "empty block at the end of a block");
                        eqn(need(lib(|| b2.b().dim()), "dim"), (0, 0), "dimension of an empty block");
                    }
                }
            } else {
                let x: T = val(st.fresh);
                let St { o, w: wd, .. } = st;
                if let Some(k) = o.km() {
                    let mut b = need(lib(|| k.blk_m(tl, d)), &w);
                    eqn(need(lib(|| b.b().dim()), "dim"), d, "dimension of a block");
                    if sv.n() > 0 {
                        wd.begin(vec![(sv.cell(d.0 - 1, d.1 - 1), x)]);
                        need(lib(|| *b.w().mref1(d.0 * d.1 - 1) = x), "write to the last element of a block");
                        wd.done();
                    }
                }
            }
        }
        2 if n > 0 => {
            let k = n - 1;
            let (i, j) = v.at(k);
            bits_eq(need(lib(|| st.o.r().get1(k)), "get1d of the last element"), st.w.exp[v.cell1(k)], "last element");
            bits_eq(need(lib(|| st.o.r().get(i, j)), "get of the last element"), st.w.exp[v.cell1(k)], "last element");
        }
        3 if store > 0 && n == store => {
            // the whole storage; it has no cells between the elements
            let s = need(lib(|| st.o.b().slice(0, store).iter().map(|x| x.comp()).collect::<Vec<_>>()), "get_slice of the whole storage");
            eqn(s.len(), store, "length of the whole storage");
            drop_in_lib(s);
            eqn(need(lib(|| st.o.b().slice(store - 1, store).len()), "get_slice of the last element"), 1, "length of a range of one");
        }
        4 if store > 0 && n == store => {
            let x: T = val(st.fresh);
            let St { o, w: wd, .. } = st;
            wd.begin(vec![(store - 1, x)]);
            need(lib(|| o.w().slice_m(store - 1, store)[0] = x), "get_slice_mut of the last element");
            wd.done();
        }
        _ => {
            if v.n() > 0 && v.ord == Ord1::Tri {
                let k = v.idx(v.r - 1, v.r - 1);
                bits_eq(need(lib(|| st.o.r().get(v.r - 1, v.r - 1)), "get of the last diagonal element"), st.w.exp[v.cell1(k)], "last diagonal element");
            }
        }
    }
    check(st, "after a valid call at the edge");
}

fn split_op<T: Sc>(op: &Op) {
    let (r, c) = (op.m(0, 8), op.m(1, 8));
    let cells = Cells::filled(r * c, |i| val::<T>(300 + i as i64));
    let w = World::new(cells);
    let mut m = need(lib(|| GenericBaseMatrix::<T, RowMajor, _, Dynamic, Dynamic>::from_data(SliceContainerMut::new(cells.slice_mut()), RowMajor::new((r, c)))), "from_data");
    let far = op.n(3) as usize;
    let s = match op.m(2, 4) {
        0 => (beyond(r + 1, far), op.m(5, c + 1)),
        1 => (op.m(5, r + 1), beyond(c + 1, far)),
        2 => (beyond(r + 1, far), beyond(c + 1, op.n(6) as usize)),
        _ => {
            // At the edge.
            let s = *[(0, 0), (r, c), (0, c), (r, 0), (r, op.m(5, c + 1)), (op.m(5, r + 1), c)].get(op.m(6, 6)).unwrap();
            let q = need(lib(|| m.split_in_four_mut(s)), "split at the edge");
            let d = [q.0.dim(), q.1.dim(), q.2.dim(), q.3.dim()];
            eqn(d, [s, (s.0, c - s.1), (r - s.0, s.1), (r - s.0, c - s.1)], "dimensions of the quarters");
            // Indices valid in the whole, not in the quarter.
            let mut q = [q.0, q.1, q.2, q.3];
            let t = op.m(7, 4);
            let d = d[t];
            let q: &mut dyn WMat<T> = &mut q[t];
            refused(lib(|| q.get(beyond(d.0, far), op.m(8, d.1))), "get beyond the last row of a quarter");
            refused(lib(|| *q.mref(op.m(8, d.0), beyond(d.1, far)) = T::nan()), "get_mut beyond the last column of a quarter");
            refused(lib(|| q.get1(beyond(d.0 * d.1, far))), "get1d beyond the last element of a quarter");
            w.check("after misuse of a quarter");
            return;
        }
    };
    refused(lib(|| drop(m.split_in_four_mut(s))), &format!("split of a {} x {} matrix at {:?}", r, c, s));
    w.check("after a refused split");
    if r * c > 0 {
        bits_eq(need(lib(|| RMat::get(&m, r - 1, c - 1)), "get"), w.exp[r * c - 1], "last element");
    }
}

/// A matrix laid over memory ends with its last element, whatever lies behind it.
fn laid<T: Sc>(op: &Op) {
    let lay = op.m(0, 4);
    let v = lay_view(lay, op.m(1, 9), op.m(2, 9), op.n(3) as usize);
    let s = v.span();
    let cells = Cells::filled(s + 8, |i| val::<T>(i as i64));
    let before = cells.snap();
    let p = unsafe { cells.ptr.add(4) };
    let (d, st) = ((v.r, v.c), (v.rs, v.cs));
    let far = op.n(5) as usize;
    let w = "from_pointer";
    macro_rules! m {
        ($k:ident, $l:ident $(, $st:expr)?) => {
            need(lib(|| unsafe { $k::<'static, T, $l, Dynamic, Dynamic>::from_pointer(p, d $(, $st)?) }), w)
        };
    }
    macro_rules! test {
        ($m:expr) => {{
            let m = $m;
            let m: &dyn BMat<T> = &m;
            shape_eq(m.as_r(), &v, "a matrix over memory");
            let at = || format!("of a {} x {} matrix with {} cells over memory ({})", v.r, v.c, s, LAYNAME[lay]);
            match op.m(4, 4) {
                0 => refused(lib(|| m.slice(s.saturating_sub(1), beyond(s + 1, far)).len()), &format!("raw range beyond the end {}", at())),
                1 => refused(lib(|| m.get(beyond(v.r, far), 0)), &format!("get beyond the last row {}", at())),
                2 => refused(lib(|| m.get(0, beyond(v.c, far))), &format!("get beyond the last column {}", at())),
                _ => refused(lib(|| m.get1(beyond(v.n(), far))), &format!("get1d beyond the last element {}", at())),
            }
            if s > 0 {
                let g = need(lib(|| m.slice(0, s)[s - 1]), "get_slice");
                bits_eq(g, cells.get(4 + s - 1), "last cell of a matrix over memory");
            }
        }};
    }
    match (lay, op.m(6, 2)) {
        (0, 0) => test!(m!(SliceMatrix, RowMajor)),
        (1, 0) => test!(m!(SliceMatrix, ColumnMajor)),
        (2, 0) => test!(m!(SliceMatrix, ArbitraryStrideRowMajor, st)),
        (3, 0) => test!(m!(SliceMatrix, ArbitraryStrideColumnMajor, st)),
        (0, _) => test!(m!(SliceMatrixMut, RowMajor)),
        (1, _) => test!(m!(SliceMatrixMut, ColumnMajor)),
        (2, _) => test!(m!(SliceMatrixMut, ArbitraryStrideRowMajor, st)),
        _ => test!(m!(SliceMatrixMut, ArbitraryStrideColumnMajor, st)),
    }
    if cells.snap() != before {
        bad("storage-corrupted", "memory under a matrix was changed by a refused call".into());
    }
}

/// Storage too short for layout and dimension.
fn short<T: Sc>(op: &Op) {
    let lay = pick_lay(op.n(0));
    let (r, c, sx) = (op.m(1, 9), op.m(2, 9), op.n(3) as usize);
    let v = lay_view(lay, r, c, sx);
    let mut dim = (r, c);
    let mut st = (v.rs, v.cs);
    let need_n = v.span();
    let mut n = if need_n == 0 { 0 } else { op.m(5, need_n) };
    if op.m(6, 4) == 0 && need_n > 0 {
        n = need_n - 1;
    }
    if need_n == 0 || op.m(4, 4) == 0 {
        // Extents that do not fit into an index.
        n = op.m(5, 9);
        let big = |x: usize| [1usize << 32, 1 << 33, 1 << 63, usize::MAX, usize::MAX / 2 + 1, (1 << 63) + 1, 1 << 40][x % 7];
        match op.m(6, 4) {
            0 => dim = (big(sx), big(sx / 7)),
            1 => dim = (big(sx), 2 + sx % 3),
            2 => dim = (2 + sx % 3, big(sx)),
            _ => {
                dim = (2 + r, 2 + c);
                st = if sx % 2 == 0 { (1 << 63, 1 << 63) } else { (big(sx / 2), big(sx / 14)) };
                if st.0 < 9 && st.1 < 9 {
                    return;
                }
            }
        }
        match lay {
            9.. => return,
            0 | 1 | 4 | 5 | 8 if op.m(6, 4) == 3 => return,
            2 | 3 if op.m(6, 4) == 0 => st = (1, 1),
            2 | 3 if op.m(6, 4) < 3 => st = (c.max(1), 1),
            6 | 7 if op.m(6, 4) == 3 => {}
            6 | 7 => st = (1 + sx % 3, 1 + sx % 3),
            _ => {}
        }
        // Strides of one in both directions are short of the extent in any case.
        let ext = |d: usize, s: usize| (d as u128 - 1).wrapping_mul(s as u128);
        let want: u128 = match lay {
            0 | 1 => dim.0 as u128 * dim.1 as u128,
            2 | 3 => ext(dim.0, st.0) + ext(dim.1, st.1) + 1,
            4 => dim.0 as u128,
            5 => dim.1 as u128,
            6 => ext(dim.0, st.0) + 1,
            7 => ext(dim.1, st.1) + 1,
            _ => dim.0 as u128 * (dim.0 as u128 + 1) / 2,
        };
        if want <= n as u128 + 3 {
            return;
        }
    }
    if lay >= 9 {
        dim = (v.r, v.c);
    }
    // A container with exactly n elements.
    let con = op.m(7, 4);
    let cells = Cells::<T>::filled(n, |i| val(500 + i as i64));
    let before = cells.snap();
    let mut ro = false;
    let d: AnyC<T> = match con {
        0 => AnyC::S(SliceContainerMut::new(cells.slice_mut())),
        1 => {
            ro = true;
            AnyC::R(SliceContainer::new(cells.slice()))
        }
        2 => AnyC::M(SimStore::new(cells, new_id())),
        _ => AnyC::V(need(lib(|| VectorContainer::<T>::new(n)), "VectorContainer::new")),
    };
    let _ = ro;
    let what = format!("{} of dimension {:?} and stride {:?} over a storage of {} elements", LAYNAME[lay], dim, st, n);
    let r = if lay >= 9 {
        fixed(lay, Some(d)).map(drop)
    } else {
        lib(|| match lay {
            0 => drop(G::<T, _>::from_data(d, RowMajor::new(dim))),
            1 => drop(G::<T, _>::from_data(d, ColumnMajor::new(dim))),
            2 => drop(G::<T, _>::from_data(d, ArbitraryStrideRowMajor::new(dim, st))),
            3 => drop(G::<T, _>::from_data(d, ArbitraryStrideColumnMajor::new(dim, st))),
            4 => drop(GC::<T, _>::from_data(d, ColumnVector::new(dim.0))),
            5 => drop(GR::<T, _>::from_data(d, RowVector::new(dim.1))),
            6 => drop(GC::<T, _>::from_data(d, ArbitraryStrideColumnVector::new(dim.0, st.0))),
            7 => drop(GR::<T, _>::from_data(d, ArbitraryStrideRowVector::new(dim.1, st.1))),
            8 => drop(G::<T, _>::from_data(d, UpperTriangular::new(dim.0))),
            _ => unreachable!(),
        })
    };
    refused(r,
        &what,
    );
    if cells.snap() != before {
        bad("storage-corrupted", format!("{}: the storage was changed", what));
    }
}

fn zeros<T: Sc>(op: &Op) {
    let (r, c) = (op.m(0, 9), op.m(1, 9));
    let o = if r == c { c + 1 + op.m(3, 3) } else { c };
    let not1 = if r == 1 { 2 + op.m(3, 5) } else { r };
    // Products that wrap to a small number.
    let (hr, hc) = match op.m(4, 7) {
        0 => (1usize << 32, 1usize << 32),
        1 => (1 << 63, 2),
        2 => (2, (1 << 63) + 1),
        3 => (1 << 33, 1 << 31),
        4 => (3, usize::MAX / 3 + 2),
        5 => (usize::MAX, usize::MAX),
        _ => (usize::MAX, 8),
    };
    let wraps = hr.wrapping_mul(hc) < 1000;
    match op.m(2, 11) {
        0 if wraps => refused(lib(|| drop(MatrixD::<T, RowMajor>::zeros_from_dim(hr, hc))), "zero matrix whose size overflows"),
        1 if wraps => refused(lib(|| drop(MatrixD::<T, ColumnMajor>::zeros_from_dim(hr, hc))), "zero matrix whose size overflows"),
        2 => refused(lib(|| drop(UpperTriangularMatrix::<T>::zeros_from_dim(r, o))), &format!("upper triangular matrix of dimension {} x {}", r, o)),
        3 => refused(lib(|| drop(ColumnVectorD::<T>::zeros_from_dim(c, not1))), &format!("column vector of dimension {} x {}", c, not1)),
        4 => refused(lib(|| drop(RowVectorD::<T>::zeros_from_dim(not1, c))), &format!("row vector of dimension {} x {}", not1, c)),
        5 => refused(lib(|| ColumnVector::from_dimension((c, not1)).dim()), &format!("ColumnVector::from_dimension(({}, {}))", c, not1)),
        6 => refused(lib(|| RowVector::from_dimension((not1, c)).dim()), &format!("RowVector::from_dimension(({}, {}))", not1, c)),
        7 => refused(lib(|| UpperTriangular::from_dimension((r, o)).dim()), &format!("UpperTriangular::from_dimension(({}, {}))", r, o)),
        // at the edge
        8 => {
            let m = need(lib(|| ColumnVectorD::<T>::zeros_from_dim(r, 1)), "column vector");
            eqn(m.dim(), (r, 1), "dimension");
            drop_in_lib(m);
        }
        9 => {
            let m = need(lib(|| RowVectorD::<T>::zeros_from_dim(1, c)), "row vector");
            eqn(m.dim(), (1, c), "dimension");
            drop_in_lib(m);
        }
        _ => {
            let m = need(lib(|| UpperTriangularMatrix::<T>::zeros_from_dim(r, r)), "upper triangular matrix");
            eqn(m.dim(), (r, r), "dimension");
            drop_in_lib(m);
        }
    }
}

/// Products of operands that do not fit together.
fn dims<T: Sc>(op: &Op) {
    let form = op.m(0, 3);
    let kinds = prod::kinds(form, op.n(1) as usize);
    let (m, k, n) = prod::dims(form, 1 + op.m(2, 7), 1 + op.m(3, 7), 1 + op.m(4, 7));
    let other = |d: usize| match op.m(5, 4) {
        0 => d + 1,
        1 if d > 1 => d - 1,
        2 => d + 1 + op.m(6, 7),
        _ => 2 * d,
    };
    let (mut m2, mut k2, mut n2) = (m, k, n);
    let isdot = T::ID == 1 && op.m(8, 4) == 0;
    let mut w = op.m(7, 8);
    if isdot {
        w = 0;
    }
    match w {
        0..=2 => k2 = other(k),
        3 | 4 => m2 = other(m),
        5 | 6 => n2 = other(n),
        _ => {
            // transposed target
            m2 = n;
            n2 = m;
        }
    }
    // A vector's other dimension is always 1.
    if form == 1 {
        n2 = 1;
    }
    if form == 2 {
        m2 = 1;
    }
    let sx = op.n(6) as usize;
    let con = op.n(9) as usize;
    let a = prod::make_p::<T>(kinds.0, con, m, k, sx, new_id(), &|i, j| small_val(1, i, j), T::nan());
    let b = prod::make_p::<T>(kinds.1, con / 6, k2, n, sx / 3, new_id(), &|i, j| small_val(2, i, j), T::nan());
    let mut c = prod::make_p::<T>(kinds.2, con / 36, m2, n2, sx / 5, new_id(), &|i, j| small_val(3, i, j), T::nan());
    let before = [a.cells.snap(), b.cells.snap(), c.cells.snap()];
    let what = format!("product of {} x {} and {} x {} into {} x {}", m, k, k2, n, m2, n2);
    let fits = (m, k, n) == (m2, k2, n2);
    if isdot {
        match prod::dot(&a.m, &b.m) {
            Some(r) if !fits => refused(r.map(|_| ()), &what),
            _ => {}
        }
    } else {
        let r = lib(|| prod::matmul(T::mk(1, 0), &a.m, &b.m, T::mk(1, 0), &mut c.m));
        if fits {
            need(r, "matmul");
            return;
        }
        refused(r, &what);
    }
    if before != [a.cells.snap(), b.cells.snap(), c.cells.snap()] {
        bad("effect-of-misuse", format!("{}: an operand or the target was changed", what));
    }
    // The operands are still good for a product that fits.
    let mut d = prod::make_p::<T>(kinds.2, con, m, n, sx, new_id(), &|_, _| T::nan(), T::nan());
    let b = prod::make_p::<T>(kinds.1, con, k, n, sx, new_id(), &|i, j| small_val(2, i, j), T::nan());
    need(lib(|| prod::matmul(T::mk(1, 0), &a.m, &b.m, T::mk(0, 0), &mut d.m)), "matmul");
    let want = ref_mm((1, 0), &small_vals::<T>(m, k, 1), &small_vals::<T>(k, n, 2), (0, 0), &vec![T::mk(0, 0); m * n], m, k, n);
    for i in 0..m {
        for j in 0..n {
            eq(d.cells.get(d.v.cell(i, j)), want[i * n + j], "product after a refused product");
        }
    }
}

/// Sums of operands of different dimensions.
fn add<T: Sc>(op: &Op) {
    let fam = *[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11].get(op.m(0, 11)).unwrap();
    let shape = *[0usize, 3, 4, 5, 6, 8, 9, 11].get(op.m(1, 8)).unwrap();
    let shape = if fam < 8 && op.m(2, 3) == 0 { [12, 14, 15][op.m(1, 3)] } else { shape };
    let (r, c, sx) = (op.m(3, 8), op.m(4, 8), op.n(5) as usize);
    let (r2, c2) = match op.m(6, 5) {
        0 => (r + 1, c),
        1 => (r, c + 1),
        2 if r != c => (c, r),
        3 if (r + c) % 2 == 0 && r > 0 => (r - 1, c),
        _ => (r + 1 + op.m(7, 3), c + 1 + op.m(8, 3)),
    };
    let good = exviews(fam, r, c, sx);
    let other = exviews(fam, r2, c2, sx);
    if (good[0].r, good[0].c) == (other[0].r, other[0].c) {
        return;
    }
    // Operand 1 is the one that differs; an odd one of three operands may be the last.
    let three = matches!(shape, 5 | 6 | 11 | 14);
    let odd = if three && op.m(9, 2) == 0 { 2 } else { 1 };
    let mut views = good;
    views[odd] = other[odd];
    if odd == 1 && op.m(10, 2) == 0 {
        // Also same number of elements, other shape.
        views[2] = good[2];
    }
    let mut ds = vec![];
    let mut cs = vec![];
    for (i, v) in views.iter().enumerate() {
        let n = v.span();
        let cells = Cells::<T>::filled(n + 60, |x| val(7 * (i as i64 + 1) + x as i64));
        ds.push(AnyC::S(SliceContainerMut::new(cells.slice_mut())));
        cs.push((cells, cells.snap()));
    }
    let ds: [AnyC<T>; 3] = ds.try_into().ok().unwrap();
    let r = expr::build(fam, shape, ds, views, T::mk(3, 0), T::mk(2, 0)).map(|_| ());
    refused(r, &format!("sum of operands of dimensions {:?}", views.map(|v| (v.r, v.c))));
    for (c, b) in cs {
        if c.snap() != b {
            bad("effect-of-misuse", "an operand of a refused sum was changed".into());
        }
    }
}
