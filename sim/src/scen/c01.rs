//! C01: quarter views are independent across threads.

use super::util::*;
use crate::by_type;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{arena, lib, report};

type Q<T> = SliceMatrixMut<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>;

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    p.set("store", r.below(5) as i64);
    let (a, b) = (gdim(r, false), gdim(r, false));
    let a = p.set("rows", a);
    let b = p.set("cols", b);
    let edge = |r: &mut Prng, n: i64| match r.below(24) {
        0 => 0,
        1 => n,
        _ => r.range(1.min(n - 1), (n - 1).max(0)),
    };
    let (s, t) = (edge(r, a), edge(r, b));
    p.set("s0", s);
    p.set("s1", t);
    let n = 1 + r.below(8);
    for t in 0..4 {
        for _ in 0..n {
            gen_mv(r, p, t);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (20, 20), (0, 40), (50, 0)]);
    p.rand_faults(r, k, s, 2000);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

static mut CHECK: Option<Box<dyn Fn()>> = None;

#[allow(static_mut_refs)]
fn on_switch(_c: usize) {
    unsafe {
        if let Some(f) = &CHECK {
            f()
        }
    }
}

fn split<T: Sc, D: DataContainerMut<Item = T> + 'static>(m: MatrixOf<T, D>, s: (usize, usize)) -> ([Q<T>; 4], Box<dyn Fn(usize, usize) -> T>, *const T) {
    let m: &'static mut MatrixOf<T, D> = leak(m);
    let raw = m as *mut MatrixOf<T, D>;
    let ptr = m.get_pointer();
    let (a, b, c, d) = need(lib(|| m.split_in_four_mut(s)), "split_in_four_mut");
    ([a, b, c, d], Box::new(move |i, j| unsafe { (*raw).get(i, j) }), ptr)
}

type MatrixOf<T, D> = GenericBaseMatrix<T, RowMajor, D, Dynamic, Dynamic>;

fn go<T: Sc>(p: &Plan) {
    let (r, c) = (p.u("rows").max(1), p.u("cols").max(1));
    let (s0, s1) = (p.u("s0").min(r), p.u("s1").min(c));
    let extra = 5;
    let n = r * c;
    let cells;
    let (q, read, ptr) = match p.u("store") % 5 {
        0 => {
            let m = need(lib(|| T::mat_rm(r, c)), "mat!");
            cells = Cells::at(m.get_pointer(), n);
            for i in 0..n {
                cells.set(i, val(10 + i as i64));
            }
            split(m, (s0, s1))
        }
        1 => {
            cells = Cells::filled(n + extra, |i| val::<T>(10 + i as i64));
            let m = need(lib(|| MatrixOf::from_data(SliceContainerMut::new(cells.slice_mut()), RowMajor::new((r, c)))), "from_data");
            split(m, (s0, s1))
        }
        2 => {
            cells = Cells::filled(n, |i| val::<T>(10 + i as i64));
            let m = need(lib(|| unsafe { SliceMatrixMut::<'static, T, RowMajor, Dynamic, Dynamic>::from_pointer(cells.ptr, (r, c)) }), "from_pointer");
            split(m, (s0, s1))
        }
        3 => {
            cells = Cells::filled(n + extra, |i| val::<T>(10 + i as i64));
            let m = need(lib(|| MatrixOf::from_data(SimStore::new(cells, 0), RowMajor::new((r, c)))), "from_data");
            split(m, (s0, s1))
        }
        _ => {
            let m = need(lib(|| MatrixOf::from_data(VectorContainer::<T>::new(n + extra), RowMajor::new((r, c)))), "from_data");
            cells = Cells::at(m.get_pointer(), n + extra);
            for i in 0..n + extra {
                cells.set(i, val(10 + i as i64));
            }
            split(m, (s0, s1))
        }
    };
    if ptr as usize != cells.ptr as usize {
        report::harness_error("storage moved");
    }
    let w = World::new(cells);
    let whole = View::rm(r, c);
    let views = [
        whole.sub((0, 0), (s0, s1)),
        whole.sub((0, s1), (s0, c - s1)),
        whole.sub((s0, 0), (r - s0, s1)),
        whole.sub((s0, s1), (r - s0, c - s1)),
    ];
    // Cells beyond the matrix belong to nobody.
    cells.mark_all(arena::S_FRAME);
    for (t, v) in views.iter().enumerate() {
        own(&cells, v, t);
    }
    let wp = w as *mut World<T>;
    unsafe { CHECK = Some(Box::new(move || (*wp).glance("while the quarters are in use"))) };
    sched::sim().on_switch = Some(on_switch);
    for (t, q) in q.into_iter().enumerate() {
        let v = views[t];
        let w = w.again();
        let mut q = q;
        let mut fresh = 1000 * (t as i64 + 1) + 10000;
        if p.tasks.len() > t {
            spawn_ops(t, &p.tasks[t], move |_, op| match op.k.as_str() {
                "wide" => wide(w, &mut q, &v),
                _ => mv_op(w, &mut q, &v, op, &mut fresh),
            });
        }
    }
    sched::run();
    sched::sim().on_switch = None;
    w.check("when all threads have ended");
    cells.mark_all(arena::S_LIVE);
    for i in 0..r {
        for j in 0..c {
            let g = read(i, j);
            bits_eq(g, w.cells.get(whole.cell(i, j)), &format!("element ({},{}) read through the matrix at the end", i, j));
        }
    }
}

/// A raw slice from the first to the last element of a quarter (not drawn at random: see
/// known-findings.txt).
fn wide<T: Sc>(w: &mut World<T>, q: &mut Q<T>, v: &View) {
    let span = v.span() - v.base;
    if v.n() == 0 {
        return;
    }
    let base = w.cells.ptr as usize + v.base * std::mem::size_of::<T>();
    if let Ok((p, n)) = lib(|| {
        let s = q.get_slice_mut(0, span);
        (s.as_mut_ptr() as usize, s.len())
    }) {
        let mine = v.cells();
        let first = v.base + (p - base) / std::mem::size_of::<T>();
        if let Some(c) = (first..first + n).find(|c| !mine.contains(c)) {
            bad("neighbour-cells-exposed", format!("a mutable slice of one quarter gives access to cell {}, which is in another quarter", c));
        }
    }
}
