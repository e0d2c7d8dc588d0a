//! C08: multiply-accumulate changes its target only.

use super::prod::{self, *};
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{arena, lib, report, Injected, Stop};

/// Inner dimension classes of the shared operands.
const ND: usize = 3;

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let chk = crate::PROFILE == "chk";
    let mut nt = 1 + r.below(4) as usize;
    // Sometimes large enough for several tiles and cache blocks of the kernels.
    let big = r.chance(1, if chk { 400 } else { 60 });
    // Sometimes with a long inner dimension between small outer ones.
    let long = !big && r.chance(1, if chk { 80 } else { 25 });
    // Sometimes every thread does much the same at the same time.
    let alike = !big && !long && r.chance(1, 4);
    for i in 0..ND {
        let d = if long {
            if i == 1 {
                let m = if r.chance(1, 5) { 2100 } else { 530 };
                (*r.pick(&[63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 384, 511, 512, 513, 1000, 1025, 2049]) + r.below(3) as i64).min(m)
            } else {
                *r.pick(&[1, 1, 2, 3, 5, 9])
            }
        } else if !big {
            gdim(r, true)
        } else if i == 1 {
            *r.pick(&[17, 65, 130, 257, 300])
        } else {
            *r.pick(&[1, 3, 9, 17, 33, 70])
        };
        p.set(&format!("d{}", i), d);
    }
    p.set("long", long as i64);
    if alike {
        nt = 2 + r.below(3) as usize;
    }
    let (kind, px) = (*r.pick(&[0, 1, 2, 2, 3, 3, 4, 5]), r.below(81 * 8) as i64);
    for i in 0..ND * ND {
        let own = !alike || r.chance(1, 4);
        p.set(&format!("kind{}", i), if own { r.below(6) as i64 } else { kind });
        p.set(&format!("pc{}", i), r.below(6) as i64);
        p.set(&format!("px{}", i), if own { r.below(81 * 8) as i64 } else { px });
    }
    for i in 0..ND {
        p.set(&format!("vk{}", i), r.below(4) as i64);
    }
    p.set("store", r.below(5) as i64);
    p.set("pad0", r.below(3) as i64);
    p.set("pad1", r.below(3) as i64);
    let n = if big || long { 2 } else { 1 + r.below(6) };
    let all = ["own", "own", "quarter", "quarter", "quarter", "nested", "dot", "vec", "vec", "line", "scale"];
    let one = *r.pick(&all);
    let at: Vec<i64> = (0..14).map(|_| r.below(1 << 16) as i64).collect();
    for t in 0..nt {
        for _ in 0..n {
            let k = if alike && r.chance(3, 4) { one } else { *r.pick(&all) };
            let mut a: Vec<i64> = (0..14).map(|_| r.below(1 << 16) as i64).collect();
            if alike && r.chance(1, 3) {
                // the same operands
                a[..3].copy_from_slice(&at[..3]);
            }
            let mut k = k;
            if long {
                // one long dimension: the inner one, or one of the result
                let at = *r.pick(&[0, 1, 1, 2]);
                for (x, y) in a[..3].iter_mut().enumerate() {
                    *y = if x == at { 1 } else { 2 * r.below(2) as i64 };
                }
                if at != 1 {
                    k = *r.pick(&["own", "own", "dot", "vec"]);
                }
            }
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (20, 20), (0, 40), (50, 0)]);
    p.rand_faults(r, k, s, 4000);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

static mut CHECK: Option<Box<dyn Fn()>> = None;

#[allow(static_mut_refs)]
fn on_switch(_c: usize) {
    unsafe {
        if let Some(f) = &CHECK {
            f()
        }
    }
}

type Q<T> = SliceMatrixMut<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>;

/// What all threads read.
struct Pool<T: Sc> {
    d: [usize; ND],
    mats: Vec<Option<Prod<T>>>,
    cols: Vec<Prod<T>>,
    rows: Vec<Prod<T>>,
}

fn elems<T: Sc>(p: &Prod<T>) -> Vec<T> {
    (0..p.v.r * p.v.c).map(|k| p.cells.get(p.v.cell(k / p.v.c.max(1), k % p.v.c.max(1)))).collect()
}

fn go<T: Sc>(p: &Plan) {
    let gap = T::nan();
    let d: [usize; ND] = std::array::from_fn(|i| p.u(&format!("d{}", i)).min(2200));
    let long = p.u("long") == 1;
    let mut worlds: Vec<*mut World<T>> = vec![];
    let mut pool = Pool { d, mats: vec![], cols: vec![], rows: vec![] };
    let mut id = 10;
    let mut mk = |kind: usize, con: usize, r: usize, c: usize, sx: usize| {
        id += 1;
        let m = prod::make_p::<T>(kind, con, r, c, sx, id, &|i, j| small_val(id as i64, i, j), gap);
        worlds.push(World::new(m.cells));
        m
    };
    for i in 0..ND {
        for j in 0..ND {
            if d[i] * d[j] > 200_000 {
                pool.mats.push(None);
                continue;
            }
            let u = |k: &str| p.u(&format!("{}{}", k, i * ND + j));
            pool.mats.push(Some(mk(u("kind") % 6, u("pc"), d[i], d[j], u("px"))));
        }
        let vk = p.u(&format!("vk{}", i));
        pool.cols.push(mk(6 + vk % 2, vk, d[i], 1, vk + i));
        pool.rows.push(mk(8 + vk / 2 % 2, vk, 1, d[i], vk + i));
    }
    let pool: &'static Pool<T> = leak(pool);

    // One matrix whose quarters the threads write.
    let dm = d.iter().copied().enumerate().filter(|x| !long || x.0 != 1).map(|x| x.1).max().unwrap_or(1).clamp(1, 700);
    let (h, w) = (dm + p.u("pad0") % 3, dm + p.u("pad1") % 3);
    let (r, c) = (2 * h + p.u("pad1") % 2, 2 * w + p.u("pad0") % 2);
    let extra = 5;
    let init = |i: usize| small_val::<T>(9, i, 1);
    let (q, cells) = quarters::<T>(p.u("store"), r, c, (h, w), extra, &init);
    let world = World::new(cells);
    worlds.push(world as *mut _);
    let whole = View::rm(r, c);
    let views = [whole.sub((0, 0), (h, w)), whole.sub((0, w), (h, c - w)), whole.sub((h, 0), (r - h, w)), whole.sub((h, w), (r - h, c - w))];
    cells.mark_all(arena::S_FRAME);
    for (t, v) in views.iter().enumerate() {
        own(&cells, v, t);
    }
    // The operands never change: looking at them at the end is enough.
    let wp = world as *mut World<T>;
    unsafe { CHECK = Some(Box::new(move || (*wp).glance("while products are formed"))) };
    let small = dm <= 24 && !long;
    if small {
        sched::sim().on_switch = Some(on_switch);
    }
    for (t, mut q) in q.into_iter().enumerate() {
        let v = views[t];
        let w = world.again();
        if p.tasks.len() > t {
            spawn_ops(t, &p.tasks[t], move |_, op| run_op(pool, w, &mut q, &v, op));
        }
    }
    sched::run();
    sched::sim().on_switch = None;
    for w in worlds {
        unsafe { (*w).check("when all threads have ended") };
    }
}

fn quarters<T: Sc>(store: usize, r: usize, c: usize, s: (usize, usize), extra: usize, init: &dyn Fn(usize) -> T) -> ([Q<T>; 4], Cells<T>) {
    fn split<T: Sc, D: DataContainerMut<Item = T> + 'static>(m: GenericBaseMatrix<T, RowMajor, D, Dynamic, Dynamic>, s: (usize, usize)) -> [Q<T>; 4] {
        let m = leak(m);
        let (a, b, c, d) = need(lib(|| m.split_in_four_mut(s)), "split_in_four_mut");
        [a, b, c, d]
    }
    let n = r * c;
    match store % 5 {
        0 => {
            let m = need(lib(|| T::mat_rm(r, c)), "mat!");
            let cells = Cells::at(m.get_pointer(), n);
            for i in 0..n {
                cells.set(i, init(i));
            }
            (split(m, s), cells)
        }
        1 => {
            let cells = Cells::filled(n, init);
            let m = need(lib(|| unsafe { SliceMatrixMut::<'static, T, RowMajor, Dynamic, Dynamic>::from_pointer(cells.ptr, (r, c)) }), "from_pointer");
            (split(m, s), cells)
        }
        2 => {
            let cells = Cells::filled(n + extra, init);
            let m = need(lib(|| GenericBaseMatrix::from_data(SimStore::new(cells, 0), RowMajor::new((r, c)))), "from_data");
            (split(m, s), cells)
        }
        _ => {
            let cells = Cells::filled(n + extra, init);
            let m = need(lib(|| GenericBaseMatrix::from_data(SliceContainerMut::new(cells.slice_mut()), RowMajor::new((r, c)))), "from_data");
            (split(m, s), cells)
        }
    }
}

/// One product into `c`, whose element (i, j) is cell `v.cell(i, j)` of world `w`.
#[allow(clippy::too_many_arguments)]
fn accumulate<T: Sc>(w: &mut World<T>, a: &PM<T>, av: &[T], b: &PM<T>, bv: &[T], c: &mut PM<T>, v: &View, k: usize, op: &Op) {
    let (m, n) = (v.r, v.c);
    let cur: Vec<T> = (0..m * n).map(|x| w.exp[v.cell(x / n, x % n)]).collect();
    let ints = cur.iter().all(|x| small_int(*x, 65536.0));
    let al = small_scalar(op.n(3));
    let be = if ints { small_scalar(op.n(4)) } else { (0, 0) };
    let cur = if ints { cur } else { vec![T::mk(0, 0); m * n] };
    let want = ref_mm(al, av, bv, be, &cur, m, k, n);
    let what = format!("{:?} * A({} x {}) * B({} x {}) + {:?} * C", al, m, k, k, n, be);
    if op.m(12, 6) == 0 {
        // out of packing memory first
        sched::fail_alloc(1 + op.n(13) as u64 % 3);
        w.begin_any(v.cells());
        let r = lib(|| prod::matmul(T::mk(al.0, al.1), a, b, T::mk(be.0, be.1), c));
        sched::fail_alloc(0);
        match r {
            Ok(()) => return settle(w, v, &want, &what),
            Err(Stop::Injected(Injected::Oom)) => {
                sched::probe("fault.out_of_packing_memory");
                w.cancel();
                w.check("after a product that ran out of memory");
            }
            Err(e) => bad("unexpected-panic", format!("{}: {:?}", what, e)),
        }
    }
    w.begin_any(v.cells());
    need(lib(|| prod::matmul(T::mk(al.0, al.1), a, b, T::mk(be.0, be.1), c)), "matmul");
    settle(w, v, &want, &what);
}

fn settle<T: Sc>(w: &mut World<T>, v: &View, want: &[T], what: &str) {
    for x in 0..v.r {
        for y in 0..v.c {
            let g = w.cells.get(v.cell(x, y));
            eq(g, want[x * v.c + y], &format!("element ({}, {}) of {}", x, y, what));
            w.exp[v.cell(x, y)] = g;
        }
    }
    w.cancel();
    w.check("after a product");
}

fn run_op<T: Sc>(pool: &Pool<T>, w: &mut World<T>, q: &mut Q<T>, qv: &View, op: &Op) {
    let (i, j, l) = (op.m(0, ND), op.m(1, ND), op.m(2, ND));
    let (Some(a), Some(b)) = (&pool.mats[i * ND + j], &pool.mats[j * ND + l]) else { return };
    let (m, k, n) = (pool.d[i], pool.d[j], pool.d[l]);
    let inside = matches!(op.k.as_str(), "quarter" | "nested" | "line" | "scale");
    if m * k * n * T::NC * T::NC > if crate::PROFILE == "chk" { 120_000 } else { 3_000_000 } || inside && (m > qv.r.min(qv.c) || n > qv.r.min(qv.c)) {
        // too many steps for one run
        return;
    }
    match op.k.as_str() {
        "own" => {
            let mut c = prod::make_p::<T>(op.m(5, 6), op.n(6) as usize, m, n, op.n(7) as usize, new_id(), &|i, j| small_val(op.n(8), i, j), T::nan());
            own_target(&mut c, a, b, k, op);
        }
        "vec" => {
            let sx = op.n(7) as usize;
            if op.m(5, 2) == 0 {
                let mut c = prod::make_p::<T>(6 + op.m(9, 2), op.n(6) as usize, m, 1, sx, new_id(), &|i, j| small_val(op.n(8), i, j), T::nan());
                own_target(&mut c, a, &pool.cols[j], k, op);
            } else {
                let mut c = prod::make_p::<T>(8 + op.m(9, 2), op.n(6) as usize, 1, n, sx, new_id(), &|i, j| small_val(op.n(8), i, j), T::nan());
                own_target(&mut c, &pool.rows[j], b, k, op);
            }
        }
        "quarter" | "nested" => {
            // into a block of this thread's quarter
            let tl = (op.m(5, qv.r - m + 1), op.m(6, qv.c - n + 1));
            let v = qv.sub(tl, (m, n));
            let mut t = if op.k == "quarter" {
                PM::BR(forever(need(lib(|| q.block_mut(tl, (m, n))), "block_mut")))
            } else {
                let o = (op.m(7, tl.0 + 1), op.m(8, tl.1 + 1));
                let mut outer = need(lib(|| q.block_mut(o, (qv.r - o.0, qv.c - o.1))), "block_mut");
                PM::BR(forever(need(lib(|| outer.block_mut((tl.0 - o.0, tl.1 - o.1), (m, n))), "block_mut of a block")))
            };
            accumulate(w, &a.m, &elems(a), &b.m, &elems(b), &mut t, &v, k, op);
            drop_in_lib(t);
        }
        "line" => {
            // into a row or column of this thread's quarter, seen as a vector
            let (dim, row) = if op.m(5, 2) == 0 { (m, false) } else { (n, true) };
            if dim == 0 {
                return;
            }
            let at = if row { (op.m(6, qv.r), op.m(7, qv.c - dim + 1)) } else { (op.m(6, qv.r - dim + 1), op.m(7, qv.c)) };
            let v = qv.sub(at, if row { (1, dim) } else { (dim, 1) });
            let base = v.cell(0, 0);
            let sub = Cells::at(unsafe { w.cells.ptr.add(base) }, v.cell(v.r - 1, v.c - 1) + 1 - base);
            let d = AnyC::M(SimStore::new(sub, new_id()));
            if row {
                let mut t = if op.m(8, 2) == 0 {
                    PM::VR(need(lib(|| GR::from_data(d, RowVector::new(dim))), "row vector"))
                } else {
                    PM::VSR(need(lib(|| GR::from_data(d, ArbitraryStrideRowVector::new(dim, 1))), "strided row vector"))
                };
                let a = &pool.rows[j];
                accumulate(w, &a.m, &elems(a), &b.m, &elems(b), &mut t, &v, k, op);
                drop_in_lib(t);
            } else {
                let mut t = PM::VSC(need(lib(|| GC::from_data(d, ArbitraryStrideColumnVector::new(dim, qv.rs))), "strided column vector"));
                let b = &pool.cols[j];
                accumulate(w, &a.m, &elems(a), &b.m, &elems(b), &mut t, &v, k, op);
                drop_in_lib(t);
            }
        }
        "scale" => {
            // alpha = 0 and a beta: C is only scaled
            let tl = (op.m(5, qv.r - m + 1), op.m(6, qv.c - n + 1));
            let v = qv.sub(tl, (m, n));
            let cur: Vec<T> = (0..m * n).map(|x| w.exp[v.cell(x / n, x % n)]).collect();
            if !cur.iter().all(|x| small_int(*x, 65536.0)) {
                return;
            }
            let be = small_scalar(op.n(4));
            let want = ref_mm((0, 0), &elems(a), &elems(b), be, &cur, m, k, n);
            let mut t = PM::BR(forever(need(lib(|| q.block_mut(tl, (m, n))), "block_mut")));
            w.begin_any(v.cells());
            need(lib(|| prod::matmul(T::mk(0, 0), &a.m, &b.m, T::mk(be.0, be.1), &mut t)), "matmul");
            settle(w, &v, &want, "0 * A * B + beta * C");
            drop_in_lib(t);
        }
        "dot" => {
            let (a, b, m, n) = match op.m(5, 4) {
                0 => (a, &pool.cols[j], m, 1),
                1 => (&pool.rows[j], b, 1, n),
                _ => (a, b, m, n),
            };
            let want = ref_mm((1, 0), &elems(a), &elems(b), (0, 0), &vec![T::mk(0, 0); m * n], m, k, n);
            if let Some(r) = prod::dot(&a.m, &b.m) {
                let c = need(r, "dot");
                eqn(need(lib(|| c.dim()), "dim"), (m, n), "dimension of a product");
                for x in 0..m {
                    for y in 0..n {
                        eq(need(lib(|| c.get(x, y)), "get"), want[x * n + y], &format!("element ({}, {}) of a new product", x, y));
                    }
                }
                drop_lib(c);
            }
        }
        k => report::harness_error(&format!("unknown operation {}", k)),
    }
}

/// The view is gone before the matrix is used otherwise.
fn forever<T: Sc>(b: SliceMatrixMut<'_, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>) -> Q<T> {
    unsafe { std::mem::transmute(b) }
}

/// Product into a target of this thread alone.
fn own_target<T: Sc>(c: &mut Prod<T>, a: &Prod<T>, b: &Prod<T>, k: usize, op: &Op) {
    let v = c.v;
    let mut gap = vec![true; c.cells.n];
    for i in v.cells() {
        gap[i] = false;
    }
    for i in (0..c.cells.n).filter(|i| gap[*i]) {
        c.cells.mark(i, FRAME);
    }
    let w = World::new(c.cells);
    accumulate(w, &a.m, &elems(a), &b.m, &elems(b), &mut c.m, &v, k, op);
    if op.m(10, 2) == 0 {
        // and once more on top
        let op2 = Op { k: op.k.clone(), a: vec![0, 0, 0, op.n(11), op.n(9), 0, 0, 0, 0, 0, 0, 0, op.n(13), op.n(12)] };
        accumulate(w, &a.m, &elems(a), &b.m, &elems(b), &mut c.m, &v, k, &op2);
    }
}
