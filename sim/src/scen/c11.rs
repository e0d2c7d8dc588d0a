//! C11: no thread has to wait for another.

use super::expr;
use super::prod;
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{inject, lib, pause, Injected, Stop};

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 2, 3);
    p.set("nobj", nt as i64);
    // 0: alone first, then together; 1: together first
    p.set("order", r.chance(1, 3) as i64);
    // 0: matrices interleaved in one storage; 1: quarters of one matrix
    let mode = r.below(2) as i64;
    p.set("mode", if nt > 4 { 0 } else { mode });
    for i in 0..nt.max(4) {
        gen_obj(r, p, i, false);
    }
    p.set("fam", r.below(expr::NFAM as u64) as i64);
    p.set("shape", r.below(expr::NSHAPE as u64) as i64);
    p.set("form", r.below(4) as i64);
    p.set("kinds", r.below(216) as i64);
    for k in ["er", "ec", "m", "k", "n"] {
        let d = gdim(r, false);
        p.set(k, d);
    }
    for k in ["esx", "psx", "con"] {
        p.set(k, r.below(648) as i64);
    }
    let shared = ["get", "all", "slice", "blk", "eval", "xall", "xeval", "xfail", "xfail", "product", "product", "dot", "rand", "zeros", "oom", "cbpanic", "nest"];
    for t in 0..nt {
        for _ in 0..1 + r.below(6) {
            if r.chance(1, 2) {
                gen_mv(r, p, t);
            } else {
                let a: Vec<i64> = (0..8).map(|_| r.below(1 << 16) as i64).collect();
                let k = *r.pick(&shared);
                p.op(t, k, &a);
            }
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (50, 20), (20, 50), (75, 0), (0, 75)]);
    p.rand_faults(r, k, s, 2000);
    if p.p("order") == 0 {
        for f in p.faults.iter_mut() {
            f.task += nt;
        }
    }
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

/// What all threads of a phase read.
struct Shared<T: Sc> {
    o: Obj<T>,
    ex: expr::Ex<T>,
    en: usize,
    a: prod::Prod<T>,
    b: prod::Prod<T>,
    dims: (usize, usize, usize),
    kc: usize,
}

/// What one thread works on.
struct St<T: Sc> {
    m: &'static mut dyn KMatM<T>,
    v: View,
    w: &'static mut World<T>,
    fresh: i64,
    sh: &'static Shared<T>,
    c: prod::Prod<T>,
}

/// Everything the threads of a phase use; both phases get the same.
fn setup<T: Sc>(p: &Plan, nt: usize) -> Vec<&'static mut St<T>> {
    let u = |k: &str| p.u(k);
    let con = u("con");
    let o = make::<T>(u("lay0"), u("con0"), u("r0").max(1), u("c0").max(1), u("sx0"), new_id(), &|x| val(100 + x as i64));
    let fam = u("fam") % expr::NFAM;
    let shape = expr::shape_of(fam, u("shape"));
    let (lx, ly) = expr::fam_lays(fam);
    let (er, ec) = (u("er").max(1), u("ec").max(1));
    let ec = if fam == 7 { er } else { ec };
    let sx = u("esx");
    let views = [lay_view(lx, er, ec, sx), lay_view(ly, er, ec, sx / 8), lay_view(lx, er, ec, sx / 2)];
    let mut ds = vec![];
    for (i, v) in views.iter().enumerate() {
        let (d, _) = any_c::<T>([4, 0, 5][(con / 7 + i) % 3], v.span(), new_id(), &|x| val(7 * (i as i64 + 1) + x as i64));
        ds.push(d);
    }
    let ds: [AnyC<T>; 3] = ds.try_into().ok().unwrap();
    let ex = need(expr::build(fam, shape, ds, views, T::mk(3, 0), T::mk(2, 0)), "expression");
    let form = u("form") % 4;
    let kinds = prod::kinds(form, u("kinds"));
    let (m, k, n) = prod::dims(form, u("m").clamp(1, 12), u("k").clamp(1, 12), u("n").clamp(1, 12));
    let (pa, pb) = (small_vals::<T>(m, k, 11), small_vals::<T>(k, n, 12));
    let a = prod::make_p(kinds.0, con, m, k, u("psx"), new_id(), &|i, j| pa[i * k + j], T::nan());
    let b = prod::make_p(kinds.1, con / 6, k, n, u("psx") / 3, new_id(), &|i, j| pb[i * n + j], T::nan());
    let sh: &'static Shared<T> = leak(Shared { o, ex, en: views[0].n(), a, b, dims: (m, k, n), kc: kinds.2 });

    let mut roots: Vec<(&'static mut dyn KMatM<T>, View, &'static mut World<T>)> = vec![];
    if u("mode") % 2 == 0 {
        let mut views = vec![];
        for t in 0..nt {
            let row = u(&format!("lay{}", t)) % 2 == 0;
            let (r, c) = (u(&format!("r{}", t)).max(1), u(&format!("c{}", t)).max(1));
            let s = any_stride(u(&format!("sx{}", t)), r, c, row);
            views.push(View::new(t, (s.0 * nt, s.1 * nt), (r, c), if row { Ord1::Row } else { Ord1::Col }));
        }
        let n = views.iter().map(|v| v.span()).max().unwrap() + 3;
        let cells = Cells::filled(n, |i| val::<T>(100 + i as i64));
        let w = World::new(cells);
        for (t, v) in views.iter().enumerate() {
            let (d, s) = ((v.r, v.c), (v.rs, v.cs));
            let ptr = unsafe { cells.ptr.add(t) };
            let m: &'static mut dyn KMatM<T> = if v.ord == Ord1::Row {
                leak(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), "from_pointer"))
            } else {
                leak(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(ptr, d, s) }), "from_pointer"))
            };
            roots.push((m, *v, w.again()));
        }
    } else {
        let (r, c) = (1 + u("r1"), 1 + u("c1"));
        let cells = Cells::filled(r * c + 3, |i| val::<T>(100 + i as i64));
        let w = World::new(cells);
        let m = leak(need(lib(|| G::from_data(AnyC::S(SliceContainerMut::new(cells.slice_mut())), RowMajor::new((r, c)))), "from_data"));
        let s = (1 + u("r2") % r, 1 + u("c2") % c);
        let q = need(lib(|| m.split_in_four_mut(s)), "split_in_four_mut");
        let whole = View::rm(r, c);
        let views = [whole.sub((0, 0), s), whole.sub((0, s.1), (s.0, c - s.1)), whole.sub((s.0, 0), (r - s.0, s.1)), whole.sub(s, (r - s.0, c - s.1))];
        for (q, v) in [q.0, q.1, q.2, q.3].into_iter().zip(views).take(nt) {
            roots.push((leak(q), v, w.again()));
        }
    }
    roots
        .into_iter()
        .enumerate()
        .map(|(t, (m, v, w))| {
            let c = prod::make_p(sh.kc, con / 36, sh.dims.0, sh.dims.2, u("psx") / 5, new_id(), &|i, j| small_val(13, i, j), T::nan());
            leak(St { m, v, w, fresh: 10000 * (t as i64 + 1), sh, c })
        })
        .collect()
}

type Works = Vec<Vec<u64>>;

fn go<T: Sc>(p: &Plan) {
    let nt = p.u("nobj").clamp(2, CROWD_MAX);
    let alone: *mut Works = leak(vec![vec![]; nt]);
    let together: *mut Works = leak(vec![vec![]; nt]);
    let phase = |solo: bool| {
        let sts = setup::<T>(p, nt);
        for (t, st) in sts.into_iter().enumerate() {
            let ops: &[Op] = p.tasks.get(t).map(|x| &x[..]).unwrap_or(&[]);
            let works = if solo { alone } else { together };
            let mut first = true;
            spawn_ops_from(if solo { 1000 } else { 0 }, ops, move |i, op| {
                if first {
                    first = false;
                    sched::set_entropy(t as u64 + 9, None);
                }
                let a = sched::work();
                run_op(st, op);
                let w = sched::work() - a;
                let (al, to) = unsafe { ((&*alone).get(t).unwrap(), (&*together).get(t).unwrap()) };
                let (al, to) = if solo { (Some(w), to.get(i).copied()) } else { (al.get(i).copied(), Some(w)) };
                if let (Some(al), Some(to)) = (al, to) {
                    sched::probe("work.compared");
                    if to > al + al / 4 + 300 {
                        bad("more-work", format!("{} took {} steps of its thread's own among other threads, {} alone", op.k, to, al));
                    }
                }
                unsafe { (&mut *works).get_mut(t).unwrap().push(w) };
            });
            if solo {
                sched::run();
            }
        }
        if !solo {
            sched::run();
        }
    };
    if p.p("order") == 0 {
        phase(true);
        phase(false);
        let dead = (nt..2 * nt).filter(|t| sched::is_dead(*t)).count();
        if dead > 0 && dead < nt {
            sched::probe("reach.others_completed_after_a_kill");
        }
    } else {
        phase(false);
        phase(true);
    }
}

/// Either it returns, or it is ended by the fault injected.
fn fine<R>(r: Result<R, Stop>, k: Injected, what: &str) -> Option<R> {
    match r {
        Ok(x) => Some(x),
        Err(Stop::Injected(x)) if x == k => None,
        Err(e) => bad("unexpected-panic", format!("{}: {:?}", what, e)),
    }
}

fn run_op<T: Sc>(st: &mut St<T>, op: &Op) {
    let sh = st.sh;
    let o = &sh.o;
    let n = o.v.n();
    match op.k.as_str() {
        "get" => {
            let k = op.m(0, n);
            let (i, j) = o.v.at(k);
            let x = need(lib(|| o.r().get(i, j)), "get");
            bits_eq(x, o.cells.get(o.v.cell(i, j)), "element");
            need(lib(|| (o.r().at(k), o.r().idx(i, j), o.r().raw1(k))), "index conversion");
        }
        "all" => {
            for k in 0..n {
                bits_eq(need(lib(|| o.r().get1(k)), "get1d"), o.cells.get(o.v.cell1(k)), "element");
            }
        }
        "slice" => {
            let k = op.m(0, o.v.span());
            bits_eq(need(lib(|| o.b().slice(k, k + 1)[0]), "get_slice"), o.cells.get(k), "element of a slice");
        }
        "blk" => {
            let Some(k) = o.k() else { return };
            let tl = (op.m(0, o.v.r), op.m(1, o.v.c));
            let d = (o.v.r - tl.0, o.v.c - tl.1);
            need(
                lib(|| {
                    let b = k.blk(tl, d);
                    let q = b.k().blk((0, 0), d);
                    let x = q.b().get(d.0 - 1, d.1 - 1);
                    pause(|| bits_eq(x, o.cells.get(o.v.cell(o.v.r - 1, o.v.c - 1)), "element of a block"));
                    drop(q.e().ev());
                }),
                "blocks",
            );
        }
        "eval" => {
            if let Some(e) = o.e() {
                drop_lib(need(lib(|| e.ev()), "eval"));
            }
        }
        "xall" => {
            for k in 0..sh.en {
                need(lib(|| sh.ex.r().get1(k)), "element of an expression");
            }
        }
        "xeval" => {
            if let Some(e) = sh.ex.e() {
                drop_lib(need(lib(|| e.ev()), "eval"));
            }
        }
        "xfail" | "oom" => {
            let Some(e) = sh.ex.e() else { return };
            let k = if op.k == "oom" {
                sched::fail_alloc(1 + op.m(0, 2) as u64);
                Injected::Oom
            } else {
                ctl().fail_at = 1 + op.m(0, 3 * sh.en) as u64;
                Injected::Storage
            };
            let r = fine(lib(|| e.ev()), k, "eval");
            ctl().fail_at = 0;
            sched::fail_alloc(0);
            if let Some(m) = r {
                drop_lib(m)
            }
        }
        "product" => {
            if op.m(1, 4) == 0 {
                sched::fail_alloc(1);
            }
            let St { c, .. } = st;
            fine(lib(|| prod::matmul(T::mk(1, 0), &sh.a.m, &sh.b.m, T::mk(op.n(0) % 2, 0), &mut c.m)), Injected::Oom, "matmul");
            sched::fail_alloc(0);
        }
        "dot" => {
            if let Some(r) = prod::dot(&sh.a.m, &sh.b.m) {
                drop_lib(need(r, "dot"));
            }
        }
        "rand" => match op.m(0, 3) {
            0 => drop_in_lib(need(lib(|| T::rand_mat_rm(op.m(1, 7), op.m(2, 7))), "rand_mat!")),
            1 => drop_in_lib(need(lib(|| T::rand_mat_cm(op.m(1, 7), op.m(2, 7))), "rand_mat!")),
            _ => drop_in_lib(need(lib(|| T::rand_vec_c(op.m(1, 20))), "rand_vector!")),
        },
        "zeros" => {
            let (r, c) = (op.m(1, 12), op.m(2, 12));
            match op.m(0, 5) {
                0 => drop_in_lib(need(lib(|| MatrixD::<T, RowMajor>::zeros_from_dim(r, c)), "zeros_from_dim")),
                1 => drop_in_lib(need(lib(|| MatrixD::<T, ColumnMajor>::zeros_from_dim(r, c)), "zeros_from_dim")),
                2 => drop_in_lib(need(lib(|| UpperTriangularMatrix::<T>::zeros_from_dim(r, r)), "zeros_from_dim")),
                3 => drop_in_lib(need(lib(|| T::mat_cm(r, c)), "mat!")),
                _ => drop_in_lib(need(lib(|| T::vec_c(r)), "vector!")),
            }
        }
        "cbpanic" => {
            // A panic in the middle of an update or a fill, from the caller's function or generator.
            let St { c, .. } = st;
            let at = op.m(0, c.v.n().max(1));
            let mut k = 0;
            if op.m(1, 2) == 0 {
                fine(
                    lib(|| {
                        c.m.w().each(&mut |_| {
                            if k == at {
                                inject(Injected::Callback);
                            }
                            k += 1;
                            pause(sched::yield_now);
                        })
                    }),
                    Injected::Callback,
                    "for_each",
                );
            } else {
                let mut g = SimRng::new(op.n(2));
                g.fail_at = 1 + at as u64;
                fine(lib(|| c.m.w().fill(&mut g)), Injected::Generator, "fill");
            }
        }
        "nest" => {
            // Other operations from within an update's callback.
            let St { c, .. } = st;
            need(
                lib(|| {
                    c.m.w().each(&mut |_| {
                        let m = T::mat_rm(2, 2);
                        let x = (&m + &m).eval();
                        let _ = RMat::get(&x, 1, 1);
                        if let Some(k) = o.k() {
                            let _ = k.blk((0, 0), (1, 1)).b().get(0, 0);
                        }
                        let mut s = T::vec_c(1);
                        s.for_each(|y| *y = T::mk(1, 0));
                    })
                }),
                "operations within an update",
            );
        }
        _ => {
            let St { m, v, w, fresh, .. } = st;
            mv_op(w, &mut **m, v, op, fresh)
        }
    }
}
