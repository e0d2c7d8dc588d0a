//! C02: concurrent readers agree with a lone reader.

use super::expr;
use super::prod;
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{arena, lib, pause, report};

const OPS: &[&str] = &[
    "get", "get1", "getu", "all", "slice", "ptr", "blk", "blk2", "blk3", "eval", "beval", "conv", "xget", "xget1", "xall", "xeval", "mmul", "dot",
    "pall", "reent", "cb", "bmm", "rget", "xrget",
];

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let n = 1 + r.below(3) as usize;
    p.set("nobj", n as i64);
    for i in 0..n {
        gen_obj(r, p, i, false);
    }
    p.set("fam", r.below(expr::NFAM as u64) as i64);
    p.set("shape", r.below(expr::NSHAPE as u64) as i64);
    let d = gdim(r, false);
    p.set("er", d);
    let d = gdim(r, false);
    p.set("ec", d);
    p.set("esx", r.below(64) as i64);
    p.set("econ", r.below(216) as i64);
    p.set("form", r.below(4) as i64);
    p.set("kinds", r.below(216) as i64);
    for k in ["m", "k", "n"] {
        let d = gdim(r, false);
        p.set(k, d);
    }
    p.set("pcon", r.below(36) as i64);
    p.set("psx", r.below(81 * 8) as i64);
    let nt = gthreads(r, 2, 3);
    let no = 1 + r.below(7);
    for t in 0..nt {
        for _ in 0..no {
            let k = *r.pick(OPS);
            let a: Vec<i64> = (0..8).map(|_| r.below(1 << 16) as i64).collect();
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (30, 20), (0, 40), (60, 0)]);
    p.rand_faults(r, k, s, 2000);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    probe_types();
    by_type!(p.p("ty"), go(p))
}

// ---------------------------------------------------------------- Send and Sync

struct Pr<X>(std::marker::PhantomData<X>);
trait No {
    fn sync(&self) -> bool {
        false
    }
}
impl<X> No for &Pr<X> {}
impl<X: Sync> Pr<X> {
    #[allow(clippy::unused_self)]
    fn sync(&self) -> bool {
        true
    }
}
struct Ps<X>(std::marker::PhantomData<X>);
trait Ns {
    fn send(&self) -> bool {
        false
    }
}
impl<X> Ns for &Ps<X> {}
impl<X: Send> Ps<X> {
    #[allow(clippy::unused_self)]
    fn send(&self) -> bool {
        true
    }
}
fn pr<X>(_: &X) -> Pr<X> {
    Pr(std::marker::PhantomData)
}
fn ps<X>(_: &X) -> Ps<X> {
    Ps(std::marker::PhantomData)
}

macro_rules! both {
    ($x:expr, $n:expr) => {{
        let x = $x;
        #[allow(clippy::needless_borrow)]
        if !(&pr(&x)).sync() || !(&ps(&x)).send() {
            bad("not-shareable", format!("{} cannot be {} other threads", $n, if (&ps(&x)).send() { "shared with" } else { "sent to" }));
        }
    }};
}

/// Method lookup finds the inherent method only if the type is Sync (Send): one concrete list per type.
fn probe_types() {
    macro_rules! all {
        ($t:ty, $two:expr) => {{
            let mut m = need(lib(|| MatrixD::<$t, RowMajor>::zeros_from_dim(2, 3)), "zeros_from_dim");
            both!(need(lib(|| m.block((0, 0), (1, 1))), "block"), "a block view");
            both!(need(lib(|| m.block_mut((0, 0), (1, 1))), "block_mut"), "a mutable block view");
            let k = need(lib(|| MatrixD::<$t, ColumnMajor>::zeros_from_dim(2, 3)), "zeros_from_dim");
            both!(need(lib(|| k.block((0, 0), (1, 1))), "block"), "a column-major block view");
            both!(need(lib(|| &m + &m), "+"), "a sum");
            both!(need(lib(|| $two * &m), "*"), "a scalar product");
            both!(need(lib(|| (&m + $two * &m) * $two), "*"), "a nested expression");
            both!(m, "a matrix");
            both!(k, "a column-major matrix");
            both!(need(lib(|| ColumnVectorD::<$t>::zeros_from_length(2)), "zeros_from_length"), "a column vector");
            both!(need(lib(|| RowVectorD::<$t>::zeros_from_length(2)), "zeros_from_length"), "a row vector");
            both!(need(lib(|| UpperTriangularMatrix::<$t>::zeros_from_dim(2, 2)), "zeros_from_dim"), "a triangular matrix");
            both!(need(lib(|| Matrix23::<$t, RowMajor>::zeros_from_dim()), "zeros_from_dim"), "a fixed-size matrix");
        }};
    }
    use householder::types::c64;
    all!(f64, 2.0);
    all!(c64, c64::new(2.0, 0.0));
}

// ---------------------------------------------------------------- the run

struct Shared<T: Sc> {
    objs: Vec<Obj<T>>,
    vals: Vec<Vec<T>>,
    ex: expr::Ex<T>,
    ev: View,
    eexp: Vec<T>,
    a: prod::Prod<T>,
    b: prod::Prod<T>,
    form: usize,
    kinds: (usize, usize, usize),
    pa: Vec<T>,
    pb: Vec<T>,
    want: Vec<T>,
    m: usize,
    k: usize,
    n: usize,
}

fn go<T: Sc>(p: &Plan) {
    let nobj = p.u("nobj").max(1);
    let mut objs = vec![];
    for i in 0..nobj {
        objs.push(obj_of::<T>(p, i, true, &|x| val(100 * (i as i64 + 1) + x as i64)));
    }
    // expression
    let fam = p.u("fam");
    let shape = expr::shape_of(fam, p.u("shape"));
    let (lx, ly) = expr::fam_lays(fam);
    let (er, ec) = (p.u("er").max(1), p.u("ec").max(1));
    let (er, ec) = if fam % expr::NFAM == 7 { (er, er) } else { (er, ec) };
    let esx = p.u("esx");
    let views = [lay_view(lx, er, ec, esx), lay_view(ly, er, ec, esx / 8), lay_view(lx, er, ec, esx / 2)];
    let cons = [p.u("econ") % 6, (p.u("econ") / 6) % 6, (p.u("econ") / 36) % 6];
    let mut ds = vec![];
    let mut ecells = vec![];
    for i in 0..3 {
        let (d, c) = any_c::<T>(cons[i], views[i].span(), 50 + i as u32, &|x| val(7 * (i as i64 + 1) + x as i64));
        ds.push(d);
        ecells.push(c);
    }
    let vals3: Vec<Vec<T>> = ecells.iter().map(|c| (0..c.n).map(|i| c.get(i)).collect()).collect();
    let ds: [AnyC<T>; 3] = ds.try_into().ok().unwrap();
    let ex = need(expr::build(fam, shape, ds, views, T::mk(3, 0), T::mk(2, 0)), "expression");
    let md = expr::model(shape, 3, 2);
    let ev = View { base: 0, ..views[0] };
    let eexp: Vec<T> = (0..ev.n())
        .map(|k| {
            let (i, j) = ev.at(k);
            expr::value(&md, |o| vals3[o][views[o].cell(i, j)])
        })
        .collect();
    // product
    let form = p.u("form") % 4;
    let kinds = prod::kinds(form, p.u("kinds"));
    let (m, k, n) = prod::dims(form, p.u("m").max(1), p.u("k").max(1), p.u("n").max(1));
    let (pa, pb) = (small_vals::<T>(m, k, 11), small_vals::<T>(k, n, 12));
    let gap = T::nan();
    let (pcon, psx) = (p.u("pcon"), p.u("psx"));
    let a = prod::make_p(kinds.0, pcon, m, k, psx, 60, &|i, j| pa[i * k + j], gap);
    let b = prod::make_p(kinds.1, pcon / 6, k, n, psx / 3, 61, &|i, j| pb[i * n + j], gap);
    let zero = vec![T::mk(0, 0); m * n];
    let want = ref_mm((1, 0), &pa, &pb, (0, 0), &zero, m, k, n);
    // nobody may write any of it
    let vals: Vec<Vec<T>> = objs.iter().map(|o| (0..o.cells.n).map(|i| o.cells.get(i)).collect()).collect();
    let mut all = vec![];
    for o in &objs {
        o.mark_elems(arena::S_READONLY);
        o.mark_gaps(arena::S_FRAME);
        all.push(o.cells);
    }
    // Some expressions have let go of operands that they do not use.
    ecells.retain(|c| c.alive());
    for c in ecells.iter().chain([&a.cells, &b.cells]) {
        c.mark_all(arena::S_READONLY);
        all.push(*c);
    }
    let before: Vec<_> = all.iter().map(|c| c.snap()).collect();
    let sh: &'static Shared<T> = leak(Shared { objs, vals, ex, ev, eexp, a, b, form, kinds, pa, pb, want, m, k, n });
    for (t, ops) in p.tasks.iter().enumerate() {
        spawn_ops(t, ops, move |_, op| run_op(sh, op));
    }
    sched::run();
    for (c, b) in all.iter().zip(&before) {
        if c.snap() != *b {
            bad("shared-storage-written", "a matrix that was only read has changed".into());
        }
        c.mark_all(arena::S_LIVE);
    }
    // A lone reader still finds everything.
    for i in 0..sh.objs.len() {
        read_all(sh, i, "after the run");
    }
    expr_all(sh, "after the run");
}

fn at<T: Sc>(sh: &Shared<T>, o: usize, i: usize, j: usize) -> T {
    sh.vals[o][sh.objs[o].v.cell(i, j)]
}

fn read_all<T: Sc>(sh: &Shared<T>, o: usize, when: &str) {
    let ob = &sh.objs[o];
    for k in 0..ob.v.n() {
        let (i, j) = ob.v.at(k);
        let g = need(lib(|| if k % 2 == 0 { ob.r().get(i, j) } else { ob.r().get1(k) }), "element read");
        bits_eq(g, at(sh, o, i, j), &format!("element ({},{}) of a {} matrix {}", i, j, ob.name(), when));
    }
}

fn expr_all<T: Sc>(sh: &Shared<T>, when: &str) {
    for k in 0..sh.ev.n() {
        let (i, j) = sh.ev.at(k);
        let g = need(lib(|| if k % 2 == 0 { sh.ex.r().get(i, j) } else { sh.ex.r().get1(k) }), "element read");
        eq(g, sh.eexp[k], &format!("element ({},{}) of an expression {}", i, j, when));
    }
}

fn run_op<T: Sc>(sh: &'static Shared<T>, op: &Op) {
    let o = op.m(0, sh.objs.len());
    let ob = &sh.objs[o];
    let v = ob.v;
    let kk = op.m(1, v.n());
    let (i, j) = v.at(kk);
    let xk = op.m(1, sh.ev.n());
    let (xi, xj) = sh.ev.at(xk);
    match op.k.as_str() {
        "get" => bits_eq(need(lib(|| ob.r().get(i, j)), "get"), at(sh, o, i, j), "get"),
        "get1" => bits_eq(need(lib(|| ob.r().get1(kk)), "get1d"), at(sh, o, i, j), "get1d"),
        "getu" => {
            bits_eq(need(lib(|| ob.r().get_un(i, j)), "get_unchecked"), at(sh, o, i, j), "get_unchecked");
            bits_eq(need(lib(|| ob.r().get1_un(kk)), "get1d_unchecked"), at(sh, o, i, j), "get1d_unchecked");
        }
        "rget" => {
            let g = need(lib(|| ob.r().rget(op.m(2, 6), i, j, kk)), "read through a reference");
            bits_eq(g, at(sh, o, i, j), "element read through a reference");
        }
        "xrget" => {
            let g = need(lib(|| sh.ex.r().rget(op.m(2, 6), xi, xj, xk)), "read of an expression through a reference");
            eq(g, sh.eexp[xk], "element of an expression read through a reference");
        }
        "all" => {
            shape_eq(ob.r(), &v, "a shared matrix");
            read_all(sh, o, "while others read");
        }
        "slice" => {
            // any raw range between two elements of the storage without gaps in between
            let cells = v.cells();
            let c = v.cell(i, j);
            let mut e = c + 1;
            while e < c + 1 + op.m(2, 6) && cells.contains(&e) {
                e += 1;
            }
            let s = need(lib(|| ob.b().slice(c, e).iter().copied().collect::<Vec<T>>()), "get_slice");
            eqn(s.len(), e - c, "length of a raw slice");
            for (x, y) in s.iter().zip(c..e) {
                bits_eq(*x, sh.vals[o][y], "raw slice element");
            }
            drop_in_lib(s);
        }
        "ptr" => {
            let c = v.cell(i, j);
            let g = need(lib(|| unsafe { *ob.b().ptr().add(c) }), "get_pointer");
            bits_eq(g, sh.vals[o][c], "element read through get_pointer");
        }
        "blk" | "blk2" | "blk3" | "beval" | "bmm" => {
            let Some(k) = ob.k() else { return };
            let tl = (i, j);
            let d = (1 + op.m(2, v.r - i), 1 + op.m(3, v.c - j));
            let v1 = v.sub(tl, d);
            let b = need(lib(|| k.blk(tl, d)), "block");
            let check = |b: &dyn BMat<T>, v: &View| {
                eqn(need(lib(|| b.dim()), "dim"), (v.r, v.c), "dimension of a block");
                for k in 0..v.n() {
                    let (x, y) = v.at(k);
                    let g = need(lib(|| if k % 2 == 0 { b.get(x, y) } else { b.get1(k) }), "block read");
                    bits_eq(g, sh.vals[o][v.cell(x, y)], "element of a block");
                }
            };
            match op.k.as_str() {
                "beval" => {
                    let r = need(lib(|| b.e().ev()), "eval of a block");
                    for k in 0..v1.n() {
                        let (x, y) = v1.at(k);
                        bits_eq(need(lib(|| r.get(x, y)), "get"), sh.vals[o][v1.cell(x, y)], "evaluated block");
                    }
                    drop_lib(r);
                }
                "blk" => check(b.b(), &v1),
                "bmm" => {
                    // the block as an operand
                    let nn = 1 + op.m(4, 4);
                    if !v1.cells().iter().all(|c| small_int(sh.vals[o][*c], mm_limit(v1.c).min(4096.0))) {
                        return;
                    }
                    let cur: Vec<T> = (0..v1.r * v1.c).map(|x| sh.vals[o][v1.cell(x / v1.c, x % v1.c)]).collect();
                    let zero = vec![T::mk(0, 0); v1.r * nn];
                    let want = ref_mm((1, 0), &cur, &small_vals::<T>(v1.c, nn, 5), (0, 0), &zero, v1.r, v1.c, nn);
                    let y = small_mat::<T, RowMajor>(v1.c, nn, 5);
                    let mut c = need(lib(|| MatrixD::<T, ColumnMajor>::zeros_from_dim(v1.r, nn)), "zeros_from_dim");
                    need(
                        lib(|| match &b {
                            SV::R(a) => T::mm(T::mk(1, 0), a, &y, T::mk(0, 0), &mut c),
                            SV::C(a) => T::mm(T::mk(1, 0), a, &y, T::mk(0, 0), &mut c),
                        }),
                        "matmul",
                    );
                    for x in 0..v1.r {
                        for z in 0..nn {
                            eq(need(lib(|| RMat::get(&c, x, z)), "get"), want[x * nn + z], "product with a block as operand");
                        }
                    }
                    drop_in_lib((y, c));
                }
                _ => {
                    let tl2 = (op.m(4, d.0), op.m(5, d.1));
                    let d2 = (1 + op.m(6, d.0 - tl2.0), 1 + op.m(7, d.1 - tl2.1));
                    let v2 = v1.sub(tl2, d2);
                    let b2 = need(lib(|| b.k().blk(tl2, d2)), "block of a block");
                    if op.k == "blk2" {
                        check(b2.b(), &v2);
                    } else {
                        let tl3 = (op.m(6, d2.0), op.m(7, d2.1));
                        let d3 = (d2.0 - tl3.0, d2.1 - tl3.1);
                        let v3 = v2.sub(tl3, d3);
                        let b3 = need(lib(|| b2.k().blk(tl3, d3)), "block of a block of a block");
                        check(b3.b(), &v3);
                        check(b2.b(), &v2);
                    }
                }
            }
        }
        "eval" => {
            let Some(e) = ob.e() else { return };
            let r = need(lib(|| e.ev()), "eval");
            for k in 0..v.n() {
                let (x, y) = v.at(k);
                bits_eq(need(lib(|| r.get(x, y)), "get"), at(sh, o, x, y), "evaluated matrix");
            }
            drop_lib(r);
        }
        "conv" => {
            eqn(need(lib(|| ob.r().at(kk)), "convert_1d_2d"), (i, j), "position of a 1-D index");
            eqn(need(lib(|| ob.r().idx(i, j)), "convert_2d_1d"), kk, "1-D index of a position");
            eqn(need(lib(|| ob.r().raw(i, j)), "convert_2d_raw"), v.cell(i, j), "raw index of a position");
            eqn(need(lib(|| ob.r().raw1(kk)), "convert_1d_raw"), v.cell(i, j), "raw index of a 1-D index");
            eqn(need(lib(|| ob.r().nel()), "number_of_elements"), v.n(), "number of elements");
        }
        "xget" => eq(need(lib(|| sh.ex.r().get(xi, xj)), "get"), sh.eexp[xk], "element of an expression"),
        "xget1" => eq(need(lib(|| sh.ex.r().get1(xk)), "get1d"), sh.eexp[xk], "element of an expression by 1-D index"),
        "xall" => expr_all(sh, "while others read"),
        "xeval" => eval_expr(sh),
        "mmul" => {
            let mut c = prod::make_p(sh.kinds.2, op.m(2, 6), sh.m, sh.n, op.m(3, 648), new_id(), &|_, _| T::nan(), T::mk(77, 77));
            need(lib(|| prod::matmul(T::mk(1, 0), &sh.a.m, &sh.b.m, T::mk(0, 0), &mut c.m)), "matmul");
            for x in 0..sh.m {
                for y in 0..sh.n {
                    eq(c.cells.get(c.v.cell(x, y)), sh.want[x * sh.n + y], "product of shared operands");
                }
            }
            drop_in_lib(c);
        }
        "dot" => {
            if let Some(r) = prod::dot(&sh.a.m, &sh.b.m) {
                let r = need(r, "dot");
                eqn(need(lib(|| r.dim()), "dim"), (sh.m, sh.n), "dimension of a product");
                for x in 0..sh.m {
                    for y in 0..sh.n {
                        eq(need(lib(|| r.get(x, y)), "get"), sh.want[x * sh.n + y], "product of shared operands");
                    }
                }
                drop_lib(r);
            }
        }
        "pall" => {
            for (q, w, n) in [(&sh.a, &sh.pa, sh.k), (&sh.b, &sh.pb, sh.n)] {
                for k in 0..q.v.n() {
                    let (x, y) = q.v.at(k);
                    bits_eq(need(lib(|| q.m.b().get(x, y)), "get"), w[x * n + y], "element of a shared operand");
                }
            }
        }
        "reent" => {
            // reads started from inside an element access of another read
            let deep = ctl().depth;
            if deep > 0 {
                sched::probe("reach.deep_reentry");
            }
            let mut left = if deep == 0 { 1 + op.m(3, 5) } else { 1 };
            let x = op.clone();
            ctl().hook = Some(Box::new(move || {
                if left > 0 {
                    left -= 1;
                    sched::probe("reentrant_read");
                    let mut y = x.clone();
                    let k = if deep < 4 { x.m(4, 9) } else { x.m(4, 6) };
                    y.k = ["all", "xall", "eval", "xeval", "get1", "dot", "reent", "reent", "cb"][k].into();
                    y.a[0] += 1;
                    y.a[4] /= 9;
                    y.a[2] /= 4;
                    ctl().depth += 1;
                    run_op(sh, &y);
                    ctl().depth -= 1;
                }
            }));
            match op.m(2, 4) {
                0 => read_all(sh, o, "while others read"),
                1 => expr_all(sh, "while others read"),
                2 => eval_expr(sh),
                _ => {
                    if let Some(e) = ob.e() {
                        let r = need(lib(|| e.ev()), "eval");
                        for k in 0..v.n() {
                            let (x, y) = v.at(k);
                            bits_eq(need(lib(|| r.get(x, y)), "get"), at(sh, o, x, y), "evaluated matrix");
                        }
                        drop_lib(r);
                    }
                }
            }
            ctl().hook = None;
        }
        "cb" => {
            // reads from inside the callback of an element-wise update of a private matrix
            let mut m = need(lib(|| MatrixD::<T, RowMajor>::zeros_from_dim(2, 2)), "zeros_from_dim");
            let mut y = op.clone();
            need(
                lib(|| {
                    m.for_each(|x| {
                        pause(|| {
                            let deep = ctl().depth;
                            y.k = ["get", "xget", "eval", "xeval", "dot", "blk2"][y.m(3, 6)].into();
                            y.a[1] += 1;
                            if deep < 4 && y.m(5, 3) == 0 {
                                y.k = if y.m(5, 2) == 0 { "cb" } else { "reent" }.into();
                            }
                            y.a[5] /= 3;
                            ctl().depth += 1;
                            run_op(sh, &y);
                            ctl().depth -= 1;
                        });
                        *x = val(9);
                    })
                }),
                "for_each",
            );
            for k in 0..4 {
                bits_eq(need(lib(|| RMat::get1(&m, k)), "get1d"), val(9), "private matrix");
            }
            drop_in_lib(m);
        }
        x => report::harness_error(&format!("unknown operation {}", x)),
    }
}

fn eval_expr<T: Sc>(sh: &Shared<T>) {
    let Some(e) = sh.ex.e() else { return expr_all(sh, "while others read") };
    let r = need(lib(|| e.ev()), "eval of an expression");
    eqn(need(lib(|| r.dim()), "dim"), (sh.ev.r, sh.ev.c), "dimension of an evaluated expression");
    for k in 0..sh.ev.n() {
        let (x, y) = sh.ev.at(k);
        eq(need(lib(|| r.get(x, y)), "get"), sh.eexp[k], "evaluated expression");
    }
    drop_lib(r);
}
