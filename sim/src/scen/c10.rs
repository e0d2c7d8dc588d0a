//! C10: memory is conserved over any history.

use super::expr;
use super::prod;
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{arena, inject, lib, pause, report, Injected, Stop};

const SLOTS: usize = 8;

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 4);
    p.set("nobj", nt as i64);
    let all = [
        "mat", "mat", "own", "own", "bor", "read", "read", "eval", "eval", "evalfail", "evalfail", "drop", "drop", "drop", "update", "fill", "view", "view", "misfit",
        "short", "product", "rand", "pipe", "pipe",
    ];
    let mut kinds: Vec<&str> = all.iter().copied().filter(|_| r.chance(3, 4)).collect();
    kinds.extend(["mat", "own", "drop"]);
    let long = r.chance(1, 20);
    for t in 0..nt {
        for _ in 0..if long { 40 } else { 2 + r.below(9) } {
            let k = *r.pick(&kinds);
            let mut a: Vec<i64> = (0..10).map(|_| r.below(1 << 16) as i64).collect();
            // 1, 2: dimensions
            a[1] = gdim(r, true);
            a[2] = gdim(r, true);
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (0, 0), (0, 50), (20, 20)]);
    p.rand_faults(r, k, s, 1500);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

/// Something created by a thread, with the elements it must have, in 1-D order.
enum It<T: Sc> {
    Mat(Obj<T>, Vec<T>),
    Ex { ex: expr::Ex<T>, operands: Vec<expr::Dropper>, want: Vec<T> },
    Res(Box<dyn BMat<T>>, Vec<T>),
}

impl<T: Sc> It<T> {
    fn r(&self) -> &dyn RMat<T> {
        match self {
            It::Mat(o, _) => o.r(),
            It::Ex { ex, .. } => ex.r(),
            It::Res(m, _) => m.as_r(),
        }
    }
    fn e(&self) -> Option<&dyn EMat<T>> {
        match self {
            It::Mat(o, _) => o.e(),
            It::Ex { ex, .. } => ex.e(),
            It::Res(..) => None,
        }
    }
    fn want(&self) -> &[T] {
        match self {
            It::Mat(_, w) => w,
            It::Ex { want, .. } => want,
            It::Res(_, w) => w,
        }
    }
    fn check(&self, what: &str) {
        let r = self.r();
        let w = self.want();
        eqn(need(lib(|| r.nel()), "number_of_elements"), w.len(), "number of elements");
        if let Some(l) = need(lib(|| r.len()), "length") {
            eqn(l, w.len(), "length of a vector");
        }
        for (k, x) in w.iter().enumerate() {
            let g = need(
                lib(|| match k % 4 {
                    3 => {
                        let (i, j) = r.at(k);
                        r.rget(k / 4, i, j, k)
                    }
                    0 => r.get1(k),
                    1 => r.get1_un(k),
                    _ => {
                        let (i, j) = r.at(k);
                        r.get(i, j)
                    }
                }),
                "element read",
            );
            bits_eq(g, *x, &format!("element {} of an object {}", k, what));
        }
    }
    fn end(self) {
        match self {
            It::Mat(o, _) => drop_in_lib(o),
            It::Ex { ex, operands, .. } => {
                drop_in_lib(ex);
                for d in operands {
                    need(d(), "drop of an operand");
                }
            }
            It::Res(m, _) => drop_lib(m),
        }
    }
}

struct Pool<T: Sc> {
    s: Vec<Option<It<T>>>,
    /// Memory of the threads' own random generators.
    tls: i64,
}

fn go<T: Sc>(p: &Plan) {
    let nobj = p.u("nobj").clamp(1, CROWD_MAX);
    let pool: *mut Pool<T> = leak(Pool { s: (0..SLOTS).map(|_| None).collect(), tls: 0 });
    let base = arena::live();
    for t in 0..nobj {
        let ops: &[Op] = p.tasks.get(t).map(|x| &x[..]).unwrap_or(&[]);
        let mut first = ops.iter().any(|o| o.kind() == "rand" || o.kind() == "pipe");
        spawn_ops(t, ops, move |_, op| {
            let pool = unsafe { &mut *pool };
            if first {
                first = false;
                sched::set_entropy(t as u64 + 9, None);
                sched::alloc_reset();
                need(lib(|| drop(rand::thread_rng())), "thread_rng");
                pool.tls += sched::alloc_stat().live;
            }
            run_op(pool, op, t);
        });
    }
    sched::run();
    let dead = (0..nobj).any(sched::is_dead);
    // Another thread gives back whatever is left.
    spawn_ops(nobj, &[Op { k: "sweep".into(), a: vec![] }], move |_, _| {
        let pool = unsafe { &mut *pool };
        for i in 0..SLOTS {
            if let Some(x) = &pool.s[i] {
                x.check("that is left at the end");
            }
        }
        for i in 0..SLOTS {
            if let Some(x) = pool.s[i].take() {
                x.end();
            }
        }
    });
    sched::run();
    if dead {
        return;
    }
    let now = arena::live();
    let tls = unsafe { (*pool).tls };
    if now.1 as i64 - tls != base.1 as i64 {
        bad("leak", format!("{} bytes are still allocated after everything was dropped", now.1 as i64 - tls - base.1 as i64));
    }
    for id in born() {
        if drops(*id) != 1 {
            bad("leak", format!("a storage container was dropped {} times although everything was dropped", drops(*id)));
        }
    }
}

/// Elements of a matrix over its storage, in 1-D order.
fn elems<T: Sc>(o: &Obj<T>) -> Vec<T> {
    (0..o.v.n()).map(|k| o.cells.get(o.v.cell1(k))).collect()
}

/// An expression with fresh operands.
fn make_ex<T: Sc>(op: &Op, own: bool, odd: usize) -> Result<It<T>, Stop> {
    let (r, c) = dims_at(op, 1, 2);
    let fam = if own { op.m(3, 8) } else { op.m(3, expr::NFAM) };
    let r = if fam == 7 { r.min(100) } else { r };
    let shape = if own { 12 + op.m(4, expr::NSHAPE - 12) } else { op.m(4, 12) };
    let (lx, ly) = expr::fam_lays(fam);
    let tri = fam == 7;
    let (r2, c2) = (r, if tri { r } else { c });
    let sx = op.m(5, 64);
    // Operand 1 does not fit if `odd` is not 0.
    let views = [
        lay_view(lx, r2, c2, sx),
        lay_view(ly, r2 + odd, if tri { c2 + odd } else { c2 }, sx / 8),
        lay_view(lx, r2, c2, sx / 2),
    ];
    let mut ds = vec![];
    let mut cs = vec![];
    for (i, v) in views.iter().enumerate() {
        let (d, c) = any_c::<T>([0, 1, 4, 2, 4, 0, 3][op.m(6 + i % 3, 7)], v.span(), new_id(), &|x| val(7 * (i as i64 + 1) + x as i64));
        ds.push(d);
        cs.push(c);
    }
    let ds: [AnyC<T>; 3] = ds.try_into().ok().unwrap();
    let (s, t) = (1 + op.m(7, 4) as i64, 2);
    let md = expr::model(shape, s, t);
    let v = views[0];
    let want = if odd > 0 {
        vec![]
    } else {
        (0..v.n())
            .map(|k| {
                let (i, j) = v.at(k);
                expr::value(&md, |o| cs[o].get(views[o].cell(i, j)))
            })
            .collect()
    };
    let (ex, operands) = expr::build_tracked(fam, shape, ds, views, T::mk(s, 0), T::mk(t, 0));
    match ex {
        Ok(ex) => Ok(It::Ex { ex, operands, want }),
        Err(e) => {
            for d in operands {
                need(d(), "drop of an operand");
            }
            Err(e)
        }
    }
}

fn run_op<T: Sc>(pool: &mut Pool<T>, op: &Op, t: usize) {
    let slot = op.m(0, SLOTS);
    let put = |pool: &mut Pool<T>, x: It<T>| {
        // Whatever came into the slot meanwhile goes.
        if let Some(y) = pool.s[slot].replace(x) {
            y.check("about to be dropped");
            y.end();
        }
    };
    match op.k.as_str() {
        "mat" => {
            let lay = pick_lay(op.n(3));
            let con = op.m(4, 8);
            let con = if con < 6 { writable(con) } else { con };
            let (r, c) = dims_at(op, 1, 2);
            let o = make::<T>(lay, con, if lay == 8 { r.min(100) } else { r }, c, op.m(5, 64), new_id(), &|x| val(10 + x as i64));
            let want = elems(&o);
            put(pool, It::Mat(o, want));
        }
        "own" | "bor" => {
            let x = need(make_ex::<T>(op, op.k == "own", 0), "expression");
            put(pool, x);
        }
        "misfit" => {
            // Combining operands that do not fit is refused, and the operands given are gone.
            let shape = 12 + op.m(4, expr::NSHAPE - 12);
            let own = op.m(8, 2) == 0;
            let uses_both = if own { shape != 13 && shape != 16 } else { ![1, 2, 7, 10].contains(&op.m(4, 12)) };
            if !uses_both || op.n(1) == 0 || (!own && op.m(3, expr::NFAM) > 7) {
                return;
            }
            match make_ex::<T>(op, own, 1) {
                Err(Stop::Panic(_)) => sched::probe("fault.misused_call"),
                Err(x) => report::harness_error(&format!("stray {:?}", x)),
                Ok(_) => bad("misuse-accepted", "an expression over operands of different dimension".into()),
            }
        }
        "short" => {
            let (r, c) = dims_at(op, 1, 2);
            let (r, c) = (r.max(1), c.max(1));
            let (d, _) = any_c::<T>([0, 4, 2][op.m(3, 3)], op.m(4, r * c), new_id(), &|x| val(x as i64));
            if d.number_of_elements() >= r * c {
                return drop_in_lib(d);
            }
            match op.m(5, 2) {
                0 => refused(lib(|| G::<T, _>::from_data(d, RowMajor::new((r, c)))), "a matrix over too short a storage"),
                _ => refused(lib(|| G::<T, _>::from_data(d, ColumnMajor::new((r, c)))), "a matrix over too short a storage"),
            }
        }
        "read" => {
            let Some(x) = pool.s[slot].take() else { return };
            x.check("in the middle of its life");
            put(pool, x);
        }
        "eval" => {
            let Some(x) = pool.s[slot].take() else { return };
            if let Some(e) = x.e() {
                let m = need(lib(|| e.ev()), "eval");
                let want = x.want().to_vec();
                let res = It::Res(m, want);
                res.check("just evaluated");
                // The result outlives what it was made from, or the other way round.
                match op.m(3, 3) {
                    0 => {
                        x.end();
                        res.check("whose operands are gone");
                        return put(pool, res);
                    }
                    1 => {
                        res.end();
                        x.check("whose result is gone");
                    }
                    _ => {
                        let other = op.m(4, SLOTS);
                        if let Some(y) = pool.s[other].replace(res) {
                            y.check("about to be dropped");
                            y.end();
                        }
                    }
                }
            }
            put(pool, x);
        }
        "evalfail" => {
            let Some(x) = pool.s[slot].take() else { return };
            if let Some(e) = x.e() {
                if op.m(3, 2) == 0 {
                    ctl().fail_at = 1 + op.m(4, 2 * x.want().len() + 1) as u64;
                } else {
                    sched::fail_alloc(1 + op.m(4, 3) as u64);
                }
                let r = lib(|| e.ev());
                ctl().fail_at = 0;
                sched::fail_alloc(0);
                match r {
                    Ok(m) => drop_lib(m),
                    Err(Stop::Injected(Injected::Storage)) | Err(Stop::Injected(Injected::Oom)) => {}
                    Err(y) => bad("unexpected-panic", format!("eval: {:?}", y)),
                }
                x.check("whose evaluation failed");
            }
            // Some objects do not survive the failure of an operation on them.
            if op.m(5, 2) == 0 {
                x.end();
            } else {
                put(pool, x);
            }
        }
        "drop" => {
            if let Some(x) = pool.s[slot].take() {
                x.end();
            }
        }
        "update" | "fill" => {
            let Some(x) = pool.s[slot].take() else { return };
            let It::Mat(mut o, mut want) = x else { return put(pool, x) };
            let n = want.len();
            if op.k == "update" {
                let stop = op.m(3, 2 * n + 1);
                let mut k = 0;
                let v0 = op.n(4);
                let r = lib(|| {
                    o.w().each(&mut |e: &mut T| {
                        if k == stop {
                            inject(Injected::Callback);
                        }
                        *e = val(v0 + k as i64);
                        k += 1;
                        pause(sched::yield_now);
                    })
                });
                match r {
                    Ok(()) | Err(Stop::Injected(Injected::Callback)) => {}
                    Err(e) => bad("unexpected-panic", format!("for_each: {:?}", e)),
                }
                for (k, w) in want.iter_mut().enumerate().take(stop) {
                    *w = val(v0 + k as i64);
                }
            } else {
                let mut g = SimRng::new(op.n(3));
                g.fail_at = op.m(4, 4 * n * T::NC + 2) as u64;
                match lib(|| o.w().fill(&mut g)) {
                    Ok(()) | Err(Stop::Injected(Injected::Generator)) => {}
                    Err(e) => bad("unexpected-panic", format!("fill: {:?}", e)),
                }
                want = elems(&o);
            }
            let x = It::Mat(o, want);
            x.check("after an update");
            if op.m(5, 4) == 0 {
                x.end();
            } else {
                put(pool, x);
            }
        }
        "view" => {
            let Some(x) = pool.s[slot].take() else { return };
            let It::Mat(mut o, mut want) = x else { return put(pool, x) };
            let v = o.v;
            let cells = o.cells;
            let (tl, at) = ((op.m(3, v.r + 1), op.m(4, v.c + 1)), op.m(5, 5));
            let d = (v.r - tl.0, v.c - tl.1);
            if let Some(m) = o.km() {
                let r = lib(|| {
                    // Views of views; at some point a panic may end them all.
                    let die = |k: usize| {
                        if at == k {
                            inject(Injected::Callback)
                        }
                    };
                    {
                        let b = m.as_k().blk(tl, d);
                        die(1);
                        let q = b.k().blk((0, 0), d);
                        drop(b.e().ev());
                        die(2);
                        drop(q);
                    }
                    if let Some(mut q) = m.quarters(tl) {
                        if d.0 > 0 && d.1 > 0 {
                            *q[3].w().mref(0, 0) = val(77);
                        }
                        die(3);
                        drop(q);
                    }
                    let mut b = m.blk_m(tl, d);
                    let mut q = b.km().blk_m((0, 0), d);
                    if d.0 > 0 && d.1 > 0 {
                        *q.w().mref(d.0 - 1, d.1 - 1) = val(78);
                    }
                    die(4);
                });
                match r {
                    Ok(()) | Err(Stop::Injected(Injected::Callback)) => {}
                    Err(e) => bad("unexpected-panic", format!("views: {:?}", e)),
                }
                want = (0..v.n()).map(|k| cells.get(v.cell1(k))).collect();
            }
            let x = It::Mat(o, want);
            x.check("after views of it have ended");
            put(pool, x);
        }
        "product" => {
            let form = op.m(3, 3);
            let (ka, kb, kc) = prod::kinds(form, op.m(4, 216));
            // Blocks are covered elsewhere; here each operand owns its storage.
            let plain = |k: usize| if k == 4 || k == 5 { k - 4 } else { k };
            let (m, k, n) = prod::dims(form, 1 + op.m(1, 12), 1 + op.m(5, 12), 1 + op.m(2, 12));
            let misfit = op.m(6, 4) == 0;
            let (pa, pb) = (small_vals::<T>(m, k, 11), small_vals::<T>(k, n, 12));
            let sx = op.m(7, 512);
            let a = prod::make_p(plain(ka), op.m(8, 6), m, k, sx, new_id(), &|i, j| pa[i * k + j], T::nan());
            let kk = if misfit { k + 1 } else { k };
            let b = prod::make_p(plain(kb), op.m(8, 36) / 6, kk, n, sx / 3, new_id(), &|i, j| if i < k { pb[i * n + j] } else { T::mk(0, 0) }, T::nan());
            let mut c = prod::make_p(plain(kc), op.m(8, 216) / 36, m, n, sx / 5, new_id(), &|i, j| small_val(13, i, j), T::nan());
            let fail = op.m(9, 4) as u64;
            let z = vec![T::mk(0, 0); m * n];
            let want = ref_mm((1, 0), &pa, &pb, (0, 0), &z, m, k, n);
            sched::fail_alloc(fail);
            let r = lib(|| prod::matmul(T::mk(1, 0), &a.m, &b.m, T::mk(0, 0), &mut c.m));
            sched::fail_alloc(0);
            match r {
                Ok(()) if misfit => bad("misuse-accepted", "product of operands that do not fit".into()),
                Ok(()) => {
                    for i in 0..m {
                        for j in 0..n {
                            eq(c.cells.get(c.v.cell(i, j)), want[i * n + j], "element of a product");
                        }
                    }
                }
                Err(Stop::Panic(_)) if misfit => sched::probe("fault.misused_call"),
                Err(Stop::Injected(Injected::Oom)) => {}
                Err(e) => bad("unexpected-panic", format!("product: {:?}", e)),
            }
            sched::fail_alloc(op.m(9, 16) as u64 / 4);
            let d = prod::dot(&a.m, &b.m);
            sched::fail_alloc(0);
            match d {
                None => {}
                Some(Ok(_)) if misfit => bad("misuse-accepted", "product of operands that do not fit".into()),
                Some(Ok(x)) => {
                    let mut w = vec![];
                    for q in 0..m * n {
                        let (i, j) = need(lib(|| x.at(q)), "convert_1d_2d");
                        w.push(want[i * n + j]);
                    }
                    put(pool, It::Res(x, w));
                }
                Some(Err(Stop::Panic(_))) if misfit => sched::probe("fault.misused_call"),
                Some(Err(Stop::Injected(Injected::Oom))) => {}
                Some(Err(e)) => bad("unexpected-panic", format!("product: {:?}", e)),
            }
            need(lib(|| drop((a, b, c))), "drop of operands");
        }
        "rand" => {
            let (r, c) = dims_at(op, 1, 2);
            sched::fail_alloc(op.m(4, 3) as u64);
            let x = match op.m(3, 4) {
                0 => lib(|| { let m = T::rand_mat_rm(r, c); pause(|| Box::new(m) as Box<dyn BMat<T>>) }),
                1 => lib(|| { let m = T::rand_mat_cm(r, c); pause(|| Box::new(m) as Box<dyn BMat<T>>) }),
                2 => lib(|| { let m = T::rand_vec_c(r); pause(|| Box::new(m) as Box<dyn BMat<T>>) }),
                _ => lib(|| { let m = T::rand_vec_r(c); pause(|| Box::new(m) as Box<dyn BMat<T>>) }),
            };
            sched::fail_alloc(0);
            match x {
                Ok(m) => {
                    let n = need(lib(|| m.nel()), "number_of_elements");
                    let w = (0..n).map(|k| need(lib(|| m.get1(k)), "get1d")).collect();
                    put(pool, It::Res(m, w));
                }
                Err(Stop::Injected(Injected::Oom)) => {}
                Err(e) => bad("unexpected-panic", format!("random matrix: {:?}", e)),
            }
        }
        "pipe" => {
            // A chain of operations ended by a panic, or a failed allocation, somewhere.
            let (r, c) = dims_at(op, 1, 2);
            let (r, c) = if r * c > 200 { (r.max(1), c.max(1)) } else { (1 + r % 9, 1 + c % 9) };
            let at = op.m(3, 9);
            sched::fail_alloc(op.m(4, 8) as u64);
            let res = lib(|| {
                let die = |k: usize| {
                    if at == k {
                        inject(Injected::Callback)
                    }
                };
                let a = T::rand_mat_rm(r, c);
                die(1);
                let mut b = T::mat_rm(r, c);
                b.for_each(|x| *x = T::mk(3, 4));
                die(2);
                let s = (a + b).eval();
                die(3);
                let mut g = T::mat_rm(r, c);
                let e = T::sl(T::mk(2, 0), s);
                die(4);
                let f = e + T::sr(T::mat_rm(r, c), T::mk(5, 0));
                die(5);
                let s2 = f.eval();
                drop(f);
                die(6);
                let q = T::sr(&g + &s2, T::mk(3, 0)).eval();
                g.for_each(|x| *x = T::mk(1, 1));
                die(7);
                drop(g);
                drop(s2);
                q
            });
            sched::fail_alloc(0);
            match res {
                Ok(q) => {
                    let n = need(lib(|| RMat::nel(&q)), "number_of_elements");
                    let w = (0..n).map(|k| need(lib(|| RMat::get1(&q, k)), "get1d")).collect();
                    put(pool, It::Res(Box::new(q), w));
                }
                Err(Stop::Injected(_)) => {}
                Err(e) => bad("unexpected-panic", format!("chain of operations of t{}: {:?}", t, e)),
            }
        }
        x => report::harness_error(&format!("unknown operation {}", x)),
    }
}
