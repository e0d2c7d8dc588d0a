//! C06: a failed allocation is clean and can be retried.

use super::expr;
use super::prod;
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{arena, lib, pause, report, Injected, Stop};

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 4);
    p.set("nobj", nt as i64);
    // 0: each allocation of an operation fails in turn; 1: threads compete for limited memory.
    p.set("mode", r.below(2) as i64);
    p.set("budget", r.logu(6000) as i64);
    for i in 0..nt {
        gen_obj(r, p, i, true);
        p.set(&format!("form{}", i), r.below(4) as i64);
        p.set(&format!("kinds{}", i), r.below(216) as i64);
        let big = r.chance(1, 40);
        for k in ["m", "k", "n"] {
            let d = if big { r.range(20, 60) } else { gdim(r, false) };
            p.set(&format!("{}{}", k, i), d);
        }
        p.set(&format!("pc{}", i), r.below(216) as i64);
        p.set(&format!("psx{}", i), r.below(81 * 8) as i64);
    }
    p.set("fam", r.below(8) as i64);
    p.set("shape", r.below(expr::NSHAPE as u64) as i64);
    let d = gdim(r, true);
    p.set("er", d);
    let d = gdim(r, true);
    p.set("ec", d);
    p.set("esx", r.below(64) as i64);
    for t in 0..nt {
        for _ in 0..1 + r.below(6) {
            let k = *r.pick(&["zeros", "zeros", "xeval", "xeval", "eval", "dot", "matmul", "matmul", "rand", "hold", "hold", "release", "check"]);
            let mut a: Vec<i64> = (0..8).map(|_| r.below(1 << 16) as i64).collect();
            a[0] = gdim(r, true);
            a[1] = gdim(r, true);
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (0, 40), (20, 20)]);
    p.rand_faults(r, k, s, 800);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

type Res<T> = Result<Option<Box<dyn BMat<T>>>, Stop>;

/// What one task works on; alive for the whole run.
struct St<T: Sc> {
    mode: i64,
    o: Obj<T>,
    a: prod::Prod<T>,
    b: prod::Prod<T>,
    c: prod::Prod<T>,
    dims: (usize, usize, usize),
    pa: Vec<T>,
    pb: Vec<T>,
    x: *const Expr<T>,
    held: Vec<(Box<dyn BMat<T>>, Vec<T>)>,
    failed: Vec<Op>,
    live: i64,
}

struct Expr<T: Sc> {
    ex: expr::Ex<T>,
    v: View,
    want: Vec<T>,
}

impl<T: Sc> St<T> {
    /// Everything an operation reads or writes, bit for bit.
    fn snap(&self) -> Vec<Vec<[u64; 2]>> {
        vec![self.o.cells.snap(), self.a.cells.snap(), self.b.cells.snap(), self.c.cells.snap()]
    }
    fn c_vals(&self) -> Vec<T> {
        let v = self.c.v;
        (0..v.r * v.c).map(|k| self.c.cells.get(v.cell(k / v.c, k % v.c))).collect()
    }
    fn held_fine(&self) {
        for (m, want) in &self.held {
            for (k, w) in want.iter().enumerate() {
                bits_eq(need(lib(|| m.get1(k)), "get1d"), *w, "element of a matrix kept from before");
            }
        }
    }
}

fn go<T: Sc>(p: &Plan) {
    let nobj = p.u("nobj").clamp(1, CROWD_MAX);
    // The expression all tasks share.
    let fam = p.u("fam") % 8;
    let shape = expr::shape_of(fam, p.u("shape"));
    let (lx, ly) = expr::fam_lays(fam);
    let (er, mut ec) = (p.u("er"), p.u("ec"));
    if fam == 7 {
        ec = er;
    }
    let esx = p.u("esx");
    let views = [lay_view(lx, er, ec, esx), lay_view(ly, er, ec, esx / 8), lay_view(lx, er, ec, esx / 2)];
    let mut ds = vec![];
    let mut cs = vec![];
    for (i, v) in views.iter().enumerate() {
        let (d, c) = any_c::<T>(5, v.span(), 50 + i as u32, &|x| val(7 * (i as i64 + 1) + x as i64));
        ds.push(d);
        cs.push(c);
    }
    let ds: [AnyC<T>; 3] = ds.try_into().ok().unwrap();
    let ex = need(expr::build(fam, shape, ds, views, T::mk(3, 0), T::mk(2, 0)), "expression");
    let md = expr::model(shape, 3, 2);
    let v = View { base: 0, ..views[0] };
    let want = (0..v.n())
        .map(|k| {
            let (i, j) = v.at(k);
            expr::value(&md, |o| cs[o].get(views[o].cell(i, j)))
        })
        .collect();
    let x: &'static Expr<T> = leak(Expr { ex, v, want });

    let mut sts = vec![];
    for i in 0..nobj {
        let u = |k: &str| p.u(&format!("{}{}", k, i));
        let o = obj_of::<T>(p, i, true, &|x| val(100 + x as i64));
        let form = u("form") % 4;
        let kinds = prod::kinds(form, u("kinds"));
        let (m, k, n) = prod::dims(form, u("m").max(1), u("k").max(1), u("n").max(1));
        let (pa, pb) = (small_vals::<T>(m, k, 11), small_vals::<T>(k, n, 12));
        let (pc, sx) = (u("pc"), u("psx"));
        let gap = T::nan();
        let a = prod::make_p(kinds.0, pc, m, k, sx, 60, &|i, j| pa[i * k + j], gap);
        let b = prod::make_p(kinds.1, pc / 6, k, n, sx / 3, 61, &|i, j| pb[i * n + j], gap);
        let c = prod::make_p(kinds.2, pc / 36, m, n, sx / 5, 62, &|i, j| small_val(13, i, j), gap);
        let st: *mut St<T> = leak(St {
            mode: p.p("mode"),
            o,
            a,
            b,
            c,
            dims: (m, k, n),
            pa,
            pb,
            x,
            held: vec![],
            failed: vec![],
            live: 0,
        });
        sts.push(st);
    }
    let base = arena::live();
    if p.p("mode") == 1 {
        unsafe { BUDGET = base.1 + p.u("budget") };
        sched::set_budget(base.1 + p.u("budget"));
    }
    for (t, st) in sts.iter().enumerate() {
        let st = *st;
        let ops: &[Op] = p.tasks.get(t).map(|x| &x[..]).unwrap_or(&[]);
        let seed = t as u64 + 5;
        let mut first = true;
        spawn_ops(t, ops, move |_, op| {
            if first {
                first = false;
                sched::set_entropy(seed, None);
            }
            run_op(unsafe { &mut *st }, op);
        });
    }
    sched::run();
    // The pressure is over: whatever failed succeeds now, and then everything is given back.
    unsafe { BUDGET = usize::MAX };
    sched::set_budget(usize::MAX);
    let dead: Vec<bool> = (0..nobj).map(sched::is_dead).collect();
    for (t, st) in sts.iter().enumerate() {
        let st = *st;
        let dead = dead[t];
        spawn_ops(nobj + t, &[Op { k: "again".into(), a: vec![] }], move |_, _| {
            if dead {
                return;
            }
            let st = unsafe { &mut *st };
            sched::set_entropy(77, None);
            if st.failed.iter().any(|o| o.k == "rand") {
                warm(st);
            }
            for op in std::mem::take(&mut st.failed) {
                sched::probe("retried_after_pressure");
                let (r, want, cv) = attempt(st, &op);
                match r {
                    Ok(m) => result(st, &op, m, want, cv, false),
                    Err(x) => bad("failure-after-pressure", format!("{} failed although memory is available again: {:?}", op.k, x)),
                }
            }
            st.held_fine();
            for (m, _) in st.held.drain(..) {
                drop_lib(m);
            }
        });
    }
    sched::run();
    if !dead.iter().any(|d| *d) {
        let tls: i64 = sts.iter().map(|s| unsafe { (**s).live }).sum();
        let now = arena::live().1 as i64 - tls;
        if now != base.1 as i64 {
            bad("leak", format!("{} bytes are still allocated after everything was dropped", now - base.1 as i64));
        }
    }
}

fn shape_name(op: &Op) -> String {
    format!("{} {:?}", op.k, op.a)
}

/// One attempt at an allocating operation: its outcome, the elements it must deliver in 1-D order (if
/// they are determined), and the elements C must hold (for products in place).
#[allow(clippy::type_complexity)]
fn attempt<T: Sc>(st: &mut St<T>, op: &Op) -> (Res<T>, Option<Vec<T>>, Option<Vec<T>>) {
    fn bx<T: Sc, M: BMat<T> + 'static>(m: M) -> Option<Box<dyn BMat<T>>> {
        pause(|| Some(Box::new(m) as Box<dyn BMat<T>>))
    }
    let (r, c) = dims_at(op, 0, 1);
    let zeros = |n: usize| Some(vec![T::mk(0, 0); n]);
    match op.k.as_str() {
        "zeros" | "hold" => match op.m(2, 10) {
            0 => (lib(|| bx(MatrixD::<T, RowMajor>::zeros_from_dim(r, c))), zeros(r * c), None),
            1 => (lib(|| bx(MatrixD::<T, ColumnMajor>::zeros_from_dim(r, c))), zeros(r * c), None),
            2 => (lib(|| bx(UpperTriangularMatrix::<T>::zeros_from_dim(r.min(100), r.min(100)))), zeros(r.min(100) * (r.min(100) + 1) / 2), None),
            3 => (lib(|| bx(ColumnVectorD::<T>::zeros_from_length(r))), zeros(r), None),
            4 => (lib(|| bx(RowVectorD::<T>::zeros_from_length(c))), zeros(c), None),
            5 => (lib(|| bx(T::mat_rm(r, c))), zeros(r * c), None),
            6 => (lib(|| bx(T::mat_cm(r, c))), zeros(r * c), None),
            7 => (lib(|| bx(T::vec_c(r))), zeros(r), None),
            8 => (lib(|| bx(T::vec_r(c))), zeros(c), None),
            _ => (
                lib(|| bx(GenericBaseMatrix::<T, RowMajor, VectorContainer<T>, Dynamic, Dynamic>::from_data(VectorContainer::new(r * c), RowMajor::new((r, c))))),
                zeros(r * c),
                None,
            ),
        },
        "xeval" => {
            let x = unsafe { &*st.x };
            let e = x.ex.e().unwrap();
            (lib(|| Some(e.ev())), Some(x.want.clone()), None)
        }
        "eval" => {
            let v = st.o.v;
            let want = (0..v.n()).map(|k| st.o.cells.get(v.cell1(k))).collect();
            match st.o.e() {
                Some(e) => (lib(|| Some(e.ev())), Some(want), None),
                None => (Ok(None), None, None),
            }
        }
        "dot" => {
            let (m, k, n) = st.dims;
            let z = vec![T::mk(0, 0); m * n];
            match prod::dot(&st.a.m, &st.b.m) {
                Some(r) => (r.map(Some), Some(ref_mm((1, 0), &st.pa, &st.pb, (0, 0), &z, m, k, n)), None),
                None => (Ok(None), None, None),
            }
        }
        "matmul" => {
            let (m, k, n) = st.dims;
            let cur = st.c_vals();
            let ints = cur.iter().all(|x| small_int(*x, 65536.0));
            let al = small_scalar(op.n(3));
            let be = if ints { small_scalar(op.n(4)) } else { (0, 0) };
            let cur: Vec<T> = if ints { cur } else { vec![T::mk(0, 0); m * n] };
            let want = ref_mm(al, &st.pa, &st.pb, be, &cur, m, k, n);
            let St { a, b, c, .. } = st;
            (lib(|| { prod::matmul(T::mk(al.0, al.1), &a.m, &b.m, T::mk(be.0, be.1), &mut c.m); None }), None, Some(want))
        }
        "rand" => match op.m(2, 4) {
            0 => (lib(|| bx(T::rand_mat_rm(r, c))), None, None),
            1 => (lib(|| bx(T::rand_mat_cm(r, c))), None, None),
            2 => (lib(|| bx(T::rand_vec_c(r))), None, None),
            _ => (lib(|| bx(T::rand_vec_r(c))), None, None),
        },
        x => report::harness_error(&format!("unknown operation {}", x)),
    }
}

/// Judges what a successful operation delivered.
fn result<T: Sc>(st: &mut St<T>, op: &Op, m: Option<Box<dyn BMat<T>>>, want: Option<Vec<T>>, cv: Option<Vec<T>>, keep: bool) {
    if let Some(want) = cv {
        let got = st.c_vals();
        for (g, w) in got.iter().zip(&want) {
            eq(*g, *w, "element of an accumulation target");
        }
        return;
    }
    let Some(m) = m else { return };
    if let Some(want) = want {
        eqn(need(lib(|| m.nel()), "number_of_elements"), want.len(), "number of elements of a result");
        for (k, w) in want.iter().enumerate() {
            eq(need(lib(|| m.get1(k)), "get1d"), *w, &format!("element {} of the result of {}", k, op.k));
        }
        if keep {
            let want: Vec<T> = (0..want.len()).map(|k| need(lib(|| m.get1(k)), "get1d")).collect();
            st.held.push((m, want));
            return;
        }
    } else {
        let n = need(lib(|| m.nel()), "number_of_elements");
        for k in 0..n {
            let g = parts(need(lib(|| m.get1(k)), "get1d"));
            if !g[0].is_finite() || !(T::NC == 1 || g[1].is_finite()) {
                bad("wrong-value", format!("element {} of a random matrix is {:?}", k, g));
            }
        }
    }
    drop_lib(m);
}

/// A failure must be an allocation error, leave nothing behind and change nothing.
fn clean<T: Sc>(st: &St<T>, op: &Op, before: &[Vec<[u64; 2]>], live: i64, e: &Stop) {
    match e {
        Stop::Injected(Injected::Oom) => sched::probe("clean_failure"),
        Stop::Injected(k) => report::harness_error(&format!("stray {:?}", k)),
        Stop::Panic(m) => bad("not-an-allocation-error", format!("{}: an allocation that failed was reported as: {}", shape_name(op), m)),
    }
    let now = sched::alloc_stat().live;
    if now != live {
        bad("leak", format!("{}: {} bytes are still allocated after a failed allocation", shape_name(op), now - live));
    }
    if st.snap() != before {
        bad("effect-of-failure", format!("{}: operands or target changed although the operation failed", shape_name(op)));
    }
}

static mut BUDGET: usize = usize::MAX;

/// The thread's generator itself, made at its first use, is rand's and stays.
fn warm<T: Sc>(st: &mut St<T>) {
    let live = sched::alloc_stat().live;
    sched::set_budget(usize::MAX);
    need(lib(|| drop(rand::thread_rng())), "thread_rng");
    let d = sched::alloc_stat().live - live;
    st.live += d;
    unsafe {
        if BUDGET != usize::MAX {
            BUDGET += d as usize;
        }
        sched::set_budget(BUDGET);
    }
}

fn run_op<T: Sc>(st: &mut St<T>, op: &Op) {
    match op.k.as_str() {
        "release" => {
            if !st.held.is_empty() {
                let i = op.m(2, st.held.len());
                st.held_fine();
                let (m, _) = st.held.remove(i);
                drop_lib(m);
            }
            return;
        }
        "check" => return st.held_fine(),
        "rand" => {
            warm(st);
        }
        _ => {}
    }
    let keep = op.k == "hold";
    if st.mode == 0 {
        // Undisturbed first, then with each allocation failing in turn, each time repeated at once.
        let stat = |st: &mut St<T>, n: u64, keep: bool| -> Option<u64> {
            let before = st.snap();
            let live = sched::alloc_stat().live;
            sched::fail_alloc(n);
            let (r, want, cv) = attempt(st, op);
            let cnt = sched::alloc_stat().count;
            let fired = n != 0 && cnt >= n;
            sched::fail_alloc(0);
            match r {
                Ok(m) => {
                    if fired {
                        bad("failure-swallowed", format!("{} returned normally although its allocation number {} failed", shape_name(op), n));
                    }
                    result(st, op, m, want, cv, keep);
                    if !keep && sched::alloc_stat().live != live {
                        bad("leak", format!("{} left {} bytes allocated", shape_name(op), sched::alloc_stat().live - live));
                    }
                    Some(cnt)
                }
                Err(e) => {
                    if n == 0 {
                        bad("unexpected-panic", format!("{}: {:?}", shape_name(op), e));
                    }
                    clean(st, op, &before, live, &e);
                    None
                }
            }
        };
        let cnt = stat(st, 0, keep).unwrap();
        // Sometimes many failures before the next success.
        let lazy = op.m(7, 4) == 0;
        for _ in 0..if lazy { 1 + op.m(6, 6) } else { 1 } {
            for n in 1..=cnt.min(6) {
                if stat(st, n, false).is_none() && !lazy {
                    stat(st, 0, false);
                }
            }
        }
        if lazy {
            stat(st, 0, false);
        }
        return;
    }
    let before = st.snap();
    let live = sched::alloc_stat().live;
    let (r, want, cv) = attempt(st, op);
    match r {
        Ok(m) => result(st, op, m, want, cv, keep),
        Err(e) => {
            clean(st, op, &before, live, &e);
            st.failed.push(op.clone());
        }
    }
}
