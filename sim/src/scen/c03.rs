//! C03: expressions are evaluated late, in one pass, from live operands.

use super::expr;
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{lib, report, Injected, Stop};

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    p.set("fam", r.below(expr::NFAM as u64) as i64);
    let d = gdim(r, true);
    p.set("er", d);
    let d = gdim(r, true);
    p.set("ec", d);
    p.set("esx", r.below(64) as i64);
    p.set("alias", (r.below(5) == 0) as i64);
    let ne = gthreads(r, 1, 3);
    let nw = 1 + r.below(2) as usize;
    let no = 1 + r.below(6);
    for t in 0..ne {
        let x = r.below(17 * 64) as i64;
        p.op(t, "build", &[x]);
        for _ in 0..no {
            let k = *r.pick(&["build", "eval", "eval", "eval", "get", "get1", "getu", "feval", "feval", "fget", "drop"]);
            let a: Vec<i64> = (0..4).map(|_| r.below(1 << 16) as i64).collect();
            p.op(t, k, &a);
        }
    }
    let no = 2 + r.logu(60);
    for t in ne..ne + nw {
        for _ in 0..no {
            let a: Vec<i64> = (0..3).map(|_| r.below(1 << 16) as i64).collect();
            p.op(t, "w", &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (20, 20), (0, 40), (40, 0)]);
    p.rand_faults(r, k, s, 1000);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

struct Live<T: Sc> {
    fam: usize,
    views: [View; 3],
    cells: [Cells<T>; 3],
    /// Every write to the operands: (operand storage, cell, value).
    hist: Vec<(*const T, T)>,
    next: i64,
}

struct Cur<T: Sc> {
    ex: expr::Ex<T>,
    model: Vec<(i64, usize)>,
    ids: [u32; 3],
}

fn go<T: Sc>(p: &Plan) {
    let fam = p.u("fam");
    let (lx, ly) = expr::fam_lays(fam);
    let (mut er, mut ec) = (p.u("er"), p.u("ec"));
    if fam % expr::NFAM == 7 {
        ec = er;
    }
    if er == 0 || ec == 0 {
        // empty: keep every layout's other dimension sensible
        if fam % expr::NFAM >= 8 {
            er = er.max(1);
            ec = ec.max(1);
        }
    }
    let esx = p.u("esx");
    let views = [lay_view(lx, er, ec, esx), lay_view(ly, er, ec, esx / 8), lay_view(lx, er, ec, esx / 2)];
    let mut cs: Vec<Cells<T>> = vec![];
    let size = views.iter().map(|v| v.span()).max().unwrap().max(1) + 2;
    for i in 0..3 {
        if p.p("alias") != 0 && i > 0 {
            cs.push(cs[0]);
        } else {
            cs.push(Cells::filled(size, |x| T::mk(1000 * i as i64 + x as i64, x as i64 - 500)));
        }
    }
    let l: &'static mut Live<T> = leak(Live { fam, views, cells: [cs[0], cs[1], cs[2]], hist: vec![], next: 5000 });
    let lp = l as *mut Live<T>;
    for (t, ops) in p.tasks.iter().enumerate() {
        let mut cur: Option<Cur<T>> = None;
        spawn_ops(t, ops, move |_, op| {
            let l = unsafe { &mut *lp };
            if op.k == "w" {
                let o = op.m(0, 3);
                let n = l.views[o].n();
                if n > 0 {
                    let c = l.views[o].cell1(op.m(1, n));
                    l.next = 5000 + (l.next + 1) % 20000;
                    let v = T::mk(l.next, -l.next / 2);
                    l.cells[o].set(c, v);
                    l.hist.push((unsafe { l.cells[o].ptr.add(c) }, v));
                    sched::probe("storage_change");
                }
                return;
            }
            run_op(lp, &mut cur, op);
        });
    }
    sched::run();
}

/// Values the cell held since entry `from` of the history.
fn held<T: Sc>(l: &Live<T>, before: &[Vec<T>; 3], from: usize, o: usize, c: usize) -> Vec<T> {
    let a = unsafe { l.cells[o].ptr.add(c) } as *const T;
    let mut v = vec![before[o][c]];
    for (p, x) in &l.hist[from..] {
        if *p == a {
            v.push(*x);
        }
    }
    v
}

fn snap<T: Sc>(l: &Live<T>) -> [Vec<T>; 3] {
    let f = |o: usize| (0..l.cells[o].n).map(|i| l.cells[o].get(i)).collect();
    [f(0), f(1), f(2)]
}

struct Window<T: Sc> {
    before: [Vec<T>; 3],
    from: usize,
    ptrs: u64,
}

fn open<T: Sc>(l: &Live<T>) -> Window<T> {
    ctl().log = Some(vec![]);
    sched::alloc_reset();
    Window { before: snap(l), from: l.hist.len(), ptrs: ctl().pointers }
}

/// The element (i, j) produced must come from exactly the values read for it.
fn check_elem<T: Sc>(l: &Live<T>, c: &Cur<T>, w: &Window<T>, log: &[(u32, usize, [u64; 2])], i: usize, j: usize, got: T, what: &str) {
    if ctl().pointers == w.ptrs {
        let mut sum = [0i64; 2];
        for o in 0..3 {
            let occ: Vec<i64> = c.model.iter().filter(|m| m.1 == o).map(|m| m.0).collect();
            if occ.is_empty() {
                continue;
            }
            let cell = l.views[o].cell(i, j);
            let key = (c.ids[o], cell);
            let first = log.partition_point(|r| (r.0, r.1) < key);
            let reads: Vec<T> = log[first..].iter().take_while(|r| (r.0, r.1) == key).map(|r| T::from_comp(r.2)).collect();
            if reads.len() != occ.len() {
                bad(
                    "wrong-number-of-reads",
                    format!("{}: element ({},{}) of operand {} was read {} times for {} occurrences", what, i, j, o, reads.len(), occ.len()),
                );
            }
            // All occurrences of one operand have the same coefficient in our shapes.
            for (k, x) in occ.iter().zip(&reads) {
                let p = parts(*x);
                sum[0] += k * p[0] as i64;
                sum[1] += k * p[1] as i64;
            }
        }
        let want = T::mk(sum[0], sum[1]);
        if !got.same(want) {
            bad("wrong-value", format!("{}: element ({},{}) is {:?}, but the values read for it give {:?}", what, i, j, got, want));
        }
    } else {
        // Read through the container's pointer: some choice among the values held meanwhile must fit.
        let sets: Vec<(i64, Vec<T>)> = c.model.iter().map(|m| (m.0, held(l, &w.before, w.from, m.1, l.views[m.1].cell(i, j)))).collect();
        let mut sums: Vec<[i64; 2]> = vec![[0, 0]];
        for (k, vs) in &sets {
            let mut n = vec![];
            for s in &sums {
                for v in vs {
                    let p = parts(*v);
                    n.push([s[0] + k * p[0] as i64, s[1] + k * p[1] as i64]);
                }
            }
            n.sort();
            n.dedup();
            n.truncate(200_000);
            sums = n;
        }
        if !sums.iter().any(|s| got.same(T::mk(s[0], s[1]))) {
            bad("stale-value", format!("{}: element ({},{}) is {:?}, which no values the operands held during the evaluation give", what, i, j, got));
        }
    }
}

/// The reads since `open`, by operand and cell, and in order of time for each.
fn close() -> Vec<(u32, usize, [u64; 2])> {
    let mut l = ctl().log.take().unwrap_or_default();
    l.sort_by_key(|r| (r.0, r.1));
    l
}

fn run_op<T: Sc>(lp: *mut Live<T>, cur: &mut Option<Cur<T>>, op: &Op) {
    let l = || unsafe { &*lp };
    let v = View { base: 0, ..l().views[0] };
    match op.k.as_str() {
        "build" => {
            if let Some(c) = cur.take() {
                drop_in_lib(c.ex);
            }
            let shape = expr::shape_of(l().fam, op.m(0, expr::NSHAPE));
            let (s, t) = (1 + op.m(0, 3) as i64, 2 - op.m(0, 5) as i64);
            let ids = [new_id(), new_id(), new_id()];
            let ds = [0, 1, 2].map(|i| AnyC::M(SimStore::new(l().cells[i], ids[i])));
            ctl().log = Some(vec![]);
            sched::alloc_reset();
            let ex = need(expr::build(l().fam, shape, ds, l().views, T::mk(s, 0), T::mk(t, 0)), "building an expression");
            let a = sched::alloc_stat();
            let log = close();
            if !log.is_empty() {
                bad("early-read", format!("building an expression read {} elements", log.len()));
            }
            if a.count != 0 {
                bad("early-allocation", format!("building an expression made {} allocations", a.count));
            }
            eqn(need(lib(|| ex.r().dim()), "dim"), (v.r, v.c), "dimension of an expression");
            *cur = Some(Cur { ex, model: expr::model(shape, s, t), ids });
        }
        "drop" => {
            if let Some(c) = cur.take() {
                ctl().log = Some(vec![]);
                drop_in_lib(c.ex);
                if !close().is_empty() {
                    bad("early-read", "dropping an expression read elements".into());
                }
            }
        }
        "eval" | "feval" => {
            let Some(c) = cur else { return };
            let Some(e) = c.ex.e() else { return };
            let n = v.n();
            let total = (c.model.len() * n) as u64;
            // Sometimes many failures before the next success.
            let fails = if op.k != "feval" || n == 0 {
                0
            } else if op.m(2, 6) == 0 {
                2 + op.m(3, 11)
            } else {
                1
            };
            for x in 0..fails {
                let w = open(l());
                ctl().fail_at = 1 + ((op.m(1, total as usize) + 3 * x) % total as usize) as u64;
                let r = lib(|| e.ev());
                let left = std::mem::replace(&mut ctl().fail_at, 0);
                close();
                match r {
                    Err(Stop::Injected(Injected::Storage)) => {
                        let a = sched::alloc_stat();
                        if a.live != 0 {
                            bad("leak", format!("a failed evaluation left {} bytes allocated", a.live));
                        }
                    }
                    Ok(r) => {
                        if left == 0 && ctl().pointers == w.ptrs {
                            bad("panic-swallowed", "an evaluation succeeded although a storage read failed".into());
                        }
                        drop_lib(r);
                    }
                    Err(x) => bad("unexpected-panic", format!("eval: {:?}", x)),
                }
            }
            let w = open(l());
            let r = need(lib(|| e.ev()), "eval");
            let a = sched::alloc_stat();
            let log = close();
            let bytes = (n * std::mem::size_of::<T>()) as i64;
            if a.peak > bytes + 512 {
                bad("temporary", format!("evaluating into {} bytes had {} bytes allocated", bytes, a.peak));
            }
            if ctl().pointers == w.ptrs && log.len() as u64 != total {
                bad("wrong-number-of-reads", format!("an evaluation made {} element reads, {} are needed", log.len(), total));
            }
            eqn(need(lib(|| r.dim()), "dim"), (v.r, v.c), "dimension of an evaluated expression");
            for k in 0..n {
                let (i, j) = v.at(k);
                let g = need(lib(|| r.get(i, j)), "get");
                check_elem(l(), c, &w, &log, i, j, g, "evaluation");
                let g1 = need(lib(|| r.get1(k)), "get1d");
                bits_eq(g1, g, "result by 1-D index");
            }
            drop_lib(r);
        }
        "get" | "get1" | "getu" | "fget" => {
            let Some(c) = cur else { return };
            let n = v.n();
            if n == 0 {
                refused(lib(|| c.ex.r().get(0, 0)), "get(0,0) on an empty expression");
                return;
            }
            let k = op.m(1, n);
            let (i, j) = v.at(k);
            if op.k == "fget" {
                let w = open(l());
                ctl().fail_at = 1 + op.m(2, c.model.len()) as u64;
                let r = lib(|| c.ex.r().get(i, j));
                let left = std::mem::replace(&mut ctl().fail_at, 0);
                close();
                match r {
                    Err(Stop::Injected(Injected::Storage)) => {}
                    Ok(_) => {
                        if left == 0 && ctl().pointers == w.ptrs {
                            bad("panic-swallowed", "an element access succeeded although a storage read failed".into());
                        }
                    }
                    Err(x) => bad("unexpected-panic", format!("get: {:?}", x)),
                }
            }
            let w = open(l());
            let g = need(
                lib(|| match op.k.as_str() {
                    "get1" => c.ex.r().get1(k),
                    "getu" => c.ex.r().get1_un(k),
                    _ => c.ex.r().get(i, j),
                }),
                "element of an expression",
            );
            let log = close();
            if ctl().pointers == w.ptrs && log.len() != c.model.len() {
                bad("wrong-number-of-reads", format!("one element access made {} element reads, {} are needed", log.len(), c.model.len()));
            }
            check_elem(l(), c, &w, &log, i, j, g, "element access");
        }
        x => report::harness_error(&format!("unknown operation {}", x)),
    }
}
