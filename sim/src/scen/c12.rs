//! C12: new matrices are zero, of the requested shape, and share no storage with any other.

use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::Prng;
use simrt::sched;
use simrt::{inject, lib, pause, Injected, Stop};

const OPS: &[&str] = &["new", "new", "new", "new", "again", "twins", "write", "write", "drop", "drop", "give", "take", "result", "junk", "short", "cbpanic", "misuse"];

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 4);
    p.set("nobj", nt as i64);
    // A few sizes that come back, so that released memory is found again.
    let sizes: Vec<i64> = (0..3).map(|_| gdim(r, true)).collect();
    for t in 0..2 * nt {
        for _ in 0..1 + r.below(if t < nt { 8 } else { 3 }) {
            let k = *r.pick(OPS);
            let mut a: Vec<i64> = (0..10).map(|_| r.below(1 << 16) as i64).collect();
            for d in &mut a[..2] {
                *d = if r.chance(1, 2) { *r.pick(&sizes) } else { gdim(r, true) };
            }
            p.op(t, k, &a);
        }
    }
    if r.chance(1, 2) {
        p.set("reuse", 1);
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (50, 20), (20, 50), (75, 0), (0, 75)]);
    p.rand_faults(r, k, s, 1500);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

/// A live object, what its storage must hold, and whether somebody is writing it.
struct Held<T: Sc> {
    o: Obj<T>,
    exp: Vec<T>,
    busy: bool,
}

struct St<T: Sc> {
    /// All live objects of all threads: (owner, object).
    live: *mut Vec<(usize, *mut Held<T>)>,
    mail: *mut Vec<*mut Held<T>>,
    t: usize,
    fresh: i64,
}

fn go<T: Sc>(p: &Plan) {
    let nt = p.u("nobj").clamp(1, CROWD_MAX);
    let live: *mut Vec<(usize, *mut Held<T>)> = leak(vec![]);
    let mail: *mut Vec<*mut Held<T>> = leak(vec![]);
    for phase in 0..2 {
        for t in 0..nt {
            let id = phase * nt + t;
            let ops: Vec<Op> = p.tasks.get(id).cloned().unwrap_or_default();
            let st: &'static mut St<T> = leak(St { live, mail, t: id, fresh: 1000 * (id as i64 + 1) });
            spawn_ops_from(1000 * phase as i64, &ops, move |_, op| {
                run_op(st, op);
                check_all(st);
            });
        }
        sched::run();
        let st = St { live, mail, t: 99, fresh: 0 };
        check_all(&st);
    }
}

/// Everything alive holds what was last written to it.
fn check_all<T: Sc>(st: &St<T>) {
    let l = unsafe { &*st.live };
    for (_, h) in l.iter() {
        let h = unsafe { &**h };
        if h.busy {
            continue;
        }
        let bytes = h.exp.len() * std::mem::size_of::<T>();
        let same = pause(|| unsafe {
            bytes == 0 || std::slice::from_raw_parts(h.o.cells.ptr as *const u8, bytes) == std::slice::from_raw_parts(h.exp.as_ptr() as *const u8, bytes)
        });
        if !same {
            let i = (0..h.exp.len()).find(|i| h.o.cells.get(*i).comp() != h.exp[*i].comp()).unwrap_or(0);
            bad("storage-shared", format!("cell {} of a live {} object holds {:?}, its owner left {:?}", i, h.o.name(), h.o.cells.get(i), h.exp[i]));
        }
    }
}

/// Shape, zeros (by every kind of access), and storage of its own.
fn check_new<T: Sc>(st: &St<T>, o: &mut Obj<T>, how: usize) {
    let v = o.v;
    let name = o.name();
    shape_eq(o.r(), &v, &format!("a new {} object", name));
    let zero = T::mk(0, 0);
    let zero = T::from_comp([zero.comp()[0], 0]);
    let z = |g: T, k: usize, by: &str| {
        if !g.same(zero) {
            bad("not-zero", format!("element {:?} of a new {} object of {} x {} is {:?} (by {})", v.at(k), name, v.r, v.c, g, by));
        }
    };
    let n = v.n();
    match how % 8 {
        0 => (0..n).for_each(|k| z(need(lib(|| o.b().get(v.at(k).0, v.at(k).1)), "get"), k, "index pair")),
        1 => (0..n).for_each(|k| z(need(lib(|| o.b().get1(k)), "get1d"), k, "1-D index")),
        2 => (0..n).for_each(|k| z(need(lib(|| o.b().get1_un(k)), "get1d_unchecked"), k, "unchecked 1-D index")),
        3 => {
            let mut k = 0;
            need(
                lib(|| {
                    o.w().each(&mut |x| {
                        let x = *x;
                        pause(|| {
                            if k < n {
                                z(x, k, "for_each")
                            }
                        });
                        k += 1;
                    })
                }),
                "for_each",
            );
            eqn(k, n, "elements visited in a new object");
        }
        4 => {
            if let Some(e) = o.e() {
                let e = need(lib(|| e.ev()), "eval");
                eqn(need(lib(|| e.dim()), "dim"), (v.r, v.c), "dimension of a copy of a new object");
                (0..n).for_each(|k| z(need(lib(|| e.get1(k)), "get1d"), k, "evaluation"));
                drop_lib(e);
            }
        }
        5 => (0..n).for_each(|k| {
            let (i, j) = v.at(k);
            z(need(lib(|| o.b().rget(k, i, j, k)), "get through a reference"), k, "reference")
        }),
        6 if n > 0 => {
            let s = v.span();
            let c: Vec<T> = need(lib(|| o.b().slice(0, s).to_vec()), "get_slice");
            (0..n).for_each(|k| z(c[v.cell1(k)], k, "slice"));
            drop_in_lib(c);
        }
        _ => {}
    }
    // whatever the way of access, and the storage no element lies in
    for i in 0..o.cells.n {
        let g = o.cells.get(i);
        if !g.same(zero) {
            bad("not-zero", format!("cell {} of {} of a new {} object of {} x {} is {:?}", i, o.cells.n, name, v.r, v.c, g));
        }
    }
    disjoint(st, o);
}

/// Nothing alive lies where this object lies.
fn disjoint<T: Sc>(st: &St<T>, o: &Obj<T>) {
    let sz = std::mem::size_of::<T>();
    let (a, b) = (o.cells.ptr as usize, o.cells.ptr as usize + o.cells.n * sz);
    for (w, h) in unsafe { &*st.live } {
        let c = unsafe { (**h).o.cells };
        let (x, y) = (c.ptr as usize, c.ptr as usize + c.n * sz);
        if a < y && x < b {
            bad("storage-shared", format!("a new {} object lies in the storage of a live {} object of thread {}", o.name(), unsafe { (**h).o.name() }, w));
        }
    }
}

fn hold<T: Sc>(st: &mut St<T>, o: Obj<T>) -> *mut Held<T> {
    let exp = (0..o.cells.n).map(|i| o.cells.get(i)).collect();
    let h: *mut Held<T> = leak(Held { o, exp, busy: false });
    unsafe { (*st.live).push((st.t, h)) };
    h
}

fn mine<T: Sc>(st: &St<T>, x: i64) -> Option<*mut Held<T>> {
    let m: Vec<*mut Held<T>> = unsafe { &*st.live }.iter().filter(|x| x.0 == st.t).map(|x| x.1).collect();
    if m.is_empty() {
        None
    } else {
        Some(m[x.unsigned_abs() as usize % m.len()])
    }
}

fn write<T: Sc>(st: &mut St<T>, h: *mut Held<T>, how: usize) {
    let h = unsafe { &mut *h };
    h.busy = true;
    let v = h.o.v;
    let f = st.fresh;
    st.fresh += 1;
    let x = |k: usize| val::<T>(f * 8 + k as i64 % 8);
    match how % 3 {
        0 => {
            let mut k = 0;
            need(
                lib(|| {
                    h.o.w().each(&mut |y| {
                        *y = x(k);
                        k += 1;
                        pause(sched::yield_now);
                    })
                }),
                "for_each",
            );
        }
        1 => {
            for k in 0..v.n() {
                need(lib(|| *h.o.w().mref1(k) = x(k)), "element write");
            }
        }
        _ => {
            for k in 0..v.n() {
                let (i, j) = v.at(k);
                need(lib(|| *h.o.w().mref(i, j) = x(k)), "element write");
            }
        }
    }
    for k in 0..v.n() {
        h.exp[v.cell1(k)] = x(k);
    }
    h.busy = false;
}

fn release<T: Sc>(st: &mut St<T>, h: *mut Held<T>) {
    unsafe {
        (*st.live).retain(|x| x.1 != h);
        let h = Box::from_raw(h);
        drop_in_lib(h.o);
    }
}

/// Junk where the next calls will have their local variables.
#[inline(never)]
fn dirty_stack(b: u8) {
    let mut a = [0u8; 6000];
    for x in a.iter_mut() {
        unsafe { std::ptr::write_volatile(x, b) };
    }
    std::hint::black_box(&a);
}

/// Layout and dimensions of what an operation makes.
fn what(op: &Op) -> (usize, usize, usize) {
    let (r, c) = dims_at(op, 0, 1);
    let lay = pick_lay(op.n(2));
    // The storage of a triangular matrix grows with the square of its dimension.
    (lay, if lay == 8 { r.min(100) } else { r }, c)
}

fn new<T: Sc>(st: &mut St<T>, op: &Op) -> *mut Held<T> {
    let (lay, r, c) = what(op);
    pause(|| dirty_stack(op.n(5) as u8));
    let mut o = need(fresh::<T>(lay, op.n(3) as usize, r, c, op.n(4) as usize), "construction");
    check_new(st, &mut o, op.n(6) as usize);
    hold(st, o)
}

fn run_op<T: Sc>(st: &mut St<T>, op: &Op) {
    let (r, c) = dims_at(op, 0, 1);
    match op.k.as_str() {
        "new" => {
            let h = new(st, op);
            if op.n(7) % 3 > 0 {
                write(st, h, op.n(8) as usize);
            }
        }
        "again" => {
            // Made, filled, released and made again with the same size.
            for _ in 0..2 + op.m(7, 3) {
                let h = new(st, op);
                write(st, h, op.n(8) as usize);
                release(st, h);
            }
        }
        "twins" => {
            let a = new(st, op);
            let b = new(st, op);
            write(st, a, op.n(7) as usize);
            check_all(st);
            write(st, b, op.n(8) as usize);
            check_all(st);
            release(st, if op.n(9) % 2 == 0 { a } else { b });
        }
        "write" => {
            if let Some(h) = mine(st, op.n(2)) {
                write(st, h, op.n(3) as usize);
            }
        }
        "drop" => {
            if let Some(h) = mine(st, op.n(2)) {
                release(st, h);
            }
        }
        "give" => {
            if let Some(h) = mine(st, op.n(2)) {
                unsafe {
                    (*st.live).iter_mut().filter(|x| x.1 == h).for_each(|x| x.0 = 1000);
                    (*st.mail).push(h);
                }
            }
        }
        "take" => unsafe {
            if let Some(h) = (*st.mail).pop() {
                sched::probe("object.changed_thread");
                let t = st.t;
                (*st.live).iter_mut().filter(|x| x.1 == h).for_each(|x| x.0 = t);
                let k = &mut *h;
                let v = k.o.v;
                for i in 0..v.n() {
                    let g = need(lib(|| k.o.b().get1(i)), "get1d");
                    bits_eq(g, k.exp[v.cell1(i)], "element of an object from another thread");
                }
                if op.n(2) % 2 == 0 {
                    release(st, h);
                }
            }
        },
        "result" => {
            // What an evaluation or a product returns is a new object, too.
            let (r, c) = (r.clamp(1, 600), c.clamp(1, 600));
            let g = |r, c, x: usize| {
                let mut o = need(fresh::<T>(x % 2, x / 2 % 3, r, c, x / 8), "construction");
                let v = o.v;
                for k in 0..v.n() {
                    let (i, j) = v.at(k);
                    let y = small_val::<T>(x as i64, i, j);
                    need(lib(|| *o.w().mref(i, j) = y), "element write");
                }
                o
            };
            let a = g(r, c, op.n(2) as usize);
            let want = |i: usize, j: usize| small_val::<T>(op.n(2), i, j);
            let res: Box<dyn BMat<T>>;
            let mut b = None;
            let lay;
            if T::ID == 1 && op.n(7) % 2 == 0 {
                // times the identity
                let mut m = need(lib(|| MatrixD::<T, RowMajor>::zeros_from_dim(c, c)), "zeros_from_dim");
                for i in 0..c {
                    need(lib(|| *m.get_mut(i, i) = T::mk(1, 0)), "element write");
                }
                let x = match &a.body {
                    Body::K(_) if a.lay == 0 => {
                        let mut q = need(lib(|| MatrixD::<T, RowMajor>::zeros_from_dim(r, c)), "zeros_from_dim");
                        for i in 0..r {
                            for j in 0..c {
                                need(lib(|| *q.get_mut(i, j) = want(i, j)), "element write");
                            }
                        }
                        let x = need(lib(|| T::dot_mm(&q, &m)), "dot");
                        drop_in_lib(q);
                        x
                    }
                    _ => None,
                };
                b = Some(m);
                match x {
                    Some(x) => {
                        lay = 0;
                        res = Box::new(x);
                    }
                    None => {
                        lay = a.lay;
                        res = need(lib(|| a.e().unwrap().ev()), "eval");
                    }
                }
            } else {
                lay = a.lay;
                res = need(lib(|| a.e().unwrap().ev()), "eval");
            }
            let v = lay_view(lay, r, c, 0);
            eqn(need(lib(|| res.dim()), "dim"), (r, c), "dimension of a result");
            let cells = Cells::<T>::at(res.ptr(), v.span());
            let exp: Vec<T> = (0..v.n()).map(|k| want(v.at(k).0, v.at(k).1)).collect();
            let same = |when: &str| {
                for (k, e) in exp.iter().enumerate() {
                    let g = cells.get(v.cell1(k));
                    if !g.same(*e) {
                        bad("wrong-value", format!("element {:?} of a result, {}: got {:?}, expected {:?}", v.at(k), when, g, e));
                    }
                }
            };
            same("at first");
            // not in the storage of its operands
            for k in 0..a.cells.n {
                a.cells.set(k, T::nan());
            }
            same("after its operand was overwritten");
            drop_in_lib((a, b));
            same("after its operands were dropped");
            pause(sched::yield_now);
            same("later");
            drop_lib(res);
        }
        "junk" => {
            // Memory full of junk for others to find.
            let mut m = need(lib(|| T::mat_rm(r, c)), "mat!");
            need(lib(|| m.for_each(|x| *x = T::nan())), "for_each");
            drop_in_lib(m);
        }
        "short" => {
            // Short of memory, and then again.
            sched::fail_alloc(1 + op.m(7, 2) as u64);
            let (lay, r, c) = what(op);
            let x = fresh::<T>(lay, op.n(3) as usize, r, c, op.n(4) as usize);
            sched::fail_alloc(0);
            match x {
                Ok(mut o) => {
                    check_new(st, &mut o, op.n(6) as usize);
                    drop_in_lib(o);
                }
                Err(Stop::Injected(Injected::Oom)) => {}
                Err(e) => bad("unexpected-panic", format!("construction: {:?}", e)),
            }
            new(st, op);
        }
        "cbpanic" => {
            // A thread that panics in a callback, with objects alive.
            let h = new(st, op);
            let v = unsafe { (*h).o.v };
            if v.n() == 0 {
                return;
            }
            let at = op.m(7, v.n());
            unsafe { (*h).busy = true };
            let x = lib(|| {
                let mut k = 0;
                unsafe { &mut *h }.o.w().each(&mut |y| {
                    if k == at {
                        inject(Injected::Callback);
                    }
                    *y = val(k as i64 + 1);
                    k += 1;
                })
            });
            match x {
                Err(Stop::Injected(Injected::Callback)) => {}
                Ok(()) => bad("panic-swallowed", "for_each returned normally although its function panicked".into()),
                Err(e) => bad("unexpected-panic", format!("for_each: {:?}", e)),
            }
            release(st, h);
            new(st, op);
        }
        "misuse" => {
            let d = 2 + op.m(2, 5);
            match op.m(3, 3) {
                0 => refused(lib(|| RowVectorD::<T>::zeros_from_dim(d, c)), "row vector with several rows"),
                1 => refused(lib(|| ColumnVectorD::<T>::zeros_from_dim(r, d)), "column vector with several columns"),
                _ => refused(lib(|| UpperTriangularMatrix::<T>::zeros_from_dim(d, d + 1)), "triangular matrix that is not square"),
            }
            new(st, op);
        }
        k => simrt::report::harness_error(&format!("unknown operation {}", k)),
    }
}
