//! C14: every element is one register, however it is addressed.

use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::*;
use householder::*;
use simrt::prng::{mix, Prng};
use simrt::sched;
use simrt::{inject, lib, pause, Injected, Stop};

const OPS: &[&str] = &["wr", "wr", "wr", "rd", "rd", "rmw", "conv", "conv", "sweep", "each", "eachpanic", "block", "all", "huge", "huge"];

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 5);
    p.set("nobj", nt as i64);
    gen_obj(r, p, 0, false);
    // How the cells are divided among the threads.
    p.set("own", r.below(4) as i64);
    for t in 0..nt {
        // Which layout thread t lays over the common storage, and where it begins.
        p.set(&format!("how{}", t), r.below(10) as i64);
        p.set(&format!("at{}", t), r.below(1 << 16) as i64);
        for _ in 0..1 + r.below(7) {
            let k = *r.pick(OPS);
            let a: Vec<i64> = (0..8).map(|_| r.below(1 << 16) as i64).collect();
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (50, 20), (20, 50), (75, 0), (0, 75)]);
    p.rand_faults(r, k, s, 1500);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

struct Common<T: Sc> {
    w: &'static mut World<T>,
    /// Every write begun: (cell, value).
    log: Vec<(usize, T)>,
    own: usize,
    nt: usize,
}

struct St<T: Sc> {
    c: *mut Common<T>,
    body: Body<T>,
    v: View,
    t: usize,
    fresh: i64,
}

impl<T: Sc> Common<T> {
    fn owner(&self, cell: usize) -> usize {
        let n = self.w.cells.n;
        match self.own {
            0 => cell % self.nt,
            1 => cell * self.nt / n,
            2 => mix(cell as u64, 9) as usize % self.nt,
            // runs of four neighbours
            _ => cell / 4 % self.nt,
        }
    }
}

fn go<T: Sc>(p: &Plan) {
    let nt = p.u("nobj").clamp(1, CROWD_MAX);
    let lay = p.u("lay0") % NLAY;
    let (r, c, sx) = (p.u("r0").max(1), p.u("c0").max(1), p.u("sx0"));
    let v = lay_view(lay, r, c, sx);
    let (r, c) = (v.r, v.c);
    let extra = sx % 5;
    let cells = Cells::filled(v.span() + extra, |i| val::<T>(i as i64 + 1));
    let w = World::new(cells);
    let com: *mut Common<T> = leak(Common { w, log: vec![], own: p.u("own"), nt });
    let con = p.u("con0");
    for t in 0..nt {
        let (how, at) = (p.u(&format!("how{}", t)), p.u(&format!("at{}", t)));
        let strided = v.ord != Ord1::Tri;
        // (layout, its view of the storage)
        let (lay, v) = match how {
            // the transpose
            0 if strided => {
                let (x, o) = if v.ord == Ord1::Row { (3, Ord1::Col) } else { (2, Ord1::Row) };
                (x, View::new(0, (v.cs, v.rs), (c, r), o))
            }
            // the same, in the other order
            1 if strided => {
                let (x, o) = if v.ord == Ord1::Row { (3, Ord1::Col) } else { (2, Ord1::Row) };
                (x, View::new(0, (v.rs, v.cs), (r, c), o))
            }
            // all cells in a row
            2 => (4, View::new(0, (1, 1), (cells.n, 1), Ord1::Col)),
            3 => (5, View::new(0, (1, 1), (1, cells.n), Ord1::Row)),
            // every so many cells
            4 => {
                let s = 1 + at % 4;
                let b = at / 4 % s.min(cells.n);
                (6, View::new(b, (s, 1), ((cells.n - b).div_ceil(s), 1), Ord1::Col))
            }
            5 => {
                let s = 1 + at % 4;
                let b = at / 4 % s.min(cells.n);
                (7, View::new(b, (1, s), (1, (cells.n - b).div_ceil(s)), Ord1::Row))
            }
            // a part of it
            6 if strided => {
                let tl = (at % r, at / 32 % c);
                let d = (1 + at / 7 % (r - tl.0), 1 + at / 100 % (c - tl.1));
                (if v.ord == Ord1::Row { 2 } else { 3 }, v.sub(tl, d))
            }
            // the largest triangle
            7 => {
                let mut d = 1;
                while (d + 1) * (d + 2) / 2 <= cells.n && d < 100 {
                    d += 1;
                }
                (8, View::tri(d))
            }
            _ => (lay, v),
        };
        let s = Cells::at(unsafe { cells.ptr.add(v.base) }, cells.n - v.base);
        let d = match (con + t) % 3 {
            0 => AnyC::M(SimStore::new(s, new_id())),
            _ => AnyC::S(SliceContainerMut::new(s.slice_mut())),
        };
        let mut body = over(d, lay, &v, v.r, v.c);
        if (con + t) % 3 == 2 && (lay == 2 || lay == 3) {
            let (p, d, st) = (s.ptr, (v.r, v.c), (v.rs, v.cs));
            body = if lay == 2 {
                Body::K(Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(p, d, st) }), "from_pointer")))
            } else {
                Body::K(Box::new(need(lib(|| unsafe { SliceMatrixMut::<'static, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(p, d, st) }), "from_pointer")))
            };
        }
        let st: &'static mut St<T> = leak(St { c: com, body, v, t, fresh: 10_000 * (t as i64 + 1) });
        let ops: Vec<Op> = p.tasks.get(t).cloned().unwrap_or_default();
        spawn_ops(t, &ops, move |_, op| {
            run_op(st, op);
            unsafe { (*st.c).w.check("after an operation") };
        });
    }
    sched::run();
    unsafe { (*com).w.check("at the end") };
}

impl<T: Sc> St<T> {
    fn com(&self) -> &'static mut Common<T> {
        unsafe { &mut *self.c }
    }
    fn w(&mut self) -> &mut dyn WMat<T> {
        match &mut self.body {
            Body::K(m) => &mut **m,
            Body::T(m) => &mut **m,
            Body::W(m) => &mut **m,
        }
    }
    fn new(&mut self) -> T {
        self.fresh += 1;
        val(self.fresh)
    }
    /// The first own element from number `k` on.
    fn pick(&self, k: usize) -> Option<usize> {
        let n = self.v.n();
        (0..n).map(|x| (k + x) % n).find(|x| self.com().owner(self.v.cell1(*x)) == self.t)
    }
}

fn begin<T: Sc>(st: &St<T>, cell: usize, x: T) {
    let c = st.com();
    c.log.push((cell, x));
    c.w.begin(vec![(cell, x)]);
}

/// One write of element `k` by one of the ways there are.
fn write<T: Sc>(st: &mut St<T>, k: usize, way: usize) {
    let v = st.v;
    let (i, j) = v.at(k);
    let x = st.new();
    begin(st, v.cell(i, j), x);
    let m = st.w();
    need(
        lib(|| match way % 11 {
            0 | 1 => *m.mref(i, j) = x,
            2 | 3 => *m.mref1(k) = x,
            4 => *m.mref_un(i, j) = x,
            5 => *m.mref1_un(k) = x,
            6 => unsafe { *m.ptr_m().add(v.cell(i, j) - v.base) = x },
            7 => m.slice_m(v.cell(i, j) - v.base, v.cell(i, j) - v.base + 1)[0] = x,
            y => m.rset(y - 8 + way / 11 % 4, i, j, k, x),
        }),
        "element write",
    );
    let c = st.com();
    c.w.done();
    c.w.check("after an element write");
}

/// One read of element `k`: any value it held while the read went on.
fn read<T: Sc>(st: &mut St<T>, k: usize, way: usize) {
    let v = st.v;
    let (i, j) = v.at(k);
    let cell = v.cell(i, j);
    let c = st.com();
    let mut ok: Vec<[u64; 2]> = vec![c.w.exp[cell].comp()];
    for f in &c.w.fl {
        if let Inflight::Cells(v) = f {
            ok.extend(v.iter().filter(|x| x.0 == cell).map(|x| x.1.comp()));
        }
    }
    let from = c.log.len();
    let m = st.w();
    let g = need(
        lib(|| match way % 9 {
            0 => m.get(i, j),
            1 => m.get1(k),
            2 => m.get_un(i, j),
            3 => m.get1_un(k),
            4 => unsafe { *m.ptr().add(cell - v.base) },
            5 => m.slice(cell - v.base, cell - v.base + 1)[0],
            6 | 7 => m.rget(way / 9, i, j, k),
            _ => m.rmget(way / 9, i, j, k),
        }),
        "element read",
    )
    .comp();
    ok.extend(c.log[from..].iter().filter(|x| x.0 == cell).map(|x| x.1.comp()));
    // Components are written and read one by one.
    if !(0..2).all(|q| ok.iter().any(|o| o[q] == g[q])) {
        bad("wrong-value", format!("element ({},{}), number {}, of {} x {}: read {:?}, it held {:?}", i, j, k, v.r, v.c, T::from_comp(g), ok.iter().map(|x| T::from_comp(*x)).collect::<Vec<T>>()));
    }
}

fn conv<T: Sc>(st: &mut St<T>, k: usize) {
    let v = st.v;
    let (i, j) = v.at(k);
    let m = st.w();
    let raw = v.cell(i, j) - v.base;
    eqn(need(lib(|| m.at(k)), "convert_1d_2d"), (i, j), "position of a 1-D index");
    eqn(need(lib(|| m.idx(i, j)), "convert_2d_1d"), k, "1-D index of a position");
    eqn(need(lib(|| m.raw(i, j)), "convert_2d_raw"), raw, "raw index of a position");
    eqn(need(lib(|| m.raw1(k)), "convert_1d_raw"), raw, "raw index of a 1-D index");
}

fn run_op<T: Sc>(st: &mut St<T>, op: &Op) {
    let v = st.v;
    let n = v.n();
    let k = op.m(0, n);
    let (wy, ry) = (op.n(1) as usize, op.n(2) as usize);
    shape_eq(st.w(), &v, "a matrix over common storage");
    match op.k.as_str() {
        "wr" => {
            if let Some(k) = st.pick(k) {
                write(st, k, wy);
                read(st, k, ry);
            }
        }
        "rd" => read(st, k, ry),
        "rmw" => {
            if let Some(k) = st.pick(k) {
                for s in 0..3 {
                    write(st, k, wy + s);
                    read(st, k, ry + s);
                }
            }
        }
        "conv" => conv(st, k),
        "all" => {
            // one to one: every index and every position once
            let mut seen = vec![false; st.com().w.cells.n];
            for k in 0..n.min(400) {
                conv(st, k);
                let m = st.w();
                let raw = need(lib(|| m.raw1(k)), "convert_1d_raw") + v.base;
                if std::mem::replace(&mut seen[raw], true) {
                    bad("wrong-shape", format!("raw index {} belongs to two elements", raw));
                }
            }
        }
        "sweep" => {
            // all own elements (of the first few), in a scrambled order, by changing ways
            let lim = n.min(64);
            let step = [1, 3, 5, 7, 11, 13].iter().copied().find(|s| lim % s != 0 && op.m(3, 2) == 0).unwrap_or(1);
            for x in 0..lim {
                let k = (k + x * step) % lim;
                if st.com().owner(v.cell1(k)) == st.t {
                    write(st, k, wy + x);
                }
            }
            for x in 0..lim {
                read(st, x, ry + x);
            }
        }
        "each" | "eachpanic" => {
            let stop = if op.k == "eachpanic" { op.m(3, n) } else { usize::MAX };
            let c = st.com();
            let t = st.t;
            let base = st.fresh;
            st.fresh += n as i64;
            let mut k = 0;
            let r = lib(|| {
                st.w().each(&mut |x: &mut T| {
                    if k >= n {
                        pause(|| bad("visited-twice", format!("for_each called its function more than {} times", n)));
                    }
                    let cell = v.cell1(k);
                    let new = val::<T>(base + k as i64);
                    let own = c.owner(cell) == t;
                    let at = x as *const T as usize;
                    pause(|| {
                        let want = unsafe { c.w.cells.ptr.add(cell) } as usize;
                        if at != want {
                            bad("wrong-value", format!("for_each hands out the element at byte {} for element {}, which is at byte {}", at as i64 - c.w.cells.ptr as i64, k, want - c.w.cells.ptr as usize));
                        }
                        if own {
                            c.log.push((cell, new));
                            c.w.begin(vec![(cell, new)]);
                        }
                        sched::yield_now();
                    });
                    if k == stop {
                        pause(|| c.w.cancel());
                        inject(Injected::Callback);
                    }
                    if own {
                        *x = new;
                        pause(|| c.w.done());
                    }
                    k += 1;
                })
            });
            match r {
                Ok(()) if stop == usize::MAX => eqn(k, n, "elements visited by for_each"),
                Ok(()) => bad("panic-swallowed", "for_each returned normally although its function panicked".into()),
                Err(Stop::Injected(Injected::Callback)) => {}
                Err(x) => bad("unexpected-panic", format!("for_each: {:?}", x)),
            }
        }
        "block" => {
            // through a block (of a block)
            let Body::K(m) = &mut st.body else { return };
            let com = unsafe { &mut *st.c };
            let tl = (op.m(3, v.r), op.m(4, v.c));
            let d = (1 + op.m(5, v.r - tl.0), 1 + op.m(6, v.c - tl.1));
            let mut sv = v.sub(tl, d);
            let mut b = need(lib(|| m.blk_m(tl, d)), "block_mut");
            let mut b2;
            let mut q: &mut dyn WMat<T> = b.w();
            if op.n(7) % 2 == 0 {
                let tl = (wy % d.0, ry % d.1);
                let d = (d.0 - tl.0, d.1 - tl.1);
                sv = sv.sub(tl, d);
                b2 = need(lib(|| b.km().blk_m(tl, d)), "block_mut of a block");
                q = b2.w();
            }
            let n = sv.n();
            let Some(k) = (0..n).map(|x| (k + x) % n).find(|x| com.owner(sv.cell1(*x)) == st.t) else { return };
            let (i, j) = sv.at(k);
            st.fresh += 1;
            let x = val::<T>(st.fresh);
            com.log.push((sv.cell(i, j), x));
            com.w.begin(vec![(sv.cell(i, j), x)]);
            need(lib(|| if wy % 2 == 0 { *q.mref(i, j) = x } else { *q.mref1(k) = x }), "write through a block");
            com.w.done();
            com.w.check("after a write through a block");
            let g = need(lib(|| if ry % 2 == 0 { q.get1(k) } else { q.get(i, j) }), "read through a block");
            bits_eq(g, x, "element of a block");
            // and outside the block
            let k = v.idx(sv.cell_pos(&v, i, j).0, sv.cell_pos(&v, i, j).1);
            read(st, k, ry);
        }
        "huge" => {
            // Layouts alone, of any size that storage could have.
            let mut r = Prng::new(mix(op.n(0) as u64, op.n(1) as u64));
            let mut dim = |most: u64| match r.below(4) {
                0 => 1 + r.below(9.min(most)),
                1 => (1u64 << r.below(40)).min(most),
                2 => most - r.below(3.min(most)),
                _ => 1 + r.below(most),
            };
            let d0 = dim(1 << 23);
            let d1 = dim(((1u64 << 44) / d0).min(1 << 30));
            let s = dim(((1u64 << 44) / d0 / d1).clamp(1, 1 << 20)) as usize;
            let (d0, d1) = (d0 as usize, d1 as usize);
            for _ in 0..6 {
                let mut at = |d: usize| match r.below(4) {
                    0 => 0,
                    1 => d - 1,
                    _ => r.below(d as u64) as usize,
                };
                let (i, j) = (at(d0), at(d1));
                let (x, y) = (i.min(at(d0)), i);
                let (rm, cm) = (i * d1 + j, j * d0 + i);
                macro_rules! t {
                    ($l:expr, $n:expr, $i:expr, $j:expr, $k:expr, $raw:expr) => {{
                        let l = need(lib(|| $l), "layout");
                        let w = || format!("position ({},{}), number {}, of {}", $i, $j, $k, stringify!($l));
                        eqn(need(lib(|| l.number_of_elements()), "number_of_elements"), $n, "number of elements of a huge layout");
                        eqn(need(lib(|| l.convert_1d_2d($k)), "convert_1d_2d"), ($i, $j), &format!("1-D index to {}, {} x {}", w(), d0, d1));
                        eqn(need(lib(|| l.convert_2d_1d($i, $j)), "convert_2d_1d"), $k, &w());
                        eqn(need(lib(|| l.convert_2d_raw($i, $j)), "convert_2d_raw"), $raw, &w());
                        eqn(need(lib(|| l.convert_1d_raw($k)), "convert_1d_raw"), $raw, &w());
                    }};
                }
                match op.m(2, 9) {
                    0 => t!(RowMajor::new((d0, d1)), d0 * d1, i, j, rm, rm),
                    1 => t!(ColumnMajor::new((d0, d1)), d0 * d1, i, j, cm, cm),
                    2 => t!(ArbitraryStrideRowMajor::new((d0, d1), (d1 * s, s)), d0 * d1, i, j, rm, rm * s),
                    3 => t!(ArbitraryStrideColumnMajor::new((d0, d1), (s, d0 * s)), d0 * d1, i, j, cm, cm * s),
                    4 => t!(ColumnVector::new(d0), d0, i, 0, i, i),
                    5 => t!(RowVector::new(d1), d1, 0, j, j, j),
                    6 => t!(ArbitraryStrideColumnVector::new(d0, s), d0, i, 0, i, i * s),
                    7 => t!(ArbitraryStrideRowVector::new(d1, s), d1, 0, j, j, j * s),
                    _ => {
                        let k = (d0 - x) * (d0 - x - 1) / 2 + (y - x);
                        t!(UpperTriangular::new(d0), d0 * (d0 + 1) / 2, x, y, k, k)
                    }
                }
            }
        }
        k => simrt::report::harness_error(&format!("unknown operation {}", k)),
    }
}
