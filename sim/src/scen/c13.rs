//! C13: results are a function of the operands alone.

use super::expr;
use super::prod;
use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use crate::store::new_id;
use householder::*;
use simrt::prng::{mix, Prng};
use simrt::sched;
use simrt::{inject, lib, pause, Injected, Stop};
use std::collections::BTreeMap;

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 4);
    p.set("nobj", nt as i64);
    // 0: first alone, then among others; 1: the other way round
    p.set("order", r.below(2) as i64);
    for i in 0..2 {
        p.set(&format!("fam{}", i), r.below(expr::NFAM as u64) as i64);
        p.set(&format!("shape{}", i), r.below(expr::NSHAPE as u64) as i64);
        for k in ["er", "ec"] {
            let d = gdim(r, false);
            p.set(&format!("{}{}", k, i), d);
        }
        p.set(&format!("sx{}", i), r.below(1 << 16) as i64);
    }
    let long = r.chance(1, 40);
    for t in 0..nt {
        for _ in 0..1 + r.below(5) {
            let k = *r.pick(&["ex", "ex", "ex", "shex", "shex", "mm", "mm", "dot", "acc", "fill", "junk", "cbpanic", "each", "misuse"]);
            let mut a: Vec<i64> = (0..12).map(|_| r.below(1 << 16) as i64).collect();
            // 0, 1, 2: dimensions; 11: the values
            a[0] = gdim(r, false);
            a[1] = gdim(r, false);
            a[2] = gdim(r, false);
            if long {
                a[2] = r.range(100, 600);
            }
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (50, 20), (20, 50), (75, 0), (0, 75)]);
    p.rand_faults(r, k, s, 2000);
    if p.p("order") == 0 {
        for f in p.faults.iter_mut() {
            f.task += nt;
        }
    }
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

// ---------------------------------------------------------------- values

fn bits<T: Sc>(h: u64, special: bool) -> u64 {
    let f32s = std::mem::size_of::<T>() / T::NC == 4;
    let kind = h % 16;
    let neg = (h >> 4) & 1;
    let (man, exp) = (h >> 12, (h >> 5) % 64);
    if special && kind < 6 {
        let m = man & 0x7f_ffff;
        let (e, m) = match kind {
            0 => (0, 0),                    // zero
            1 => (0, m),                    // subnormal
            2 => (255, 0),                  // infinity
            3 => (255, 1 << 22),            // not a number
            4 => (254, m),                  // huge
            _ => (1, m),                    // smallest normal numbers
        };
        if f32s {
            neg << 31 | e << 23 | m
        } else {
            let e = [0, 2047, 2046, 1][[0, 255, 254, 1].iter().position(|x| *x == e).unwrap()];
            neg << 63 | e << 52 | (m << 29 | if m != 0 && kind != 3 { man >> 20 & 0x1fff_ffff } else { 0 })
        }
    } else {
        // moderate size, full mantissa
        let e = exp % 16;
        if f32s {
            neg << 31 | (119 + e) << 23 | (man & 0x7f_ffff)
        } else {
            neg << 63 | (1015 + e) << 52 | (man & 0xf_ffff_ffff_ffff)
        }
    }
}

/// Element `i` of the operand with this seed: full mantissas, sometimes special values.
fn messy<T: Sc>(seed: u64, i: u64, special: bool) -> T {
    let a = bits::<T>(mix(seed, 2 * i), special);
    let b = if T::NC == 2 { bits::<T>(mix(seed, 2 * i + 1), special) } else { 0 };
    T::from_comp([a, b])
}

/// The element of an expression, computed one IEEE operation after the other.
fn ieee<T: Sc>(shape: usize, s: T, t: T, x: T, y: T, z: T) -> T {
    match shape % expr::NSHAPE {
        0 | 12 => x + y,
        1 | 2 | 13 => s * x,
        3 | 15 => s * (x + y),
        4 => s * x + y,
        5 => (x + y) + z,
        6 => x + s * (y + z),
        7 => x + x,
        8 => s * x + t * y,
        9 => {
            let e = x + s * y;
            e + e
        }
        10 => t * (s * x),
        11 => t * (s * x + y) + z,
        14 => s * x + (y + z),
        _ => x,
    }
}

/// Sum of products with twice the working precision of f64.
#[derive(Clone, Copy)]
struct DD(f64, f64);
impl DD {
    fn add(self, b: f64) -> DD {
        let s = self.0 + b;
        let v = s - self.0;
        DD(s, self.1 + ((self.0 - (s - v)) + (b - v)))
    }
    fn mac(self, a: f64, b: f64) -> DD {
        let p = a * b;
        let mut r = self.add(p);
        r.1 += a.mul_add(b, -p);
        r
    }
    fn times(self, a: f64) -> DD {
        let p = self.0 * a;
        DD(p, self.0.mul_add(a, -p) + self.1 * a)
    }
    fn plus(self, o: DD) -> DD {
        let mut r = self.add(o.0);
        r.1 += o.1;
        r
    }
    fn val(self) -> f64 {
        self.0 + self.1
    }
}

/// Is `got` close enough to alpha * (row of A).(column of B) + beta * c?
#[allow(clippy::too_many_arguments)]
fn accurate<T: Sc>(al: T, row: &[T], col: &[T], be: T, c: T, got: T, what: &str) {
    let l1 = |v: T| {
        let p = parts(v);
        p[0].abs() + if T::NC == 2 { p[1].abs() } else { 0.0 }
    };
    let pt = |v: T| {
        let p = parts(v);
        (p[0], if T::NC == 2 { p[1] } else { 0.0 })
    };
    let (mut re, mut im, mut mag) = (DD(0.0, 0.0), DD(0.0, 0.0), 0.0);
    for (x, y) in row.iter().zip(col) {
        let ((a, b), (c, d)) = (pt(*x), pt(*y));
        re = re.mac(a, c).mac(-b, d);
        im = im.mac(a, d).mac(b, c);
        mag += l1(*x) * l1(*y);
    }
    let (ar, ai) = pt(al);
    let mut r = re.times(ar).plus(im.times(-ai));
    let mut i = re.times(ai).plus(im.times(ar));
    let mut bound = l1(al) * mag;
    if l1(be) != 0.0 {
        let ((br, bi), (cr, ci)) = (pt(be), pt(c));
        r = r.mac(br, cr).mac(-bi, ci);
        i = i.mac(br, ci).mac(bi, cr);
        bound += l1(be) * l1(c);
    }
    let eps = if std::mem::size_of::<T>() / T::NC == 4 { f32::EPSILON as f64 } else { f64::EPSILON };
    let bound = 4.0 * (row.len() + 8) as f64 * eps * bound;
    let g = pt(got);
    let (dr, di) = ((g.0 - r.val()).abs(), (g.1 - if T::NC == 2 { i.val() } else { 0.0 }).abs());
    if !(dr <= bound && di <= bound) {
        bad("inaccurate", format!("{}: got {:?}, exact ({:e}, {:e}), off by ({:e}, {:e}) with inner dimension {}, allowed {:e}", what, got, r.val(), i.val(), dr, di, row.len(), bound));
    }
}

// ---------------------------------------------------------------- the run

type Results<T> = BTreeMap<(usize, usize), Vec<T>>;

/// An expression that all threads share.
struct ShEx<T: Sc> {
    ex: expr::Ex<T>,
    v: View,
    want: Vec<T>,
}

struct St<T: Sc> {
    res: *mut Results<T>,
    sh: &'static [ShEx<T>],
}

/// The first execution of an operation sets what all others must give.
fn record<T: Sc>(st: &St<T>, key: (usize, usize), got: Vec<T>, what: &str) {
    let res = unsafe { &mut *st.res };
    match res.get(&key) {
        None => {
            res.insert(key, got);
        }
        Some(w) => {
            sched::probe("result.compared");
            eqn(got.len(), w.len(), "number of elements of a repeated result");
            for (k, (g, x)) in got.iter().zip(w).enumerate() {
                if !same_bits(*g, *x) {
                    bad("not-reproducible", format!("{}: element {} is {:?} ({:x?}), the same operation gave {:?} ({:x?}) before", what, k, g, g.comp(), x, x.comp()));
                }
            }
        }
    }
}

/// Bit for bit, except that all NaN are alike.
fn same_bits<T: Sc>(a: T, b: T) -> bool {
    let (x, y) = (a.comp(), b.comp());
    let f32s = std::mem::size_of::<T>() / T::NC == 4;
    let nan = |c: u64| if f32s { f32::from_bits(c as u32).is_nan() } else { f64::from_bits(c).is_nan() };
    (0..2).all(|i| x[i] == y[i] || (nan(x[i]) && nan(y[i])))
}

fn exact<T: Sc>(got: T, want: T, what: impl Fn() -> String) {
    if !same_bits(got, want) {
        bad("wrong-value", format!("{}: got {:?} ({:x?}), expected {:?} ({:x?})", what(), got, got.comp(), want, want.comp()));
    }
}

/// Expression over fresh operands.
fn build<T: Sc>(fam: usize, shape: usize, er: usize, ec: usize, sx: usize, seed: u64, special: bool, fail: u64) -> (Result<ShEx<T>, Stop>, Vec<expr::Dropper>) {
    let fam = fam % expr::NFAM;
    let shape = expr::shape_of(fam, shape);
    let (lx, ly) = expr::fam_lays(fam);
    let (er, ec) = (er.max(1), ec.max(1));
    let (er, ec) = if fam == 7 { (er.min(100), er.min(100)) } else { (er, ec) };
    let views = [lay_view(lx, er, ec, sx), lay_view(ly, er, ec, sx / 8), lay_view(lx, er, ec, sx / 64)];
    let mut ds = vec![];
    let mut cs = vec![];
    for (i, v) in views.iter().enumerate() {
        let con = [0, 1, 2, 3, 5][(sx / 7 + i) % 5];
        let (d, c) = any_c::<T>(con, v.span(), new_id(), &|x| messy(seed + i as u64, x as u64, special));
        ds.push(d);
        cs.push(c);
    }
    let s = messy::<T>(seed, 1 << 40, special);
    let t = messy::<T>(seed, 1 << 41, special);
    let v = views[0];
    let want = (0..v.n())
        .map(|k| {
            let (i, j) = v.at(k);
            let e = |o: usize| cs[o].get(views[o].cell(i, j));
            ieee(shape, s, t, e(0), e(1), e(2))
        })
        .collect();
    if fail > 0 {
        sched::fail_alloc(fail);
    }
    let ds: [AnyC<T>; 3] = ds.try_into().ok().unwrap();
    let (ex, drop) = expr::build_tracked(fam, shape, ds, views, s, t);
    (ex.map(|ex| ShEx { ex, v, want }), drop)
}

fn seed_of(op: &Op) -> u64 {
    mix(op.n(11) as u64, 77)
}

fn go<T: Sc>(p: &Plan) {
    let nt = p.u("nobj").clamp(1, CROWD_MAX);
    let res: *mut Results<T> = leak(BTreeMap::new());
    let mut sh = vec![];
    for i in 0..2 {
        let u = |k: &str| p.u(&format!("{}{}", k, i));
        let (x, _) = build::<T>(u("fam"), u("shape"), u("er"), u("ec"), u("sx"), mix(u("sx") as u64, 3), i == 1, 0);
        sh.push(need(x, "expression"));
    }
    let sh: &'static [ShEx<T>] = leak(sh);
    let phase = |solo: bool| {
        for t in 0..nt {
            let st: &'static mut St<T> = leak(St { res, sh });
            let mut ops: Vec<Op> = p.tasks.get(t).cloned().unwrap_or_default();
            let own = ops.len();
            if !solo {
                // then everything that the next thread does, too
                ops.extend(p.tasks.get((t + 1) % nt).cloned().unwrap_or_default());
            }
            spawn_ops_from(if solo { 1000 } else { 0 }, &ops, move |i, op| {
                let key = if i < own { (t, i) } else { ((t + 1) % nt, i - own) };
                run_op(st, key, op)
            });
            if solo {
                sched::run();
            }
        }
        if !solo {
            sched::run();
        }
    };
    phase(p.p("order") == 0);
    phase(p.p("order") != 0);
}

fn read_ex<T: Sc>(x: &ShEx<T>, how: usize, what: &str) -> Vec<T> {
    let v = x.v;
    let r: Vec<T> = if let (Some(e), true) = (x.ex.e(), how % 2 == 0) {
        let m = need(lib(|| e.ev()), "eval");
        let r = (0..v.n()).map(|k| need(lib(|| m.get1(k)), "get1d")).collect();
        drop_lib(m);
        r
    } else {
        (0..v.n())
            .map(|k| {
                let (i, j) = v.at(k);
                need(lib(|| if how % 3 == 0 { x.ex.r().get1(k) } else { x.ex.r().get(i, j) }), "element of an expression")
            })
            .collect()
    };
    for (k, g) in r.iter().enumerate() {
        exact(*g, x.want[k], || format!("element {:?} of {}", v.at(k), what));
    }
    r
}

fn run_op<T: Sc>(st: &mut St<T>, key: (usize, usize), op: &Op) {
    let seed = seed_of(op);
    let special = op.m(10, 3) == 0;
    match op.k.as_str() {
        "ex" => {
            let (er, ec) = dims_at(op, 0, 1);
            if op.m(9, 5) == 0 {
                // Short of memory at some point of it, and then again.
                let (x, drops) = build::<T>(op.n(3) as usize, op.n(4) as usize, er, ec, op.n(5) as usize, seed, special, 1 + op.m(8, 3) as u64);
                let r = x.and_then(|x| {
                    let r = match x.ex.e() {
                        Some(e) => lib(|| e.ev()).map(drop_lib),
                        None => Ok(()),
                    };
                    drop_in_lib(x.ex);
                    r
                });
                sched::fail_alloc(0);
                match r {
                    Ok(()) | Err(Stop::Injected(Injected::Oom)) => {}
                    Err(e) => bad("unexpected-panic", format!("eval: {:?}", e)),
                }
                for d in drops {
                    need(d(), "drop of an operand");
                }
            }
            let (x, drops) = build::<T>(op.n(3) as usize, op.n(4) as usize, er, ec, op.n(5) as usize, seed, special, 0);
            let x = need(x, "expression");
            let r = read_ex(&x, op.n(6) as usize, "an expression");
            drop_in_lib(x.ex);
            for d in drops {
                need(d(), "drop of an operand");
            }
            record(st, key, r, "an expression");
        }
        "shex" => {
            let r = read_ex(&st.sh[op.m(3, 2)], op.n(6) as usize, "a shared expression");
            record(st, key, r, "a shared expression");
        }
        "mm" | "dot" | "acc" => {
            let form = op.m(3, 3);
            let (ka, kb, kc) = prod::kinds(form, op.n(4) as usize);
            // Blocks are covered elsewhere; here each operand owns its storage.
            let plain = |k: usize| if k == 4 || k == 5 { k - 4 } else { k };
            let (m, k, n) = prod::dims(form, op.m(0, 40).max(1), op.n(2).clamp(1, 600) as usize, op.m(1, 40).max(1));
            let (pa, pb, pc): (Vec<T>, Vec<T>, Vec<T>) = (
                (0..m * k).map(|x| messy(seed, x as u64, false)).collect(),
                (0..k * n).map(|x| messy(seed + 1, x as u64, false)).collect(),
                (0..m * n).map(|x| messy(seed + 2, x as u64, false)).collect(),
            );
            let sx = op.n(5) as usize;
            let con = op.n(6) as usize;
            let a = prod::make_p(plain(ka), con, m, k, sx, new_id(), &|i, j| pa[i * k + j], T::nan());
            let b = prod::make_p(plain(kb), con / 6, k, n, sx / 3, new_id(), &|i, j| pb[i * n + j], T::nan());
            let (one, zero) = (T::mk(1, 0), T::mk(0, 0));
            let one = T::from_comp([one.comp()[0], zero.comp()[1]]);
            let what = format!("product of {} x {} and {} x {}", m, k, k, n);
            let (al, be) = if op.k == "acc" { (messy(seed + 3, 0, false), messy(seed + 3, 1, false)) } else { (one, zero) };
            let col = |j: usize| (0..k).map(|l| pb[l * n + j]).collect::<Vec<T>>();
            let mut got = vec![];
            // Short of memory at some point of it, and then again.
            let mut fail = if op.m(9, 5) == 0 { 1 + op.m(8, 3) as u64 } else { 0 };
            loop {
                let mut c = None;
                let mut x = None;
                if op.k != "dot" {
                    c = Some(prod::make_p(plain(kc), con / 36, m, n, sx / 5, new_id(), &|i, j| pc[i * n + j], T::nan()));
                }
                sched::fail_alloc(fail);
                fail = 0;
                let r = match &mut c {
                    None => match prod::dot(&a.m, &b.m) {
                        None => {
                            sched::fail_alloc(0);
                            break;
                        }
                        Some(r) => r.map(|y| x = Some(y)),
                    },
                    Some(c) => lib(|| prod::matmul(al, &a.m, &b.m, be, &mut c.m)),
                };
                sched::fail_alloc(0);
                match r {
                    Err(Stop::Injected(Injected::Oom)) => {
                        drop_in_lib(c);
                        continue;
                    }
                    r => need(r, &what),
                }
                for i in 0..m {
                    for j in 0..n {
                        let g = match (&c, &x) {
                            (Some(c), _) => c.cells.get(c.v.cell(i, j)),
                            (_, Some(x)) => need(lib(|| x.get(i, j)), "get"),
                            _ => unreachable!(),
                        };
                        accurate(al, &pa[i * k..(i + 1) * k], &col(j), be, pc[i * n + j], g, &what);
                        got.push(g);
                    }
                }
                drop_in_lib((c, x));
                break;
            }
            drop_in_lib((a, b));
            record(st, key, got, &what);
        }
        "fill" => {
            let (r, c) = dims_at(op, 0, 1);
            let mut o = make::<T>(pick_lay(op.n(3)), writable(op.m(4, 6)), r.min(100), c.min(100), op.n(5) as usize, new_id(), &|x| val(x as i64));
            let mut g = SimRng::new(op.n(11));
            need(lib(|| o.w().fill(&mut g)), "fill");
            let got = (0..o.v.n()).map(|k| o.cells.get(o.v.cell1(k))).collect();
            drop_in_lib(o);
            record(st, key, got, "random fill");
        }
        "each" => {
            // An update whose function computes from the element it is given.
            let (r, c) = dims_at(op, 0, 1);
            let mut o = make::<T>(pick_lay(op.n(3)), writable(op.m(4, 6)), r.min(100), c.min(100), op.n(5) as usize, new_id(), &|x| messy(seed, x as u64, special));
            let s = messy::<T>(seed, 1 << 40, special);
            let want: Vec<T> = (0..o.v.n()).map(|k| s * o.cells.get(o.v.cell1(k))).collect();
            need(lib(|| o.w().each(&mut |x| *x = s * *x)), "for_each");
            let got: Vec<T> = (0..o.v.n()).map(|k| o.cells.get(o.v.cell1(k))).collect();
            for (k, g) in got.iter().enumerate() {
                exact(*g, want[k], || format!("element {} after an update", k));
            }
            drop_in_lib(o);
            record(st, key, got, "update");
        }
        "junk" => {
            // Memory full of junk for others to find.
            let (r, c) = dims_at(op, 0, 1);
            let mut m = T::mat_rm(r, c);
            need(lib(|| m.for_each(|x| *x = T::nan())), "for_each");
            drop_in_lib(m);
        }
        "misuse" => {
            // Something that is refused.
            let (m, k, n) = (1 + op.m(0, 9), 1 + op.m(2, 40), 1 + op.m(1, 9));
            let form = op.m(3, 3);
            let (ka, kb, kc) = prod::kinds(form, op.n(4) as usize);
            let plain = |k: usize| if k == 4 || k == 5 { k - 4 } else { k };
            let (m, k, n) = prod::dims(form, m, k, n);
            let mk = |kind: usize, r: usize, c: usize| prod::make_p::<T>(plain(kind), 0, r, c, 0, new_id(), &|i, j| val((i + j) as i64), T::nan());
            let a = mk(ka, m, k);
            let mut c = mk(kc, m, n);
            match op.m(5, 4) {
                0 => {
                    let b = mk(kb, k + 1, n);
                    refused(lib(|| prod::matmul(messy(seed, 0, false), &a.m, &b.m, messy(seed, 1, false), &mut c.m)), "product of incompatible operands");
                    drop_in_lib(b);
                }
                1 => {
                    let b = mk(kb, k + 1, n);
                    match prod::dot(&a.m, &b.m) {
                        None => {}
                        Some(r) => refused(r, "product of incompatible operands"),
                    }
                    drop_in_lib(b);
                }
                2 => refused(lib(|| a.m.b().get(m, 0)), "get beyond the last row"),
                _ => refused(lib(|| *c.m.w().mref1(m * n) = T::nan()), "get1d_mut beyond the last element"),
            }
            drop_in_lib((a, c));
        }
        "cbpanic" => {
            let (r, c) = dims_at(op, 0, 1);
            let mut m = need(lib(|| T::mat_cm(r, c)), "mat!");
            let at = op.m(3, r * c);
            let mut k = 0;
            let x = lib(|| {
                m.for_each(|_| {
                    if k == at {
                        inject(Injected::Callback);
                    }
                    k += 1;
                    pause(sched::yield_now);
                })
            });
            match x {
                Err(Stop::Injected(_)) | Ok(()) => {}
                Err(e) => bad("unexpected-panic", format!("for_each: {:?}", e)),
            }
            drop_in_lib(m);
        }
        k => simrt::report::harness_error(&format!("unknown operation {}", k)),
    }
}
