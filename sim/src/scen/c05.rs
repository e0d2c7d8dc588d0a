//! C05: random fills depend on the caller's generator alone.

use super::util::*;
use super::zoo::*;
use crate::by_type;
use crate::objs::*;
use crate::plan::*;
use crate::sc::*;
use rand::RngCore;
use simrt::prng::Prng;
use simrt::sched::{self, MAXT};
use simrt::{arena, inject, lib, pause, report, Injected, Stop};

pub fn gen(r: &mut Prng, p: &mut Plan) {
    p.set("ty", r.below(4) as i64);
    let nt = gthreads(r, 1, 4);
    p.set("nobj", nt as i64);
    p.set("shseed", r.below(1 << 30) as i64);
    for i in 0..nt {
        gen_obj(r, p, i, true);
        p.set(&format!("ent{}", i), r.below(1 << 30) as i64);
        let f = if r.chance(1, 3) { 1 + r.below(3) as i64 } else { 0 };
        p.set(&format!("entat{}", i), f);
        p.set(&format!("entkind{}", i), r.below(3) as i64);
    }
    // Swarm: some runs use few kinds of operation only.
    let all = ["fill", "fill", "fillfail", "shared", "shared", "sharedfail", "nest", "rand", "rand", "block"];
    let mut kinds: Vec<&str> = all.iter().copied().filter(|_| r.chance(2, 3)).collect();
    if kinds.is_empty() {
        kinds = vec!["shared", "fill"];
    }
    let big = r.chance(1, 60);
    for t in 0..nt {
        for _ in 0..1 + r.below(5) {
            let mut a: Vec<i64> = (0..8).map(|_| r.below(1 << 20) as i64).collect();
            let k = *r.pick(&kinds);
            if k == "rand" {
                a[1] = gdim(r, true);
                a[2] = gdim(r, true);
                if big {
                    a[1] = 90 + r.below(40) as i64;
                    a[2] = 90;
                }
            }
            p.op(t, k, &a);
        }
    }
    p.rand_mode(r);
    let (k, s) = *r.pick(&[(0, 0), (30, 10), (60, 30), (0, 40)]);
    p.rand_faults(r, k, s, 800);
}

pub fn directed() -> Vec<Plan> {
    vec![]
}

pub fn exec(p: &Plan) {
    by_type!(p.p("ty"), go(p))
}

struct Shared {
    rng: SimRng,
    words: u64,
    /// Words each task drew in its operation in hand.
    got: [Vec<u64>; MAXT],
    fail: [u64; MAXT],
}

static mut SHARED: Option<Shared> = None;

#[allow(static_mut_refs)]
fn shared() -> &'static mut Shared {
    unsafe { SHARED.as_mut().unwrap() }
}

/// A handle of the generator all tasks share.
struct Handle;

impl RngCore for Handle {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let w = pause(|| {
            sched::yield_now();
            let s = shared();
            let me = sched::me();
            if s.fail[me] != 0 {
                s.fail[me] -= 1;
                if s.fail[me] == 0 {
                    return None;
                }
            }
            let w = s.rng.next_u64();
            s.words += 1;
            s.got[me].push(w);
            Some(w)
        });
        match w {
            Some(w) => w,
            None => inject(Injected::Generator),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for ch in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            let n = ch.len();
            ch.copy_from_slice(&w[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Gives recorded words once more.
struct Tape {
    w: Vec<u64>,
    pos: usize,
}

impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.pos += 1;
        // Past the end only an end of the sampler's loops matters.
        self.w.get(self.pos - 1).copied().unwrap_or((self.pos as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15))
    }
    fn fill_bytes(&mut self, _d: &mut [u8]) {
        unimplemented!()
    }
    fn try_fill_bytes(&mut self, _d: &mut [u8]) -> Result<(), rand::Error> {
        unimplemented!()
    }
}

/// A generator that uses another generator and matrix in the middle of a draw.
struct Nest<T: Sc> {
    g: SimRng,
    at: u64,
    seed: i64,
    _t: std::marker::PhantomData<T>,
}

impl<T: Sc> RngCore for Nest<T> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.g.words == self.at {
            self.at = u64::MAX;
            pause(|| inner::<T>(self.seed));
        }
        self.g.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.g.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.g.try_fill_bytes(d)
    }
}

fn inner<T: Sc>(seed: i64) {
    use householder::*;
    let mut m = need(lib(|| MatrixD::<T, ColumnMajor>::zeros_from_dim(2, 2)), "zeros_from_dim");
    let mut g = SimRng::new(seed);
    need(lib(|| WMat::fill(&mut m, &mut g)), "a fill in the middle of a draw");
    let mut q = SimRng::quiet(seed);
    for k in 0..4 {
        bits_eq(need(lib(|| RMat::get1(&m, k)), "get1d"), T::reference_normal(&mut q), "element of a fill made in the middle of a draw");
    }
    eqn(g.words, q.words, "words drawn by a nested fill");
    drop_in_lib(m);
}

/// One object, what its cells must hold, and what they may be changing to.
struct St<T: Sc> {
    o: &'static mut Obj<T>,
    exp: Vec<T>,
    news: Vec<(usize, T)>,
    free: bool,
    /// Results of the operations on the thread's own generator.
    rands: Vec<RandRes<T>>,
}

struct RandRes<T> {
    kind: i64,
    d: (usize, usize),
    /// Elements in 1-D order, or the failure.
    v: Option<Vec<T>>,
}

impl<T: Sc> St<T> {
    fn check(&self, when: &str) {
        for i in 0..self.o.cells.n {
            let g = self.o.cells.get(i).comp();
            let e = self.exp[i].comp();
            if g == e {
                continue;
            }
            let ok = self.news.iter().any(|(c, n)| {
                let n = n.comp();
                *c == i && (self.free || ((g[0] == e[0] || g[0] == n[0]) && (g[1] == e[1] || g[1] == n[1])))
            });
            if !ok {
                bad("not-a-deviate", format!("{}: cell {} of a {} matrix holds {:?}, neither its former value {:?} nor its deviate", when, i, self.o.name(), self.o.cells.get(i), self.exp[i]));
            }
        }
    }
    fn done(&mut self, k: usize) {
        for (c, v) in self.news.drain(..).take(k) {
            self.exp[c] = v;
        }
        self.free = false;
    }
}

#[allow(static_mut_refs)]
fn go<T: Sc>(p: &Plan) {
    let nobj = p.u("nobj").clamp(1, CROWD_MAX);
    let mut rng = SimRng::quiet(p.p("shseed"));
    rng.extreme = rng.extreme.min(8);
    unsafe {
        SHARED = Some(Shared { rng, words: 0, got: std::array::from_fn(|_| Vec::new()), fail: [0; MAXT] });
    }
    let mut sts = vec![];
    for i in 0..nobj {
        let o = obj_of::<T>(p, i, false, &|x| val(100 + x as i64));
        o.mark_elems(arena::S_TASK0 + i as u8);
        o.mark_gaps(FRAME);
        let exp = (0..o.cells.n).map(|i| o.cells.get(i)).collect();
        let st: *mut St<T> = leak(St { o: leak(o), exp, news: vec![], free: false, rands: vec![] });
        sts.push(st);
        let ops: &[Op] = p.tasks.get(i).map(|x| &x[..]).unwrap_or(&[]);
        let ent = ent_of(p, i);
        let mut first = true;
        spawn_ops(i, ops, move |_, op| {
            if first {
                sched::set_entropy(ent.0, ent.1);
                first = false;
            }
            run_op(unsafe { &mut *st }, op);
        });
    }
    sched::run();
    for (t, st) in sts.iter().enumerate() {
        let st = unsafe { &**st };
        if sched::is_dead(t) {
        }
        st.check("at the end");
    }
    // What each thread's own generator gives in a thread that does nothing else.
    let dead: Vec<bool> = (0..nobj).map(sched::is_dead).collect();
    for (t, st) in sts.iter().enumerate() {
        let st = *st;
        let ent = ent_of(p, t);
        let _ = &dead;
        spawn_ops(nobj + t, &[Op { k: "ref".into(), a: vec![] }], move |_, _| {
            sched::set_entropy(ent.0, ent.1);
            for r in unsafe { &(*st).rands } {
                reference(r);
            }
        });
    }
    sched::run();
    for st in &sts {
        unsafe { (**st).o.cells.mark_all(arena::S_LIVE) };
    }
}

fn ent_of(p: &Plan, i: usize) -> (u64, Option<(u64, u8)>) {
    let at = p.u(&format!("entat{}", i)) as u64;
    let k = p.u(&format!("entkind{}", i)) as u8 % 3;
    (p.u(&format!("ent{}", i)) as u64, if at > 0 { Some((at, k)) } else { None })
}

fn reference<T: Sc>(r: &RandRes<T>) {
    let n = r.d.0 * r.d.1;
    let want = lib(|| {
        let mut g = rand::thread_rng();
        for k in 0..n {
            let x = T::reference_normal(&mut g);
            if let Some(v) = &r.v {
                pause(|| bits_eq(v[k], x, &format!("element {} of a random matrix from the thread's generator", k)));
            }
        }
    });
    match (want, &r.v) {
        (Ok(()), Some(_)) => {}
        (Ok(()), None) => bad("unexpected-panic", "a random matrix was refused although the thread's generator works".into()),
        (Err(_), Some(_)) => bad("failure-swallowed", "a random matrix was delivered although the entropy source failed".into()),
        (Err(_), None) => sched::probe("reach.entropy_failure_reported"),
    }
}

fn run_op<T: Sc>(st: &mut St<T>, op: &Op) {
    let v = st.o.v;
    let n = v.n();
    let seed = op.n(0);
    let me = sched::me();
    match op.k.as_str() {
        "fill" | "fillfail" | "nest" | "block" => {
            // Whole matrix, or a block of it.
            let blk = op.k == "block" && st.o.k().is_some() && n > 0;
            let (tl, d) = if blk {
                let tl = (op.m(1, v.r), op.m(2, v.c));
                (tl, (op.m(3, v.r - tl.0 + 1), op.m(4, v.c - tl.1 + 1)))
            } else {
                ((0, 0), (v.r, v.c))
            };
            let sv = if blk { v.sub(tl, d) } else { v };
            let n = sv.n();
            let mut q = SimRng::quiet(seed);
            let mut ends = vec![];
            st.news = (0..n)
                .map(|k| {
                    let x = T::reference_normal(&mut q);
                    ends.push(q.words);
                    (sv.cell1(k), x)
                })
                .collect();
            let mut g = SimRng::new(seed);
            let fail = if op.k == "fillfail" && n > 0 { 1 + op.m(6, q.words as usize) as u64 } else { 0 };
            g.fail_at = fail;
            let mut words = 0;
            let r = if blk {
                let km = st.o.km().unwrap();
                let mut b = need(lib(|| km.blk_m(tl, d)), "block_mut");
                let r = lib(|| b.w().fill(&mut g));
                words += g.words;
                r
            } else if op.k == "nest" {
                let mut g = Nest::<T> { g, at: op.m(5, q.words.max(1) as usize) as u64, seed: seed + 1, _t: std::marker::PhantomData };
                let r = lib(|| st.o.w().fill(&mut g));
                words += g.g.words;
                r
            } else {
                let r = lib(|| st.o.w().fill(&mut g));
                words += g.words;
                r
            };
            finish(st, r, fail, &ends, words, q.words);
        }
        "shared" | "sharedfail" => {
            let s = shared();
            s.got[me].clear();
            s.fail[me] = if op.k == "sharedfail" { 1 + op.m(6, 2 * n * T::NC + 1) as u64 } else { 0 };
            let fail = s.fail[me];
            // While the operation runs its deviates are not known in advance.
            st.news = v.cells().into_iter().map(|c| (c, val(0))).collect();
            st.free = true;
            let r = lib(|| st.o.w().fill(&mut Handle));
            shared().fail[me] = 0;
            let mut tape = Tape { w: std::mem::take(&mut shared().got[me]), pos: 0 };
            let mut ends = vec![];
            st.news.clear();
            for k in 0..n {
                let x = T::reference_normal(&mut tape);
                ends.push(tape.pos as u64);
                st.news.push((v.cell1(k), x));
            }
            st.free = false;
            let failed = matches!(r, Err(Stop::Injected(Injected::Generator)));
            let drawn = tape.w.len() as u64;
            if failed {
                // Words after the failure were never given out.
                finish(st, r, fail, &ends, drawn, tape.pos as u64);
            } else {
                finish(st, r, 0, &ends, drawn, tape.pos as u64);
            }
        }
        "rand" => {
            let (r, c) = dims_at(op, 1, 2);
            let kind = op.m(3, 5) as i64;
            fn elems<T: Sc, M: RMat<T>>(m: &M, d: (usize, usize)) -> Vec<T> {
                eqn(need(lib(|| m.dim()), "dim"), d, "dimension of a random matrix");
                (0..d.0 * d.1).map(|k| need(lib(|| m.get1(k)), "get1d")).collect()
            }
            let (d, v) = match kind {
                0 => ((r, c), lib(|| T::rand_mat_rm(r, c)).map(|m| { let e = elems(&m, (r, c)); drop_in_lib(m); e })),
                1 => ((r, c), lib(|| T::rand_mat_rm_dflt(r, c)).map(|m| { let e = elems(&m, (r, c)); drop_in_lib(m); e })),
                2 => ((r, c), lib(|| T::rand_mat_cm(r, c)).map(|m| { let e = elems(&m, (r, c)); drop_in_lib(m); e })),
                3 => ((r, 1), lib(|| T::rand_vec_c(r)).map(|m| { let e = elems(&m, (r, 1)); drop_in_lib(m); e })),
                _ => ((1, c), lib(|| T::rand_vec_r(c)).map(|m| { let e = elems(&m, (1, c)); drop_in_lib(m); e })),
            };
            match v {
                Ok(v) => st.rands.push(RandRes { kind, d, v: Some(v) }),
                Err(Stop::Panic(_)) => st.rands.push(RandRes { kind, d, v: None }),
                Err(x) => report::harness_error(&format!("stray {:?}", x)),
            }
        }
        x => report::harness_error(&format!("unknown operation {}", x)),
    }
}

fn finish<T: Sc>(st: &mut St<T>, r: Result<(), Stop>, fail: u64, ends: &[u64], drawn: u64, want: u64) {
    match r {
        Ok(()) => {
            if fail != 0 {
                bad("failure-swallowed", "a fill returned normally although its generator failed".into());
            }
            if drawn != want {
                bad("wrong-draws", format!("a fill of {} elements drew {} words from its generator instead of {}", ends.len(), drawn, want));
            }
            st.done(usize::MAX);
        }
        Err(Stop::Injected(Injected::Generator)) => {
            let k = ends.iter().filter(|e| **e < fail).count();
            st.done(k);
        }
        Err(x) => bad("unexpected-panic", format!("fill: {:?}", x)),
    }
    st.check("after a fill");
}
