//! A run is completely described by its plan: parameters, operations per task, faults and schedule.

use simrt::prng::Prng;
use simrt::sched::{Fault, Mode, FK};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    /// `@n` before the kind: made from inside another operation.
    pub k: String,
    pub a: Vec<i64>,
}

impl Op {
    /// The kind without the mark.
    pub fn kind(&self) -> &str {
        self.inside_of().1
    }
    fn inside_of(&self) -> (Option<u64>, &str) {
        match self.k.strip_prefix('@') {
            Some(x) if x.len() > 1 => (x[..1].parse().ok(), &x[1..]),
            _ => (None, &self.k),
        }
    }
    /// How it is made from inside another operation, and the operation without the mark.
    pub fn inside(&self) -> Option<(u64, Op)> {
        let (how, k) = self.inside_of();
        how.map(|h| (h, Op { k: k.into(), a: self.a.clone() }))
    }
    pub fn n(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    /// Argument `i` reduced to 0..m (0 when m is 0).
    pub fn m(&self, i: usize, m: usize) -> usize {
        if m == 0 {
            0
        } else if m > 4096 {
            // Arguments are 16 bits; any position of a large object, and often the last ones.
            let x = self.n(i).unsigned_abs() as usize;
            if x % 4 == 3 {
                m - 1 - x / 4 % 4096
            } else {
                x.wrapping_mul(0x9e37_79b9) / 7 % m
            }
        } else {
            self.n(i).unsigned_abs() as usize % m
        }
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub profile: String,
    pub seed: u64,
    pub sseed: u64,
    pub mode: Mode,
    pub params: Vec<(String, i64)>,
    pub tasks: Vec<Vec<Op>>,
    pub faults: Vec<Fault>,
    pub sched: Vec<(u64, u8)>,
    pub class: String,
    pub detail: String,
}

pub const CAP: u64 = 12_000_000;

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(),
            profile: crate::PROFILE.into(),
            seed,
            sseed: seed ^ 0x5eed,
            mode: Mode::Serial,
            params: vec![],
            tasks: vec![],
            faults: vec![],
            sched: vec![],
            class: String::new(),
            detail: String::new(),
        }
    }
    pub fn set(&mut self, k: &str, v: i64) -> i64 {
        self.params.push((k.into(), v));
        v
    }
    pub fn p(&self, k: &str) -> i64 {
        self.params.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0)
    }
    pub fn u(&self, k: &str) -> usize {
        self.p(k).max(0) as usize
    }
    pub fn op(&mut self, t: usize, k: &str, a: &[i64]) {
        while self.tasks.len() <= t {
            self.tasks.push(vec![]);
        }
        self.tasks[t].push(Op { k: k.into(), a: a.to_vec() });
    }
    pub fn nops(&self) -> usize {
        self.tasks.iter().map(|t| t.len()).sum()
    }

    /// Random schedule policy.
    pub fn rand_mode(&mut self, r: &mut Prng) {
        let x = r.below(100);
        self.mode = if x < 8 {
            Mode::Serial
        } else if x < 65 {
            Mode::Rand { exp: *r.pick(&[1, 1, 2, 4, 16]), mem: *r.pick(&[0, 2, 5, 20, 100, 500, 3000]) }
        } else {
            Mode::Pct { d: 1 + r.below(5), est: *r.pick(&[100, 1000, 5000, 30000]) }
        };
    }

    /// Random stops and stalls at random instants of random operations.
    pub fn rand_faults(&mut self, r: &mut Prng, kill_pc: u64, stall_pc: u64, span: u64) {
        let nt = self.tasks.len();
        if nt == 0 {
            return;
        }
        for t in 0..nt {
            let no = self.tasks[t].len() as u64;
            if no == 0 {
                continue;
            }
            if r.chance(kill_pc, 100) {
                let f = Fault { kind: FK::Kill, task: t, op: r.below(no) as i64, at: r.logu(span), len: 0, hot: 0 };
                self.faults.push(f);
            }
            if r.chance(stall_pc, 100) {
                let f = Fault { kind: FK::Stall, task: t, op: r.below(no) as i64, at: r.logu(span), len: r.logu(20000), hot: 0 };
                self.faults.push(f);
            }
            if kill_pc + stall_pc > 0 && r.chance(1, 4) {
                // Where a shared cache, lock or counter is used, should there be one.
                let kill = r.chance(kill_pc, kill_pc + stall_pc);
                self.faults.push(Fault {
                    kind: if kill { FK::Kill } else { FK::Stall },
                    task: t,
                    op: r.below(no) as i64,
                    at: r.logu(24),
                    len: if kill { 0 } else { r.logu(20000) },
                    hot: r.logu(12),
                });
            }
        }
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "# householder simulation replay file");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "profile {}", self.profile);
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(s, "sseed {}", self.sseed);
        match self.mode {
            Mode::Serial => { let _ = writeln!(s, "mode serial"); }
            Mode::Rand { exp, mem } => { let _ = writeln!(s, "mode rand {} {}", exp, mem); }
            Mode::Pct { d, est } => { let _ = writeln!(s, "mode pct {} {}", d, est); }
            Mode::Replay => { let _ = writeln!(s, "mode replay"); }
        }
        if !self.class.is_empty() {
            let _ = writeln!(s, "class {}", self.class);
            let _ = writeln!(s, "detail {}", self.detail);
        }
        for (k, v) in &self.params {
            let _ = writeln!(s, "param {} {}", k, v);
        }
        let _ = writeln!(s, "tasks {}", self.tasks.len());
        for (t, ops) in self.tasks.iter().enumerate() {
            for o in ops {
                let a: Vec<String> = o.a.iter().map(|x| x.to_string()).collect();
                let _ = writeln!(s, "op {} {} {}", t, o.k, a.join(" "));
            }
        }
        for f in &self.faults {
            let from = if f.hot > 0 { format!(" static {}", f.hot) } else { String::new() };
            match f.kind {
                FK::Kill => { let _ = writeln!(s, "fault kill task {} op {} step {}{}", f.task, f.op, f.at, from); }
                FK::Stall => { let _ = writeln!(s, "fault stall task {} op {} step {} for {}{}", f.task, f.op, f.at, f.len, from); }
            }
        }
        for (a, b) in &self.sched {
            let _ = writeln!(s, "switch {} {}", a, b);
        }
        s
    }

    pub fn parse(txt: &str) -> Result<Plan, String> {
        let mut p = Plan::new("", 0);
        for l in txt.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            let num = |i: usize| -> Result<i64, String> {
                w.get(i).ok_or("short line")?.parse::<i64>().map_err(|e| format!("{}: {}", l, e))
            };
            match w[0] {
                "prop" => p.prop = w[1].into(),
                "profile" => p.profile = w[1].into(),
                "seed" => p.seed = w[1].parse().map_err(|_| "seed")?,
                "sseed" => p.sseed = w[1].parse().map_err(|_| "sseed")?,
                "mode" => {
                    p.mode = match w[1] {
                        "serial" => Mode::Serial,
                        "rand" => Mode::Rand { exp: num(2)? as u64, mem: num(3)? as u64 },
                        "pct" => Mode::Pct { d: num(2)? as u64, est: num(3)? as u64 },
                        _ => Mode::Replay,
                    }
                }
                "class" => p.class = w[1].into(),
                "detail" => p.detail = w[1..].join(" "),
                "param" => p.params.push((w[1].into(), num(2)?)),
                "tasks" => p.tasks.resize(num(1)? as usize, vec![]),
                "op" => {
                    let t = num(1)? as usize;
                    while p.tasks.len() <= t {
                        p.tasks.push(vec![]);
                    }
                    let mut a = vec![];
                    for i in 3..w.len() {
                        a.push(num(i)?);
                    }
                    p.tasks[t].push(Op { k: w[2].into(), a });
                }
                "fault" => {
                    let kind = if w[1] == "kill" { FK::Kill } else { FK::Stall };
                    let after = |k: &str| w.iter().position(|x| *x == k).map_or(Ok(0), |i| num(i + 1).map(|x| x as u64));
                    let (len, hot) = (after("for")?, after("static")?);
                    p.faults.push(Fault { kind, task: num(3)? as usize, op: num(5)?, at: num(7)? as u64, len, hot });
                }
                "switch" => p.sched.push((num(1)? as u64, num(2)? as u8)),
                _ => return Err(format!("unknown line: {}", l)),
            }
        }
        Ok(p)
    }
}
