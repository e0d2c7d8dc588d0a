//! Simulator runtime: scheduler, seams and result channel.  Not instrumented.
#![feature(alloc_error_hook)]

pub mod arena;
pub mod prng;
pub mod report;
pub mod sched;
pub mod sys;

use std::any::Any;
use std::cell::Cell;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

/// True while the current thread runs library code on behalf of a task.
#[inline]
pub fn armed() -> bool {
    ARMED.with(|a| a.get())
}

#[inline]
pub fn set_armed(v: bool) -> bool {
    ARMED.with(|a| a.replace(v))
}

/// Turns the seams off for the current thread until dropped.
pub struct Disarm(bool);

impl Disarm {
    #[inline]
    pub fn new() -> Self {
        Disarm(set_armed(false))
    }
}

impl Drop for Disarm {
    #[inline]
    fn drop(&mut self) {
        set_armed(self.0);
    }
}

/// Panic payloads the simulator throws.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Injected {
    Callback,
    Generator,
    Storage,
    Oom,
}

pub fn inject(k: Injected) -> ! {
    let _g = Disarm::new();
    sched::probe(match k {
        Injected::Callback => "fault.callback_panic",
        Injected::Generator => "fault.generator_panic",
        Injected::Storage => "fault.storage_read_error",
        Injected::Oom => "fault.oom_unwind",
    });
    let b: Box<dyn Any + Send> = Box::new(k);
    drop(_g);
    std::panic::resume_unwind(b)
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(k) = e.downcast_ref::<Injected>() {
        format!("injected {:?}", k)
    } else {
        "?".into()
    }
}

#[derive(Debug)]
pub enum Stop {
    Injected(Injected),
    Panic(String),
}

pub fn classify(e: Box<dyn Any + Send>) -> Stop {
    if let Some(k) = e.downcast_ref::<Injected>() {
        Stop::Injected(*k)
    } else {
        Stop::Panic(panic_text(&*e))
    }
}

/// Run library code: seams on, panics caught.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Stop> {
    let prev = set_armed(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_armed(prev);
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            let _g = Disarm::new();
            Err(classify(e))
        }
    }
}

/// Run harness code from within library code (callbacks): seams off.
#[inline]
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    let _g = Disarm::new();
    f()
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|_| {}));
    std::alloc::set_alloc_error_hook(|_l| {
        if sched::active() && sched::me() < sched::MAXT {
            inject(Injected::Oom)
        }
    });
}
