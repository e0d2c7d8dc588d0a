//! Caller-supplied storage: raw cells in the arena, and a data container over them through which
//! the simulator observes, delays and fails element accesses.

use crate::sc::*;
use householder::{DataContainer, DataContainerMut};
use simrt::sched::{self, MAXT};
use simrt::{arena, inject, pause, report, Injected};

/// `n` element cells at a fixed place in the arena, owned by the harness.
pub struct Cells<T> {
    pub ptr: *mut T,
    pub n: usize,
}

impl<T> Clone for Cells<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Cells<T> {}
unsafe impl<T> Send for Cells<T> {}
unsafe impl<T> Sync for Cells<T> {}

impl<T: Sc> Cells<T> {
    pub fn new(n: usize) -> Cells<T> {
        pause(|| {
            let ptr = arena::region((n * std::mem::size_of::<T>()).max(1), 16) as *mut T;
            Cells { ptr, n }
        })
    }
    /// False once the memory has been released.
    pub fn alive(&self) -> bool {
        let a = self.ptr as usize;
        !arena::contains(a) || unsafe { *arena::shadow(a) != arena::S_FREED }
    }
    /// Cells of storage that is already there.
    pub fn at(ptr: *const T, n: usize) -> Cells<T> {
        Cells { ptr: ptr as *mut T, n }
    }
    pub fn filled(n: usize, f: impl Fn(usize) -> T) -> Cells<T> {
        let c = Cells::new(n);
        for i in 0..n {
            c.set(i, f(i));
        }
        c
    }
    pub fn get(&self, i: usize) -> T {
        assert!(i < self.n);
        pause(|| unsafe { std::ptr::read_volatile(self.ptr.add(i)) })
    }
    pub fn set(&self, i: usize, v: T) {
        assert!(i < self.n);
        pause(|| unsafe { std::ptr::write_volatile(self.ptr.add(i), v) })
    }
    pub fn snap(&self) -> Vec<[u64; 2]> {
        (0..self.n).map(|i| self.get(i).comp()).collect()
    }
    pub fn mark(&self, i: usize, s: u8) {
        assert!(i < self.n);
        let a = self.ptr as usize + i * std::mem::size_of::<T>();
        if arena::contains(a) {
            arena::mark(a, std::mem::size_of::<T>(), s);
        }
    }
    pub fn mark_all(&self, s: u8) {
        for i in 0..self.n {
            self.mark(i, s);
        }
    }
    pub fn slice(&self) -> &'static [T] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.n) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn slice_mut(&self) -> &'static mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.n) }
    }
}

pub struct Ctl {
    /// Element reads of the current task, oldest first: (store, raw index, value).
    pub log: Option<Vec<(u32, usize, [u64; 2])>>,
    /// The n-th element read from now on fails (0 = never).
    pub fail_at: u64,
    /// Run before every element read.
    pub hook: Option<Box<dyn FnMut()>>,
    pub reads: u64,
    pub pointers: u64,
    /// Operations inside operations, at present.
    pub depth: u32,
}

#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Ctl = Ctl { log: None, fail_at: 0, hook: None, reads: 0, pointers: 0, depth: 0 };
static mut CTL: [Ctl; MAXT + 1] = [EMPTY; MAXT + 1];
static mut DROPS: [u32; 65536] = [0; 65536];

#[allow(static_mut_refs)]
pub fn ctl() -> &'static mut Ctl {
    unsafe { &mut CTL[sched::me().min(MAXT)] }
}

#[allow(static_mut_refs)]
pub fn drops(id: u32) -> u32 {
    unsafe { DROPS[id as usize % 65536] }
}

static mut BORN: Vec<u32> = Vec::new();

/// All containers made so far.
#[allow(static_mut_refs)]
pub fn born() -> &'static [u32] {
    unsafe { &BORN }
}

static mut NEXT: u32 = 1000;

/// An id no other container of this run has.
pub fn new_id() -> u32 {
    unsafe {
        NEXT += 1;
        NEXT
    }
}

/// Data container over harness-owned cells.
pub struct SimStore<T: Sc> {
    pub cells: Cells<T>,
    pub id: u32,
}

impl<T: Sc> SimStore<T> {
    pub fn new(cells: Cells<T>, id: u32) -> Self {
        #[allow(static_mut_refs)]
        pause(|| unsafe { BORN.push(id) });
        SimStore { cells, id }
    }
}

impl<T: Sc> Drop for SimStore<T> {
    fn drop(&mut self) {
        #[allow(static_mut_refs)]
        unsafe {
            DROPS[self.id as usize % 65536] += 1;
            if DROPS[self.id as usize % 65536] > 1 {
                report::violate("double-drop", &format!("container {} dropped twice", self.id));
            }
        }
    }
}

impl<T: Sc> DataContainer for SimStore<T> {
    type Item = T;

    unsafe fn get_unchecked(&self, i: usize) -> T {
        let fail = pause(|| {
            sched::yield_now();
            let c = ctl();
            if i >= self.cells.n {
                report::violate("out-of-bounds-access", &format!("element read at raw index {} of a container with {} elements", i, self.cells.n));
            }
            if let Some(mut h) = c.hook.take() {
                h();
                ctl().hook = Some(h);
            }
            let c = ctl();
            c.reads += 1;
            if c.fail_at != 0 {
                c.fail_at -= 1;
                c.fail_at == 0
            } else {
                false
            }
        });
        if fail {
            inject(Injected::Storage);
        }
        let v = std::ptr::read_volatile(self.cells.ptr.add(i));
        pause(|| {
            if let Some(l) = &mut ctl().log {
                l.push((self.id, i, v.comp()));
            }
        });
        v
    }

    fn get_pointer(&self) -> *const T {
        pause(|| ctl().pointers += 1);
        self.cells.ptr
    }

    fn number_of_elements(&self) -> usize {
        self.cells.n
    }
}

impl<T: Sc> DataContainerMut for SimStore<T> {
    unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        pause(|| {
            sched::yield_now();
            if i >= self.cells.n {
                report::violate("out-of-bounds-access", &format!("element write at raw index {} of a container with {} elements", i, self.cells.n));
            }
        });
        &mut *self.cells.ptr.add(i)
    }

    fn get_pointer_mut(&mut self) -> *mut T {
        pause(|| ctl().pointers += 1);
        self.cells.ptr
    }
}
