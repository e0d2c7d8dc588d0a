//! Allocator seam.
//!
//! While a task runs library code (ARMED), every allocation comes from a bump arena at a fixed
//! address: addresses, contents of fresh memory and the fate of released memory are functions of
//! the run alone.  Released blocks are either never reused within a run, or (REUSE) handed out
//! again at once with their old contents, as a real allocator does.  One shadow byte per arena byte
//! says who may touch it.  Allocations outside library code go to the system allocator.

use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x5100_0000_0000;
pub const SIZE: usize = 256 << 20;
pub const SHADOW: usize = 0x5200_0000_0000;
const RED: usize = 96;

pub const S_INVALID: u8 = 0;
pub const S_LIVE: u8 = 1;
pub const S_FREED: u8 = 2;
pub const S_READONLY: u8 = 3;
/// Readable and writable only while no library operation on it is in progress (not element storage).
pub const S_FRAME: u8 = 4;
pub const S_TASK0: u8 = 16;

pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub live: bool,
    pub task: u8,
}

pub struct Arena {
    pub next: usize,
    pub blocks: Vec<Block>,
    pub live: usize,
    pub live_blocks: usize,
}

#[allow(static_mut_refs)]
pub static mut ARENA: Arena = Arena { next: BASE, blocks: Vec::new(), live: 0, live_blocks: 0 };

pub fn init() {
    unsafe {
        for (a, s) in [(BASE, SIZE), (SHADOW, SIZE)] {
            let p = libc::mmap(
                a as *mut _,
                s,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            if p as usize != a {
                eprintln!("harness: cannot map arena");
                std::process::exit(2);
            }
        }
    }
}

#[inline]
pub fn contains(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE
}

#[inline]
pub fn shadow(a: usize) -> *mut u8 {
    (a - BASE + SHADOW) as *mut u8
}

pub fn mark(a: usize, len: usize, s: u8) {
    unsafe { std::ptr::write_bytes(shadow(a), s, len) }
}

/// Released blocks are reused, last released first, with whatever they hold.
pub static mut REUSE: bool = false;
/// Indices of released blocks, in the order of release.
static mut FREE: Vec<usize> = Vec::new();

#[allow(static_mut_refs)]
unsafe fn recycle(size: usize, align: usize, task: u8) -> *mut u8 {
    let Some(k) = FREE.iter().rposition(|i| ARENA.blocks[*i].size == size && ARENA.blocks[*i].addr % align == 0) else {
        return std::ptr::null_mut();
    };
    let i = FREE.remove(k);
    let b = &mut ARENA.blocks[i];
    b.live = true;
    b.task = task;
    mark(b.addr, size, S_LIVE);
    ARENA.live += size;
    ARENA.live_blocks += 1;
    crate::sched::probe("fault.memory_reused");
    b.addr as *mut u8
}

/// Bump allocation with red zones on both sides; contents are a fixed junk pattern.
#[allow(static_mut_refs)]
pub unsafe fn arena_alloc(size: usize, align: usize, task: u8) -> *mut u8 {
    if REUSE && task != 254 {
        let p = recycle(size, align, task);
        if !p.is_null() {
            return p;
        }
    }
    let al = align.max(16);
    let start = (ARENA.next + RED + al - 1) & !(al - 1);
    let end = start + size + RED;
    if size > SIZE || end > BASE + SIZE {
        return std::ptr::null_mut();
    }
    ARENA.next = end;
    std::ptr::write_bytes((start - RED) as *mut u8, 0xE7, RED);
    std::ptr::write_bytes((start + size) as *mut u8, 0xE7, RED);
    junk(start, size);
    mark(start, size, S_LIVE);
    ARENA.blocks.push(Block { addr: start, size, live: true, task });
    ARENA.live += size;
    ARENA.live_blocks += 1;
    start as *mut u8
}

unsafe fn junk(start: usize, size: usize) {
    // 0xC5.. is a large negative finite number as f32 and f64: never mistaken for a small integer.
    std::ptr::write_bytes(start as *mut u8, 0xC5, size);
}

#[allow(static_mut_refs)]
pub unsafe fn find(addr: usize) -> Option<usize> {
    let b = &ARENA.blocks;
    let i = b.partition_point(|x| x.addr <= addr);
    if i == 0 {
        None
    } else {
        Some(i - 1)
    }
}

#[allow(static_mut_refs)]
pub unsafe fn arena_free(p: *mut u8, size: usize) {
    let a = p as usize;
    match find(a) {
        Some(i) if ARENA.blocks[i].addr == a => {
            if !ARENA.blocks[i].live {
                crate::report::violate("double-free", &format!("block of {} bytes released twice", size));
            }
            if ARENA.blocks[i].size != size {
                crate::report::violate("bad-free", &format!("block of {} bytes released as {} bytes", ARENA.blocks[i].size, size));
            }
            check_red(i);
            ARENA.blocks[i].live = false;
            ARENA.live -= size;
            ARENA.live_blocks -= 1;
            mark(a, size, S_FREED);
            if REUSE {
                FREE.push(i);
            } else {
                std::ptr::write_bytes(p, 0xDB, size);
            }
        }
        _ => crate::report::violate("bad-free", "released an address that is not the start of a block"),
    }
}

#[allow(static_mut_refs)]
unsafe fn check_red(i: usize) {
    let b = &ARENA.blocks[i];
    let lo = std::slice::from_raw_parts((b.addr - RED) as *const u8, RED);
    let hi = std::slice::from_raw_parts((b.addr + b.size) as *const u8, RED);
    if lo.iter().chain(hi.iter()).any(|x| *x != 0xE7) {
        crate::report::violate("out-of-bounds-write", &format!("memory next to a block of {} bytes was overwritten", b.size));
    }
}

/// Red zones and released blocks must be as they were left.
#[allow(static_mut_refs)]
pub fn check_all() {
    unsafe {
        for i in 0..ARENA.blocks.len() {
            check_red(i);
            let b = &ARENA.blocks[i];
            if !b.live && !REUSE {
                let s = std::slice::from_raw_parts(b.addr as *const u8, b.size);
                if s.iter().any(|x| *x != 0xDB) {
                    crate::report::violate("use-after-free", &format!("a released block of {} bytes was written", b.size));
                }
            }
        }
    }
}

#[allow(static_mut_refs)]
pub fn live() -> (usize, usize) {
    unsafe { (ARENA.live_blocks, ARENA.live) }
}

/// Storage for harness-owned containers, in the arena but not accounted as library memory.
#[allow(static_mut_refs)]
pub fn region(size: usize, align: usize) -> *mut u8 {
    unsafe {
        let p = arena_alloc(size, align, 254);
        if p.is_null() {
            crate::report::harness_error("arena exhausted");
        }
        ARENA.live -= size;
        ARENA.live_blocks -= 1;
        p
    }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if crate::armed() {
            crate::sched::on_alloc(l.size(), l.align())
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if contains(p as usize) {
            crate::sched::on_free(p, l.size())
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if crate::armed() {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if contains(p as usize) || crate::armed() {
            let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, new)
        }
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;
