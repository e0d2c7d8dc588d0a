//! Result channel of one simulated run: a shared-memory page the parent process reads.

use std::fmt::Write;

pub const CHAN: usize = 4 << 20;
pub static mut PAGE: *mut u8 = std::ptr::null_mut();

pub fn map_page() -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            CHAN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("harness: mmap failed");
            std::process::exit(2);
        }
        p as *mut u8
    }
}

/// Write the result text and end the child process.
fn finish(kind: &str, class: &str, detail: &str) -> ! {
    let _g = crate::Disarm::new();
    let mut s = String::new();
    let _ = writeln!(s, "kind {}", kind);
    let _ = writeln!(s, "class {}", class);
    let _ = writeln!(s, "detail {}", detail.replace('\n', " "));
    crate::sched::dump(&mut s);
    unsafe {
        if !PAGE.is_null() {
            let b = s.as_bytes();
            let n = b.len().min(CHAN - 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), PAGE.add(8), n);
            (PAGE as *mut u64).write_volatile(n as u64);
        } else {
            eprintln!("{}", s);
        }
        libc::_exit(0)
    }
}

pub fn violate(class: &str, detail: &str) -> ! {
    finish("violation", class, detail)
}

pub fn harness_error(detail: &str) -> ! {
    finish("error", "harness", detail)
}

pub fn ok() -> ! {
    finish("ok", "-", "-")
}
