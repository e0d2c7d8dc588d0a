//! An operation made from inside another one of the same thread: its callback, a draw of its
//! generator, an element read, the release of a caller's container, or a destructor during unwinding.

use crate::scen::util::leak;
use householder::traits::*;
use householder::*;
use rand::RngCore;
use simrt::{inject, lib, pause, sched, Injected};
use std::cell::Cell;

pub const HOWS: u64 = 6;

type F = *mut dyn FnMut();

fn call(f: &Cell<Option<F>>) {
    if let Some(f) = f.take() {
        pause(|| {
            sched::probe("reach.operation_inside_another");
            unsafe { (*f)() }
        })
    }
}

/// A caller's container that does something at an element read or when it is released.
struct Hook<'a> {
    v: [f64; 4],
    read: &'a Cell<Option<F>>,
    gone: &'a Cell<Option<F>>,
}
impl DataContainer for Hook<'_> {
    type Item = f64;
    unsafe fn get_unchecked(&self, i: usize) -> f64 {
        if i > 0 {
            call(self.read);
        }
        self.v[i]
    }
    fn get_pointer(&self) -> *const f64 {
        self.v.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        4
    }
}
impl Drop for Hook<'_> {
    fn drop(&mut self) {
        call(self.gone)
    }
}

struct Gen<'a>(&'a Cell<Option<F>>, u64);
impl RngCore for Gen<'_> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        call(self.0);
        self.1 ^ self.1 >> 29
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(self.next_u64() as u8)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

struct Guard<'a>(&'a Cell<Option<F>>);
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        call(self.0)
    }
}

fn hook<'a>(read: &'a Cell<Option<F>>, gone: &'a Cell<Option<F>>) -> GenericBaseMatrix<f64, ColumnMajor, Hook<'a>, Dynamic, Dynamic> {
    GenericBaseMatrix::from_data(Hook { v: [1.0, 2.0, 3.0, 4.0], read, gone }, ColumnMajor::new((2, 2)))
}

/// What becomes of the outer operation is not looked at here.
pub fn within(how: u64, f: &mut dyn FnMut()) {
    let none: Cell<Option<F>> = Cell::new(None);
    let c: Cell<Option<F>> = Cell::new(Some(unsafe { std::mem::transmute::<*mut dyn FnMut(), F>(f) }));
    match how % HOWS {
        0 => {
            let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 2);
            let mut k = 0;
            let _ = lib(|| {
                m.for_each(|x| {
                    k += 1;
                    if k == 3 {
                        call(&c)
                    }
                    *x += 1.0
                })
            });
            std::mem::forget(m);
        }
        1 => {
            let mut m = leak(MatrixD::<types::c64, ColumnMajor>::zeros_from_dim(2, 2));
            let _ = lib(|| m.fill_from_rand_standard_normal(&mut Gen(&c, 5)));
            let _ = &mut m;
        }
        2 => {
            let _ = lib(|| {
                let x = 2.0 * hook(&c, &none) + hook(&none, &none);
                x.get(1, 1)
            });
        }
        3 => {
            let _ = lib(|| drop((hook(&c, &none) + hook(&none, &none)).eval()));
        }
        4 => {
            let _ = lib(|| drop(hook(&none, &none) + hook(&none, &c)));
        }
        _ => {
            let mut m = leak(MatrixD::<f64, ColumnMajor>::zeros_from_dim(2, 2));
            let _ = lib(|| {
                m.for_each(|_| {
                    let _g = Guard(&c);
                    inject(Injected::Callback)
                })
            });
            let _ = &mut m;
        }
    }
    if let Some(f) = c.take() {
        unsafe { (*f)() }
    }
}
