//! Allocation accounting for the code under test: per-thread outstanding bytes and largest single request.
//! A thread that exceeds its cap is parked for good; the watchdog then reports it as memory exhaustion.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct Cap;
thread_local! {
  static ON: Cell<bool> = const { Cell::new(false) };
  static CAP: Cell<usize> = const { Cell::new(0) };
  static CUR: Cell<isize> = const { Cell::new(0) };
  static MAX: Cell<usize> = const { Cell::new(0) };
}
/// bytes requested by the thread that hit its cap (0: none)
pub static EXCEEDED: AtomicUsize = AtomicUsize::new(0);

#[inline]
fn note(n: usize) {
  if ON.get() {
    CUR.set(CUR.get() + n as isize);
    if n > MAX.get() {
      MAX.set(n);
    }
    let cap = CAP.get();
    if n > cap || CUR.get() > cap as isize {
      ON.set(false);
      EXCEEDED.store(n.max(CUR.get().max(0) as usize), SeqCst);
      loop {
        std::thread::park();
      }
    }
  }
}
unsafe impl GlobalAlloc for Cap {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    note(l.size());
    unsafe { System.alloc(l) }
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    note(l.size());
    unsafe { System.alloc_zeroed(l) }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if ON.get() {
      CUR.set(CUR.get() - l.size() as isize);
    }
    unsafe { System.dealloc(p, l) }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if ON.get() {
      CUR.set(CUR.get() - l.size() as isize);
    }
    note(n);
    unsafe { System.realloc(p, l, n) }
  }
}

/// Run f with at most `cap` bytes outstanding on this thread; returns the largest single request.
pub fn capped<T>(cap: usize, f: impl FnOnce() -> T) -> (T, usize) {
  struct Off;
  impl Drop for Off {
    fn drop(&mut self) {
      ON.set(false);
    }
  }
  CAP.set(cap);
  CUR.set(0);
  MAX.set(0);
  ON.set(true);
  let _off = Off;
  let r = f();
  ON.set(false);
  (r, MAX.get())
}
