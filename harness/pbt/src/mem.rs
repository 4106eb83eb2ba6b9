//! Counts the memory that is in use, for each thread by itself.
//! To be used with `#[global_allocator] static ALLOCATOR: pbt::mem::Counting = pbt::mem::Counting;`
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; static PEAK: Cell<i64> = const { Cell::new(0) }; }
pub struct Counting;
fn add(n: i64) { let _ = LIVE.try_with(|l| { let v = l.get() + n; l.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); }); }
// SAFETY: hands everything on to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
/// What this thread has allocated and not freed.
pub fn live() -> i64 { LIVE.with(Cell::get) }
/// The most that `live` has been since `reset_peak`.
pub fn peak() -> i64 { PEAK.with(Cell::get) }
pub fn reset_peak() { PEAK.with(|p| p.set(live())) }
