//! Measures how much a thread works, and compares one that does much with many that do little.
use std::time::Duration;

#[repr(C)]
struct Timespec { sec: i64, nsec: i64 }
extern "C" { fn clock_gettime(clock: i32, to: *mut Timespec) -> i32; }
const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
/// The processor time this thread has taken. It does not go on while others run.
pub fn cpu() -> Duration {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: the clock exists and writes a timespec.
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) }, 0);
    Duration::new(t.sec as u64, t.nsec as u32)
}
/// What one that is given all takes, against what `PARTS` take that are given a part each.
pub const PARTS: usize = 32;
const FACTOR: u32 = 6;
const FREE: Duration = Duration::from_millis(3);
/// Whether `whole` takes much more than `parts` does, whenever it is tried. Both say how long they took.
/// (They are asked again because a processor is not equally fast all the time.)
pub fn compare<E>(mut whole: impl FnMut() -> Result<Duration, E>, mut parts: impl FnMut() -> Result<Duration, E>) -> Result<Result<f64, (Duration, Duration)>, E> {
    let (mut most, mut least) = (Duration::ZERO, Duration::MAX);
    for _ in 0..6 {
        let p = parts()?;
        let w = whole()?;
        (most, least) = (most.max(p), least.min(w));
        if least <= most * FACTOR + FREE { return Ok(Ok(least.as_secs_f64() / most.as_secs_f64().max(1e-4))); }
        crate::alive();
    }
    Ok(Err((least, most)))
}
