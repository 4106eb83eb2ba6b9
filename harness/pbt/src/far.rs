//! Brings a generator into the state it has after more steps than can be taken: the bytes in which it counts are
//! found by watching them, and set. Where it does not count like this, nothing is done (`find` gives none).
use std::mem::size_of;

pub struct Far { at: Vec<usize>, base: u64, wide: bool }

fn get<T>(x: &T, o: usize, n: usize) -> u64 {
    assert!(o + n <= size_of::<T>());
    let p = x as *const T as *const u8;
    let mut v = [0; 8];
    for i in 0..n { v[i] = unsafe { p.add(o + i).read_volatile() }; }
    u64::from_le_bytes(v)
}
fn set<T>(x: &mut T, o: usize, n: usize, v: u64) {
    assert!(o + n <= size_of::<T>());
    let p = x as *mut T as *mut u8;
    for i in 0..n { unsafe { p.add(o + i).write_volatile(v.to_le_bytes()[i]) }; }
}

impl Far {
    /// `step` gives the number that is visible in what was generated.
    pub fn find<T>(new: impl Fn() -> T, step: impl Fn(&mut T) -> u64) -> Option<Far> {
        let size = size_of::<T>();
        let (mut x, y) = (new(), new());
        let start: Vec<u64> = (0..size / 4).map(|i| get(&x, 4 * i, 4)).collect();
        let mut at: Vec<usize> = (0..size / 4).map(|i| 4 * i).filter(|o| get(&y, *o, 4) == start[o / 4]).collect();
        let mut n = 0;
        for k in [1, 2, 3, 7, 0x102, 0x1_0203] {
            while n < k { step(&mut x); n += 1; }
            at.retain(|o| get(&x, *o, 4) == start[o / 4] + k);
        }
        let base = start[*at.first()? / 4];
        if at.iter().any(|o| start[o / 4] != base) { return None; }
        let mut far = Far { at, base, wide: false };
        let mut z = new();
        far.jump(&mut z, n);
        for _ in 0..5 { if step(&mut z) != step(&mut x) { return None; } }
        // does it carry into the next four bytes?
        let room = |o: &usize| o % 8 == 0 && o + 8 <= size;
        if far.at.iter().all(|o| room(o) && get(&y, *o, 8) == base) {
            let mut z = new();
            far.jump(&mut z, u32::MAX as u64 - base);
            step(&mut z);
            far.wide = far.at.iter().all(|o| get(&z, *o, 8) == 1 << 32);
        }
        Some(far)
    }
    /// How many steps can be jumped over.
    pub fn bits(&self) -> u32 { if self.wide { 63 } else { 32 } }
    pub fn jump<T>(&self, x: &mut T, steps: u64) {
        let v = self.base + steps;
        for o in &self.at { set(x, *o, if self.wide { 8 } else { assert!(v < 1 << 32); 4 }, v); }
    }
    /// Numbers of steps that are worth a look: around powers of two and their sums.
    pub fn points(&self, s: &mut crate::Src) -> Vec<u64> {
        let max = (1u64 << self.bits()) - 64;
        let carry = (1 << 32) - 20 - self.base;
        let mut v = vec![0];
        for _ in 0..s.range(3, 8) {
            let a = 1u64 << s.range(8, self.bits() as usize - 1);
            let b = match s.below(3) { 0 => 0, 1 => 1u64 << s.range(8, self.bits() as usize - 1), _ => s.u64() % a };
            v.push(match s.below(3) { 0 => a.wrapping_add(b), 1 => a - 20, _ => a }.min(max));
        }
        v.sort_unstable();
        v.dedup_by(|b, a| *b - *a < 64);
        v.retain(|p| p.abs_diff(carry) >= 64);
        v.push(carry);
        v.sort_unstable();
        v
    }
}
