//! stands in for nanoid 0.4: unique ids of the length asked for
use std::sync::atomic::{AtomicU64, Ordering};
pub static NEXT: AtomicU64 = AtomicU64::new(0);
pub fn make(len: usize) -> String {
    let mut n = NEXT.fetch_add(1, Ordering::SeqCst);
    let mut s = String::new();
    for _ in 0..len {
        s.push(b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-"[(n % 64) as usize] as char);
        n /= 64;
    }
    s
}
#[macro_export]
macro_rules! nanoid {
    ($len:expr) => {
        $crate::make($len)
    };
}
