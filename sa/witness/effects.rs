// Programs the effect rules must recognise (never run, only analysed).
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
pub fn clock() -> u64 { std::time::Instant::now().elapsed().as_secs() }
pub fn environment() -> usize { std::env::args().count() }
pub fn stdout() { println!("x") }
pub fn stdin() -> String { let mut s = String::new(); std::io::stdin().read_line(&mut s).unwrap(); s }
pub fn file() -> bool { std::fs::read("x").is_ok() }
pub fn thread() { std::thread::spawn(|| {}).join().unwrap(); }
pub fn hash_iter(m: &HashMap<u32, u32>) -> u32 { *m.keys().next().unwrap() }
pub fn hash_for(m: HashMap<u32, u32>) -> u32 { let mut a = 0; for (k, v) in m { a = a * 3 + k + v } a }
pub fn hash_get(m: &mut HashMap<u32, u32>) -> u32 { m.insert(1, 2); *m.get(&1).unwrap() }
pub fn address(x: &u32) -> usize { x as *const u32 as usize }
pub fn random() -> u64 {
    use std::hash::BuildHasher;
    std::collections::hash_map::RandomState::new().hash_one(1u8)
}
static COUNT: AtomicUsize = AtomicUsize::new(0);
fn bump() -> usize { COUNT.fetch_add(1, Ordering::Relaxed) }
pub fn hidden(x: usize) -> usize { x + bump() }
static mut S: usize = 0;
pub fn static_mut() -> usize { unsafe { S } }
thread_local! { static L: std::cell::Cell<u32> = std::cell::Cell::new(0); }
pub fn tls() -> u32 { L.with(|c| c.get()) }
pub fn pure(v: &[u32]) -> String { format!("{:?}", v.iter().rev().collect::<Vec<_>>()) }
