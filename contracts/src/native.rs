//! Native stand-in for the verifier: replays a counterexample, or random inputs, against the
//! code as rustc compiles it.
use std::cell::RefCell;
use std::collections::VecDeque;

thread_local! {
    static FEED: RefCell<Feed> = RefCell::new(Feed { rec: None, seed: 1, log: vec![] });
}
pub struct Feed { rec: Option<VecDeque<Vec<u8>>>, seed: u64, log: Vec<Vec<u8>> }
pub struct Rejected;
pub struct Violated(pub &'static str);

pub trait Any { fn from_feed() -> Self; }
fn next(len: usize, small: u64) -> u64 {
    FEED.with(|f| {
        let mut f = f.borrow_mut();
        let v = match &mut f.rec {
            Some(r) => match r.pop_front() {
                Some(b) => { let mut x = 0u64; for (i, y) in b.iter().enumerate() { x |= (*y as u64) << (8 * i); } x }
                None => 0,
            },
            None => {
                f.seed ^= f.seed << 13; f.seed ^= f.seed >> 7; f.seed ^= f.seed << 17;
                (f.seed >> 11) % small
            }
        };
        f.log.push(v.to_le_bytes()[..len].to_vec());
        v
    })
}
impl Any for usize { fn from_feed() -> Self { next(8, 7) as usize } }
impl Any for u64 { fn from_feed() -> Self { next(8, 251) } }
impl Any for u32 { fn from_feed() -> Self { next(4, 251) as u32 } }
impl Any for u16 { fn from_feed() -> Self { next(2, 251) as u16 } }
impl Any for u8 { fn from_feed() -> Self { next(1, 251) as u8 } }
impl Any for bool { fn from_feed() -> Self { next(1, 2) & 1 != 0 } }
impl<T: Any, const N: usize> Any for [T; N] { fn from_feed() -> Self { core::array::from_fn(|_| T::from_feed()) } }

pub fn any<T: Any>() -> T { T::from_feed() }
/// Runs before an attempt is abandoned.
pub static mut ON_STOP: Option<fn()> = None;
fn stop(why: Box<dyn std::any::Any + Send>) {
    if std::thread::panicking() { return }
    if let Some(f) = unsafe { ON_STOP } { f() }
    std::panic::resume_unwind(why)
}
pub fn assume(c: bool) { if !c { stop(Box::new(Rejected)) } }
pub fn check(c: bool, m: &'static str) { if !c { stop(Box::new(Violated(m))) } }

fn attempt(h: fn(), rec: Option<Vec<Vec<u8>>>, seed: u64) -> Option<(String, Vec<Vec<u8>>)> {
    FEED.with(|f| *f.borrow_mut() = Feed { rec: rec.map(|r| r.into()), seed, log: vec![] });
    let r = std::panic::catch_unwind(h);
    let log = FEED.with(|f| std::mem::take(&mut f.borrow_mut().log));
    match r {
        Ok(()) => None,
        Err(e) => if e.is::<Rejected>() { None }
            else if let Some(v) = e.downcast_ref::<Violated>() { Some((v.0.to_string(), log)) }
            else if let Some(s) = e.downcast_ref::<&str>() { Some((format!("panic: {s}"), log)) }
            else if let Some(s) = e.downcast_ref::<String>() { Some((format!("panic: {s}"), log)) }
            else { Some(("panic".to_string(), log)) }
    }
}
/// Arguments: `rec HEX,HEX,...` or `rand SEED COUNT`. Prints `REPRODUCED <obligation>` and the
/// inputs when the contract is broken.
pub fn main(h: fn()) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let show = |m: &str, log: &[Vec<u8>]| {
        println!("REPRODUCED {m}");
        println!("INPUTS {}", log.iter().map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>()).collect::<Vec<_>>().join(","));
    };
    if a[1] == "rec" {
        let rec = a[2].split(',').filter(|s| !s.is_empty()).map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
        if let Some((m, log)) = attempt(h, Some(rec), 1) { show(&m, &log); std::process::exit(3) }
    } else {
        let seed: u64 = a[2].parse().unwrap();
        let count: u64 = a[3].parse().unwrap();
        for i in 0..count {
            let s = (seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (i + 1).wrapping_mul(0xD1B54A32D192ED03)) | 1;
            if let Some((m, log)) = attempt(h, None, s) { show(&m, &log); std::process::exit(3) }
        }
    }
    println!("NOT-REPRODUCED");
}
