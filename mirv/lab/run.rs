//! runs the functions of lab.rs on random inputs: `yes_` must always hold, `no_` must fail on some input
#[path = "lab.rs"]
mod lab;
pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 >> 5 }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
}
pub trait Arb { fn arb(r: &mut Rng) -> Self; }
macro_rules! int { ($($t:ty)*) => { $(impl Arb for $t { fn arb(r: &mut Rng) -> $t { match r.below(6) {
    0 => <$t>::MAX, 1 => <$t>::MIN, 2 => r.next() as $t, 3 => (99_999_998u64 + r.below(4)) as $t, _ => r.below(9) as $t } } })* } }
int!(u8 u32 u64 i32);
impl Arb for bool { fn arb(r: &mut Rng) -> bool { r.below(2) == 0 } }
impl Arb for String { fn arb(r: &mut Rng) -> String {
    const W: &[&str] = &[".", ".", "a", "b", " ", "did:", "jwt", "JWT", "jWt", "é", "ß", "K", "1", "9", "\n", "x"];
    (0..r.below(5)).map(|_| W[r.below(W.len() as u64) as usize]).collect() } }
impl Arb for chrono::DateTime<chrono::Utc> { fn arb(r: &mut Rng) -> Self {
    chrono::DateTime::from_utc(chrono::NaiveDateTime::from_timestamp_opt(match r.below(3) { 0 => 0, 1 => r.below(5) as i64 - 2, _ => r.next() as i32 as i64 }, if r.below(2) == 0 { 0 } else { r.below(1_000_000_000) as u32 }).unwrap(), chrono::Utc) } }
impl<T: Arb, U: Arb> Arb for (T, U) { fn arb(r: &mut Rng) -> Self { (T::arb(r), U::arb(r)) } }
impl<T: Arb> Arb for Option<T> { fn arb(r: &mut Rng) -> Option<T> { if r.below(3) == 0 { None } else { Some(T::arb(r)) } } }
impl<T: Arb> Arb for Vec<T> { fn arb(r: &mut Rng) -> Vec<T> { (0..r.below(5)).map(|_| T::arb(r)).collect() } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = 0;
    for (n, f) in lab::ALL {
        let mut r = Rng(0x9E3779B97F4A7C15);
        let mut fails = 0;
        for _ in 0..20000 {
            if !std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r))).unwrap_or(false) { fails += 1; }
        }
        if n.starts_with("yes_") != (fails == 0) { println!("{n}: false on {fails} of 20000 inputs"); bad += 1; }
    }
    println!("{} functions, {bad} not as labelled", lab::ALL.len());
    std::process::exit((bad > 0) as i32);
}
