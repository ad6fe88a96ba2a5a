//! Iterating a map ends with the current value of exactly the keys that have one.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C05", &["iter", "iter_err", "panic"]);
    let c_ = &mut c;
    map_plain::<()>(c_, &same);
    map_big::<()>(c_, &same);
    map_crash::<()>(c_, &same);
    map_bigcrash::<()>(c_, &same);
    c.finish()
}
