//! A map answers like a dictionary.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C01", &["val", "fetch_err", "store_err", "remove_err", "iter", "iter_err", "full", "panic"]);
    let c_ = &mut c;
    map_plain::<()>(c_, &same);
    map_big::<()>(c_, &same);
    map_wide::<()>(c_, &same);
    c.finish()
}
