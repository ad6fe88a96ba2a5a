//! A map can always be used again after power cuts.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C03", &["fetch_err", "store_err", "remove_err", "iter_err", "full", "panic"]);
    let c_ = &mut c;
    map_crash::<()>(c_, &same);
    map_bigcrash::<()>(c_, &same);
    c.finish()
}
