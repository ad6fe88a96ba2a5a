//! A map keeps every completed write over power cuts; an interrupted write is all or nothing.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C02", &["val", "fetch_err", "iter", "iter_err", "panic"]);
    let c_ = &mut c;
    map_crash::<()>(c_, &same);
    map_bigcrash::<()>(c_, &same);
    c.finish()
}
