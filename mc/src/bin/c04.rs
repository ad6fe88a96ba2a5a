//! A map reclaims space; it is only full when the live data fills it, and a refused store changes nothing.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C04", &["full", "store_err", "val", "fetch_err", "panic"]);
    let c_ = &mut c;
    map_plain::<()>(c_, &same);
    map_big::<()>(c_, &same);
    map_wide::<()>(c_, &same);
    c.finish()
}
