//! After failed or dropped operations the same storage with its cache keeps answering correctly.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C13", &["val", "iter", "fetch_err", "iter_err", "store_err", "remove_err", "full", "over", "push_err", "err", "fit", "panic"]);
    let c_ = &mut c;
    map_fault::<()>(c_, &same, true, true);
    queue_fault::<()>(c_, &qsame, true, true);
    c.finish()
}
