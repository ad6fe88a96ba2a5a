//! Flash errors are returned to the caller, and a failed read does not make an iteration skip items.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C14", &["surface", "iter", "val", "err", "panic"]);
    let c_ = &mut c;
    map_fault::<()>(c_, &same, true, false);
    queue_fault::<()>(c_, &qsame, true, false);
    c.finish()
}
