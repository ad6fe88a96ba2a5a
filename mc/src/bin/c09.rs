//! The queue reports its capacity truthfully and reuses drained space.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C09", &["fit", "space", "full", "push_err", "err", "panic"]);
    let c_ = &mut c;
    queue_plain::<()>(c_, &qsame);
    queue_big::<()>(c_, &qsame);
    queue_wide::<()>(c_, &qsame);
    c.finish()
}
