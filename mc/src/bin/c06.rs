//! A queue is first in, first out.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C06", &["val", "iter", "over", "full", "push_err", "err", "panic"]);
    let c_ = &mut c;
    queue_plain::<()>(c_, &qsame);
    queue_big::<()>(c_, &qsame);
    queue_wide::<()>(c_, &qsame);
    c.finish()
}
