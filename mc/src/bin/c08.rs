//! Pushing never discards unread items unless allowed, and then only the oldest page.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C08", &["over", "full", "push_err", "val", "iter", "err", "panic"]);
    let c_ = &mut c;
    queue_plain::<()>(c_, &qsame);
    queue_big::<()>(c_, &qsame);
    queue_wide::<()>(c_, &qsame);
    c.finish()
}
