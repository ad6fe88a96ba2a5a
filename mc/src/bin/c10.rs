//! A queue keeps its completed pushes and pops over power cuts.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C10", &["val", "iter", "over", "push_err", "err", "panic"]);
    let c_ = &mut c;
    queue_crash::<()>(c_, &qsame);
    queue_bigcrash::<()>(c_, &qsame);
    c.finish()
}
