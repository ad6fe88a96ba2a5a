//! A queue can always be used again after power cuts.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C11", &["push_err", "err", "full", "fit", "space", "panic"]);
    let c_ = &mut c;
    queue_crash::<()>(c_, &qsame);
    queue_bigcrash::<()>(c_, &qsame);
    c.finish()
}
