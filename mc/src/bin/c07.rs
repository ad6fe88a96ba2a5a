//! Queue iteration shows the items oldest first and removes exactly the popped ones.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C07", &["iter", "val", "err", "panic"]);
    let c_ = &mut c;
    let f = |o: mc::queue::Opts| mc::queue::Opts { queries: false, iters: vec![(0, 15), (1, 15), (0b10, 15), (0b100, 15), (0b11, 2), (0b101, 3), (0xFFFF, 15), (0, 2)], ..o };
    queue_plain::<()>(c_, &f);
    queue_big::<()>(c_, &f);
    c.finish()
}
