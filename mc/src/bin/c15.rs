//! Every flash access stays inside the range, is aligned and nonempty, and respects NOR programming rules.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C15", &["breach", "rewrite"]);
    let c_ = &mut c;
    let mw = |o: mc::map::Opts| mc::map::Opts { hash_wc: true, erase_all: true, ..o };
    let qw = |o: mc::queue::Opts| mc::queue::Opts { hash_wc: true, erase_all: true, ..o };
    map_plain::<()>(c_, &mw);
    map_big::<()>(c_, &mw);
    map_crash::<()>(c_, &same);
    queue_plain::<()>(c_, &qw);
    queue_big::<()>(c_, &qw);
    queue_crash::<()>(c_, &qsame);
    c.finish()
}
