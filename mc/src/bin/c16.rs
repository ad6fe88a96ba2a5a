//! Pages are erased in cyclic order, only when needed.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C16", &["wear"]);
    let c_ = &mut c;
    let mw = |o: mc::map::Opts| mc::map::Opts { wear: true, ..o };
    let qw = |o: mc::queue::Opts| mc::queue::Opts { wear: true, ..o };
    map_plain::<()>(c_, &mw);
    map_big::<()>(c_, &mw);
    map_wide::<()>(c_, &mw);
    queue_plain::<()>(c_, &qw);
    queue_big::<()>(c_, &qw);
    queue_wide::<()>(c_, &qw);
    c.finish()
}
