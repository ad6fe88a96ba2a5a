//! Reading and querying never modifies the flash.
use mc::report::Check;
use mc::worlds::*;
fn main() {
    let mut c = Check::new("C25", &["ro"]);
    let c_ = &mut c;
    map_plain::<()>(c_, &same);
    map_big::<()>(c_, &same);
    queue_plain::<()>(c_, &qsame);
    queue_big::<()>(c_, &qsame);
    c.finish()
}
