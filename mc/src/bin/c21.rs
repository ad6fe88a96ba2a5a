//! The buffered queue: first in, first out over RAM and flash; RAM items are lost only by power cuts or as asked.
use mc::buffered::*;
use mc::caches::*;
use mc::queue;
use mc::report::Check;
fn main() {
    let mut c = Check::new("C21", &["val", "ram", "drain", "over", "full", "push_err", "err", "small", "surface", "breach", "panic"]);
    let cap = c.pick(3_000_000, 40_000_000);
    let qo = |name: &str, pages: usize| queue::Opts { name: name.into(), pages, ids: 4, ..Default::default() };
    let deep = c.thorough;
    let d = |quick: usize| if deep { 9999 } else { quick };
    macro_rules! b { ($n:literal $r:literal $w:literal $e:literal, $mk:expr, $small:expr, $q:expr) => { b!($n $r $w $e, $mk, $small, $q, 9999) }; ($n:literal $r:literal $w:literal $e:literal, $mk:expr, $small:expr, $q:expr, $d:expr) => {
        if c.wants(&$q.name) { c.run(&BufSys::<_, $n, $r, $w, $e>::new(Opts { small_bufs: $small, q: $q }, $mk), $d, cap); }
    }}
    b!(8 4 4 32, un, true, queue::Opts { lens: vec![0, 3], ..qo("n8-p1", 1) });
    b!(5 4 4 32, un, true, queue::Opts { lens: vec![1, 3], ..qo("n5-p1", 1) });
    b!(9 4 4 32, un, true, queue::Opts { lens: vec![4, 9], ids: 3, ..qo("n9-p1-long", 1) });
    b!(8 4 4 32, un, false, queue::Opts { lens: vec![2], ..qo("n8-p2", 2) });
    b!(12 1 8 64, un, false, queue::Opts { lens: vec![2], ids: 3, ..qo("n12-r1w8e64p1", 1) });
    b!(7 8 1 64, un, false, queue::Opts { lens: vec![2, 5], ids: 3, ..qo("n7-r8w1e64p1", 1) });
    b!(8 4 4 32, psp::<(), 2>, false, queue::Opts { lens: vec![2], ids: 3, ..qo("n8-psp-p2", 2) });
    b!(6 4 4 32, un, false, queue::Opts { lens: vec![1], ids: 3, crashes: 1, ..qo("crash1-n6-p1", 1) });
    b!(6 4 4 32, un, false, queue::Opts { lens: vec![2], ids: 3, crashes: 1, ..qo("crash1-n6-p2", 2) }, d(17));
    b!(6 4 4 32, un, false, queue::Opts { lens: vec![1], ids: 3, faults: 1, fine: true, ..qo("fault1-n6-p1", 1) });
    b!(6 4 4 32, psp::<(), 2>, false, queue::Opts { lens: vec![2], ids: 3, faults: 1, ..qo("fault1-n6-psp-p2", 2) }, d(16));
    // more than 255 bytes: both bytes of the length count
    b!(600 4 4 1024, un, false, queue::Opts { lens: vec![255, 256, 300], ids: 1, ..qo("n600-p1", 1) }, d(15));
    if c.thorough {
        b!(8 4 4 32, un, false, queue::Opts { lens: vec![2], ..qo("n8-p3", 3) });
        b!(12 4 4 32, un, false, queue::Opts { lens: vec![0, 3], ..qo("n12-p2", 2) });
        b!(8 4 4 32, un, false, queue::Opts { lens: vec![1], ids: 3, crashes: 2, ..qo("crash2-n8-p2", 2) });
        b!(8 4 4 32, psp::<(), 2>, false, queue::Opts { lens: vec![1], ids: 3, faults: 2, ..qo("fault2-n8-psp-p2", 2) });
        b!(8 4 4 32, calcp::<(), 3>, false, queue::Opts { lens: vec![2], ids: 3, faults: 1, ..qo("fault1-n8-calc-p3", 3) });
    }
    c.finish()
}
