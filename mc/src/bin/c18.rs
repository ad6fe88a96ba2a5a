//! One bit read wrong once is not noticed by the user.
use mc::caches::*;
use mc::map::MapSys;
use mc::map::VarKey;
use mc::queue::QueueSys;
use mc::report::Check;
use mc::{map, queue};
fn main() {
    let mut c = Check::new("C18", &["flip", "panic"]);
    let cap = c.pick(2_000_000, 40_000_000);
    macro_rules! m { ($r:literal $w:literal $e:literal, $k:ty, $mk:expr, $name:literal, $pages:literal, $o:expr) => {
        if c.wants($name) { c.run(&MapSys::<$k, _, $r, $w, $e>::new(map::Opts { name: $name.into(), pages: $pages, flips: true, ..$o }, $mk), 999, cap); }
    }}
    macro_rules! q { ($r:literal $w:literal $e:literal, $mk:expr, $name:literal, $pages:literal, $o:expr) => {
        if c.wants($name) { c.run(&QueueSys::<_, $r, $w, $e>::new(queue::Opts { name: $name.into(), pages: $pages, flips: true, iters: vec![(0, 15), (0b10, 15)], ..$o }, $mk), 999, cap); }
    }}
    let mo = map::Opts::default;
    let qo = queue::Opts::default;
    m!(4 4 32, u8, un, "map-w4e32p2", 2, mo());
    m!(4 4 32, u8, un, "map-w4e32p3", 3, map::Opts { keys: vec![0], ..mo() });
    m!(4 4 64, u8, un, "map-w4e64p2", 2, map::Opts { stores: vec![(0, 0), (0, 1), (1, 0)], vals: vec![3, 12], ..mo() });
    m!(1 1 32, u8, un, "map-w1e32p2", 2, mo());
    m!(1 8 64, u8, un, "map-r1w8e64p2", 2, map::Opts { keys: vec![0], ..mo() });
    m!(8 1 64, u8, un, "map-r8w1e64p2", 2, map::Opts { keys: vec![0], ..mo() });
    m!(4 4 32, VarKey, un, "map-vk", 2, map::Opts { keys: vec![0, 1, 2], vals: vec![1, 3], ..mo() });
    m!(4 4 32, u8, arr::<u8, 2, 1>, "map-arr-n2k1", 2, mo());
    m!(4 4 32, u8, calck::<u8, 3, 1>, "map-calc-n3k1", 3, map::Opts { keys: vec![0], ..mo() });
    q!(4 4 32, un, "q-w4e32p1", 1, qo());
    q!(4 4 32, un, "q-w4e32p2", 2, qo());
    q!(4 4 32, un, "q-w4e32p3", 3, qo());
    q!(4 4 64, un, "q-w4e64p2", 2, queue::Opts { lens: vec![12, 20], ids: 4, ..qo() });
    q!(1 1 32, un, "q-w1e32p2", 2, qo());
    q!(1 8 64, un, "q-r1w8e64p2", 2, qo());
    q!(8 1 64, un, "q-r8w1e64p2", 2, queue::Opts { lens: vec![12], ids: 4, ..qo() });
    q!(4 4 32, psp::<(), 3>, "q-psp-n3", 3, qo());
    q!(4 4 32, calcp::<(), 3>, "q-calc-n3", 3, qo());
    c.finish()
}
