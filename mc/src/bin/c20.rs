//! The in-flash representation: what is written is in the documented format, and everything in that format is read.
use mc::caches::*;
use mc::map::{MapSys, VarKey};
use mc::queue::QueueSys;
use mc::report::Check;
use mc::worlds::*;
use mc::{map, queue};
fn main() {
    let mut c = Check::new("C20", &["format", "val", "iter", "fetch_err", "iter_err", "store_err", "remove_err", "full", "push_err", "err", "panic"]);
    let c_ = &mut c;
    let mf = |o: map::Opts| map::Opts { format: true, erase_all: true, ..o };
    let qf = |o: queue::Opts| queue::Opts { format: true, erase_all: true, ..o };
    map_plain::<()>(c_, &mf);
    map_big::<()>(c_, &mf);
    queue_plain::<()>(c_, &qf);
    queue_big::<()>(c_, &qf);
    // images written by the reference encoder, as another release could have left them, read and used on
    let d = c.pick(2, 4);
    let cap = c.pick(3_000_000, 40_000_000);
    macro_rules! m { ($r:literal $w:literal $e:literal, $k:ty, $mk:expr, $name:literal, $pages:literal, $o:expr) => {
        if c.wants($name) { c.run(&MapSys::<$k, _, $r, $w, $e>::new(map::Opts { name: $name.into(), pages: $pages, ..mf($o) }, $mk), d, cap); }
    }}
    macro_rules! q { ($r:literal $w:literal $e:literal, $mk:expr, $name:literal, $pages:literal, $o:expr) => {
        if c.wants($name) { c.run(&QueueSys::<_, $r, $w, $e>::new(queue::Opts { name: $name.into(), pages: $pages, iters: vec![(0, 15), (0b10, 15)], ..qf($o) }, $mk), d, cap); }
    }}
    let mo = |c, n| map::Opts { images: Some((c, n)), ..Default::default() };
    let qo = |c, n| queue::Opts { images: Some((c, n)), ids: 2, ..Default::default() };
    m!(4 4 32, u8, un, "img-w4e32p2", 2, mo(0, 2));
    m!(4 4 32, u8, un, "img-w4e32p3", 3, mo(1, 2));
    m!(4 4 32, u8, un, "img-k1-w4e32p4", 4, map::Opts { keys: vec![0], ..mo(2, 2) });
    m!(4 4 64, u8, un, "img-k1-w4e64p3", 3, map::Opts { keys: vec![0], vals: vec![2, 9], ..mo(1, 3) });
    m!(1 1 32, u8, un, "img-w1e32p3", 3, map::Opts { vals: vec![0, 2], ..mo(1, 2) });
    m!(1 8 64, u8, un, "img-r1w8e64p3", 3, map::Opts { vals: vec![7, 2], ..mo(1, 2) });
    m!(8 1 64, u8, un, "img-r8w1e64p3", 3, map::Opts { vals: vec![7, 2], ..mo(1, 2) });
    m!(32 32 160, u8, un, "img-w32e160p2", 2, map::Opts { vals: vec![7, 40], ..mo(0, 2) });
    m!(4 4 32, VarKey, un, "img-vk", 3, map::Opts { keys: vec![0, 1, 2], vals: vec![1, 2], ..mo(1, 2) });
    m!(4 4 32, u8, calck::<u8, 3, 1>, "img-calc", 3, map::Opts { keys: vec![0], ..mo(1, 2) });
    q!(4 4 32, un, "img-q-w4e32p1", 1, qo(0, 2));
    q!(4 4 32, un, "img-q-w4e32p2", 2, qo(1, 2));
    q!(4 4 32, un, "img-q-w4e32p3", 3, qo(2, 2));
    q!(4 4 32, un, "img-q-w4e32p4", 4, queue::Opts { ids: 1, ..qo(3, 2) });
    q!(4 4 64, un, "img-q-w4e64p2", 2, queue::Opts { lens: vec![2, 9], ids: 1, ..qo(1, 3) });
    q!(1 1 32, un, "img-q-w1e32p2", 2, queue::Opts { lens: vec![0, 5], ids: 2, ..qo(1, 2) });
    q!(1 8 64, un, "img-q-r1w8e64p3", 3, queue::Opts { lens: vec![7], ..qo(2, 2) });
    q!(8 1 64, un, "img-q-r8w1e64p2", 2, queue::Opts { lens: vec![7], ..qo(1, 2) });
    q!(32 32 160, un, "img-q-w32e160p2", 2, queue::Opts { lens: vec![1, 40], ..qo(1, 2) });
    q!(4 4 32, calcp::<(), 3>, "img-q-calc", 3, qo(2, 2));
    c.finish()
}
