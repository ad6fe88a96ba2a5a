//! Items of every size that fits come back unchanged; what does not fit, in flash or buffer, is refused without harm.
use mc::caches::*;
use mc::map::MapSys;
use mc::map::VarKey;
use mc::queue::QueueSys;
use mc::report::Check;
use mc::{map, queue};
fn main() {
    let mut c = Check::new("C19", &["val", "iter", "fetch_err", "iter_err", "store_err", "remove_err", "full", "over", "push_err", "err", "fit", "small", "panic"]);
    let cap = c.pick(2_000_000, 40_000_000);
    macro_rules! m { ($r:literal $w:literal $e:literal, $k:ty, $mk:expr, $name:expr, $pages:literal, $o:expr) => {
        if c.wants(&$name) { c.run(&MapSys::<$k, _, $r, $w, $e>::new(map::Opts { name: $name.into(), pages: $pages, ..$o }, $mk), 999, cap); }
    }}
    macro_rules! q { ($r:literal $w:literal $e:literal, $mk:expr, $name:expr, $pages:literal, $o:expr) => {
        if c.wants(&$name) { c.run(&QueueSys::<_, $r, $w, $e>::new(queue::Opts { name: $name.into(), pages: $pages, iters: vec![(0, 15), (0b10, 15)], ..$o }, $mk), 999, cap); }
    }}
    let mo = || map::Opts { small_bufs: true, ..Default::default() };
    let qo = || queue::Opts { small_bufs: true, ids: 3, ..Default::default() };
    // every length on its own, together with a short item
    for l in 0..=17 {
        m!(4 4 32, u8, un, format!("map-w4-len{l}"), 2, map::Opts { vals: vec![l, 2], stores: vec![(0, 0), (1, 1)], ..mo() });
    }
    for l in 0..=40 {
        m!(1 8 64, u8, un, format!("map-w8-len{l}"), 2, map::Opts { vals: vec![l, 2], stores: vec![(0, 0), (1, 1)], small_bufs: l % 8 == 7, ..mo() });
        m!(8 1 64, u8, un, format!("map-r8-len{l}"), 2, map::Opts { vals: vec![l, 2], stores: vec![(0, 0), (1, 1)], small_bufs: l % 8 == 7, ..mo() });
        m!(1 1 32, u8, un, format!("map-w1-len{l}"), 2, map::Opts { vals: vec![l, 2], stores: vec![(0, 0), (1, 1)], small_bufs: l % 8 == 7, ..mo() });
    }
    m!(4 4 32, VarKey, un, "map-vk", 2, map::Opts { keys: vec![0, 1, 2], vals: vec![13, 14, 15], stores: vec![(0, 1), (0, 2), (1, 0), (1, 1), (2, 0), (2, 1)], ..mo() });
    m!(4 4 32, u8, arr::<u8, 2, 1>, "map-arr", 2, map::Opts { vals: vec![9, 2], ..mo() });
    m!(4 4 32, u8, calck::<u8, 3, 1>, "map-calc", 3, map::Opts { keys: vec![0], vals: vec![9, 2], ..mo() });
    m!(4 4 32, u8, un, "map-p3", 3, map::Opts { vals: vec![9, 2], stores: vec![(0, 0), (1, 1)], ..mo() });
    for l in 0..=17 {
        q!(4 4 32, un, format!("q-w4-len{l}"), 2, queue::Opts { lens: vec![l, 2], ..qo() });
    }
    for l in 0..=41 {
        q!(1 8 64, un, format!("q-w8-len{l}"), 1, queue::Opts { lens: vec![l, 2], small_bufs: l % 8 == 0, ..qo() });
        q!(8 1 64, un, format!("q-r8-len{l}"), 1, queue::Opts { lens: vec![l, 2], small_bufs: l % 8 == 0, ..qo() });
        q!(1 1 32, un, format!("q-w1-len{l}"), 1, queue::Opts { lens: vec![l, 2], small_bufs: l % 8 == 0, ..qo() });
    }
    q!(4 4 32, un, "q-p3", 3, queue::Opts { lens: vec![0, 9], ids: 5, ..qo() });
    q!(4 4 32, psp::<(), 2>, "q-psp", 2, queue::Opts { lens: vec![9, 2], ..qo() });
    q!(4 4 32, calcp::<(), 3>, "q-calc", 3, queue::Opts { lens: vec![9, 2], ..qo() });
    // 16 bit boundary on large pages
    m!(4 4 131072, u8, un, "map-64k", 2, map::Opts { vals: vec![65533, 65534, 65535, 3], keys: vec![0], small_bufs: false, pre: vec![map::Op::Store(0, 0), map::Op::Store(0, 3), map::Op::Store(0, 1)], pre_steps: 8, free: 1, ..mo() });
    q!(4 4 131072, un, "q-64k", 1, queue::Opts { lens: vec![65534, 65535, 65536], small_bufs: false, pre: vec![queue::Op::Push(0, true), queue::Op::Push(1, false), queue::Op::Pop], pre_steps: 4, free: 1, ids: 2, iters: vec![(0, 4)], ..qo() });
    c.finish()
}
