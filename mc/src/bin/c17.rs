//! A damaged item is treated as if it had never been stored; nothing else is affected.
use mc::caches::*;
use mc::map::MapSys;
use mc::map::VarKey;
use mc::queue::QueueSys;
use mc::report::Check;
use mc::{map, queue};
fn main() {
    let mut c = Check::new("C17", &["val", "iter", "fetch_err", "iter_err", "store_err", "remove_err", "full", "over", "push_err", "err", "fit", "panic"]);
    let cap = c.pick(4_000_000, 60_000_000);
    let d = c.pick(3, 5);
    macro_rules! m { ($r:literal $w:literal $e:literal, $k:ty, $mk:expr, $name:expr, $pages:literal, $o:expr) => {
        if c.wants(&$name) { c.run(&MapSys::<$k, _, $r, $w, $e>::new(map::Opts { name: $name.into(), pages: $pages, ..$o }, $mk), 999, cap); }
    }}
    macro_rules! q { ($r:literal $w:literal $e:literal, $mk:expr, $name:expr, $pages:literal, $o:expr) => {
        if c.wants(&$name) { c.run(&QueueSys::<_, $r, $w, $e>::new(queue::Opts { name: $name.into(), pages: $pages, iters: vec![(0, 15), (0b10, 15)], ..$o }, $mk), 999, cap); }
    }}
    let kk: Vec<u8> = c.pick(vec![0], vec![0, 1]);
    let mo = |damage: u8| map::Opts { damage, damage_len: true, ..Default::default() };
    let qo = |damage: u8| queue::Opts { damage, damage_len: true, ..Default::default() };
    m!(4 4 32, u8, un, "map-w4e32p2", 2, mo(d));
    m!(4 4 32, u8, un, "map-w4e32p3", 3, map::Opts { keys: kk.clone(), ..mo(d) });
    m!(4 4 64, u8, un, "map-w4e64p2", 2, map::Opts { vals: vec![5, 12], keys: vec![0, 1], ..mo(d - 1) });
    m!(1 1 32, u8, un, "map-w1e32p2", 2, mo(d - 1));
    m!(1 8 64, u8, un, "map-r1w8e64p2", 2, mo(d - 1));
    m!(8 1 64, u8, un, "map-r8w1e64p2", 2, mo(d - 1));
    m!(4 4 32, VarKey, un, "map-vk", 2, map::Opts { keys: vec![0, 1, 2], vals: vec![1, 3], ..mo(d - 1) });
    m!(4 4 32, u8, arr::<u8, 2, 1>, "map-arr-n2k1", 2, mo(d - 1));
    m!(4 4 32, u8, calck::<u8, 3, 1>, "map-calc-n3k1", 3, map::Opts { keys: kk.clone(), ..mo(d - 1) });
    q!(4 4 32, un, "q-w4e32p1", 1, qo(d));
    q!(4 4 32, un, "q-w4e32p2", 2, qo(d));
    q!(4 4 32, un, "q-w4e32p3", 3, qo(d));
    q!(4 4 64, un, "q-w4e64p2", 2, queue::Opts { lens: vec![12, 20], ids: 3, ..qo(d - 2) });
    q!(1 1 32, un, "q-w1e32p2", 2, qo(d));
    q!(1 8 64, un, "q-r1w8e64p2", 2, qo(d));
    q!(8 1 64, un, "q-r8w1e64p2", 2, qo(d - 1));
    q!(4 4 32, psp::<(), 3>, "q-psp-n3", 3, qo(d - 1));
    q!(4 4 32, calcp::<(), 3>, "q-calc-n3", 3, qo(d - 1));
    // every length
    for l in 0..=40 {
        q!(1 1 64, un, format!("q-len{l}"), 1, queue::Opts { lens: vec![l, 1], ids: 2, ..qo(c.pick(1, 2)) });
        m!(1 1 64, u8, un, format!("map-len{l}"), 2, map::Opts { vals: vec![l, 1], keys: vec![0], ..mo(2) });
    }
    // long items at every point of a workload
    {
        use map::Op::*;
        let pre = vec![Store(0, 0), Store(1, 1), Store(0, 1), Store(1, 0), Remove(0)];
        m!(4 4 1024, u8, un, "map-big-e1024p3", 3, map::Opts { vals: vec![300, 255], keys: vec![0, 1], pre, pre_steps: c.pick(12, 30), free: 1, ..mo(1) });
    }
    {
        use queue::Op::*;
        let pre = vec![Push(0, true), Push(1, true), Push(1, true), Pop];
        q!(4 4 1024, un, "q-big-e1024p2", 2, queue::Opts { lens: vec![300, 255], ids: 3, pre, pre_steps: c.pick(12, 30), free: 1, ..qo(1) });
    }
    c.finish()
}
