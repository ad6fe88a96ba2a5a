//! Cache transparency: with any cache every call gives the results and the flash contents of an uncached storage.
use mc::caches::*;
use mc::map::*;
use mc::queue;
use mc::report::Check;

fn mo(name: &str, n: usize) -> Opts {
    Opts { name: name.into(), pages: n, dual: true, reopen: true, erase_all: true, ..Default::default() }
}
fn qo(name: &str, n: usize) -> queue::Opts {
    queue::Opts { name: name.into(), pages: n, dual: true, reopen: true, erase_all: true, iters: vec![(0, 15), (0b10, 15), (0b101, 3)], ..Default::default() }
}
fn main() {
    let mut c = Check::new("C12", &["dual", "panic"]);
    let cap = c.pick(1_500_000, 30_000_000);
    macro_rules! m { ($r:literal $w:literal $e:literal, $k:ty, $mk:expr, $o:expr) => {
        let o: Opts = $o;
        if c.wants(&o.name) { c.run(&MapSys::<$k, _, $r, $w, $e>::new(o, $mk), 9999, cap); }
    }}
    macro_rules! q { ($r:literal $w:literal $e:literal, $mk:expr, $o:expr) => {
        let o: queue::Opts = $o;
        if c.wants(&o.name) { c.run(&queue::QueueSys::<_, $r, $w, $e>::new(o, $mk), 9999, cap); }
    }}
    m!(4 4 32, u8, arr::<u8, 2, 1>, mo("map-arr-n2k1", 2));
    m!(4 4 32, u8, arr::<u8, 2, 2>, mo("map-arr-n2k2", 2));
    m!(4 4 32, u8, arr::<u8, 3, 1>, mo("map-arr-n3k1", 3));
    m!(4 4 32, u8, heap::<u8, 3, 2>, mo("map-heap-n3k2", 3));
    m!(4 4 32, u8, ps::<u8, 3>, mo("map-ps-n3", 3));
    m!(4 4 32, u8, pp::<u8, 3>, mo("map-pp-n3", 3));
    m!(4 4 32, u8, kp::<u8, 0>, mo("map-kp0-n2", 2));
    m!(4 4 32, u8, heap::<u8, 2, 0>, mo("map-heap-n2k0", 2));
    m!(4 4 32, u8, kp::<u8, 1>, mo("map-kp1-n3", 3));
    m!(4 4 32, u8, kp::<u8, 2>, mo("map-kp2-n3", 3));
    m!(4 4 32, u8, calc::<u8, 2>, mo("map-calc-n2", 2));
    m!(4 4 32, u8, calc::<u8, 3>, mo("map-calc-n3", 3));
    m!(4 4 32, u8, calc::<u8, 4>, Opts { keys: vec![0], ..mo("map-calc-n4", 4) });
    m!(4 4 32, u8, calc::<u8, 5>, Opts { keys: vec![0], ..mo("map-calc-n5", 5) });
    q!(4 4 32, calc::<(), 1>, qo("q-calc-n1", 1));
    q!(4 4 32, calc::<(), 2>, qo("q-calc-n2", 2));
    q!(4 4 32, calc::<(), 3>, qo("q-calc-n3", 3));
    q!(4 4 32, calc::<(), 4>, qo("q-calc-n4", 4));
    q!(4 4 32, calc::<(), 5>, qo("q-calc-n5", 5));
    q!(4 4 32, psp::<(), 1>, qo("q-psp-n1", 1));
    q!(4 4 32, psp::<(), 3>, qo("q-psp-n3", 3));
    q!(4 4 32, ps::<(), 3>, qo("q-ps-n3", 3));
    q!(4 4 32, pp::<(), 3>, qo("q-pp-n3", 3));
    q!(4 4 32, heapq::<(), 4>, qo("q-heap-n4", 4));
    // other word sizes
    m!(1 1 32, u8, arr::<u8, 2, 1>, Opts { fill: 1, ..mo("map-arr-w1-n2k1", 2) });
    m!(1 8 64, u8, arr::<u8, 2, 1>, Opts { fill: 2, ..mo("map-arr-r1w8-n2k1", 2) });
    m!(8 1 64, u8, calck::<u8, 3, 1>, Opts { keys: vec![0], ..mo("map-calck-r8w1-n3k1", 3) });
    m!(4 4 32, u8, calck::<u8, 3, 1>, mo("map-calck-n3k1", 3));
    m!(4 4 32, VarKey, arr::<VarKey, 2, 2>, Opts { keys: vec![0, 1, 2], vals: vec![1, 3], ..mo("map-arr-vk", 2) });
    q!(1 1 32, psp::<(), 2>, queue::Opts { lens: vec![1, 6], ..qo("q-psp-w1-n2", 2) });
    q!(1 8 64, calcp::<(), 3>, queue::Opts { lens: vec![3, 9], ..qo("q-calcp-r1w8-n3", 3) });
    q!(8 1 64, psp::<(), 2>, queue::Opts { lens: vec![8, 30], ..qo("q-psp-r8w1-n2", 2) });
    q!(4 4 64, calcp::<(), 2>, queue::Opts { lens: vec![3, 12], ids: 5, ..qo("q-calcp-e64-n2", 2) });
    // a fresh cache on what a power cut left behind
    m!(4 4 32, u8, arr::<u8, 2, 1>, Opts { crashes: 1, erase_all: false, ..mo("map-crash1-arr-n2k1", 2) });
    m!(4 4 32, u8, calck::<u8, 3, 1>, Opts { crashes: 1, keys: vec![0], erase_all: false, ..mo("map-crash1-calck-n3k1", 3) });
    m!(4 4 32, u8, calc::<u8, 4>, Opts { crashes: 1, keys: vec![0], erase_all: false, ..mo("map-crash1-calc-n4", 4) });
    q!(4 4 32, psp::<(), 1>, queue::Opts { crashes: 1, erase_all: false, ..qo("q-crash1-psp-n1", 1) });
    q!(4 4 32, psp::<(), 3>, queue::Opts { crashes: 1, erase_all: false, ..qo("q-crash1-psp-n3", 3) });
    q!(4 4 32, calcp::<(), 3>, queue::Opts { crashes: 1, erase_all: false, ..qo("q-crash1-calcp-n3", 3) });
    q!(4 4 32, calc::<(), 4>, queue::Opts { crashes: 1, erase_all: false, ..qo("q-crash1-calc-n4", 4) });
    // many pages: every operation from every point of a long workload
    let cyc = vec![Op::Store(0, 0), Op::Store(1, 1), Op::Store(2, 2), Op::Store(0, 2), Op::Remove(1), Op::Store(0, 1), Op::Store(2, 0)];
    let (steps, free) = c.pick((150, 1), (500, 2));
    let big = |n: &str, p: usize| Opts { keys: vec![0, 1, 2], vals: vec![20, 30, 4], pre: cyc.clone(), pre_steps: steps, free, ..mo(n, p) };
    m!(4 4 64, u8, arr::<u8, 17, 2>, big("map-big-arr-n17k2", 17));
    m!(4 4 64, u8, calck::<u8, 33, 2>, big("map-big-calck-n33k2", 33));
    m!(4 4 64, u8, calc::<u8, 16>, big("map-big-calc-n16", 16));
    m!(4 4 1024, u8, arr::<u8, 3, 2>, Opts { vals: vec![300, 100, 4], ..big("map-big-e1024-arr-n3k2", 3) });
    use queue::Op::*;
    let qcyc = vec![Push(0, true), Push(1, true), Push(2, false), Pop, Push(2, true), Push(0, false), Pop, Push(1, true), Pop];
    let qdrain = vec![Push(0, false), Push(1, false), Push(2, false), Push(1, false), Pop, Pop, Push(0, false), Pop, Pop, Pop];
    let qbig = |n: &str, p: usize, pre: &Vec<queue::Op>| queue::Opts { lens: vec![20, 40, 4], ids: 200, pre: pre.clone(), pre_steps: steps, free, ..qo(n, p) };
    q!(4 4 64, psp::<(), 17>, qbig("q-big-psp-n17", 17, &qcyc));
    q!(4 4 64, calcp::<(), 33>, qbig("q-big-calcp-n33", 33, &qcyc));
    q!(4 4 64, calcp::<(), 16>, qbig("q-big-drain-calcp-n16", 16, &qdrain));
    q!(4 4 1024, psp::<(), 3>, queue::Opts { lens: vec![300, 100, 4], ..qbig("q-big-e1024-psp-n3", 3, &qcyc) });
    // more than 256 pages; an item fills a page
    m!(4 4 64, u8, arr::<u8, 300, 2>, Opts { vals: vec![40, 45, 38], pre_steps: 330, free: 1, ..big("map-big-arr-n300k2", 300) });
    q!(4 4 64, calcp::<(), 300>, queue::Opts { lens: vec![40, 44, 38], pre_steps: 500, free: 1, iters: vec![(0b10, 3)], ..qbig("q-big-calcp-n300", 300, &qcyc) });
    // addresses around 2^16 and at the end of the 32-bit space
    m!(4 4 32, u8, arr::<u8, 2, 2>, Opts { base_pages: 2047, ..mo("map-arr-at64k", 2) });
    m!(4 4 32, u8, arr::<u8, 2, 2>, Opts { base_pages: (1 << 27) - 3, ..mo("map-arr-at4g", 2) });
    q!(4 4 32, psp::<(), 2>, queue::Opts { base_pages: 2047, ..qo("q-psp-at64k", 2) });
    q!(4 4 32, psp::<(), 2>, queue::Opts { base_pages: (1 << 27) - 3, ..qo("q-psp-at4g", 2) });
    if c.thorough {
        m!(4 4 32, u8, arr::<u8, 2, 1>, Opts { crashes: 2, erase_all: false, ..mo("map-crash2-arr-n2k1", 2) });
        m!(4 4 32, u8, calck::<u8, 3, 1>, Opts { crashes: 1, erase_all: false, ..mo("map-crash1-calck-k2-n3k1", 3) });
        m!(4 4 32, u8, arr::<u8, 4, 2>, mo("map-arr-n4k2", 4));
        m!(4 4 32, u8, calck::<u8, 4, 1>, mo("map-calck-n4k1", 4));
        m!(4 4 32, u8, calck::<u8, 7, 1>, Opts { keys: vec![0], ..mo("map-calck-k1-n7k1", 7) });
        q!(4 4 32, psp::<(), 5>, queue::Opts { ids: 7, ..qo("q-psp-n5", 5) });
        q!(4 4 32, calcp::<(), 7>, queue::Opts { ids: 9, ..qo("q-calcp-n7", 7) });
        q!(4 4 32, calcp::<(), 3>, queue::Opts { crashes: 2, erase_all: false, ..qo("q-crash2-calcp-n3", 3) });
        q!(4 4 32, calc::<(), 5>, queue::Opts { crashes: 1, ids: 7, erase_all: false, ..qo("q-crash1-calc-n5", 5) });
    }
    c.finish()
}
