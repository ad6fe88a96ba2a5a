//! The world families shared by the checks. The functions are generic over an otherwise unused marker so that each
//! check binary instantiates (and compiles) only the families it runs.
use crate::caches::*;
use crate::map;
use crate::map::{MapSys, VarKey};
use crate::queue;
use crate::queue::QueueSys;
use crate::report::Check;

pub type MF<'a> = &'a dyn Fn(map::Opts) -> map::Opts;
pub type QF<'a> = &'a dyn Fn(queue::Opts) -> queue::Opts;
pub fn same(o: map::Opts) -> map::Opts {
    o
}
pub fn qsame(o: queue::Opts) -> queue::Opts {
    o
}
pub fn mo(name: &str, pages: usize) -> map::Opts {
    map::Opts { name: name.into(), pages, ..Default::default() }
}
pub fn qo(name: &str, pages: usize) -> queue::Opts {
    queue::Opts { name: name.into(), pages, iters: vec![(0, 15), (0b10, 15), (0b101, 3)], ..Default::default() }
}
macro_rules! m { ($c:ident $f:ident $r:literal $w:literal $e:literal, $k:ty, $mk:expr, $cap:expr, $o:expr) => {
    if $c.wants(&$o.name) { $c.run(&MapSys::<$k, _, $r, $w, $e>::new($f($o), $mk), 999, $cap); }
}}
macro_rules! q { ($c:ident $f:ident $r:literal $w:literal $e:literal, $mk:expr, $cap:expr, $o:expr) => {
    if $c.wants(&$o.name) { $c.run(&QueueSys::<_, $r, $w, $e>::new($f($o), $mk), 9999, $cap); }
}}

/// Crash-free map worlds whose whole reachable state space is closed.
pub fn map_plain<M>(c: &mut Check, f: MF) {
    let cap = c.pick(2_000_000, 40_000_000);
    m!(c f 4 4 32, u8, un, cap, mo("w4e32p2", 2));
    m!(c f 4 4 32, u8, un, cap, mo("w4e32p3", 3));
    m!(c f 4 4 32, u8, un, cap, mo("w4e32p4", 4));
    m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..mo("w4e32p5k1", 5) });
    m!(c f 1 1 32, u8, un, cap, map::Opts { keys: vec![0, 255], fill: 1, ..mo("w1e32p3-ff", 3) });
    m!(c f 4 4 64, u8, un, cap, map::Opts { keys: vec![0, 1, 2], vals: vec![0, 7, 11], ..mo("w4e64p2k3v3", 2) });
    m!(c f 1 8 64, u8, un, cap, map::Opts { fill: 1, ..mo("r1w8e64p3-ff", 3) });
    m!(c f 8 1 64, u8, un, cap, map::Opts { fill: 2, keys: vec![0, 3], ..mo("r8w1e64p3-00", 3) });
    m!(c f 32 32 256, u8, un, cap, mo("w32e256p2", 2));
    m!(c f 4 4 32, VarKey, un, cap, map::Opts { keys: vec![0, 1, 2], vals: vec![1, 3], ..mo("vk-p3", 3) });
    m!(c f 4 4 32, u8, arr::<u8, 3, 1>, cap, map::Opts { reopen: true, ..mo("arr-n3k1", 3) });
    m!(c f 4 4 32, u8, calck::<u8, 3, 1>, cap, map::Opts { reopen: true, ..mo("calc-n3k1", 3) });
    m!(c f 4 4 32, u8, arr::<u8, 3, 1>, cap, map::Opts { erase_all: true, reopen: true, ..mo("ea-arr-n3k1", 3) });
    // addresses around 2^16 and at the end of the 32-bit space
    m!(c f 4 4 32, u8, arr::<u8, 2, 2>, cap, map::Opts { base_pages: 2047, ..mo("arr-at64k", 2) });
    m!(c f 4 4 32, u8, un, cap, map::Opts { base_pages: (1 << 27) - 4, ..mo("at4g", 3) });
    if c.thorough {
        m!(c f 4 4 96, u8, un, cap, mo("w4e96p2", 2));
        m!(c f 4 4 64, u8, un, cap, mo("w4e64p3", 3));
        m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..mo("w4e32p7k1", 7) });
        m!(c f 4 4 64, VarKey, un, cap, map::Opts { keys: vec![0, 1, 2, 3], vals: vec![0, 1, 5], ..mo("vk-e64p2", 2) });
        m!(c f 4 4 128, u8, un, cap, map::Opts { keys: vec![0, 1], vals: vec![3, 40], ..mo("w4e128p2", 2) });
        m!(c f 4 4 32, u8, arr::<u8, 4, 2>, cap, map::Opts { reopen: true, ..mo("arr-n4k2", 4) });
    }
}
/// Realistic geometries: every operation sequence of length `free` from every point of a long scripted workload.
pub fn map_big<M>(c: &mut Check, f: MF) {
    use map::Op::*;
    let free = c.pick(1, 2);
    let cap = 30_000_000;
    let cyc = vec![Store(0, 0), Store(1, 1), Store(2, 2), Store(0, 2), Store(3, 0), Remove(1), Store(0, 1), Store(4, 0), Store(1, 0), Store(2, 0), Remove(3)];
    let o = |n: &str, p: usize, steps: u16| map::Opts {
        keys: vec![0, 1, 2, 254, 255],
        pre: cyc.clone(),
        pre_steps: steps,
        free,
        erase_step: 64,
        ..mo(n, p)
    };
    m!(c f 4 4 4096, u8, un, cap, map::Opts { vals: vec![400, 1000, 20], ..o("big-e4096p4", 4, c.pick(160, 400)) });
    m!(c f 1 4 4096, u8, un, cap, map::Opts { vals: vec![3000, 1000, 8], ..o("big-e4096p9", 9, c.pick(120, 400)) });
    m!(c f 4 8 2048, u8, un, cap, map::Opts { vals: vec![255, 256, 257], ..o("big-e2048p3", 3, c.pick(100, 300)) });
    m!(c f 4 4 128, u8, un, cap, map::Opts { vals: vec![20, 60, 4], ..o("big-e128p16", 16, c.pick(150, 400)) });
    m!(c f 4 4 128, u8, arr::<u8, 16, 3>, cap, map::Opts { vals: vec![20, 60, 4], ..o("big-arr-e128p16", 16, c.pick(150, 400)) });
    m!(c f 4 4 128, u8, calc::<u8, 40>, cap, map::Opts { vals: vec![20, 90, 4], ..o("big-calc-e128p40", 40, c.pick(100, 500)) });
    // keys that are written once and then stay behind on the oldest pages
    let mut deep = vec![Store(4, 0), Store(3, 1)];
    for i in 0..70 {
        deep.push(Store(i % 3, i % 2));
    }
    m!(c f 4 4 64, u8, un, cap, map::Opts { vals: vec![20, 4], pre: deep.clone(), ..o("big-deep-e64p40", 40, c.pick(150, 500)) });
    m!(c f 4 4 64, u8, ps::<u8, 24>, cap, map::Opts { vals: vec![20, 4], pre: deep.clone(), ..o("big-deep-ps-e64p24", 24, c.pick(150, 500)) });
    // several consecutive pages full of live items: one store has to move all of them
    for (nm, n, len) in [("2pp", 10, 12), ("3pp", 8, 4)] {
        let mut pre: Vec<map::Op> = (0..11).map(|k| Store(k, 0)).collect();
        for i in 0..60 {
            pre.push(Store(11, i % 2));
        }
        m!(c f 4 4 64, u8, un, cap, map::Opts { keys: (0..12).collect(), vals: vec![len, len], remove: false, remove_all: false, stores: [(0..11).map(|k| (k, 0)).collect::<Vec<_>>(), vec![(11, 0), (11, 1)]].concat(), pre: pre.clone(), ..o(&format!("big-static-{nm}-e64p{n}"), n, c.pick(150, 400)) });
    }
    m!(c f 4 32 131072, u8, un, cap, map::Opts { keys: vec![0, 1], pre: vec![Store(0, 0), Store(1, 1), Store(0, 2), Remove(1)], free: 1, vals: vec![40000, 65000, 65530], ..o("big-e128kp3", 3, c.pick(9, 24)) });
}
/// More than 256 pages; an item fills a page.
pub fn map_wide<M>(c: &mut Check, f: MF) {
    use map::Op::*;
    let cap = 30_000_000;
    // keys that are written once and then stay behind on the oldest pages
    let mut pre = vec![Store(4, 0), Store(3, 1)];
    for i in 0..70 {
        pre.push(Store(i % 3, i % 2));
    }
    let o = |n: &str, p: usize, steps: u16| map::Opts { keys: vec![0, 1, 2, 254, 255], vals: vec![40, 20], pre: pre.clone(), pre_steps: steps, free: 1, erase_step: 64, ..mo(n, p) };
    m!(c f 4 4 64, u8, un, cap, o("big-e64p300", 300, c.pick(330, 900)));
    m!(c f 4 4 64, u8, arr::<u8, 300, 2>, cap, o("big-arr-e64p300", 300, c.pick(330, 900)));
}
/// Map worlds with power cuts.
pub fn map_crash<M>(c: &mut Check, f: MF) {
    let cap = c.pick(4_000_000, 40_000_000);
    let cr = |n: u8, o: map::Opts| map::Opts { crashes: n, ..o };
    m!(c f 4 4 32, u8, un, cap, cr(2, mo("crash2-e32p2", 2)));
    m!(c f 4 4 32, u8, un, cap, cr(1, mo("crash1-e32p3", 3)));
    m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..cr(3, mo("k1crash3-e32p2", 2)) });
    m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..cr(2, mo("k1crash2-e32p3", 3)) });
    m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..cr(1, mo("k1crash1-e32p4", 4)) });
    m!(c f 1 1 32, u8, un, cap, map::Opts { fill: 1, ..cr(1, mo("crash1-w1e32p2-ff", 2)) });
    m!(c f 1 8 64, u8, un, cap, map::Opts { fill: 2, ..cr(1, mo("crash1-r1w8e64p2-00", 2)) });
    m!(c f 8 1 64, u8, un, cap, cr(1, mo("crash1-r8w1e64p2", 2)));
    m!(c f 4 4 64, u8, un, cap, map::Opts { erase_step: 4, stores: vec![(0, 0), (0, 1), (1, 0)], ..cr(1, mo("crash1-e64p2", 2)) });
    m!(c f 4 4 32, u8, un, cap, map::Opts { stores: vec![(0, 0), (1, 1)], remove: false, remove_all: false, ..cr(1, mo("nrcrash1-e32p4", 4)) });
    m!(c f 4 4 32, VarKey, un, cap, map::Opts { keys: vec![0, 1, 2], vals: vec![1, 3], stores: vec![(0, 0), (1, 0), (1, 1), (2, 1)], ..cr(1, mo("vkcrash1-p2", 2)) });
    m!(c f 4 4 32, u8, arr::<u8, 2, 1>, cap, cr(1, mo("arrcrash1-e32p2", 2)));
    let ea = |o: map::Opts| map::Opts { erase_all: true, ..o };
    m!(c f 4 4 32, u8, un, cap, ea(cr(1, mo("eacrash1-e32p2", 2))));
    m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..ea(cr(2, mo("k1eacrash2-e32p2", 2))) });
    m!(c f 4 4 32, u8, un, cap, ea(cr(1, mo("eacrash1-e32p3", 3))));
    m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..ea(cr(1, mo("k1eacrash1-e32p4", 4))) });
    m!(c f 1 8 64, u8, un, cap, map::Opts { keys: vec![0], remove_all: false, ..ea(cr(1, mo("k1eacrash1-r1w8e64p3", 3))) });
    if c.thorough {
        m!(c f 4 4 32, u8, un, cap, ea(cr(2, mo("eacrash2-e32p2", 2))));
        m!(c f 4 4 32, u8, un, cap, ea(cr(2, mo("eacrash2-e32p3", 3))));
        m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..ea(cr(2, mo("k1eacrash2-e32p4", 4))) });
        m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..cr(4, mo("k1crash4-e32p2", 2)) });
        m!(c f 4 4 32, u8, un, cap, cr(3, mo("crash3-e32p2", 2)));
        m!(c f 4 4 32, u8, un, cap, map::Opts { keys: vec![0], ..cr(1, mo("k1crash1-e32p5", 5)) });
        m!(c f 4 4 32, u8, un, cap, map::Opts { remove: false, remove_all: false, ..cr(1, mo("nr4crash1-e32p4", 4)) });
        m!(c f 4 4 32, u8, un, cap, map::Opts { remove: false, remove_all: false, ..cr(2, mo("nrcrash2-e32p3", 3)) });
        m!(c f 4 4 32, u8, un, cap, cr(2, mo("crash2-e32p3", 3)));
        m!(c f 32 32 256, u8, un, cap, map::Opts { erase_step: 8, ..cr(1, mo("crash1-w32e256p2", 2)) });
        m!(c f 4 4 32, u8, calck::<u8, 3, 1>, cap, cr(1, mo("calccrash1-e32p3", 3)));
    }
}
/// Power cuts at every byte of one operation, at every point of a long scripted workload.
pub fn map_bigcrash<M>(c: &mut Check, f: MF) {
    use map::Op::*;
    let cyc = vec![Store(0, 0), Store(1, 1), Store(0, 1), Store(2, 0), Remove(1), Store(1, 0), Store(0, 0)];
    let o = |n: &str, p: usize, steps: u16| map::Opts { keys: vec![0, 1, 2], pre: cyc.clone(), pre_steps: steps, crashes: 1, free: 2, erase_step: 32, stores: vec![(0, 0), (0, 1), (1, 0), (1, 1), (2, 0)], ..mo(n, p) };
    let cap = c.pick(4_000_000, 40_000_000);
    m!(c f 4 4 128, u8, un, cap, map::Opts { vals: vec![5, 20], ..o("bigcrash-e128p4", 4, c.pick(60, 200)) });
    m!(c f 4 8 256, u8, un, cap, map::Opts { vals: vec![60, 20], ..o("bigcrash-e256p3", 3, c.pick(40, 200)) });
    m!(c f 4 4 64, u8, un, cap, map::Opts { vals: vec![5, 20], ..o("bigcrash-e64p9", 9, c.pick(60, 300)) });
}
/// Map worlds in which flash operations fail or futures are dropped and the storage stays in use.
pub fn map_fault<M>(c: &mut Check, f: MF, err: bool, pend: bool) {
    let cap = c.pick(4_000_000, 40_000_000);
    for (nm, e, p) in [("err", true, false), ("pend", false, true)] {
        if (e && !err) || (p && !pend) {
            continue;
        }
        let fa = |n: u8, s: &str, pg: usize| map::Opts { name: format!("{nm}{n}-{s}"), pages: pg, faults: n, fault_err: e, fault_pend: p, fine: true, ..Default::default() };
        m!(c f 4 4 32, u8, un, cap, fa(1, "un-p2", 2));
        m!(c f 4 4 32, u8, arr::<u8, 2, 2>, cap, fa(1, "arr-n2k2", 2));
        m!(c f 4 4 32, u8, arr::<u8, 2, 1>, cap, map::Opts { fine: false, keys: vec![0], ..fa(2, "k1arr-n2k1", 2) });
        m!(c f 4 4 32, u8, calcp::<u8, 2>, cap, fa(1, "calc-n2", 2));
        m!(c f 4 4 32, u8, calck::<u8, 3, 1>, cap, map::Opts { keys: vec![0], fine: false, ..fa(1, "k1calc-n3k1", 3) });
        m!(c f 4 4 32, u8, arr::<u8, 3, 1>, cap, map::Opts { keys: vec![0], fine: false, ..fa(1, "k1arr-n3k1", 3) });
        m!(c f 4 4 32, u8, kp::<u8, 2>, cap, map::Opts { fine: false, remove_all: false, ..fa(1, "kp-n2", 2) });
        m!(c f 1 8 64, u8, heap::<u8, 2, 1>, cap, map::Opts { fine: false, ..fa(1, "heap-r1w8", 2) });
        m!(c f 4 4 32, u8, arr::<u8, 3, 1>, cap, map::Opts { fine: false, keys: vec![0], erase_all: true, ..fa(1, "k1ea-arr-n3k1", 3) });
        m!(c f 4 4 32, u8, ps::<u8, 2>, cap, map::Opts { fine: false, crashes: 1, keys: vec![0], ..fa(1, "k1crash1-ps-n2", 2) });
        if c.thorough {
            m!(c f 4 4 32, u8, ps::<u8, 2>, cap, map::Opts { fine: false, crashes: 1, ..fa(1, "crash1-ps-n2", 2) });
            m!(c f 4 4 32, u8, arr::<u8, 2, 1>, cap, map::Opts { fine: false, ..fa(2, "arr-n2k1", 2) });
            m!(c f 4 4 32, u8, arr::<u8, 3, 1>, cap, map::Opts { keys: vec![0], fine: false, ..fa(2, "k1arr-n3k1", 3) });
            m!(c f 4 4 32, u8, arr::<u8, 3, 1>, cap, map::Opts { fine: false, ..fa(1, "arr-n3k1", 3) });
            m!(c f 4 4 32, u8, calck::<u8, 3, 1>, cap, map::Opts { fine: false, ..fa(1, "calc-n3k1", 3) });
            m!(c f 4 4 32, u8, arr::<u8, 2, 1>, cap, map::Opts { fine: false, ..fa(3, "arr-n2k1", 2) });
            m!(c f 4 4 32, u8, calck::<u8, 4, 1>, cap, map::Opts { keys: vec![0], fine: false, ..fa(1, "k1calc-n4k1", 4) });
            m!(c f 4 4 32, u8, arr::<u8, 2, 1>, cap, map::Opts { fine: false, crashes: 1, ..fa(1, "crash1-arr-n2k1", 2) });
        }
    }
}

/// Crash-free queue worlds whose whole reachable state space is closed.
pub fn queue_plain<M>(c: &mut Check, f: QF) {
    let cap = c.pick(2_000_000, 40_000_000);
    for n in 1..=5 {
        q!(c f 4 4 32, un, cap, queue::Opts { ids: n as u8 + 2, ..qo(&format!("q-w4e32p{n}"), n) });
    }
    for n in 1..=c.pick(2, 4) {
        q!(c f 4 4 64, un, cap, queue::Opts { ids: 7, lens: vec![3, 12], ..qo(&format!("q-w4e64p{n}v2"), n) });
    }
    for n in 1..=3 {
        q!(c f 1 1 32, un, cap, queue::Opts { lens: vec![1, 6], fill: 1, ..qo(&format!("q-w1e32p{n}-ff"), n) });
        q!(c f 1 8 64, un, cap, queue::Opts { fill: 2, lens: vec![3, 9], ..qo(&format!("q-r1w8e64p{n}-00"), n) });
        q!(c f 8 1 64, un, cap, queue::Opts { lens: vec![8, 30], ..qo(&format!("q-r8w1e64p{n}"), n) });
        q!(c f 32 32 256, un, cap, queue::Opts { lens: vec![31, 64], ..qo(&format!("q-w32e256p{n}"), n) });
    }
    for n in 1..=3 {
        q!(c f 4 4 64, un, cap, queue::Opts { lens: vec![48, 1, 20], ids: 5, ..qo(&format!("q-w4e64p{n}-max"), n) });
    }
    q!(c f 4 4 32, psp::<(), 3>, cap, queue::Opts { reopen: true, ..qo("q-arr-n3", 3) });
    q!(c f 4 4 64, calcp::<(), 3>, cap, queue::Opts { reopen: true, ..qo("q-calc-n3", 3) });
    q!(c f 4 4 32, psp::<(), 1>, cap, queue::Opts { reopen: true, ..qo("q-arr-n1", 1) });
    q!(c f 4 4 32, psp::<(), 3>, cap, queue::Opts { erase_all: true, ..qo("q-ea-arr-n3", 3) });
    if c.thorough {
        for n in 1..=4 {
            q!(c f 4 4 128, un, cap, queue::Opts { ids: 17, lens: vec![3, 12], ..qo(&format!("q-w4e128p{n}v2"), n) });
        }
        q!(c f 4 4 32, un, cap, queue::Opts { ids: 12, ..qo("q-w4e32p8", 8) });
    }
}
pub fn queue_big<M>(c: &mut Check, f: QF) {
    use queue::Op::*;
    let free = c.pick(1, 2);
    let cap = 30_000_000;
    let p = |l| Push(l, true);
    let k = |l| Push(l, false);
    let cyc = vec![p(0), p(1), k(2), p(0), Pop, p(2), k(0), p(1), Pop, p(1), p(0), p(2), Pop];
    let drain = vec![k(0), k(1), k(2), k(1), Pop, Pop, k(0), Pop, Pop, Pop, Pop];
    let o = |n: &str, pg: usize, steps: u16| queue::Opts { pre: cyc.clone(), pre_steps: steps, free, erase_step: 64, ids: 200, iters: vec![(0, 255), (0b10, 3), (0xFFFF, 255)], ..qo(n, pg) };
    q!(c f 4 4 4096, un, cap, queue::Opts { lens: vec![400, 1000, 20], ..o("qbig-e4096p4", 4, c.pick(120, 400)) });
    q!(c f 4 4 4096, un, cap, queue::Opts { lens: vec![3000, 1000, 8], pre: drain.clone(), ..o("qbig-drain-e4096p3", 3, c.pick(120, 400)) });
    q!(c f 4 8 2048, un, cap, queue::Opts { lens: vec![255, 256, 257], ..o("qbig-e2048p1", 1, c.pick(100, 300)) });
    q!(c f 4 4 128, un, cap, queue::Opts { lens: vec![20, 60, 4], ..o("qbig-e128p16", 16, c.pick(150, 500)) });
    q!(c f 4 4 128, psp::<(), 16>, cap, queue::Opts { lens: vec![20, 60, 4], pre: drain.clone(), ..o("qbig-arr-e128p16", 16, c.pick(150, 500)) });
    q!(c f 4 4 64, calcp::<(), 40>, cap, queue::Opts { lens: vec![20, 40, 4], ..o("qbig-calc-e64p40", 40, c.pick(120, 600)) });
    q!(c f 4 32 131072, un, cap, queue::Opts { lens: vec![40000, 65000, 65535], free: 1, ..o("qbig-e128kp2", 2, c.pick(12, 40)) });
}
/// More than 256 pages; an item fills a page.
pub fn queue_wide<M>(c: &mut Check, f: QF) {
    use queue::Op::*;
    let cap = 30_000_000;
    let pre = vec![Push(0, true), Push(1, true), Push(2, false), Push(0, true), Pop, Push(2, true), Push(0, false), Push(1, true), Pop, Push(1, true), Push(0, true), Push(2, true), Pop];
    let o = |n: &str, pg: usize, steps: u16| queue::Opts { lens: vec![40, 20, 4], pre: pre.clone(), pre_steps: steps, free: 1, erase_step: 64, ids: 200, iters: vec![(0, 255), (0b10, 3)], ..qo(n, pg) };
    q!(c f 4 4 64, un, cap, o("qbig-e64p300", 300, c.pick(600, 1200)));
    q!(c f 4 4 64, psp::<(), 300>, cap, o("qbig-arr-e64p300", 300, c.pick(600, 1200)));
}
pub fn queue_crash<M>(c: &mut Check, f: QF) {
    let cap = c.pick(4_000_000, 40_000_000);
    let cr = |n: u8, o: queue::Opts| queue::Opts { crashes: n, ..o };
    q!(c f 4 4 32, un, cap, cr(3, qo("qcrash3-p1", 1)));
    q!(c f 4 4 32, un, cap, cr(2, qo("qcrash2-p2", 2)));
    q!(c f 4 4 32, un, cap, cr(1, qo("qcrash1-p3", 3)));
    q!(c f 4 4 32, un, cap, cr(1, qo("qcrash1-p4", 4)));
    q!(c f 4 4 64, un, cap, queue::Opts { ids: 7, lens: vec![3, 12], ..cr(1, qo("qcrash1-e64p1", 1)) });
    q!(c f 4 4 64, un, cap, queue::Opts { ids: 7, lens: vec![12], ..cr(1, qo("qcrash1-e64p2", 2)) });
    q!(c f 1 1 32, un, cap, queue::Opts { lens: vec![1, 6], fill: 1, ..cr(1, qo("qcrash1-w1e32p2-ff", 2)) });
    q!(c f 1 8 64, un, cap, queue::Opts { lens: vec![3], fill: 2, ..cr(1, qo("qcrash1-r1w8e64p2-00", 2)) });
    q!(c f 8 1 64, un, cap, queue::Opts { lens: vec![9], ..cr(1, qo("qcrash1-r8w1e64p3", 3)) });
    q!(c f 4 4 32, psp::<(), 2>, cap, cr(1, qo("qcrash1-arr-n2", 2)));
    q!(c f 4 4 32, calcp::<(), 3>, cap, cr(1, qo("qcrash1-calc-n3", 3)));
    let ea = |n: u8, o: queue::Opts| queue::Opts { erase_all: true, crashes: n, ..o };
    q!(c f 4 4 32, un, cap, ea(2, qo("qeacrash2-p1", 1)));
    q!(c f 4 4 32, un, cap, ea(1, qo("qeacrash1-p2", 2)));
    q!(c f 4 4 32, un, cap, ea(1, qo("qeacrash1-p3", 3)));
    q!(c f 1 8 64, un, cap, queue::Opts { lens: vec![3], ..ea(1, qo("qeacrash1-r1w8e64p2", 2)) });
    if c.thorough {
        q!(c f 4 4 32, un, cap, ea(2, qo("qeacrash2-p2", 2)));
        q!(c f 4 4 32, un, cap, ea(1, qo("qeacrash1-p4", 4)));
        q!(c f 4 4 32, un, cap, ea(2, qo("qeacrash2-p3", 3)));
        q!(c f 4 4 32, un, cap, cr(4, qo("qcrash4-p1", 1)));
        q!(c f 4 4 32, un, cap, cr(2, qo("qcrash2-p3", 3)));
        q!(c f 4 4 32, un, cap, cr(3, qo("qcrash3-p2", 2)));
        q!(c f 4 4 32, un, cap, cr(3, qo("qcrash3-p3", 3)));
        q!(c f 4 4 32, un, cap, cr(2, qo("qcrash2-p4", 4)));
        q!(c f 4 4 32, un, cap, queue::Opts { ids: 9, ..cr(1, qo("qcrash1-p7", 7)) });
        q!(c f 4 4 64, un, cap, queue::Opts { ids: 7, lens: vec![3, 12], ..cr(1, qo("qcrash1-e64p3v2", 3)) });
        q!(c f 32 32 256, un, cap, queue::Opts { lens: vec![31, 64], erase_step: 8, ..cr(1, qo("qcrash1-w32e256p2", 2)) });
    }
}
pub fn queue_bigcrash<M>(c: &mut Check, f: QF) {
    use queue::Op::*;
    let cyc = vec![Push(0, true), Push(1, true), Pop, Push(1, false), Push(0, true), Pop, Push(1, true)];
    let o = |n: &str, p: usize, steps: u16| queue::Opts { pre: cyc.clone(), pre_steps: steps, crashes: 1, free: 2, erase_step: 32, ids: 60, lens: vec![20, 7], ..qo(n, p) };
    let cap = c.pick(4_000_000, 40_000_000);
    q!(c f 4 4 128, un, cap, o("qbigcrash-e128p4", 4, c.pick(60, 200)));
    q!(c f 4 8 256, un, cap, o("qbigcrash-e256p3", 3, c.pick(60, 200)));
    q!(c f 4 4 64, un, cap, o("qbigcrash-e64p9", 9, c.pick(60, 300)));
}
pub fn queue_fault<M>(c: &mut Check, f: QF, err: bool, pend: bool) {
    let cap = c.pick(4_000_000, 40_000_000);
    for (nm, e, p) in [("err", true, false), ("pend", false, true)] {
        if (e && !err) || (p && !pend) {
            continue;
        }
        let fa = |n: u8, s: &str, pg: usize| queue::Opts { faults: n, fault_err: e, fault_pend: p, fine: true, ..qo(&format!("q{nm}{n}-{s}"), pg) };
        q!(c f 4 4 32, un, cap, fa(2, "un-p1", 1));
        q!(c f 4 4 32, un, cap, fa(1, "un-p3", 3));
        q!(c f 4 4 32, psp::<(), 1>, cap, fa(2, "arr-n1", 1));
        q!(c f 4 4 32, psp::<(), 2>, cap, queue::Opts { fine: false, ..fa(1, "arr-n2", 2) });
        q!(c f 4 4 32, psp::<(), 3>, cap, fa(1, "arr-n3", 3));
        q!(c f 4 4 32, calcp::<(), 3>, cap, fa(1, "calc-n3", 3));
        q!(c f 4 4 32, calc::<(), 4>, cap, queue::Opts { fine: false, ..fa(1, "calc-n4", 4) });
        q!(c f 4 4 32, pp::<(), 2>, cap, fa(1, "pp-n2", 2));
        q!(c f 4 4 32, psp::<(), 3>, cap, queue::Opts { fine: false, erase_all: true, ids: 4, iters: vec![(0, 15)], ..fa(1, "ea-arr-n3", 3) });
        q!(c f 1 8 64, heapq::<(), 2>, cap, queue::Opts { fine: false, lens: vec![3, 9], ..fa(1, "heap-r1w8", 2) });
        q!(c f 4 4 32, ps::<(), 2>, cap, queue::Opts { fine: false, crashes: 1, ids: 3, iters: vec![(0, 15)], ..fa(1, "crash1-ps-n2", 2) });
        if c.thorough {
            q!(c f 4 4 32, ps::<(), 2>, cap, queue::Opts { fine: false, crashes: 1, ..fa(1, "crash1-ps-n2-it", 2) });
            q!(c f 4 4 32, psp::<(), 2>, cap, queue::Opts { fine: false, ..fa(2, "arr-n2", 2) });
            q!(c f 4 4 32, psp::<(), 2>, cap, queue::Opts { fine: false, ..fa(3, "arr-n2", 2) });
            q!(c f 4 4 32, psp::<(), 4>, cap, fa(1, "arr-n4", 4));
            q!(c f 4 4 32, calcp::<(), 5>, cap, queue::Opts { fine: false, ids: 9, ..fa(1, "calc-n5", 5) });
            q!(c f 4 4 32, psp::<(), 2>, cap, queue::Opts { fine: false, crashes: 1, ..fa(2, "crash1-arr-n2", 2) });
        }
    }
}
