//! Configurations: exactly the usable ones are accepted, and every accepted one works.
use mc::caches::*;
use mc::engine::Stats;
use mc::flash::Fl;
use mc::map::MapSys;
use mc::queue::QueueSys;
use mc::report::Check;
use mc::{map, queue};
use sequential_storage::map::{MapConfig, MapConfigError};
use sequential_storage::queue::{QueueConfig, QueueConfigError};
use mc::util::catching;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Why {
    Start,
    End,
    Range,
    Page,
    Word,
    Other,
}
/// All the reasons for which a configuration is unusable.
fn reasons(s: u32, e: u32, r: usize, w: usize, er: usize, need: u64) -> Vec<Why> {
    let word = r.max(w);
    let mut v = vec![];
    if s as usize % er != 0 {
        v.push(Why::Start);
    }
    if e as usize % er != 0 {
        v.push(Why::End);
    }
    if (e as u64) < s as u64 || (e as u64 - s as u64) < need * er as u64 {
        v.push(Why::Range);
    }
    // two page markers, an item header and one word of data
    if er < 3 * word + 8usize.div_ceil(word) * word {
        v.push(Why::Page);
    }
    if word > 32 {
        v.push(Why::Word);
    }
    v
}
fn points(er: usize) -> Vec<u32> {
    let e = er as u64;
    let top = (1u64 << 32) / e * e;
    let mut v = vec![];
    for b in [0, e, 2 * e, 3 * e, 10 * e, e / 2, 1 << 31, (1u64 << 31) / e * e, top - 3 * e, top - 2 * e, top - e, top, (1 << 32) - 1] {
        for d in -1i64..=1 {
            let x = b as i64 + d;
            if (0..1 << 32).contains(&x) {
                v.push(x as u32);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn cfgs<const R: usize, const W: usize, const E: usize>(c: &mut Check, st: &mut Stats) {
    let mut accepted = 0;
    for s in points(E) {
        for e in points(E) {
            for q in [false, true] {
                let got: Result<Result<(), Why>, _> = catching(|| {
                    if q {
                        QueueConfig::<Fl<R, W, E>>::try_new(s..e).map(|_| ()).map_err(|e| match e {
                            QueueConfigError::StartRangeNotAtPageBoundary => Why::Start,
                            QueueConfigError::EndRangeNotAtPageBoundary => Why::End,
                            QueueConfigError::RangeTooSmall => Why::Range,
                            QueueConfigError::PagesTooSmall => Why::Page,
                            QueueConfigError::WordSizeTooLarge => Why::Word,
                            #[allow(unreachable_patterns)]
                            _ => Why::Other,
                        })
                    } else {
                        MapConfig::<Fl<R, W, E>>::try_new(s..e).map(|_| ()).map_err(|e| match e {
                            MapConfigError::StartRangeNotAtPageBoundary => Why::Start,
                            MapConfigError::EndRangeNotAtPageBoundary => Why::End,
                            MapConfigError::RangeTooSmall => Why::Range,
                            MapConfigError::PagesTooSmall => Why::Page,
                            MapConfigError::WordSizeTooLarge => Why::Word,
                            #[allow(unreachable_patterns)]
                            _ => Why::Other,
                        })
                    }
                });
                let r = reasons(s, e, R, W, E, if q { 1 } else { 2 });
                st.evals += 1;
                let bad = match &got {
                    Err(_) => Some("panics".to_string()),
                    Ok(Ok(())) if r.is_empty() => {
                        accepted += 1;
                        None
                    }
                    Ok(Err(w)) if r.contains(w) => None,
                    Ok(x) => Some(format!("gives {x:?}, but the reasons to refuse it are {r:?}")),
                };
                let infallible = catching(|| if q { drop(QueueConfig::<Fl<R, W, E>>::new(s..e)) } else { drop(MapConfig::<Fl<R, W, E>>::new(s..e)) });
                let bad = bad.or(match infallible.is_ok() {
                    x if x == r.is_empty() => None,
                    true => Some(format!("is accepted by new(), although {r:?}")),
                    false => Some("makes new() panic".into()),
                });
                if let Some(b) = bad {
                    let kind = if q { "QueueConfig" } else { "MapConfig" };
                    c.fail(
                        &format!("config r{R}w{W}e{E}"),
                        &format!("[config] {kind}::try_new({s:#x}..{e:#x}) with read size {R}, write size {W}, erase size {E} {b}"),
                        &[],
                        &[],
                    );
                }
            }
        }
    }
    *st.counters.entry(format!("accepted r{R}w{W}e{E}")).or_insert(0) += accepted;
}
fn main() {
    let mut c = Check::new(
        "C23",
        &["val", "iter", "fetch_err", "iter_err", "store_err", "remove_err", "full", "over", "push_err", "err", "fit", "breach", "panic"],
    );
    let t0 = std::time::Instant::now();
    let mut st = Stats { name: "all configurations from boundary addresses".into(), closed: true, ..Default::default() };
    macro_rules! cf { ($($r:literal $w:literal $e:literal),*) => { $( cfgs::<$r, $w, $e>(&mut c, &mut st); )* } }
    if c.wants("config") {
        cf!(1 1 10, 1 1 11, 1 1 12, 2 2 12, 2 2 14, 4 4 16, 4 4 20, 4 4 24, 1 4 16, 1 4 20, 4 1 16, 4 1 20, 8 8 24, 8 8 32, 16 16 48, 16 16 64, 32 32 96, 32 32 128, 1 32 96, 1 32 128, 32 1 96, 32 1 128);
        cf!(64 64 512, 1 64 512, 64 1 512, 33 33 330, 4 4 4096, 1 8 2048, 4 4 131072, 2 16 64, 8 8 4096, 4 4 1073741824);
        st.states = st.evals;
        st.wall_s = t0.elapsed().as_secs_f64();
        c.push_stats(st);
    }
    // every smallest accepted configuration works, also after a power cut
    let cap = c.pick(2_000_000, 40_000_000);
    macro_rules! m { ($r:literal $w:literal $e:literal $len:literal) => {
        for (p, crashes, base) in [(2usize, 1u8, 0usize), (3, c.pick(0, 1), 1), (2, 0, ((1u64 << 32) / $e) as usize - 3)] {
            let name = format!("map-r{}w{}e{}p{p}b{base}", $r, $w, $e);
            if c.wants(&name) { c.run(&MapSys::<u8, _, $r, $w, $e>::new(map::Opts { name, pages: p, base_pages: base, crashes, keys: vec![0], vals: if $len == 0 { vec![0] } else { vec![0, $len] }, remove_all: true, erase_step: if $e > 64 { 8 } else { 1 }, ..Default::default() }, un), 999, cap); }
        }
    }}
    macro_rules! q { ($r:literal $w:literal $e:literal $len:literal) => {
        for (p, crashes, base) in [(1usize, 1u8, 0usize), (2, 1, 1), (3, 0, 0), (1, 0, ((1u64 << 32) / $e) as usize - 2), (2, 0, ((1u64 << 32) / $e) as usize - 3)] {
            let name = format!("q-r{}w{}e{}p{p}b{base}", $r, $w, $e);
            if c.wants(&name) { c.run(&QueueSys::<_, $r, $w, $e>::new(queue::Opts { name, pages: p, base_pages: base, crashes, ids: 3, lens: vec![0, $len], iters: vec![(0, 15), (0b10, 15)], erase_step: if $e > 64 { 8 } else { 1 }, ..Default::default() }, un), 999, cap); }
        }
    }}
    // a range across each boundary of the address space at which a narrower calculation would go wrong
    macro_rules! across { ($($r:literal $w:literal $e:literal $len:literal),*) => { $(
        for at in [8u32, 15, 16, 24, 31] {
            let base = ((1u64 << at) / $e).saturating_sub(1) as usize;
            let name = format!("map-r{}w{}e{}-across{at}", $r, $w, $e);
            if c.wants(&name) { c.run(&MapSys::<u8, _, $r, $w, $e>::new(map::Opts { name, pages: 3, base_pages: base, keys: vec![0], vals: vec![3, $len], erase_step: 8, ..Default::default() }, un), 999, cap); }
            let name = format!("q-r{}w{}e{}-across{at}", $r, $w, $e);
            if c.wants(&name) { c.run(&QueueSys::<_, $r, $w, $e>::new(queue::Opts { name, pages: 3, base_pages: base, ids: 3, lens: vec![0, $len], iters: vec![(0, 15), (0b10, 15)], erase_step: 8, ..Default::default() }, psp::<(), 3>), 999, cap); }
        }
    )* } }
    across!(4 4 32 3, 1 1 24 3, 8 8 64 20);
    {
        use map::Op::*;
        let pre = vec![Store(0, 0), Store(1, 1), Store(2, 0), Store(0, 1), Remove(1), Store(1, 0), Store(0, 0)];
        for (base, steps) in [(0usize, 60u16), (14, 60), (4094, 60), (524286, 60), (1048576 - 5, 60)] {
            let name = format!("map-e4096p4b{base}");
            if c.wants(&name) { c.run(&MapSys::<u8, _, 4, 4, 4096>::new(map::Opts { name, pages: 4, base_pages: base, keys: vec![0, 1, 2], vals: vec![1500, 700], pre: pre.clone(), pre_steps: steps, free: 1, erase_step: 64, ..Default::default() }, un), 999, cap); }
        }
    }
    {
        use queue::Op::*;
        let pre = vec![Push(0, true), Push(1, true), Push(0, true), Pop, Push(1, false), Pop, Pop];
        for (base, steps) in [(0usize, 60u16), (14, 60), (4094, 60), (524286, 60), (1048576 - 5, 60)] {
            let name = format!("q-e4096p4b{base}");
            if c.wants(&name) { c.run(&QueueSys::<_, 4, 4, 4096>::new(queue::Opts { name, pages: 4, base_pages: base, ids: 60, lens: vec![1500, 700], pre: pre.clone(), pre_steps: steps, free: 1, erase_step: 64, iters: vec![(0, 15)], ..Default::default() }, calcp::<(), 4>), 999, cap); }
        }
    }
    macro_rules! both { ($($r:literal $w:literal $e:literal $ml:literal $ql:literal),*) => { $( m!($r $w $e $ml); q!($r $w $e $ql); )* } }
    both!(1 1 11 0 1, 1 1 12 1 2, 2 2 14 1 2, 4 4 20 3 4, 4 4 24 3 7, 1 4 20 2 3, 4 1 20 3 4, 8 8 32 7 8, 8 1 32 7 8, 1 8 32 6 8, 16 16 64 15 16, 2 16 64 15 9, 32 32 128 31 32, 1 32 128 30 32, 32 1 128 31 31);
    c.finish()
}
