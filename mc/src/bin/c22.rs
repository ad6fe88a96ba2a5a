//! The shared RAM ring: every interleaving of producers and consumer is linearizable, no item or wake-up is lost.
use mc::flash::{Fault, FaultKind};
use mc::report::Check;
use mc::ring::*;
use COp::*;
use PEnq::Enq;
fn main() {
    let mut c = Check::new("C22", &["ring"]);
    let threads = mc::engine::THREADS.load(std::sync::atomic::Ordering::Relaxed);
    let cap = c.pick(4_000_000u64, 400_000_000);
    macro_rules! s { ($n:literal, $sc:expr) => {{
        let sc: Scenario = $sc;
        if c.is_replay_of(&sc.name) {
            let ch: Vec<u8> = c.replay_labels().iter().map(|l| *l as u8).collect();
            let o = execute::<$n>(&sc, &ch, &mut vec![]);
            for l in describe(&sc, &o) { println!("  {l}"); }
            println!("{:?}", verdict::<$n>(&o));
            std::process::exit(0);
        }
        if c.wants(&sc.name) {
            let (st, f) = explore::<$n>(&sc, threads, cap);
            if sc.fault.is_some() { c.stats.push(st) } else { c.push_stats(st) }
            if let Some((ch, m)) = f {
                let o = execute::<$n>(&sc, &ch, &mut vec![]);
                let again = verdict::<$n>(&o);
                assert!(again.is_err(), "harness error: the schedule does not fail again");
                c.fail(&sc.name, &m, &describe(&sc, &o), &ch.iter().map(|x| *x as _).collect::<Vec<_>>());
            }
        }
    }}}
    let sc = |name: &str, prod: &[&[PEnq]], first: &[COp], repeat: &[COp]| Scenario {
        name: name.into(),
        prod: prod.iter().map(|p| p.to_vec()).collect(),
        first: first.to_vec(),
        repeat: repeat.to_vec(),
        ..Default::default()
    };
    let (e, d) = (Enq(2, false), Enq(2, true));
    // one producer, a waiting consumer
    s!(8, sc("p1-err-waitdrain", &[&[e, e, e]], &[], &[WaitDrain(false)]));
    s!(8, sc("p1-discard-waitdrain", &[&[d, d, d]], &[], &[WaitDrain(false)]));
    s!(4, sc("p1-discard-n4-waitdrain", &[&[d, d, d, d]], &[], &[WaitDrain(false)]));
    s!(8, sc("p1-mixed-waitdrain", &[&[Enq(1, true), Enq(4, true), Enq(0, false), Enq(6, true)]], &[], &[WaitDrain(false)]));
    s!(8, sc("p1-discard-wait-pop", &[&[d, d, d]], &[], &[Wait, Pop(false)]));
    s!(8, sc("p1-discard-wait-drainone", &[&[d, d, d]], &[], &[Wait, DrainOne(false)]));
    s!(8, sc("p1-err-wait-peek-pop", &[&[e, e, e]], &[], &[Wait, Peek(false), Pop(false)]));
    s!(8, sc("p1-observe", &[&[d, PEnq::Pending, d, PEnq::Used, d, PEnq::Oldest]], &[DrainOne(false), DrainOne(false)], &[]));
    s!(8, sc("p1-observed", &[&[d, d, d]], &[Pending, DrainOne(false), Used, Oldest, DrainOne(false), Pending], &[]));
    s!(8, sc("p1-straight", &[&[d, d, d]], &[Pop(false), Peek(false), DrainAll(false), Pop(false)], &[]));
    // two producers
    s!(8, sc("p2-err-waitdrain", &[&[e, e], &[e]], &[], &[WaitDrain(false)]));
    s!(8, sc("p2-discard-waitdrain", &[&[d, d], &[d]], &[], &[WaitDrain(false)]));
    s!(4, sc("p2-discard-n4-drainone", &[&[d, d], &[d]], &[DrainOne(false), DrainOne(false)], &[]));
    s!(8, sc("p2-mixed-1x1-pop", &[&[Enq(3, true)], &[Enq(2, true)]], &[], &[Wait, Pop(false)]));
    s!(8, sc("p3-discard-drainone", &[&[d], &[d], &[d]], &[DrainOne(false), DrainOne(false)], &[]));
    s!(8, Scenario { flash_yield: true, pb: c.pick(3, 4), ..sc("p1-discard-flash-points", &[&[d, d, d]], &[DrainOne(false), Pop(false)], &[]) });
    // the buffer is too small for one of the items
    s!(8, Scenario { scratch: 3, ..sc("p1-short-buffer", &[&[Enq(1, false), Enq(4, true), Enq(2, true)]], &[DrainOne(false), DrainOne(false), DrainOne(false)], &[]) });
    // an error or cancellation at every flash operation, then the consumer goes on
    for kind in [FaultKind::Err, FaultKind::Pend] {
        macro_rules! f { ($n:literal, $step:expr, $sc:expr) => {{
            let base: Scenario = $sc;
            let mut sum = mc::engine::Stats { name: format!("{}-{kind:?}", base.name), closed: true, ..Default::default() };
            for op in (0..400).step_by($step) {
                let mut fired = 0;
                for units in [0, 3, 8] {
                    let sc = Scenario { fault: Some(Fault { op, units, kind }), name: format!("{}-{kind:?}{op}.{units}", base.name), ..base.clone() };
                    let n = c.stats.len();
                    s!($n, sc);
                    if c.stats.len() > n {
                        let st = c.stats.pop().unwrap();
                        sum.states += st.states;
                        sum.transitions += st.transitions;
                        sum.evals += st.evals;
                        sum.wall_s += st.wall_s;
                        for (k, v) in st.counters {
                            if k == "faults fired" { fired += v; }
                            *sum.counters.entry(k).or_insert(0) += v;
                        }
                    } else {
                        fired += 1;
                    }
                }
                if fired == 0 { break; }
            }
            if sum.evals > 0 { c.push_stats(sum); }
        }}}
        f!(4, 1, sc("p1-discard-n4-drainone", &[&[d, d]], &[DrainOne(false), DrainOne(false)], &[]));
        f!(8, 1, sc("p1-discard-waitdrain", &[&[d, d]], &[], &[WaitDrain(false)]));
        f!(4, 1, sc("p1-discard-n4-pop", &[&[d, d]], &[Pop(false), DrainOne(false), Pop(false)], &[]));
    }
    if c.thorough {
        s!(8, sc("p2-mixed-pop", &[&[Enq(1, false), Enq(3, true)], &[Enq(2, true)]], &[], &[Wait, Pop(false)]));
        s!(8, sc("p2-discard-2x2-waitdrain", &[&[d, d], &[d, d]], &[], &[WaitDrain(false)]));
        s!(4, sc("p2-discard-n4-2x2-drainone", &[&[d, d], &[d, d]], &[DrainOne(false), DrainOne(false)], &[]));
        s!(12, sc("p2-err-n12-2x2-waitdrain", &[&[e, e], &[e, e]], &[], &[WaitDrain(false)]));
        s!(8, sc("p3-discard-waitdrain", &[&[d], &[d], &[d]], &[], &[WaitDrain(false)]));
        s!(8, sc("p1-discard-5-waitdrain", &[&[d, d, d, d, d]], &[], &[WaitDrain(false)]));
        s!(8, sc("p2-mixed-wait-peek-pop", &[&[Enq(1, false), Enq(3, true)], &[Enq(2, true)]], &[], &[Wait, Peek(false), Pop(false)]));
    }
    c.assumptions.push("code between critical sections accesses nothing shared (the type system enforces it: the ring is only reachable through its mutexes)".into());
    c.finish()
}
