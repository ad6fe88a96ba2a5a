//! The shared RAM ring under a controlled scheduler: stateless exploration of all interleavings of the real code.
//!
//! The producers and the consumer run as coroutines. The harness supplies the `critical-section` implementation the
//! library is linked with; entering a critical section is a scheduling point. Code between critical sections touches
//! nothing that is shared, so the interleavings of critical sections are all the behaviours there are (a scenario with
//! scheduling points at every flash access as well does not rely on this). A waiting consumer is runnable again once its
//! waker was called.
//!
//! Every execution is checked for being linearizable: there must be an order of the effects of all calls, each between
//! the call and its return, in which a sequential ring plus queue gives all the results.
use crate::caches::*;
use crate::engine::{tick, Stats};
use crate::flash::*;
use crate::util::*;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use sequential_storage::queue::buffered::{OverflowPolicy, SharedRamRing};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::future::Future;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// What a coroutine waits for.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pause {
    Go,
    /// until the waker is called
    Blocked,
}
/// Returned by a pause; `true`: give up, nothing will happen any more.
type Y = Yielder<bool, Pause>;
thread_local! {
    static CUR: Cell<*const Y> = const { Cell::new(std::ptr::null()) };
    static IN_CS: Cell<u32> = const { Cell::new(0) };
    /// critical sections entered so far by the running call
    static TOUCH: Cell<u32> = const { Cell::new(0) };
    static STEP: Cell<u32> = const { Cell::new(0) };
    static START: Cell<u32> = const { Cell::new(0) };
    /// the flash call that never completes was made
    pub static FIRED: Cell<bool> = const { Cell::new(false) };
    static FLASH_YIELD: Cell<bool> = const { Cell::new(false) };
}
fn pause(p: Pause) -> bool {
    let c = CUR.with(|c| c.get());
    if c.is_null() {
        return false;
    }
    let (t, s) = (TOUCH.with(|t| t.get()), START.with(|s| s.get()));
    let r = unsafe { &*c }.suspend(p);
    CUR.with(|x| x.set(c));
    TOUCH.with(|x| x.set(t));
    START.with(|x| x.set(s));
    r
}
/// Called by the simulated flash.
pub fn flash_access() -> Option<String> {
    if IN_CS.with(|c| c.get()) > 0 {
        return Some("the flash is accessed inside a critical section".into());
    }
    if FLASH_YIELD.with(|f| f.get()) {
        pause(Pause::Go);
    }
    None
}
struct Cs;
critical_section::set_impl!(Cs);
unsafe impl critical_section::Impl for Cs {
    unsafe fn acquire() -> u32 {
        let d = IN_CS.with(|c| c.get());
        if d == 0 {
            pause(Pause::Go);
            TOUCH.with(|t| {
                if t.get() == 0 {
                    START.with(|s| s.set(STEP.with(|s| s.get())));
                }
                t.set(t.get() + 1);
            });
        }
        IN_CS.with(|c| c.set(d + 1));
        d
    }
    unsafe fn release(d: u32) {
        IN_CS.with(|c| c.set(d));
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum COp {
    Wait,
    WaitDrain(bool),
    DrainOne(bool),
    DrainAll(bool),
    Pop(bool),
    Peek(bool),
    Pending,
    Used,
    Oldest,
    /// not a call: nothing is runnable any more and the consumer waits; `true`: and then the ring has to be empty
    Stuck(bool),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum PEnq {
    Enq(usize, bool),
    Pending,
    Used,
    Oldest,
}
#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    /// per producer: its calls
    pub prod: Vec<Vec<PEnq>>,
    pub first: Vec<COp>,
    /// repeated for ever; contains a waiting call
    pub repeat: Vec<COp>,
    pub fault: Option<Fault>,
    pub pages: usize,
    pub scratch: usize,
    pub flash_yield: bool,
    /// preemption bound
    pub pb: u32,
}
impl Default for Scenario {
    fn default() -> Self {
        Scenario { name: String::new(), prod: vec![], first: vec![], repeat: vec![], fault: None, pages: 4, scratch: 16, flash_yield: false, pb: 99 }
    }
}
type Item = (u8, u8); // id, length
fn bytes(it: Item) -> Vec<u8> {
    (0..it.1).map(|i| if i == 0 { it.0 } else { it.0 ^ (0x11 * i) }).collect()
}

/// One call as it happened: who, what, result, first and last step.
#[derive(Clone, Debug)]
pub struct Ev {
    call: Call,
    res: Res,
    s: u32,
    e: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Call {
    Enq(Item, bool),
    C(COp),
}

type R4 = Fl<4, 4, 64>;
type Storage = QueueStorage<R4, Un<()>>;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed);
    }
}

pub struct Outcome {
    /// per thread (consumer last)
    evs: Vec<Vec<Ev>>,
    /// per choice point: enabled threads, chosen index, previously running thread
    points: Vec<(Vec<u8>, u8)>,
    bad: Option<String>,
    steps: u32,
    fired: bool,
}

/// Runs the scenario with the given first choices, then always continues the running thread.
pub fn execute<const N: usize>(sc: &Scenario, choices: &[u8], stacks: &mut Vec<DefaultStack>) -> Outcome {
    tick();
    let ring: Rc<SharedRamRing<N>> = Rc::new(SharedRamRing::new());
    let np = sc.prod.len();
    let evs: Rc<RefCell<Vec<Vec<Ev>>>> = Rc::new(RefCell::new(vec![vec![]; np + 1]));
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let store: Rc<RefCell<Option<Storage>>> = Rc::new(RefCell::new(None));
    let panicked: Rc<RefCell<Option<String>>> = Rc::new(RefCell::new(None));
    STEP.with(|s| s.set(0));
    FLASH_YIELD.with(|s| s.set(sc.flash_yield));
    IN_CS.with(|c| c.set(0));
    FIRED.with(|c| c.set(false));
    let mut cos: Vec<Coroutine<bool, Pause, (), DefaultStack>> = vec![];
    let stack = |stacks: &mut Vec<DefaultStack>| stacks.pop().unwrap_or_else(|| DefaultStack::new(128 << 10).unwrap());
    // begin/end of a call
    fn begin() {
        TOUCH.with(|t| t.set(0));
    }
    fn end() -> (u32, u32) {
        let now = STEP.with(|s| s.get());
        (if TOUCH.with(|t| t.get()) == 0 { now } else { START.with(|s| s.get()) }, now)
    }
    for (p, script) in sc.prod.iter().enumerate() {
        let (ring, evs, script, panicked) = (ring.clone(), evs.clone(), script.clone(), panicked.clone());
        cos.push(Coroutine::with_stack(stack(stacks), move |y: &Y, _| {
            CUR.with(|c| c.set(y as *const Y));
            let r = catching(|| {
                for (i, c) in script.iter().enumerate() {
                    begin();
                    let it = (1 + (p * 16 + i) as u8, if let PEnq::Enq(l, _) = c { *l as u8 } else { 0 });
                    let (call, res) = match *c {
                        PEnq::Enq(_, over) => {
                            let pol = if over { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err };
                            (Call::Enq(it, over), Res::Bool(ring.enqueue(&bytes(it), pol).is_ok()))
                        }
                        PEnq::Pending => (Call::C(COp::Pending), Res::Num(ring.ram_pending_count() as u32)),
                        PEnq::Used => (Call::C(COp::Used), Res::Num((N - ring.ram_free_bytes()) as u32)),
                        PEnq::Oldest => (Call::C(COp::Oldest), Res::OptNum(ring.oldest_ram_item_len().map(|x| x as u32))),
                    };
                    let (s, e) = end();
                    evs.borrow_mut()[p].push(Ev { call, res, s, e });
                }
            });
            if let Err(e) = r {
                *panicked.borrow_mut() = Some(e);
            }
            CUR.with(|c| c.set(std::ptr::null()));
        }));
    }
    {
        let (ring, evs, sc2, panicked, flag, store) = (ring.clone(), evs.clone(), sc.clone(), panicked.clone(), flag.clone(), store.clone());
        cos.push(Coroutine::with_stack(stack(stacks), move |y: &Y, _| {
            CUR.with(|c| c.set(y as *const Y));
            let sc = &sc2;
            let mut fl = R4::new(sc.pages, 1);
            fl.mon.fault = sc.fault;
            let range = fl.range();
            let mut st: Storage = QueueStorage::new(fl, QueueConfig::new(range), un());
            let st_ref = &mut st;
            let r = catching(move || {
                let waker: Waker = flag.clone().into();
                let mut buf = ABuf::new(sc.scratch, 0xC3);
                let mut script: VecDeque<COp> = sc.first.iter().copied().collect();
                let mut looping = false;
                let mut ending = 0;
                loop {
                    let op = match script.pop_front() {
                        Some(op) => op,
                        None if ending == 0 && !sc.repeat.is_empty() => {
                            looping = true;
                            script.extend(sc.repeat.iter());
                            continue;
                        }
                        None if ending == 0 => {
                            ending = 1;
                            // wait for the producers to finish
                            while !pause(Pause::Blocked) {}
                            script.push_back(COp::DrainAll(false));
                            continue;
                        }
                        None => COp::Pop(false),
                    };
                    begin();
                    let b = buf.get();
                    let st = &mut *st_ref;
                    let rg = &*ring;
                    let mut fut: std::pin::Pin<Box<dyn Future<Output = Result<Res, sequential_storage::Error<FlErr>>> + '_>> = match op {
                        COp::Wait => Box::pin(async {
                            rg.wait().await;
                            Ok(Res::Unit)
                        }),
                        COp::WaitDrain(o) => Box::pin(async move { rg.wait_and_drain_all(st, b, o).await.map(|_| Res::Unit) }),
                        COp::DrainOne(o) => Box::pin(async move { rg.drain_one(st, b, o).await.map(Res::Bool) }),
                        COp::DrainAll(o) => Box::pin(async move { rg.drain_all(st, b, o).await.map(|_| Res::Unit) }),
                        COp::Pop(o) => Box::pin(async move { rg.pop(st, b, o).await.map(|v| Res::Val(v.map(|x| x.to_vec()))) }),
                        COp::Peek(o) => Box::pin(async move { rg.peek(st, b, o).await.map(|v| Res::Val(v.map(|x| x.to_vec()))) }),
                        COp::Pending => Box::pin(async move { Ok(Res::Num(rg.ram_pending_count() as u32)) }),
                        COp::Used => Box::pin(async move { Ok(Res::Num((N - rg.ram_free_bytes()) as u32)) }),
                        COp::Oldest => Box::pin(async move { Ok(Res::OptNum(rg.oldest_ram_item_len().map(|x| x as u32))) }),
                        COp::Stuck(_) => unreachable!(),
                    };
                    let mut stuck = false;
                    let res = loop {
                        let mut cx = Context::from_waker(&waker);
                        match fut.as_mut().poll(&mut cx) {
                            Poll::Ready(Ok(r)) => break r,
                            Poll::Ready(Err(e)) => break Res::Err(er(e)),
                            Poll::Pending => {
                                // is it the flash or the signal it waits for?
                                if FIRED.with(|f| f.replace(false)) {
                                    break Res::Cancelled;
                                }
                                if pause(Pause::Blocked) {
                                    stuck = true;
                                    break Res::Cancelled;
                                }
                                flag.0.store(false, Relaxed);
                            }
                        }
                    };
                    drop(fut);
                    let (s, e) = end();
                    if stuck {
                        let now = STEP.with(|s| s.get());
                        evs.borrow_mut()[np].push(Ev { call: Call::C(COp::Stuck(looping)), res: Res::Unit, s: now, e: now });
                        script.clear();
                        ending = 1;
                        script.push_back(COp::DrainAll(false));
                        continue;
                    }
                    evs.borrow_mut()[np].push(Ev { call: Call::C(op), res: res.clone(), s, e });
                    if ending > 0 {
                        ending += 1;
                        if res == Res::Val(None) || ending > 64 {
                            break;
                        }
                    } else if looping && matches!(res, Res::Err(_) | Res::Cancelled) {
                        // the user tries again
                        script.clear();
                        script.push_back(COp::DrainAll(false));
                    } else if looping && matches!(op, COp::Pop(_)) && res != Res::Val(None) {
                        script.push_front(op);
                    } else if looping && matches!(op, COp::DrainOne(_)) && res == Res::Bool(true) {
                        script.push_front(op);
                    }
                }
            });
            if let Err(e) = r {
                *panicked.borrow_mut() = Some(e);
            }
            *store.borrow_mut() = Some(st);
            CUR.with(|c| c.set(std::ptr::null()));
        }));
    }
    // the scheduler
    let n = np + 1;
    let mut state = vec![Pause::Go; n];
    let mut done = vec![false; n];
    let mut points: Vec<(Vec<u8>, u8)> = vec![];
    let mut last = u8::MAX;
    let mut bad = None;
    let mut over = false;
    let mut steps = 0;
    while !done.iter().all(|d| *d) {
        let mut en: Vec<u8> = (0..n as u8)
            .filter(|i| !done[*i as usize] && (state[*i as usize] == Pause::Go || over || (flag.0.load(Relaxed)) && *i as usize == np))
            .collect();
        if en.is_empty() {
            over = true;
            continue;
        }
        // the running thread first
        if let Some(p) = en.iter().position(|x| *x == last) {
            en[..=p].rotate_right(1);
        }
        let pick = if en.len() == 1 || over {
            en[0]
        } else {
            let c = choices.get(points.len()).copied().unwrap_or(0);
            let t = en[c as usize % en.len()];
            let c = c % en.len() as u8;
            let voluntary = en[0] != last;
            points.push((en.clone(), c | if voluntary { 0x80 } else { 0 }));
            t
        };
        steps += 1;
        STEP.with(|s| s.set(steps));
        if steps > 3000 {
            bad = Some("the calls do not come to an end".into());
            break;
        }
        last = pick;
        match cos[pick as usize].resume(over && state[pick as usize] == Pause::Blocked) {
            CoroutineResult::Yield(p) => state[pick as usize] = p,
            CoroutineResult::Return(()) => done[pick as usize] = true,
        }
        if let Some(p) = panicked.borrow_mut().take() {
            bad = Some(format!("a call panicked: {p}"));
            break;
        }
    }
    CUR.with(|c| c.set(std::ptr::null()));
    IN_CS.with(|c| c.set(0));
    for mut c in cos {
        if !c.done() {
            if c.started() {
                let _ = catching(|| c.force_unwind());
            } else {
                c.force_unwind();
            }
        }
        if c.done() {
            stacks.push(c.into_stack());
        }
    }
    let mut fired = false;
    if let Some(st) = store.borrow_mut().take() {
        let (fl, _) = st.destroy();
        let m = &fl.mon;
        fired = m.fired;
        if let (None, Some(b)) = (&bad, &m.breach) {
            bad = Some(b.clone());
        }
    }
    let evs = evs.borrow().clone();
    Outcome { evs, points, bad, steps, fired }
}

/// The sequential ring with a queue behind it.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Spec {
    next: Vec<u8>,
    phase: Vec<u8>,
    ring: Vec<Item>,
    /// the oldest ring item is on its way to flash
    flight: bool,
    flash: Vec<Item>,
    signal: bool,
}
fn used(r: &[Item]) -> usize {
    r.iter().map(|i| 2 + i.1 as usize).sum()
}
/// Is there a sequential explanation? Returns the number of sequential states tried.
pub fn explain<const N: usize>(evs: &[Vec<Ev>]) -> Result<u64, u64> {
    let n = evs.len();
    let init = Spec { next: vec![0; n], phase: vec![0; n], ring: vec![], flight: false, flash: vec![], signal: false };
    let mut seen: HashSet<Spec> = HashSet::new();
    let mut todo = vec![init];
    let mut tried = 0;
    while let Some(st) = todo.pop() {
        tried += 1;
        if (0..n).all(|t| st.next[t] as usize == evs[t].len()) {
            return Ok(tried);
        }
        let mut succ: Vec<(u32, Spec)> = vec![];
        for t in 0..n {
            let Some(ev) = evs[t].get(st.next[t] as usize) else { continue };
            // everything that returned before this call has to be complete
            if (0..n).any(|u| u != t && evs[u].get(st.next[u] as usize).is_some_and(|o| o.e < ev.s)) {
                continue;
            }
            let mut out = vec![];
            step::<N>(&st, t, ev, &mut out);
            succ.extend(out.into_iter().map(|s| (ev.s, s)));
        }
        succ.sort_by_key(|s| std::cmp::Reverse(s.0));
        for (_, s) in succ {
            if seen.insert(s.clone()) {
                todo.push(s);
            }
        }
    }
    Err(tried)
}
fn step<const N: usize>(st: &Spec, t: usize, ev: &Ev, out: &mut Vec<Spec>) {
    let go = |out: &mut Vec<Spec>, ph: u8, f: &dyn Fn(&mut Spec)| {
        let mut s = st.clone();
        s.phase[t] = ph;
        f(&mut s);
        out.push(s);
    };
    let fin = |out: &mut Vec<Spec>, f: &dyn Fn(&mut Spec)| {
        let mut s = st.clone();
        s.phase[t] = 0;
        s.next[t] += 1;
        f(&mut s);
        out.push(s);
    };
    let ph = st.phase[t];
    match ev.call {
        Call::Enq(it, over) => match ph {
            0 => {
                let size = 2 + it.1 as usize;
                let fits = if over { size <= N } else { used(&st.ring) + size <= N };
                if Res::Bool(fits) != ev.res {
                    return;
                }
                if !fits {
                    return fin(out, &|_| ());
                }
                go(out, 1, &|s| {
                    while used(&s.ring) + size > N {
                        s.ring.remove(0);
                        s.flight = false;
                    }
                    s.ring.push(it);
                });
            }
            _ => fin(out, &|s| s.signal = true),
        },
        Call::C(op) => {
            let cut = matches!(ev.res, Res::Cancelled | Res::Err(_));
            // beginning and end of moving one item to flash
            let begin = |out: &mut Vec<Spec>, next: u8, flash: bool| {
                if !st.ring.is_empty() {
                    go(out, next, &|s| {
                        s.flight = true;
                        if flash {
                            let it = s.ring[0];
                            s.flash.push(it);
                        }
                    });
                }
            };
            let endmove = |s: &mut Spec| {
                if s.flight {
                    s.ring.remove(0);
                    s.flight = false;
                }
            };
            // phases: 0 start, 1 draining (nothing on its way), 2 item on its way, 3 drained, 4 cut with an item on its way
            match op {
                COp::Pending => {
                    if ev.res == Res::Num(st.ring.len() as u32) {
                        fin(out, &|_| ())
                    }
                }
                COp::Used => {
                    if ev.res == Res::Num(used(&st.ring) as u32) {
                        fin(out, &|_| ())
                    }
                }
                COp::Oldest => {
                    if ev.res == Res::OptNum(st.ring.first().map(|i| i.1 as u32)) {
                        fin(out, &|_| ())
                    }
                }
                COp::Stuck(empty) => {
                    if !st.signal && (!empty || st.ring.is_empty()) {
                        fin(out, &|_| ())
                    }
                }
                COp::Wait => {
                    if st.signal {
                        fin(out, &|s| s.signal = false)
                    }
                }
                COp::DrainOne(_) => match ph {
                    0 if cut => {
                        // a disturbed call: the item may be in flash or not, it stays in RAM
                        begin(out, 4, false);
                        begin(out, 4, true);
                    }
                    0 if ev.res == Res::Bool(false) => {
                        if st.ring.is_empty() {
                            fin(out, &|_| ())
                        }
                    }
                    0 => begin(out, 2, true),
                    2 => fin(out, &endmove),
                    _ => fin(out, &|s| s.flight = false),
                },
                COp::WaitDrain(_) | COp::DrainAll(_) | COp::Pop(_) | COp::Peek(_) => match ph {
                    0 => match op {
                        COp::WaitDrain(_) => {
                            if st.signal {
                                go(out, 1, &|s| s.signal = false)
                            }
                        }
                        _ => go(out, 1, &|_| ()),
                    },
                    1 => {
                        if st.ring.is_empty() {
                            go(out, 3, &|_| ());
                        }
                        begin(out, 2, true);
                        if cut {
                            begin(out, 4, false);
                            begin(out, 4, true);
                        }
                    }
                    2 => go(out, 1, &endmove),
                    3 => match op {
                        COp::Pop(_) if cut => {
                            fin(out, &|_| ());
                            if !st.flash.is_empty() {
                                fin(out, &|s| drop(s.flash.remove(0)));
                            }
                        }
                        COp::Pop(_) | COp::Peek(_) => {
                            if ev.res == Res::Val(st.flash.first().map(|i| bytes(*i))) {
                                fin(out, &|s| {
                                    if matches!(op, COp::Pop(_)) && !s.flash.is_empty() {
                                        s.flash.remove(0);
                                    }
                                })
                            } else if cut {
                                fin(out, &|_| ())
                            }
                        }
                        _ => fin(out, &|_| ()),
                    },
                    _ => fin(out, &|s| s.flight = false),
                },
            }
        }
    }
}

pub fn describe(sc: &Scenario, o: &Outcome) -> Vec<String> {
    let mut v: Vec<(u32, u32, String)> = vec![];
    for (t, l) in o.evs.iter().enumerate() {
        let who = if t == sc.prod.len() { "consumer".to_string() } else { format!("producer {t}") };
        for e in l {
            v.push((e.s, e.e, format!("{who}: {:?} -> {:?} (steps {}..{})", e.call, e.res, e.s, e.e)));
        }
    }
    v.sort();
    v.into_iter().map(|x| x.2).collect()
}
pub fn verdict<const N: usize>(o: &Outcome) -> Result<u64, String> {
    if let Some(b) = &o.bad {
        return Err(b.clone());
    }
    explain::<N>(&o.evs).map_err(|n| format!("no order of the calls explains the results ({n} sequential states tried)"))
}

/// All schedules with at most `pb` preemptions.
pub fn explore<const N: usize>(sc: &Scenario, threads: usize, cap: u64) -> (Stats, Option<(Vec<u8>, String)>) {
    let t0 = std::time::Instant::now();
    let total = AtomicU64::new(0);
    let steps = AtomicU64::new(0);
    let states = AtomicU64::new(0);
    let fired = AtomicU64::new(0);
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<(Vec<u8>, String)>> = Mutex::new(None);
    // prefixes still to be explored; a worker takes one and puts back the alternatives at the highest points
    let queue: Mutex<(Vec<Vec<u8>>, usize)> = Mutex::new((vec![vec![]], 0));
    std::thread::scope(|s| {
        for w in 0..threads {
            let (queue, found, total, steps, states, fired, capped) = (&queue, &found, &total, &steps, &states, &fired, &capped);
            s.spawn(move || {
                crate::engine::WORKER.with(|c| c.set(w));
                let mut stacks = vec![];
                let mut local: Vec<Vec<u8>> = vec![];
                loop {
                    let job = local.pop().or_else(|| {
                        let mut q = queue.lock().unwrap();
                        let j = q.0.pop();
                        if j.is_some() {
                            q.1 += 1;
                        }
                        j
                    });
                    let Some(pre) = job else {
                        let q = queue.lock().unwrap();
                        if q.0.is_empty() && q.1 == 0 || found.lock().unwrap().is_some() {
                            break;
                        }
                        drop(q);
                        std::thread::sleep(std::time::Duration::from_micros(200));
                        continue;
                    };
                    let o = execute::<N>(sc, &pre, &mut stacks);
                    total.fetch_add(1, Relaxed);
                    steps.fetch_add(o.steps as u64, Relaxed);
                    fired.fetch_add(o.fired as u64, Relaxed);
                    match verdict::<N>(&o) {
                        Ok(n) => {
                            states.fetch_add(n, Relaxed);
                        }
                        Err(m) => {
                            let ch: Vec<u8> = o.points.iter().map(|p| p.1 & 0x7F).collect();
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((ch, m));
                            }
                        }
                    }
                    // alternatives after the prefix
                    let used = o.points[..pre.len().min(o.points.len())].iter().filter(|p| p.1 & 0x80 == 0 && p.1 & 0x7F != 0).count() as u32;
                    let mut new = vec![];
                    for i in pre.len()..o.points.len() {
                        let (en, c) = &o.points[i];
                        let voluntary = c & 0x80 != 0;
                        debug_assert_eq!(c & 0x7F, 0);
                        if voluntary || used < sc.pb {
                            for a in 1..en.len() as u8 {
                                let mut p: Vec<u8> = o.points[..i].iter().map(|p| p.1 & 0x7F).collect();
                                p.push(a);
                                new.push(p);
                            }
                        }
                    }
                    if total.load(Relaxed) > cap {
                        capped.store(true, Relaxed);
                        new.clear();
                        local.clear();
                        queue.lock().unwrap().0.clear();
                    }
                    let give = {
                        let q = queue.lock().unwrap();
                        q.0.len() < 64
                    };
                    if give {
                        let mut q = queue.lock().unwrap();
                        // the shortest prefixes have the largest subtrees
                        let k = new.len().min(8);
                        q.0.extend(new.drain(..k));
                        if local.len() > 32 {
                            let k = local.len() / 2;
                            q.0.extend(local.drain(..k));
                        }
                    }
                    local.extend(new);
                    if local.is_empty() {
                        queue.lock().unwrap().1 -= 1;
                    }
                    if found.lock().unwrap().is_some() {
                        break;
                    }
                }
                crate::engine::idle();
            });
        }
    });
    let mut st = Stats { name: sc.name.clone(), ..Default::default() };
    st.states = states.into_inner();
    st.transitions = steps.into_inner();
    st.evals = total.into_inner();
    st.closed = !capped.load(Relaxed) && sc.pb >= 99;
    st.capped = capped.load(Relaxed).then(|| format!("schedule cap {cap}"));
    st.counters.insert("schedules".into(), st.evals);
    st.counters.insert("faults fired".into(), fired.into_inner());
    st.wall_s = t0.elapsed().as_secs_f64();
    let f = found.into_inner().unwrap();
    (st, f)
}
