//! Explicit-state, level-synchronous, parallel breadth-first exploration.
//!
//! The transition function of a `System` runs the real library code. States are de-duplicated on a
//! 128-bit hash of everything that influences their future. Every generated state is expanded (or, on the
//! last level, only probed), so a run that ends with an empty frontier has explored the whole bounded space.
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

/// 128-bit non-cryptographic hash.
#[derive(Clone)]
pub struct H128 {
    a: u64,
    b: u64,
}
impl Default for H128 {
    fn default() -> Self {
        H128 { a: 0x243F_6A88_85A3_08D3, b: 0x1319_8A2E_0370_7344 }
    }
}
#[inline]
fn fold(x: u64, y: u64) -> u64 {
    let m = (x as u128).wrapping_mul(y as u128);
    (m as u64) ^ ((m >> 64) as u64)
}
impl H128 {
    #[inline]
    fn add(&mut self, v: u64) {
        self.a = fold(self.a ^ v, 0x9E37_79B9_7F4A_7C15).wrapping_add(self.a.rotate_left(23));
        self.b = fold(self.b.rotate_left(17) ^ v ^ 0xA076_1D64_78BD_642F, 0xE703_7ED1_A0B4_28DB).wrapping_add(v);
    }
    pub fn get(&self) -> u128 {
        let x = fold(self.a ^ 0x8EBC_6AF0_9C88_C6E3, self.b | 1);
        let y = fold(self.b ^ 0x589965CC75374CC3, self.a | 1);
        ((x as u128) << 64) | (y ^ self.a) as u128
    }
}
impl Hasher for H128 {
    fn finish(&self) -> u64 {
        self.get() as u64
    }
    fn write(&mut self, mut d: &[u8]) {
        self.add(d.len() as u64 ^ 0x5555);
        while d.len() >= 8 {
            self.add(u64::from_le_bytes(d[..8].try_into().unwrap()));
            d = &d[8..];
        }
        if !d.is_empty() {
            let mut t = [0u8; 8];
            t[..d.len()].copy_from_slice(d);
            self.add(u64::from_le_bytes(t));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64 | 0x100)
    }
    fn write_u16(&mut self, i: u16) {
        self.add(i as u64 | 0x10000)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
}
pub fn h128<T: Hash + ?Sized>(t: &T) -> u128 {
    let mut h = H128::default();
    t.hash(&mut h);
    h.get()
}
#[derive(Default, Clone)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u128(&mut self, i: u128) {
        self.0 = (i as u64) ^ ((i >> 64) as u64).rotate_left(32)
    }
}
type KeySet = HashSet<u128, BuildHasherDefault<Ident>>;

pub type Label = u64;
/// Stands for the expansion as a whole, see `expand`.
const L_EXPAND: Label = u64::MAX;
/// Expand a state. A panic that comes from the code under test outside a call that the system guards itself (an
/// accessor, a constructor) is a violation of the state.
fn expand<S: System>(sys: &S, st: &S::St, last: bool, sink: &mut Sink<S::St>) {
    if let Err(p) = crate::util::catching(|| sys.expand(st, last, sink)) {
        if !p.contains("/repo/src/") {
            panic!("harness panicked: {p}");
        }
        sink.viol(L_EXPAND, "panic", format!("panicked: {p}"));
    }
}
fn describe<S: System>(sys: &S, l: Label) -> String {
    if l == L_EXPAND {
        return "a further call".into();
    }
    sys.describe(l)
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub msg: String,
}

pub struct Sink<St> {
    pub edges: Vec<(Label, St)>,
    pub viols: Vec<(Label, Viol)>,
    pub transitions: u64,
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub last_label: Label,
    /// the kinds of violation the check is about
    pub cats: &'static [&'static str],
}
impl<St> Sink<St> {
    pub fn new(cats: &'static [&'static str]) -> Self {
        Sink { cats, edges: vec![], viols: vec![], transitions: 0, evals: 0, counters: BTreeMap::new(), last_label: 0 }
    }
    pub fn edge(&mut self, l: Label, st: St) {
        self.transitions += 1;
        self.edges.push((l, st));
    }
    /// A violation of something that is merely observed and does not keep the oracle from going on.
    /// Returns whether it is one the check is about; if not, its consequences are of interest.
    pub fn observe(&mut self, l: Label, prop: &'static str, msg: impl Into<String>) -> bool {
        self.viol(l, prop, msg);
        self.cats.contains(&prop)
    }
    pub fn viol(&mut self, l: Label, prop: &'static str, msg: impl Into<String>) {
        self.viols.push((l, Viol { prop, msg: msg.into() }));
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
}

pub trait System: Sync {
    type St: Clone + Send + Sync;
    fn name(&self) -> String;
    fn inits(&self) -> Vec<Self::St>;
    fn key(&self, st: &Self::St) -> u128;
    /// Run every operation (and fault) from `st` on the real code. With `last` set, successors are not kept
    /// but all checks still run.
    fn expand(&self, st: &Self::St, last: bool, sink: &mut Sink<Self::St>);
    fn describe(&self, l: Label) -> String;
    fn show(&self, _st: &Self::St) -> String {
        String::new()
    }
}

#[derive(Clone, Copy)]
pub struct Bounds {
    pub depth: usize,
    pub max_states: usize,
    pub wall_s: f64,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub evals: u64,
    pub depth: usize,
    pub closed: bool,
    pub capped: Option<String>,
    pub foreign: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub wall_s: f64,
    pub replayed: u64,
    pub sample: Vec<String>,
}

pub struct Found {
    pub world: String,
    pub prop: &'static str,
    pub msg: String,
    pub trace: Vec<String>,
    pub labels: Vec<Label>,
}

pub static THREADS: AtomicUsize = AtomicUsize::new(8);

/// Watchdog information: what each worker is executing right now.
pub struct Slot {
    pub since: AtomicU64,
    pub node: AtomicU64,
}
pub static SLOTS: [Slot; 64] = [const { Slot { since: AtomicU64::new(0), node: AtomicU64::new(0) } }; 64];
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
thread_local! { pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(63) }; }
/// Called before every API call into the code under test.
#[inline]
pub fn tick() {
    WORKER.with(|w| SLOTS[w.get()].since.store(now_ms(), Relaxed));
}
pub fn idle() {
    WORKER.with(|w| SLOTS[w.get()].since.store(0, Relaxed));
}
/// Turns a call that never returns (and makes no flash access) into a verdict.
pub fn start_watchdog(prop: &'static str, limit_ms: u64) {
    now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        for (i, s) in SLOTS.iter().enumerate() {
            let t = s.since.load(Relaxed);
            if t != 0 && now.saturating_sub(t) > limit_ms {
                let path = crate::report::write_replay(
                    prop,
                    "watchdog",
                    &format!("an API call did not return within {limit_ms} ms (worker {i}, state node {})", s.node.load(Relaxed)),
                    &[],
                    &[],
                );
                println!("VIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
        }
    });
}

/// Explore; only violations in one of `cats` stop the run. Others prune the branch and are counted.
pub fn explore<S: System>(sys: &S, cats: &'static [&'static str], b: Bounds) -> (Stats, Option<Found>) {
    let t0 = Instant::now();
    let mut stats = Stats { name: sys.name(), ..Default::default() };
    const SHARDS: usize = 256;
    let seen: Vec<Mutex<KeySet>> = (0..SHARDS).map(|_| Mutex::new(KeySet::default())).collect();
    let shard = |k: u128| (k >> 120) as usize % SHARDS;
    let mut parents: Vec<(u32, Label)> = vec![];
    let mut frontier: Vec<(u32, S::St)> = vec![];
    for (i, st) in sys.inits().into_iter().enumerate() {
        let k = sys.key(&st);
        if seen[shard(k)].lock().unwrap().insert(k) {
            parents.push((u32::MAX, i as Label));
            frontier.push((parents.len() as u32 - 1, st));
        }
    }
    stats.states = frontier.len() as u64;
    let nthreads = THREADS.load(Relaxed).max(1);
    let stop = AtomicBool::new(false);
    let mut depth = 0;
    let mut found: Option<(u32, Label, Viol)> = None;
    loop {
        if frontier.is_empty() {
            stats.closed = true;
            break;
        }
        let mut last = depth >= b.depth;
        if !last && stats.states as usize >= b.max_states {
            stats.capped = Some(format!("state cap {} reached at depth {depth}", b.max_states));
            last = true;
        }
        if !last && t0.elapsed().as_secs_f64() > b.wall_s {
            stats.capped = Some(format!("wall cap {} s reached at depth {depth}", b.wall_s));
            last = true;
        }
        let next_i = AtomicUsize::new(0);
        let chunk = (frontier.len() / (nthreads * 8)).clamp(1, 256);
        let fr = &frontier;
        type Out<St> = (Vec<(u32, Label, St)>, Vec<(u32, Label, Viol)>, u64, u64, BTreeMap<&'static str, u64>);
        let outs: Vec<Out<S::St>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nthreads)
                .map(|w| {
                    let (next_i, stop, seen) = (&next_i, &stop, &seen);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            WORKER.with(|c| c.set(w));
                            let mut news = vec![];
                            let mut viols = vec![];
                            let (mut tr, mut ev) = (0, 0);
                            let mut cnt: BTreeMap<&'static str, u64> = BTreeMap::new();
                            'o: loop {
                                let s = next_i.fetch_add(chunk, Relaxed);
                                if s >= fr.len() {
                                    break;
                                }
                                for (id, st) in &fr[s..(s + chunk).min(fr.len())] {
                                    if stop.load(Relaxed) {
                                        break 'o;
                                    }
                                    SLOTS[w].node.store(*id as u64, Relaxed);
                                    let mut sink = Sink::new(cats);
                                    expand(sys, st, last, &mut sink);
                                    idle();
                                    tr += sink.transitions;
                                    ev += sink.evals;
                                    for (k, v) in sink.counters {
                                        *cnt.entry(k).or_insert(0) += v;
                                    }
                                    for (l, v) in sink.viols {
                                        if cats.contains(&v.prop) {
                                            stop.store(true, Relaxed);
                                        }
                                        viols.push((*id, l, v));
                                    }
                                    if !last {
                                        for (l, n) in sink.edges {
                                            let k = sys.key(&n);
                                            if seen[shard(k)].lock().unwrap().insert(k) {
                                                news.push((*id, l, n));
                                            }
                                        }
                                    }
                                }
                            }
                            idle();
                            (news, viols, tr, ev, cnt)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("engine worker died")).collect()
        });
        let mut next = vec![];
        for (news, viols, tr, ev, cnt) in outs {
            stats.transitions += tr;
            stats.evals += ev;
            for (k, v) in cnt {
                *stats.counters.entry(k.to_string()).or_insert(0) += v;
            }
            for (id, l, v) in viols {
                if cats.contains(&v.prop) {
                    if found.as_ref().is_none_or(|f| (id, l) < (f.0, f.1)) {
                        found = Some((id, l, v));
                    }
                } else {
                    *stats.foreign.entry(v.prop.to_string()).or_insert(0) += 1;
                    if std::env::var("MC_FOREIGN").is_ok() {
                        let (tr, _) = trace(sys, &parents, id, l);
                        eprintln!("FOREIGN {} {}: {}\n  {}", sys.name(), v.prop, v.msg, tr.join("\n  "));
                        std::process::exit(3);
                    }
                }
            }
            for (p, l, st) in news {
                parents.push((p, l));
                next.push((parents.len() as u32 - 1, st));
            }
        }
        stats.states += next.len() as u64;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "[{}] depth {depth} frontier {} states {} trans {} {:.1}s",
                sys.name(),
                frontier.len(),
                stats.states,
                stats.transitions,
                t0.elapsed().as_secs_f64()
            );
        }
        if found.is_some() || last {
            break;
        }
        frontier = next;
        depth += 1;
    }
    stats.depth = depth;
    // Conformance of the recorded traces with the implementation: re-execute a spread of recorded traces from
    // the initial state and require that every step is reproduced (also proves the harness is deterministic).
    if found.is_none() && !parents.is_empty() {
        let n = parents.len();
        for i in 0..40usize.min(n) {
            let id = (n - 1 - (i * (n / 40usize.min(n)).max(1)).min(n - 1)) as u32;
            let labels = path(&parents, id);
            if let Err(e) = replay(sys, cats, &labels, None) {
                panic!("harness error: recorded trace does not replay: {e}");
            }
            stats.replayed += 1;
        }
        let labels = path(&parents, n as u32 - 1);
        stats.sample = std::iter::once(format!("initial state {}", labels[0])).chain(labels[1..].iter().map(|l| describe(sys, *l))).collect();
    }
    stats.wall_s = t0.elapsed().as_secs_f64();
    let f = found.map(|(id, l, v)| {
        let (tr, labels) = trace(sys, &parents, id, l);
        // determinism: the same trace has to fail again
        if let Err(e) = replay(sys, cats, &labels, Some(&v)) {
            panic!("harness error: violation does not replay: {e}: {} {}", v.prop, v.msg);
        }
        Found { world: sys.name(), prop: v.prop, msg: v.msg, trace: tr, labels }
    });
    (stats, f)
}

fn path(parents: &[(u32, Label)], mut id: u32) -> Vec<Label> {
    let mut v = vec![];
    while parents[id as usize].0 != u32::MAX {
        v.push(parents[id as usize].1);
        id = parents[id as usize].0;
    }
    v.push(parents[id as usize].1); // index of the initial state
    v.reverse();
    v
}
fn trace<S: System>(sys: &S, parents: &[(u32, Label)], id: u32, l: Label) -> (Vec<String>, Vec<Label>) {
    let mut labels = path(parents, id);
    labels.push(l);
    let mut t = vec![format!("initial state {}", labels[0])];
    t.extend(labels[1..].iter().map(|l| describe(sys, *l)));
    (t, labels)
}
/// Re-execute a label sequence on the real code.
pub fn replay<S: System>(sys: &S, cats: &'static [&'static str], labels: &[Label], expect: Option<&Viol>) -> Result<(), String> {
    let mut st = sys
        .inits()
        .into_iter()
        .nth(labels[0] as usize)
        .ok_or("no such initial state")?;
    let verbose = std::env::var("MC_REPLAY").is_ok();
    let n = labels.len();
    for (i, l) in labels.iter().enumerate().skip(1) {
        let mut sink = Sink::new(cats);
        expand(sys, &st, false, &mut sink);
        if verbose {
            println!("{}\n   -> {}", sys.show(&st), describe(sys, *l));
        }
        if i == n - 1 {
            if let Some(e) = expect {
                return match sink.viols.iter().find(|(vl, v)| vl == l && v.prop == e.prop) {
                    Some((_, v)) => {
                        if verbose {
                            println!("VIOLATED {}: {}", v.prop, v.msg);
                        }
                        Ok(())
                    }
                    None => Err(format!("last step {} did not fail again", describe(sys, *l))),
                };
            }
        }
        st = sink
            .edges
            .into_iter()
            .find(|(el, _)| el == l)
            .ok_or_else(|| format!("step {i} {} is not enabled", describe(sys, *l)))?
            .1;
    }
    idle();
    Ok(())
}
