//! The buffered queue: every operation of `BufferedQueue` from every reachable state, against a FIFO model whose front is
//! in flash and whose back is in RAM.
use crate::engine::*;
use crate::flash::*;
use crate::map::{lab, unlab, M_BUF, M_CRASH, M_ERR, M_OK, M_PEND};
use crate::queue;
use crate::queue::{QueueSys, Run, Seq};
use crate::util::*;
use embedded_storage_async::nor_flash::*;
use sequential_storage::cache::CacheImpl;
use sequential_storage::queue::buffered::{BufferedQueue, OverflowPolicy};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

thread_local! { static MON: RefCell<Mon> = RefCell::new(Mon::default()); }

/// The simulated flash with its monitor in a thread local, because the flash inside a `BufferedQueue` is out of reach.
#[derive(Clone)]
pub struct TFl<const R: usize, const W: usize, const E: usize>(pub Fl<R, W, E>);
impl<const R: usize, const W: usize, const E: usize> Hash for TFl<R, W, E> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write(&self.0.mem)
    }
}
struct Lend<'a>(&'a mut Mon);
impl<'a> Lend<'a> {
    fn new(m: &'a mut Mon) -> Self {
        MON.with(|t| std::mem::swap(m, &mut t.borrow_mut()));
        Lend(m)
    }
}
impl<const R: usize, const W: usize, const E: usize> ErrorType for TFl<R, W, E> {
    type Error = FlErr;
}
macro_rules! lent { ($s:ident, $e:expr) => {{
    drop(Lend::new(&mut $s.0.mon));
    // polled once: ready, or pending for ever
    let r = {
        let f = $e;
        let mut f = std::pin::pin!(f);
        let p = f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop()));
        p
    };
    drop(Lend::new(&mut $s.0.mon));
    match r {
        std::task::Poll::Ready(r) => r,
        std::task::Poll::Pending => std::future::pending().await,
    }
}}}
use std::future::Future;
impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for TFl<R, W, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), FlErr> {
        lent!(self, self.0.read(offset, bytes))
    }
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
}
impl<const R: usize, const W: usize, const E: usize> NorFlash for TFl<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), FlErr> {
        lent!(self, self.0.erase(from, to))
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), FlErr> {
        lent!(self, self.0.write(offset, bytes))
    }
}
impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for TFl<R, W, E> {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// index into lens, discard the oldest
    Enqueue(u8, bool),
    DrainOne(bool),
    DrainAll(bool),
    Pop,
    Peek,
    /// give up the RAM part and wrap the storage again
    Rewrap,
}
#[derive(Clone, Debug)]
pub struct Opts {
    pub q: queue::Opts,
    pub small_bufs: bool,
}

#[derive(Clone)]
pub struct St<C: CacheImpl<()>, const N: usize, const R: usize, const W: usize, const E: usize> {
    pub bq: BufferedQueue<TFl<R, W, E>, C, N>,
    /// possible contents of the flash part
    pub qs: BTreeSet<Seq>,
    pub ram: Seq,
    pub next: u8,
    pub crashes: u8,
    pub faults: u8,
}
pub struct BufSys<C, const N: usize, const R: usize, const W: usize, const E: usize> {
    pub q: QueueSys<C, R, W, E>,
    pub o: Opts,
    pub ops: Vec<Op>,
}
struct Out<C: CacheImpl<()>, const N: usize, const R: usize, const W: usize, const E: usize> {
    res: Res,
    bq: BufferedQueue<TFl<R, W, E>, C, N>,
    mon: Mon,
}
type Bq<C, const N: usize, const R: usize, const W: usize, const E: usize> = BufferedQueue<TFl<R, W, E>, C, N>;

impl<C: CacheImpl<()> + Clone + Hash + Send + Sync, const N: usize, const R: usize, const W: usize, const E: usize> BufSys<C, N, R, W, E> {
    pub fn new(o: Opts, mk: fn() -> C) -> Self {
        let q = QueueSys::new(o.q.clone(), mk);
        let mut ops = vec![Op::Peek];
        for l in 0..o.q.lens.len() as u8 {
            ops.push(Op::Enqueue(l, false));
            ops.push(Op::Enqueue(l, true));
        }
        ops.extend([Op::DrainOne(false), Op::DrainOne(true), Op::Pop, Op::DrainAll(false), Op::DrainAll(true), Op::Rewrap]);
        BufSys { q, o, ops }
    }
    fn wrap(&self, mem: &[u8], wc: &[u8], cache: C) -> Bq<C, N, R, W, E> {
        let mut fl = Fl::<R, W, E>::from_img(mem, wc, (self.o.q.base_pages * E) as u32);
        fl.erase_step = self.o.q.erase_step;
        let r = fl.range();
        BufferedQueue::new(QueueStorage::new(TFl(fl), QueueConfig::new(r), cache))
    }
    fn open(bq: &Bq<C, N, R, W, E>) -> (Vec<u8>, Vec<u8>, C) {
        let (f, c) = bq.clone().into_storage().destroy();
        (f.0.mem, f.0.wc, c)
    }
    fn exec(&self, bq: &Bq<C, N, R, W, E>, op: Op, next: u8, fault: Option<Fault>, record: bool, buf_len: usize) -> Out<C, N, R, W, E> {
        let mut bq = bq.clone();
        MON.with(|m| *m.borrow_mut() = Mon { fault, record_images: record, ..Mon::default() });
        let mut store = ABuf::new(buf_len, 0xC3);
        let buf = store.get();
        let b = &mut bq;
        let res = match op {
            Op::Enqueue(l, over) => {
                let p = if over { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err };
                drive(async { Ok(Res::Bool(b.enqueue(self.q.bytes((l, next)), p).is_ok())) })
            }
            Op::DrainOne(ow) => drive(async { Ok(Res::Bool(b.drain_one(buf, ow).await?)) }),
            Op::DrainAll(ow) => drive(async {
                b.drain_all(buf, ow).await?;
                Ok(Res::Unit)
            }),
            Op::Pop => drive(async { Ok(Res::Val(b.pop(buf).await?.map(|v| v.to_vec()))) }),
            Op::Peek => drive(async { Ok(Res::Val(b.peek(buf).await?.map(|v| v.to_vec()))) }),
            Op::Rewrap => Res::Unit,
        };
        if op == Op::Rewrap {
            bq = BufferedQueue::new(bq.into_storage());
        }
        let mon = MON.with(|m| std::mem::take(&mut *m.borrow_mut()));
        Out { res, bq, mon }
    }
    fn bytes_of(&self, s: &Seq) -> usize {
        s.iter().map(|t| 2 + self.o.q.lens[t.0 as usize]).sum()
    }
    fn qst(&self, st: &St<C, N, R, W, E>, next: u8) -> queue::St<C> {
        let (mem, wc, cache) = Self::open(&st.bq);
        queue::St { mem, wc, cache, qs: st.qs.clone(), next, crashes: st.crashes, faults: st.faults, last_erase: 0xFFFF, told_empty: false, pre: 0, free: 0, after: 0 }
    }
    fn run_of(&self, o: &Out<C, N, R, W, E>, res: Res) -> Run<C> {
        let (mem, wc, cache) = Self::open(&o.bq);
        Run { res, seen: vec![], mem, wc, cache, mon: o.mon.clone() }
    }
    /// Allowed contents after the operation; `None` for results only a power cut or fault can give.
    fn judge(&self, st: &St<C, N, R, W, E>, op: Op, o: &Out<C, N, R, W, E>) -> Result<(BTreeSet<Seq>, Seq), (&'static str, String)> {
        let bad = |c: &'static str, m: String| Err((c, m));
        if let Res::Panic(p) = &o.res {
            return bad("panic", format!("{op:?} panicked: {p}"));
        }
        let count = o.bq.ram_pending_count();
        let mut ram = st.ram.clone();
        let mut qs = st.qs.clone();
        let tok = |t: &(u8, u8)| format!("#{}({}B)", t.1, self.o.q.lens[t.0 as usize]);
        let show = |ram: &Seq| {
            format!(
                "flash {}, RAM [{}]",
                st.qs.iter().map(|s| format!("[{}]", s.iter().map(tok).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" or "),
                ram.iter().map(tok).collect::<Vec<_>>().join(" ")
            )
        };
        match (op, &o.res) {
            (Op::Enqueue(l, over), Res::Bool(ok)) => {
                let t = (l, st.next);
                let size = 2 + self.o.q.lens[l as usize];
                let fits = if over { size <= N } else { self.bytes_of(&ram) + size <= N };
                if *ok != fits {
                    return bad("ram", format!("{op:?} of {size} bytes (with length) into a ring of {N} holding {} gives {}", self.bytes_of(&ram), if *ok { "Ok" } else { "Err" }));
                }
                if fits {
                    while self.bytes_of(&ram) + size > N {
                        ram.remove(0);
                    }
                    ram.push(t);
                }
                if !o.mon.ops.is_empty() {
                    return bad("ram", format!("{op:?} accessed the flash"));
                }
            }
            (Op::DrainOne(ow), r) => match (ram.first().copied(), r) {
                (None, Res::Bool(false)) => {}
                (Some(t), Res::Bool(true)) => {
                    let run = self.run_of(o, Res::Unit);
                    qs = self.q.judge(&self.qst(st, t.1), queue::Op::Push(t.0, ow), &run)?.0;
                    ram.remove(0);
                }
                (Some(t), Res::Err(e)) => {
                    let run = self.run_of(o, Res::Err(e.clone()));
                    qs = self.q.judge(&self.qst(st, t.1), queue::Op::Push(t.0, ow), &run)?.0;
                }
                (_, r) => return bad("drain", format!("{op:?} with {} gives {r:?}", show(&ram))),
            },
            (Op::DrainAll(ow), r) => {
                // exactly what draining one by one does
                let mut s = St { ..st.clone() };
                let end = loop {
                    let x = self.exec(&s.bq, Op::DrainOne(ow), 0, None, false, self.q.buf_len);
                    let (q2, r2) = self.judge(&s, Op::DrainOne(ow), &x)?;
                    s = St { bq: x.bq, qs: q2, ram: r2, ..s };
                    match x.res {
                        Res::Bool(true) => {}
                        Res::Bool(false) => break Res::Unit,
                        r => break r,
                    }
                };
                let (a, b) = (Self::open(&s.bq), Self::open(&o.bq));
                if end != *r || a.0 != b.0 {
                    return bad("drain", format!("{op:?} gives {r:?}, draining one by one {end:?}{}", if a.0 != b.0 { " with other flash contents" } else { "" }));
                }
                qs = s.qs;
                ram = s.ram;
            }
            (Op::Pop | Op::Peek, Res::Val(v)) => {
                let mut flash = BTreeSet::new();
                let mut from_ram = false;
                for s in &st.qs {
                    match (s.first(), ram.first(), v) {
                        (Some(t), _, Some(v)) if self.q.bytes(*t) == &v[..] && count == ram.len() => {
                            flash.insert(if op == Op::Pop { s[1..].to_vec() } else { s.clone() });
                        }
                        (None, Some(t), Some(v)) if self.q.bytes(*t) == &v[..] && count + (op == Op::Pop) as usize == ram.len() => {
                            flash.insert(s.clone());
                            from_ram = true;
                        }
                        (None, None, None) => {
                            flash.insert(s.clone());
                        }
                        _ => {}
                    }
                }
                if flash.is_empty() {
                    return bad("val", format!("{op:?} returned {:?} with {} items left in RAM, the queue should hold {}", v.as_ref().map(|v| hex(v)), count, show(&ram)));
                }
                if op == Op::Pop && from_ram && count + 1 == ram.len() {
                    ram.remove(0);
                }
                if op == Op::Peek && st.crashes + st.faults == 0 && o.mon.ops.iter().any(|x| x.kind == Kind::Write) {
                    return bad("val", "Peek modified the flash".into());
                }
                qs = flash;
            }
            (Op::Rewrap, _) => ram.clear(),
            (_, e) => return bad("err", format!("{op:?} failed: {e:?}")),
        }
        self.counts(op, &o.bq, &ram)?;
        Ok((qs, ram))
    }
    fn counts(&self, op: Op, bq: &Bq<C, N, R, W, E>, ram: &Seq) -> Result<(), (&'static str, String)> {
        let want = (ram.len(), self.bytes_of(ram), N - self.bytes_of(ram), N);
        let got = (bq.ram_pending_count(), bq.ram_bytes_used(), bq.ram_free_bytes(), Bq::<C, N, R, W, E>::ram_capacity_bytes());
        if want != got {
            return Err(("ram", format!("after {op:?} the ring reports (items, bytes used, bytes free, capacity) {got:?}, should be {want:?}")));
        }
        Ok(())
    }
    /// Allowed contents when the operation was cut short.
    fn cut(&self, st: &St<C, N, R, W, E>, op: Op, mon: &Mon) -> BTreeSet<Seq> {
        match (op, st.ram.first()) {
            (Op::DrainOne(ow), Some(t)) => self.q.cut(&self.qst(st, t.1), queue::Op::Push(t.0, ow), mon),
            (Op::Pop, _) => self.q.cut(&self.qst(st, 0), queue::Op::Pop, mon),
            _ => st.qs.clone(),
        }
    }
}

impl<C: CacheImpl<()> + Clone + Hash + Send + Sync, const N: usize, const R: usize, const W: usize, const E: usize> System for BufSys<C, N, R, W, E> {
    type St = St<C, N, R, W, E>;
    fn name(&self) -> String {
        self.o.q.name.clone()
    }
    fn inits(&self) -> Vec<Self::St> {
        let n = self.o.q.pages * E;
        vec![St { bq: self.wrap(&vec![0xFF; n], &vec![0; n / W], (self.q.mk)()), qs: BTreeSet::from([vec![]]), ram: vec![], next: 0, crashes: 0, faults: 0 }]
    }
    fn key(&self, st: &Self::St) -> u128 {
        let mut h = H128::default();
        st.bq.hash(&mut h);
        (&st.qs, &st.ram, st.next, st.crashes, st.faults).hash(&mut h);
        h.get()
    }
    fn describe(&self, l: Label) -> String {
        let (op, mode, a, b) = unlab(l);
        let s = match self.ops[op] {
            Op::Enqueue(l, o) => format!("enqueue({} bytes, {})", self.o.q.lens[l as usize], if o { "DiscardOldest" } else { "Err" }),
            o => format!("{o:?}"),
        };
        match mode {
            M_CRASH => format!("{s} -- power cut after {b} bytes of flash operation #{a}; restart"),
            M_ERR => format!("{s} -- flash operation #{a} fails after {b} bytes took effect"),
            M_PEND => format!("{s} -- future dropped at flash operation #{a} after {b} bytes took effect"),
            M_BUF => format!("{s} -- with a buffer of only {a} bytes"),
            _ => s,
        }
    }
    fn show(&self, st: &Self::St) -> String {
        format!("   flash {:?} ram {:?}\n   {}", st.qs, st.ram, hex(&Self::open(&st.bq).0))
    }
    fn expand(&self, st: &Self::St, last: bool, sink: &mut Sink<Self::St>) {
        let can_crash = st.crashes < self.o.q.crashes && !last;
        for (oi, op) in self.ops.iter().enumerate() {
            let op = *op;
            let l = lab(oi, M_OK, 0, 0);
            let o = self.exec(&st.bq, op, st.next, None, can_crash && !matches!(op, Op::DrainAll(_)), self.q.buf_len);
            sink.evals += 1;
            let next = if matches!(op, Op::Enqueue(..)) && o.res == Res::Bool(true) { (st.next + 1) % self.o.q.ids } else { st.next };
            if let Some(b) = &o.mon.breach {
                sink.viol(l, "breach", b.clone());
            }
            match self.judge(st, op, &o) {
                Err((c, m)) => sink.viol(l, c, m),
                Ok((qs, ram)) => {
                    if !last {
                        sink.edge(l, St { bq: o.bq.clone(), qs, ram, next, crashes: st.crashes, faults: st.faults });
                    }
                }
            }
            if can_crash {
                let qs = self.cut(st, op, &o.mon);
                for im in &o.mon.images {
                    sink.edge(
                        lab(oi, M_CRASH, im.op, im.units),
                        St { bq: self.wrap(&im.mem, &im.wc, (self.q.mk)()), qs: qs.clone(), ram: vec![], next: st.next, crashes: st.crashes + 1, faults: st.faults },
                    );
                }
            }
            if self.o.small_bufs && !last && !matches!(op, Op::Enqueue(..) | Op::Rewrap | Op::DrainAll(_)) {
                for n in 0..self.q.buf_len {
                    let fl = lab(oi, M_BUF, n as u32, 0);
                    let f = self.exec(&st.bq, op, st.next, None, false, n);
                    sink.evals += 1;
                    if let Some(b) = &f.mon.breach {
                        sink.viol(fl, "breach", b.clone());
                    }
                    let r = match &f.res {
                        Res::Err(Er::BufTooSmall(need)) => {
                            let again = if *need > self.q.buf_len { Res::Err(Er::BufTooSmall(0)) } else { self.exec(&st.bq, op, st.next, None, false, *need).res };
                            if matches!(again, Res::Err(Er::BufTooSmall(m)) if m <= *need) {
                                Err(("small", format!("{op:?} with {n} bytes asks for {need}, but with those gives {again:?}")))
                            } else {
                                self.counts(op, &f.bq, &st.ram).map(|_| (st.qs.clone(), st.ram.clone()))
                            }
                        }
                        _ => self.judge(st, op, &f).map_err(|(c, m)| (c, format!("with a buffer of {n} bytes: {m}"))),
                    };
                    match r {
                        Err((c, m)) => sink.viol(fl, c, m),
                        Ok((qs, ram)) => sink.edge(fl, St { bq: f.bq, qs, ram, next: st.next, crashes: st.crashes, faults: st.faults }),
                    }
                }
            }
            if st.faults < self.o.q.faults && !last && !matches!(op, Op::DrainAll(_)) {
                for (j, rec) in o.mon.ops.iter().enumerate() {
                    let units: Vec<u32> = match rec.kind {
                        Kind::Read => vec![0],
                        _ if self.o.q.fine => (0..=rec.len).collect(),
                        _ => {
                            let mut v = vec![0, 1, rec.len / 2, rec.len - 1, rec.len];
                            v.sort();
                            v.dedup();
                            v
                        }
                    };
                    for u in units {
                        for kind in [FaultKind::Err, FaultKind::Pend] {
                            let fl = lab(oi, if kind == FaultKind::Err { M_ERR } else { M_PEND }, j as u32, u);
                            let f = self.exec(&st.bq, op, st.next, Some(Fault { op: j as u32, units: u, kind }), false, self.q.buf_len);
                            sink.evals += 1;
                            match (&f.res, kind) {
                                (Res::Panic(p), _) => {
                                    sink.viol(fl, "panic", format!("{op:?} panicked: {p}"));
                                    continue;
                                }
                                (Res::Err(Er::Injected(n)), FaultKind::Err) if *n == j as u32 => {}
                                (Res::Cancelled, FaultKind::Pend) => {}
                                (x, _) => {
                                    sink.viol(fl, "surface", format!("{op:?}: flash operation #{j} was disturbed ({kind:?}) but the call returned {x:?}"));
                                    continue;
                                }
                            }
                            let mut qs = self.cut(st, op, &o.mon);
                            let mut ram = st.ram.clone();
                            if f.bq.ram_pending_count() < ram.len() && matches!(op, Op::DrainOne(_)) {
                                // leaving RAM means being in flash
                                let t = ram.remove(0);
                                qs.retain(|s| s.last() == Some(&t));
                            }
                            match self.counts(op, &f.bq, &ram) {
                                Err((c, m)) => sink.viol(fl, c, m),
                                Ok(()) => sink.edge(fl, St { bq: f.bq, qs, ram, next: st.next, crashes: st.crashes, faults: st.faults + 1 }),
                            }
                        }
                    }
                }
            }
        }
    }
}
