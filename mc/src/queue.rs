//! The queue world: every operation of `QueueStorage` from every reachable state, with crashes, failed and
//! cancelled flash operations, against a FIFO model.
use crate::engine::*;
use crate::flash::*;
use crate::map::{lab, unlab, M_BUF, M_CRASH, M_DAMAGE, M_DUAL, M_ERR, M_FLIP, M_OK, M_PEND, M_RETRY, M_SCRIPT, FREE};
use crate::refdec::*;
use crate::util::*;
use sequential_storage::cache::{Cache, CacheImpl};
use sequential_storage::Error;
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::collections::BTreeSet;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// index into lens, allow overwrite
    Push(u8, bool),
    Peek,
    Pop,
    /// (pop mask, number of entries looked at)
    Iter(u16, u8),
    MaxFit,
    Space,
    EraseAll,
    Reopen,
}

fn bit(mask: u16, i: usize) -> bool {
    i < 16 && mask >> i & 1 == 1
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub name: String,
    pub pages: usize,
    pub base_pages: usize,
    pub lens: Vec<usize>,
    /// item identities are numbers modulo this
    pub ids: u8,
    pub fill: u8,
    pub pop: bool,
    pub push_keep: bool,
    pub push_over: bool,
    pub queries: bool,
    /// `(pop mask, entries looked at)`
    pub iters: Vec<(u16, u8)>,
    pub erase_all: bool,
    pub reopen: bool,
    pub crashes: u8,
    pub faults: u8,
    pub fault_err: bool,
    pub fault_pend: bool,
    pub fine: bool,
    pub erase_step: usize,
    pub dual: bool,
    pub hash_wc: bool,
    pub wear: bool,
    pub flips: bool,
    /// data buffer handed to peek/pop/iter; 0 = as large as the longest item
    pub buf_len: usize,
    /// scripted warm-up, see `map::Opts`
    pub pre: Vec<Op>,
    pub pre_steps: u16,
    pub free: u8,
    /// damage one byte on the flash, then explore this many operations; 0 = no damage
    pub damage: u8,
    /// also damage the length fields of the item headers
    pub damage_len: bool,
    /// also run every operation with every shorter buffer
    pub small_bufs: bool,
    /// compare the flash contents after each operation with the documented format
    pub format: bool,
    /// start from images made by the reference encoder: (closed pages, most items per page)
    pub images: Option<(usize, usize)>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            name: String::new(),
            pages: 2,
            base_pages: 1,
            lens: vec![3],
            ids: 5,
            fill: 0,
            pop: true,
            push_keep: true,
            push_over: true,
            queries: true,
            iters: vec![(0, 15)],
            erase_all: false,
            reopen: false,
            crashes: 0,
            faults: 0,
            fault_err: false,
            fault_pend: false,
            fine: false,
            erase_step: 1,
            dual: false,
            hash_wc: false,
            wear: false,
            flips: false,
            buf_len: 0,
            pre: vec![],
            pre_steps: 0,
            free: 0,
            damage: 0,
            damage_len: false,
            small_bufs: false,
            format: false,
            images: None,
        }
    }
}

/// (length index, identity)
pub type Tok = (u8, u8);
pub type Seq = Vec<Tok>;

#[derive(Clone)]
pub struct St<C> {
    pub mem: Vec<u8>,
    pub wc: Vec<u8>,
    pub cache: C,
    /// every content the queue may have, given what the user was told
    pub qs: BTreeSet<Seq>,
    pub next: u8,
    pub crashes: u8,
    pub faults: u8,
    pub last_erase: u16,
    /// the last completed operation told the user that the queue is empty
    pub told_empty: bool,
    pub pre: u16,
    pub free: u8,
    /// operations since the damage + 1
    pub after: u8,
}

pub struct QueueSys<C, const R: usize, const W: usize, const E: usize> {
    pub o: Opts,
    pub mk: fn() -> C,
    pub ops: Vec<Op>,
    pub buf_len: usize,
    toks: Vec<(Tok, Vec<u8>)>,
}
pub struct Run<C> {
    pub res: Res,
    /// for Iter: the entries seen (in order)
    pub seen: Vec<Vec<u8>>,
    pub mem: Vec<u8>,
    pub wc: Vec<u8>,
    pub cache: C,
    pub mon: Mon,
}
pub fn data(len: usize, id: u8, fill: u8) -> Vec<u8> {
    (0..len)
        .map(|i| match fill {
            1 => if i == 0 { 0xFF - id } else { 0xFF },
            2 => if i == len - 1 { id } else { 0 },
            _ => 0x11u8.wrapping_mul(id.wrapping_add(1)) ^ (i as u8).wrapping_mul(29),
        })
        .collect()
}

impl<C: CacheImpl<()> + Clone + Hash + Send + Sync, const R: usize, const W: usize, const E: usize> QueueSys<C, R, W, E> {
    pub const WORD: usize = if R > W { R } else { W };
    pub fn new(o: Opts, mk: fn() -> C) -> Self {
        let mut ops = vec![Op::Peek];
        if o.queries {
            ops.push(Op::MaxFit);
            ops.push(Op::Space);
        }
        for l in 0..o.lens.len() as u8 {
            if o.push_keep {
                ops.push(Op::Push(l, false));
            }
            if o.push_over {
                ops.push(Op::Push(l, true));
            }
        }
        if o.pop {
            ops.push(Op::Pop);
        }
        for i in &o.iters {
            ops.push(Op::Iter(i.0, i.1));
        }
        if o.erase_all {
            ops.push(Op::EraseAll);
        }
        if o.reopen {
            ops.push(Op::Reopen);
        }
        assert!(o.pre.iter().all(|p| ops.contains(p)), "scripted operation not in the alphabet");
        let maxv = *o.lens.iter().max().unwrap();
        let buf_len = if o.buf_len == 0 { up(maxv, Self::WORD).max(Self::WORD) } else { o.buf_len };
        let toks = (0..o.lens.len() as u8)
            .flat_map(|l| (0..o.ids).map(move |i| (l, i)))
            .map(|t| (t, data(o.lens[t.0 as usize], t.1, o.fill)))
            .collect();
        QueueSys { o, mk, ops, buf_len, toks }
    }
    pub fn bytes(&self, t: Tok) -> &[u8] {
        &self.toks[t.0 as usize * self.o.ids as usize + t.1 as usize].1
    }
    fn show_seq(&self, s: &Seq) -> String {
        format!("[{}]", s.iter().map(|t| format!("#{}({}B)", t.1, self.o.lens[t.0 as usize])).collect::<Vec<_>>().join(" "))
    }
    fn show_qs(&self, q: &BTreeSet<Seq>) -> String {
        q.iter().map(|s| self.show_seq(s)).collect::<Vec<_>>().join(" or ")
    }
    fn show_data(&self, d: &[u8]) -> String {
        match self.toks.iter().find(|t| t.1 == d) {
            Some((t, _)) => format!("#{}({}B)", t.1, d.len()),
            None => format!("unknown data {}", hex(d)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn exec<D: CacheImpl<()>>(
        &self,
        mem: &[u8],
        wc: &[u8],
        cache: D,
        op: Op,
        next: u8,
        raw: Option<&[u8]>,
        fault: Option<Fault>,
        flip: Option<Flip>,
        record: bool,
    ) -> Run<D> {
        self.exec2(mem, wc, cache, op, next, raw, fault, flip, record, false)
    }
    /// With `retry`, an iteration goes on after a flash error instead of giving up.
    #[allow(clippy::too_many_arguments)]
    pub fn exec2<D: CacheImpl<()>>(
        &self,
        mem: &[u8],
        wc: &[u8],
        cache: D,
        op: Op,
        next: u8,
        raw: Option<&[u8]>,
        fault: Option<Fault>,
        flip: Option<Flip>,
        record: bool,
        retry: bool,
    ) -> Run<D> {
        self.exec3(mem, wc, cache, op, next, raw, fault, flip, record, retry, self.buf_len)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn exec3<D: CacheImpl<()>>(
        &self,
        mem: &[u8],
        wc: &[u8],
        cache: D,
        op: Op,
        next: u8,
        raw: Option<&[u8]>,
        fault: Option<Fault>,
        flip: Option<Flip>,
        record: bool,
        retry: bool,
        buf_len: usize,
    ) -> Run<D> {
        let mut fl = Fl::<R, W, E>::from_img(mem, wc, (self.o.base_pages * E) as u32);
        fl.erase_step = self.o.erase_step;
        fl.mon.fault = fault;
        fl.mon.flip = flip;
        fl.mon.record_images = record;
        // undisturbed worlds also ask for more after the end of an iteration
        let again = self.o.crashes == 0 && self.o.faults == 0 && !self.o.flips && !self.o.dual;
        let cfg = QueueConfig::new(fl.range());
        let mut s = QueueStorage::new(fl, cfg, cache);
        let mut store = ABuf::new(buf_len, 0xC3);
        let buf = store.get();
        let mut seen = vec![];
        let res = match op {
            Op::Push(l, ow) => {
                let src = raw.unwrap_or_else(|| self.bytes((l, next)));
                let mut d = ABuf::new(src.len(), 0);
                d.get().copy_from_slice(src);
                drive(async {
                    s.push(d.get(), ow).await?;
                    Ok(Res::Unit)
                })
            }
            Op::Peek => drive(async { Ok(Res::Val(s.peek(buf).await?.map(|v| v.to_vec()))) }),
            Op::Pop => drive(async { Ok(Res::Val(s.pop(buf).await?.map(|v| v.to_vec()))) }),
            Op::Iter(mask, n) => {
                let seen = &mut seen;
                drive(async {
                    let mut it = match s.iter().await {
                        Err(Error::Storage { .. }) if retry => return Ok(Res::Unit),
                        r => r?,
                    };
                    for i in 0..n {
                        let e = match it.next(buf).await {
                            Err(Error::Storage { .. }) if retry => it.next(buf).await,
                            e => e,
                        };
                        match e? {
                            None => {
                                // the end stays the end
                                if again {
                                    if let Some(e) = it.next(buf).await? {
                                        seen.push(e.to_vec());
                                    }
                                }
                                return Ok(Res::Bool(true));
                            }
                            Some(e) => {
                                seen.push(e.to_vec());
                                if bit(mask, i as usize) {
                                    let d = e.pop().await?.to_vec();
                                    if Some(&d) != seen.last() {
                                        return Ok(Res::Val(Some(d)));
                                    }
                                }
                            }
                        }
                    }
                    Ok(Res::Bool(false))
                })
            }
            Op::MaxFit => drive(async { Ok(Res::OptNum(s.find_max_fit().await?)) }),
            Op::Space => drive(async { Ok(Res::Num(s.space_left().await?)) }),
            Op::EraseAll => drive(async {
                s.erase_all().await?;
                Ok(Res::Unit)
            }),
            Op::Reopen => Res::Unit,
        };
        let (fl, cache) = s.destroy();
        Run { res, seen, mem: fl.mem, wc: fl.wc, cache, mon: fl.mon }
    }
    fn run(&self, st: &St<C>, op: Op, fault: Option<Fault>, flip: Option<Flip>, record: bool) -> Run<C> {
        let cache = if op == Op::Reopen { (self.mk)() } else { st.cache.clone() };
        self.exec(&st.mem, &st.wc, cache, op, st.next, None, fault, flip, record)
    }
    /// What a push of these bytes without overwriting does, on a copy of the flash.
    fn try_push(&self, mem: &[u8], wc: &[u8], cache: C, d: &[u8]) -> Run<C> {
        self.exec(mem, wc, cache, Op::Push(0, false), 0, Some(d), None, None, false)
    }
    fn pages(&self, mem: &[u8]) -> Vec<Page> {
        (0..self.o.pages).map(|p| decode_page(&mem[p * E..(p + 1) * E], R, Self::WORD)).collect()
    }
    fn live(p: &Page) -> Vec<&[u8]> {
        p.items.iter().filter(|i| i.state == IState::Live).map(|i| &i.data[..]).collect()
    }
    /// The readable items that were on the pages this call erased, oldest first.
    fn dropped(&self, mem: &[u8], mon: &Mon) -> Vec<Vec<u8>> {
        let pages = self.pages(mem);
        let mut v = vec![];
        let mut done = BTreeSet::new();
        for (p, _) in &mon.erased_pages {
            if done.insert(*p) && matches!(pages[*p].state, PState::Partial | PState::Closed) {
                v.extend(Self::live(&pages[*p]).iter().map(|d| d.to_vec()));
            }
        }
        v
    }
    fn strip(&self, l: &[Vec<u8>], seq: &Seq) -> Option<Seq> {
        if l.len() <= seq.len() && l.iter().zip(seq).all(|(d, t)| &d[..] == self.bytes(*t)) {
            Some(seq[l.len()..].to_vec())
        } else {
            None
        }
    }
    pub fn judge(&self, st: &St<C>, op: Op, r: &Run<C>) -> Result<(BTreeSet<Seq>, bool), (&'static str, String)> {
        let bad = |c: &'static str, m: String| Err((c, m));
        match &r.res {
            Res::Panic(p) => return bad("panic", format!("{op:?} panicked: {p}")),
            _ => {}
        }
        let qs = &st.qs;
        let mut out = BTreeSet::new();
        let mut empty = false;
        match (op, &r.res) {
            (Op::Peek | Op::Pop, Res::Val(v)) => {
                for s in qs {
                    let m = match (s.first(), v) {
                        (None, None) => true,
                        (Some(t), Some(v)) => self.bytes(*t) == &v[..],
                        _ => false,
                    };
                    if m {
                        out.insert(if op == Op::Pop && !s.is_empty() { s[1..].to_vec() } else { s.clone() });
                    }
                }
                empty = v.is_none();
                if out.is_empty() {
                    return bad(
                        "val",
                        format!(
                            "{op:?} returned {}, queue should hold {}",
                            v.as_ref().map_or("nothing".into(), |v| self.show_data(v)),
                            self.show_qs(qs)
                        ),
                    );
                }
            }
            (Op::Iter(mask, n), Res::Bool(end)) => {
                for s in qs {
                    let m = r.seen.iter().zip(s).all(|(d, t)| &d[..] == self.bytes(*t))
                        && r.seen.len() <= s.len()
                        && (*end == (s.len() < n as usize))
                        && (!*end || s.len() == r.seen.len());
                    if m {
                        out.insert(s.iter().enumerate().filter(|(i, _)| *i >= r.seen.len() || !bit(mask, *i)).map(|x| *x.1).collect());
                    }
                }
                empty = *end && r.seen.is_empty();
                if out.is_empty() {
                    return bad(
                        "iter",
                        format!(
                            "iteration yielded [{}]{}, queue should hold {}",
                            r.seen.iter().map(|d| self.show_data(d)).collect::<Vec<_>>().join(" "),
                            if *end { " and the end" } else { "" },
                            self.show_qs(qs)
                        ),
                    );
                }
            }
            (Op::Push(l, _), x) if item_size(self.o.lens[l as usize], Self::WORD) > E - 2 * Self::WORD || self.o.lens[l as usize] > 0xFFFF => {
                if *x != Res::Err(Er::TooBig) {
                    return bad("push_err", format!("push of {} bytes, which can never fit on a page, gives {x:?}", self.o.lens[l as usize]));
                }
                out = qs.clone();
            }
            (Op::Push(l, ow), Res::Unit) => {
                let d = (l, st.next);
                let lost = self.dropped(&st.mem, &r.mon);
                if !lost.is_empty() {
                    if !ow {
                        return bad("over", format!("push without overwriting erased {} unread items", lost.len()));
                    }
                    let t = self.try_push(&st.mem, &st.wc, st.cache.clone(), self.bytes(d));
                    if t.res != Res::Err(Er::Full) {
                        return bad("over", format!("push discarded {} unread items although a push without overwriting gives {:?}", lost.len(), t.res));
                    }
                }
                for s in qs {
                    if let Some(mut s2) = self.strip(&lost, s) {
                        s2.push(d);
                        out.insert(s2);
                    }
                }
                if out.is_empty() {
                    return bad("over", format!("push discarded [{}], which are not the oldest items of {}", lost.iter().map(|d| self.show_data(d)).collect::<Vec<_>>().join(" "), self.show_qs(qs)));
                }
            }
            (Op::Push(l, ow), Res::Err(Er::Full)) => {
                if ow {
                    return bad("full", "push with overwriting allowed was refused as full".into());
                }
                let need = item_size(self.o.lens[l as usize], Self::WORD);
                let pages = self.pages(&st.mem);
                if st.crashes + st.faults == 0 || pages.iter().all(|p| p.state != PState::Bad) {
                    let part = pages.iter().position(|p| p.state == PState::Partial);
                    let Some(cur) = part else {
                        return bad("full", format!("push of {need} bytes refused as full by a queue without a page in use"));
                    };
                    let (c, nx) = (&pages[cur], &pages[(cur + 1) % pages.len()]);
                    if c.end - c.free_at >= need {
                        return bad("full", format!("push of {need} bytes refused as full although {} are free on the current page", c.end - c.free_at));
                    }
                    if Self::live(nx).is_empty() {
                        return bad("full", format!("push of {need} bytes refused as full although the next page holds no data"));
                    }
                }
                if st.told_empty && qs.iter().all(|s| s.is_empty()) {
                    return bad("full", "push refused as full right after the queue was found to be empty".into());
                }
                out = qs.clone();
            }
            (Op::MaxFit, Res::OptNum(n)) => {
                self.check_fit(st, r, *n)?;
                out = qs.clone();
            }
            (Op::Space, Res::Num(n)) => {
                if st.crashes + st.faults == 0 && st.after == 0 {
                    let want = self.space(&self.pages(&st.mem));
                    if *n as usize != want {
                        return bad("space", format!("space_left returned {n}, but {want} bytes are free"));
                    }
                }
                out = qs.clone();
            }
            (Op::EraseAll, Res::Unit) => {
                out.insert(vec![]);
            }
            (Op::Reopen, _) => out = qs.clone(),
            (Op::Push(..), e) => return bad("push_err", format!("{op:?} failed: {e:?}")),
            (Op::Iter(..), Res::Val(v)) => return bad("iter", format!("entry.pop() returned {v:?} instead of the entry {:?}", r.seen.last())),
            (_, e) => return bad("err", format!("{op:?} failed: {e:?}")),
        }
        Ok((out, empty))
    }
    fn space(&self, pages: &[Page]) -> usize {
        let cap = E - 2 * Self::WORD;
        pages
            .iter()
            .map(|p| {
                let drained = p.items.iter().all(|i| i.state == IState::Removed);
                match p.state {
                    PState::Open => cap,
                    PState::Closed => if drained { cap } else { 0 },
                    _ => {
                        let rest = p.end - p.free_at;
                        if rest < up(8, Self::WORD) && drained { cap } else { rest }
                    }
                }
            })
            .sum()
    }
    /// find_max_fit told the truth: that much fits, and one byte more does not.
    fn check_fit(&self, st: &St<C>, r: &Run<C>, n: Option<u32>) -> Result<(), (&'static str, String)> {
        let b = vec![0x77u8; E + 8];
        let c = || r.cache.clone();
        if let Some(n) = n {
            if n as usize > E {
                return Err(("fit", format!("find_max_fit returned {n}, more than a page")));
            }
            let t = self.try_push(&r.mem, &r.wc, c(), &b[..n as usize]);
            if t.res != Res::Unit {
                return Err(("fit", format!("find_max_fit returned {n}, but a push of {n} bytes gives {:?}", t.res)));
            }
        }
        let m = n.map_or(0, |n| n as usize + 1);
        let t = self.try_push(&r.mem, &r.wc, c(), &b[..m]);
        if !matches!(t.res, Res::Err(Er::Full) | Res::Err(Er::TooBig)) {
            return Err(("fit", format!("find_max_fit returned {n:?}, but a push of {m} bytes gives {:?}", t.res)));
        }
        if st.told_empty {
            let cap = (E - 2 * Self::WORD - up(8, Self::WORD)).min(0xFFFF);
            let t = self.try_push(&r.mem, &r.wc, c(), &b[..cap]);
            if t.res != Res::Unit {
                return Err(("fit", format!("the queue is empty, but a push of {cap} bytes gives {:?}", t.res)));
            }
        }
        Ok(())
    }
    /// Allowed contents when the operation, which runs like `mon` when left alone, was cut short.
    pub fn cut(&self, st: &St<C>, op: Op, mon: &Mon) -> BTreeSet<Seq> {
        let mut out = st.qs.clone();
        let lost = self.dropped(&st.mem, mon);
        for s in &st.qs {
            match op {
                Op::Push(l, ow) => {
                    let d = (l, st.next);
                    let mut s2 = s.clone();
                    s2.push(d);
                    out.insert(s2);
                    if ow && self.strip(&lost, s).is_some() {
                        // an interrupted erase of the only page may leave some of its items
                        let from = if self.o.pages == 1 { 1 } else { lost.len() };
                        for k in from..=lost.len() {
                            let mut x = s[k..].to_vec();
                            out.insert(x.clone());
                            x.push(d);
                            out.insert(x);
                        }
                    }
                }
                Op::Pop if !s.is_empty() => {
                    out.insert(s[1..].to_vec());
                }
                Op::Iter(mask, n) => {
                    for k in 0..=(n as usize).min(s.len()) {
                        out.insert(s.iter().enumerate().filter(|(i, _)| *i >= k || !bit(mask, *i)).map(|x| *x.1).collect());
                    }
                }
                Op::EraseAll => {
                    // the oldest go first
                    for k in 0..=s.len() {
                        out.insert(s[k..].to_vec());
                    }
                }
                _ => {}
            }
        }
        out
    }
    fn bump(&self, st: &St<C>, op: Op, r: &Res) -> u8 {
        match (op, r) {
            (Op::Push(..), Res::Err(Er::Full | Er::TooBig)) => st.next,
            (Op::Push(..), _) => (st.next + 1) % self.o.ids,
            _ => st.next,
        }
    }
    fn monitor(&self, l: Label, mon: &Mon, st: &St<C>, op: Op, sink: &mut Sink<St<C>>) -> bool {
        let mut ok = true;
        if let Some(b) = &mon.breach {
            ok &= !sink.observe(l, "breach", format!("{op:?}: {b}"));
        }
        if let Some(b) = &mon.rewrote {
            ok &= !sink.observe(l, "rewrite", format!("{op:?}: {b}"));
        }
        if st.crashes == 0 && st.faults == 0 && st.after == 0 {
            if mon.max_wc > 2 {
                ok &= !sink.observe(l, "rewrite", format!("{op:?}: a word was programmed {} times since its last erase", mon.max_wc));
            }
            if matches!(op, Op::MaxFit | Op::Space) && mon.ops.iter().any(|o| o.kind != Kind::Read) {
                ok &= !sink.observe(l, "ro", format!("{op:?} modified the flash: {:?}", mon.ops.iter().find(|o| o.kind != Kind::Read)));
            }
            if matches!(op, Op::Peek | Op::Iter(0, _)) && mon.ops.iter().any(|o| o.kind == Kind::Write) {
                ok &= !sink.observe(l, "ro", format!("{op:?} wrote to the flash: {:?}", mon.ops.iter().find(|o| o.kind == Kind::Write)));
            }
            // Erasing a page all of whose items were popped is allowed, it changes nothing anyone can see
            if matches!(op, Op::Peek | Op::Iter(0, _)) && !mon.erased_pages.is_empty() {
                let pages = self.pages(&st.mem);
                if let Some((p, _)) = mon.erased_pages.iter().find(|(p, used)| !used || !Self::live(&pages[*p]).is_empty()) {
                    ok &= !sink.observe(l, "ro", format!("{op:?} erased page {p}, which is blank or still has unread items"));
                }
            }
        }
        ok
    }
    fn wear(&self, l: Label, mon: &Mon, st: &St<C>, op: Op, sink: &mut Sink<St<C>>) -> (u16, bool) {
        let mut last = st.last_erase;
        if !self.o.wear || op == Op::EraseAll {
            return (if op == Op::EraseAll { 0xFFFF } else { last }, true);
        }
        for (p, used) in &mon.erased_pages {
            let want = if last == 0xFFFF { None } else { Some((last as usize + 1) % self.o.pages) };
            if !used && self.o.pages > 1 {
                sink.viol(l, "wear", format!("{op:?} erased page {p}, which was already erased"));
                return (last, false);
            }
            if want.is_some_and(|w| w != *p) {
                sink.viol(l, "wear", format!("{op:?} erased page {p}, but after page {last} it is the turn of page {}", want.unwrap()));
                return (last, false);
            }
            last = *p as u16;
        }
        if let Op::Push(lx, ow) = op {
            if mon.erased_pages.len() > 1 {
                sink.viol(l, "wear", format!("{op:?} erased {} pages", mon.erased_pages.len()));
                return (last, false);
            }
            if !mon.erased_pages.is_empty() && self.o.pages > 1 {
                let pages = self.pages(&st.mem);
                let need = item_size(self.o.lens[lx as usize], Self::WORD);
                if pages.iter().any(|p| p.state == PState::Partial && p.end - p.free_at >= need) {
                    sink.viol(l, "wear", format!("{op:?} erased a page although the current page still had room"));
                    return (last, false);
                }
                let p = mon.erased_pages[0].0;
                if !ow && !Self::live(&pages[p]).is_empty() {
                    sink.viol(l, "wear", format!("{op:?} erased page {p} with unread items"));
                    return (last, false);
                }
            }
        }
        (last, true)
    }
    /// Damage every byte of every item (and bits of the page markers): the item is treated as if never pushed.
    fn damage(&self, st: &St<C>, pre: u16, free: u8, sink: &mut Sink<St<C>>) {
        let pages = self.pages(&st.mem);
        let order = age_order(&pages);
        let live: Vec<(usize, usize)> =
            order.iter().flat_map(|p| pages[*p].items.iter().filter(|i| i.state == IState::Live).map(|i| (*p, i.off))).collect();
        let Some(seq) = st.qs.iter().next() else { return };
        if st.qs.len() != 1 || seq.len() != live.len() {
            return;
        }
        for (p, off, addr, byte) in damages(&pages, &st.mem, R, Self::WORD, E, self.o.damage_len) {
            let mut mem = st.mem.clone();
            mem[addr] = byte;
            let mut s = seq.clone();
            if let Some(i) = off.and_then(|o| live.iter().position(|x| *x == (p, o))) {
                s.remove(i);
            }
            sink.edge(
                lab(0xFF, M_DAMAGE, addr as u32, byte as u32),
                St { mem, cache: (self.mk)(), qs: BTreeSet::from([s]), told_empty: false, pre, free, after: 1, ..st.clone() },
            );
        }
    }
    fn fault_units(&self, r: &OpRec) -> Vec<u32> {
        match r.kind {
            Kind::Read => vec![0],
            _ if self.o.fine => (0..=r.len).collect(),
            _ => {
                let mut v = vec![0, 1, r.len / 2, r.len.saturating_sub(1), r.len];
                v.sort();
                v.dedup();
                v
            }
        }
    }
}

impl<C: CacheImpl<()> + Clone + Hash + Send + Sync, const R: usize, const W: usize, const E: usize> System for QueueSys<C, R, W, E> {
    type St = St<C>;
    fn name(&self) -> String {
        self.o.name.clone()
    }
    fn inits(&self) -> Vec<St<C>> {
        let blank = St {
            mem: vec![0xFF; self.o.pages * E],
            wc: vec![0; self.o.pages * E / W],
            cache: (self.mk)(),
            qs: BTreeSet::from([vec![]]),
            next: 0,
            crashes: 0,
            faults: 0,
            last_erase: 0xFFFF,
            told_empty: false,
            pre: 0,
            free: 0,
            after: 0,
        };
        let Some((closed, max)) = self.o.images else { return vec![blank] };
        let items: Vec<Vec<u8>> = self.toks.iter().map(|x| x.1.clone()).collect();
        let mut out = vec![];
        for c in 0..=closed {
            for (mem, live) in images(self.o.pages, c, &items, max, Self::WORD, E) {
                let seq: Seq = live.iter().map(|i| self.toks[*i].0).collect();
                out.push(St { mem, qs: BTreeSet::from([seq]), ..blank.clone() });
            }
        }
        out
    }
    fn key(&self, st: &St<C>) -> u128 {
        let mut h = H128::default();
        st.mem.hash(&mut h);
        if self.o.hash_wc {
            st.wc.hash(&mut h);
        }
        st.cache.hash(&mut h);
        st.qs.hash(&mut h);
        (st.next, st.crashes, st.faults, st.told_empty).hash(&mut h);
        if self.o.wear {
            st.last_erase.hash(&mut h);
        }
        st.after.hash(&mut h);
        if self.o.pre_steps > 0 {
            (st.pre, st.free).hash(&mut h);
        }
        h.get()
    }
    fn describe(&self, l: Label) -> String {
        let (op, mode, a, b) = unlab(l);
        if mode == M_CRASH && op == 0xFF {
            return "power cut between operations; restart with an empty cache".into();
        }
        if mode == M_DAMAGE {
            return format!("byte {a} of the flash becomes {b:#04x}; restart with an empty cache");
        }
        let s = match self.ops[op] {
            Op::Push(l, ow) => format!("push({} bytes, allow_overwrite {ow})", self.o.lens[l as usize]),
            Op::Iter(m, n) => format!("iterate over at most {n} entries, popping those in mask {m:#b}"),
            o => format!("{o:?}"),
        };
        match mode {
            M_OK | M_SCRIPT => s,
            M_CRASH => format!("{s} -- power cut after {b} bytes of flash operation #{a}; restart with an empty cache"),
            M_ERR => format!("{s} -- flash operation #{a} fails after {b} bytes took effect; storage kept"),
            M_PEND => format!("{s} -- future dropped at flash operation #{a} after {b} bytes took effect; storage kept"),
            M_RETRY => format!("{s} -- read #{a} fails once, the iteration is continued"),
            M_BUF => format!("{s} -- with a buffer of only {a} bytes"),
            M_FLIP => format!("{s} -- read #{a}: bit {b} of the data read is flipped once"),
            _ => format!("{s} -- compared with an uncached storage on the same flash"),
        }
    }
    fn show(&self, st: &St<C>) -> String {
        let mut s = String::new();
        for p in 0..self.o.pages {
            let d = decode_page(&st.mem[p * E..(p + 1) * E], R, Self::WORD);
            s += &format!("   page {p} {:?}: {}\n", d.state, hex(&st.mem[p * E..(p + 1) * E]));
        }
        s + &format!("   model: {}", self.show_qs(&st.qs))
    }
    fn expand(&self, st: &St<C>, last: bool, sink: &mut Sink<St<C>>) {
        let scripted = self.o.pre_steps > 0 && st.pre < self.o.pre_steps;
        let (pre, free) = if self.o.pre_steps > 0 { (FREE, st.free + 1) } else { (0, 0) };
        let last = last || (self.o.pre_steps > 0 && st.free >= self.o.free);
        let last = last || st.after > self.o.damage;
        let after = if st.after > 0 { st.after + 1 } else { 0 };
        let can_crash = st.crashes < self.o.crashes && !last;
        if self.o.damage > 0 && st.after == 0 && !last {
            self.damage(st, pre, free, sink);
        }
        let over = QueueStorage::<Fl<R, W, E>, C>::item_overhead_size();
        if over as usize != item_size(0, Self::WORD) {
            for c in ["format", "space"] {
                sink.viol(lab(0, M_OK, 0, 0), c, format!("item_overhead_size is {over}"));
            }
        }
        if can_crash {
            let n = St { cache: (self.mk)(), crashes: st.crashes + 1, pre, free, after, ..st.clone() };
            sink.edge(lab(0xFF, M_CRASH, 0, 0), n);
        }
        for (oi, op) in self.ops.iter().enumerate() {
            let op = *op;
            let l = lab(oi, M_OK, 0, 0);
            let r = self.run(st, op, None, None, can_crash && op != Op::Reopen);
            sink.evals += 1;
            let mut ok = self.monitor(l, &r.mon, st, op, sink);
            let (le, wok) = self.wear(l, &r.mon, st, op, sink);
            ok &= wok;
            if let Res::Panic(p) = &r.res {
                sink.viol(l, "panic", format!("{op:?} panicked: {p}"));
                continue;
            }
            if self.o.dual && op != Op::Reopen {
                let u = self.exec(&st.mem, &st.wc, Cache::new_uncached(), op, st.next, None, None, None, false);
                let dl = lab(oi, M_DUAL, 0, 0);
                if u.res != r.res || u.seen != r.seen {
                    sink.viol(dl, "dual", format!("{op:?}: cached storage returned {:?} {:?}, uncached storage {:?} {:?}", r.res, r.seen, u.res, u.seen));
                    ok = false;
                } else if u.mem != r.mem {
                    let i = (0..u.mem.len()).find(|i| u.mem[*i] != r.mem[*i]).unwrap();
                    sink.viol(dl, "dual", format!("{op:?}: flash contents differ from those written by an uncached storage, first at offset {i}"));
                    ok = false;
                }
            }
            match self.judge(st, op, &r) {
                Err((c, m)) => sink.viol(l, c, m),
                Ok((qs, empty)) => {
                    if self.o.format {
                        let got = strict_all(&r.mem, R, Self::WORD, E);
                        if !got.as_ref().is_ok_and(|g| qs.iter().any(|s| s.len() == g.len() && s.iter().zip(g).all(|(t, d)| self.bytes(*t) == &d[..]))) {
                            sink.viol(l, "format", format!("after {op:?} the flash does not hold {} in the documented format, but {}", self.show_qs(&qs), match got {
                                Ok(g) => format!("[{}]", g.iter().map(|d| self.show_data(d)).collect::<Vec<_>>().join(" ")),
                                Err(e) => e,
                            }));
                            ok = false;
                        }
                    }
                    let next = self.bump(st, op, &r.res);
                    let told_empty = empty || (st.told_empty && matches!(op, Op::MaxFit | Op::Space));
                    if ok && scripted && self.o.pre[st.pre as usize % self.o.pre.len()] == op {
                        sink.edge(
                            lab(oi, M_SCRIPT, 0, 0),
                            St { mem: r.mem.clone(), wc: r.wc.clone(), cache: r.cache.clone(), qs: qs.clone(), next, crashes: st.crashes, faults: st.faults, last_erase: le, told_empty, pre: st.pre + 1, free: 0, after },
                        );
                    }
                    if ok && !last {
                        sink.edge(
                            l,
                            St { mem: r.mem.clone(), wc: r.wc.clone(), cache: r.cache, qs, next, crashes: st.crashes, faults: st.faults, last_erase: le, told_empty, pre, free, after },
                        );
                    }
                }
            }
            let next = self.bump(st, op, &Res::Unit);
            if can_crash {
                let qs = self.cut(st, op, &r.mon);
                for im in &r.mon.images {
                    sink.edge(
                        lab(oi, M_CRASH, im.op, im.units),
                        St { mem: im.mem.clone(), wc: im.wc.clone(), cache: (self.mk)(), qs: qs.clone(), next, crashes: st.crashes + 1, faults: st.faults, last_erase: le, told_empty: false, pre, free, after },
                    );
                }
            }
            if st.faults < self.o.faults && !last && op != Op::Reopen {
                let qs = self.cut(st, op, &r.mon);
                for (j, rec) in r.mon.ops.iter().enumerate() {
                    for units in self.fault_units(rec) {
                        for kind in [FaultKind::Err, FaultKind::Pend] {
                            if (kind == FaultKind::Err && !self.o.fault_err) || (kind == FaultKind::Pend && !self.o.fault_pend) {
                                continue;
                            }
                            let fl = lab(oi, if kind == FaultKind::Err { M_ERR } else { M_PEND }, j as u32, units);
                            if kind == FaultKind::Err && matches!(op, Op::Iter(0, _)) && rec.kind == Kind::Read {
                                let f = self.exec2(&st.mem, &st.wc, st.cache.clone(), op, st.next, None, Some(Fault { op: j as u32, units, kind }), None, false, true);
                                sink.evals += 1;
                                if f.res != Res::Unit && (f.res != r.res || f.seen != r.seen) {
                                    sink.viol(lab(oi, M_RETRY, j as u32, units), "surface", format!("iteration continued after flash operation #{j} failed once: {:?} {:?}, without the failure {:?} {:?}", f.res, f.seen, r.res, r.seen));
                                }
                            }
                            let f = self.run(st, op, Some(Fault { op: j as u32, units, kind }), None, false);
                            sink.evals += 1;
                            if !self.monitor(fl, &f.mon, st, op, sink) {
                                continue;
                            }
                            match (&f.res, kind) {
                                (Res::Panic(p), _) => {
                                    sink.viol(fl, "panic", format!("{op:?} panicked: {p}"));
                                    continue;
                                }
                                (Res::Err(Er::Injected(n)), FaultKind::Err) if *n == j as u32 => {}
                                (Res::Cancelled, FaultKind::Pend) => {}
                                (x, FaultKind::Err) => {
                                    sink.viol(fl, "surface", format!("{op:?}: flash operation #{j} ({:?}) failed but the call returned {x:?}", rec.kind));
                                    continue;
                                }
                                (x, _) => {
                                    sink.viol(fl, "surface", format!("{op:?}: dropped while pending but result {x:?}"));
                                    continue;
                                }
                            }
                            sink.edge(
                                fl,
                                St { mem: f.mem, wc: f.wc, cache: f.cache, qs: qs.clone(), next, crashes: st.crashes, faults: st.faults + 1, last_erase: le, told_empty: false, pre, free, after },
                            );
                        }
                    }
                }
            }
            if self.o.small_bufs && !last && matches!(op, Op::Peek | Op::Pop | Op::Iter(..)) {
                for n in 0..self.buf_len {
                    let fl = lab(oi, M_BUF, n as u32, 0);
                    let run = |n: usize| self.exec3(&st.mem, &st.wc, st.cache.clone(), op, st.next, None, None, None, false, false, n);
                    let f = run(n);
                    sink.evals += 1;
                    if !self.monitor(fl, &f.mon, st, op, sink) {
                        continue;
                    }
                    let qs = match &f.res {
                        Res::Err(Er::BufTooSmall(need)) => {
                            // with what the error asks for the call gets further
                            let again = if *need > self.buf_len { Res::Err(Er::BufTooSmall(0)) } else { run(*need).res };
                            if matches!(again, Res::Err(Er::BufTooSmall(m)) if m <= *need) {
                                sink.viol(fl, "small", format!("{op:?} with a buffer of {n} bytes asks for {need} bytes, but with those gives {again:?}"));
                                continue;
                            }
                            // the entries seen (and popped) before are right
                            let k = f.seen.len();
                            let mut out = BTreeSet::new();
                            for s in &st.qs {
                                if f.seen.iter().zip(s).all(|(d, t)| &d[..] == self.bytes(*t)) && k <= s.len() {
                                    let mask = if let Op::Iter(m, _) = op { m } else { 0 };
                                    out.insert(s.iter().enumerate().filter(|(i, _)| *i >= k || !bit(mask, *i)).map(|x| *x.1).collect::<Seq>());
                                }
                            }
                            if out.is_empty() {
                                sink.viol(fl, "small", format!("{op:?} with a buffer of {n} bytes yielded wrong entries"));
                                continue;
                            }
                            out
                        }
                        _ => match self.judge(st, op, &f) {
                            Err((c, m)) => {
                                sink.viol(fl, if c == "panic" { "panic" } else { "small" }, format!("with a buffer of {n} bytes: {m}"));
                                continue;
                            }
                            Ok((qs, _)) => qs,
                        },
                    };
                    sink.edge(
                        fl,
                        St { mem: f.mem, wc: f.wc, cache: f.cache, qs, next: st.next, crashes: st.crashes, faults: st.faults, last_erase: le, told_empty: false, pre, free, after },
                    );
                }
            }
            if self.o.flips && op != Op::Reopen {
                for (j, rec) in r.mon.ops.iter().enumerate() {
                    if rec.kind != Kind::Read {
                        continue;
                    }
                    for bit in 0..rec.len * 8 {
                        let fl = lab(oi, M_FLIP, j as u32, bit);
                        let f = self.run(st, op, None, Some(Flip { op: j as u32, byte: bit / 8, bit: (bit % 8) as u8 }), false);
                        sink.evals += 1;
                        if let Res::Panic(p) = &f.res {
                            sink.viol(fl, "panic", format!("{op:?} panicked: {p}"));
                            continue;
                        }
                        match self.judge(st, op, &f) {
                            Err((_, m)) => sink.viol(fl, "flip", format!("one flipped bit in one read: {m}")),
                            _ if last => {}
                            Ok((qs, _)) => {
                                let next = self.bump(st, op, &f.res);
                                sink.edge(
                                    fl,
                                    St { mem: f.mem, wc: f.wc, cache: f.cache, qs, next, crashes: st.crashes, faults: st.faults, last_erase: le, told_empty: false, pre, free, after },
                                )
                            }
                        }
                    }
                }
            }
        }
    }
}
