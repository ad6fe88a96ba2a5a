//! The map world: every operation of `MapStorage` from every reachable state, with crashes, failed and
//! cancelled flash operations, against a dictionary model.
use crate::engine::*;
use crate::flash::*;
use crate::refdec::*;
use crate::util::*;
use sequential_storage::cache::{Cache, CacheImpl};
use sequential_storage::Error;
use sequential_storage::map::{Key, MapConfig, MapStorage, SerializationError};
use std::hash::Hash;

pub const MAXK: usize = 12;

/// Key types used by the worlds.
pub trait TKey: Key + Hash + Send + Sync {
    fn mk(i: u8) -> Self;
    fn ser_len(&self) -> usize;
}
impl TKey for u8 {
    fn mk(i: u8) -> u8 {
        i
    }
    fn ser_len(&self) -> usize {
        1
    }
}
/// A key with a serialized length that differs per key.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct VarKey(pub u8);
impl Key for VarKey {
    fn serialize_into(&self, b: &mut [u8]) -> Result<usize, SerializationError> {
        let n = self.ser_len();
        let b = b.get_mut(..n).ok_or(SerializationError::BufferTooSmall)?;
        b.fill(0x5A);
        b[0] = self.0;
        Ok(n)
    }
    fn deserialize_from(b: &[u8]) -> Result<(Self, usize), SerializationError> {
        let k = VarKey(*b.first().ok_or(SerializationError::BufferTooSmall)?);
        let n = k.ser_len();
        if b.len() < n {
            return Err(SerializationError::BufferTooSmall);
        }
        Ok((k, n))
    }
}
impl TKey for VarKey {
    fn mk(i: u8) -> Self {
        VarKey(i)
    }
    fn ser_len(&self) -> usize {
        1 + self.0 as usize % 3
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Fetch(u8),
    Store(u8, u8),
    Remove(u8),
    RemoveAll,
    Iter,
    EraseAll,
    Reopen,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub name: String,
    pub pages: usize,
    pub base_pages: usize,
    pub keys: Vec<u8>,
    /// lengths of the values in the alphabet
    pub vals: Vec<usize>,
    /// fill style of values: 0 = id pattern, 1 = 0xFF, 2 = 0x00
    pub fill: u8,
    pub remove: bool,
    pub remove_all: bool,
    pub iter: bool,
    pub erase_all: bool,
    pub reopen: bool,
    /// maximum number of power cuts in a history
    pub crashes: u8,
    /// maximum number of failed / cancelled operations in a history
    pub faults: u8,
    pub fault_err: bool,
    pub fault_pend: bool,
    /// also fail at every byte of a write/erase, not just at the boundaries
    pub fine: bool,
    pub erase_step: usize,
    /// compare with an uncached storage on the same flash
    pub dual: bool,
    pub hash_wc: bool,
    pub wear: bool,
    pub check_full: bool,
    /// single bit read errors: for every read of the operation, every bit
    pub flips: bool,
    /// restrict the operations that change state to the ones listed (index into keys, vals); empty = all
    pub stores: Vec<(u8, u8)>,
    /// scripted warm-up: the first `pre_steps` steps may follow this cycle of operations; from every point of the
    /// warm-up every operation sequence of length `free` is explored
    pub pre: Vec<Op>,
    pub pre_steps: u16,
    pub free: u8,
    /// damage one byte on the flash, then explore this many operations; 0 = no damage
    pub damage: u8,
    /// also damage the length fields of the item headers
    pub damage_len: bool,
    /// also run every operation with every shorter buffer
    pub small_bufs: bool,
    /// compare the flash contents after each operation with the documented format
    pub format: bool,
    /// start from images made by the reference encoder: (closed pages, most items per page)
    pub images: Option<(usize, usize)>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            name: String::new(),
            pages: 2,
            base_pages: 1,
            keys: vec![0, 1],
            vals: vec![3, 3],
            fill: 0,
            remove: true,
            remove_all: true,
            iter: true,
            erase_all: false,
            reopen: false,
            crashes: 0,
            faults: 0,
            fault_err: false,
            fault_pend: false,
            fine: false,
            erase_step: 1,
            dual: false,
            hash_wc: false,
            wear: false,
            check_full: true,
            flips: false,
            stores: vec![],
            pre: vec![],
            pre_steps: 0,
            free: 0,
            damage: 0,
            damage_len: false,
            small_bufs: false,
            format: false,
            images: None,
        }
    }
}

#[derive(Clone)]
pub struct St<C> {
    pub mem: Vec<u8>,
    pub wc: Vec<u8>,
    pub cache: C,
    /// per key: the set of values a reader may see (bit 0 = absent, bit i+1 = vals[i])
    pub mask: [u16; MAXK],
    pub crashes: u8,
    pub faults: u8,
    pub last_erase: u16,
    /// scripted steps done; FREE = left the script
    pub pre: u16,
    pub free: u8,
    /// operations since the damage + 1
    pub after: u8,
}
pub const FREE: u16 = u16::MAX;

pub struct MapSys<K, C, const R: usize, const W: usize, const E: usize> {
    pub o: Opts,
    pub mk: fn() -> C,
    pub vals: Vec<Vec<u8>>,
    pub ops: Vec<Op>,
    pub buf_len: usize,
    pub _k: std::marker::PhantomData<fn() -> K>,
}

pub struct Run<C> {
    pub res: Res,
    pub fl_mem: Vec<u8>,
    pub fl_wc: Vec<u8>,
    pub cache: C,
    pub mon: Mon,
}

pub fn value(len: usize, id: usize, fill: u8) -> Vec<u8> {
    (0..len)
        .map(|i| match fill {
            1 => if i == 0 && id > 0 { 0xFE - id as u8 } else { 0xFF },
            2 => if i == 0 { id as u8 } else { 0x00 },
            _ => (0x10 * (id as u8 + 1)) ^ (i as u8).wrapping_mul(7),
        })
        .collect()
}

impl<K: TKey, C: CacheImpl<K> + Clone + Hash + Send + Sync, const R: usize, const W: usize, const E: usize>
    MapSys<K, C, R, W, E>
{
    pub const WORD: usize = if R > W { R } else { W };
    pub fn new(o: Opts, mk: fn() -> C) -> Self {
        assert!(o.keys.len() <= MAXK && o.vals.len() <= 14);
        assert!(o.pre.is_empty() || o.pre_steps > 0);
        let vals: Vec<Vec<u8>> = o.vals.iter().enumerate().map(|(i, l)| value(*l, i, o.fill)).collect();
        let mut ops = vec![];
        for k in 0..o.keys.len() as u8 {
            ops.push(Op::Fetch(k));
        }
        if o.iter {
            ops.push(Op::Iter);
        }
        for k in 0..o.keys.len() as u8 {
            for v in 0..vals.len() as u8 {
                if o.stores.is_empty() || o.stores.contains(&(k, v)) {
                    ops.push(Op::Store(k, v));
                }
            }
        }
        if o.remove {
            for k in 0..o.keys.len() as u8 {
                ops.push(Op::Remove(k));
            }
        }
        if o.remove_all {
            ops.push(Op::RemoveAll);
        }
        if o.erase_all {
            ops.push(Op::EraseAll);
        }
        if o.reopen {
            ops.push(Op::Reopen);
        }
        assert!(o.pre.iter().all(|p| ops.contains(p)), "scripted operation not in the alphabet");
        // exactly what the documentation asks for: the longest key + value, rounded up to a word
        let maxk = o.keys.iter().map(|k| K::mk(*k).ser_len()).max().unwrap();
        let maxv = o.vals.iter().max().unwrap();
        let buf_len = up(maxk + maxv, Self::WORD);
        MapSys { o, mk, vals, ops, buf_len, _k: Default::default() }
    }
    /// Undisturbed worlds also ask for more after the end of an iteration.
    fn again(&self) -> bool {
        self.o.crashes == 0 && self.o.faults == 0 && !self.o.flips && !self.o.dual
    }
    fn cfg(&self, fl: &Fl<R, W, E>) -> MapConfig<Fl<R, W, E>> {
        MapConfig::new(fl.range())
    }
    pub fn key_of(&self, k: u8) -> K {
        K::mk(self.o.keys[k as usize])
    }
    pub fn exec<D: CacheImpl<K>>(
        &self,
        st_mem: &[u8],
        st_wc: &[u8],
        cache: D,
        op: Op,
        fault: Option<Fault>,
        flip: Option<Flip>,
        record: bool,
    ) -> Run<D> {
        self.exec2(st_mem, st_wc, cache, op, fault, flip, record, false)
    }
    /// With `retry`, an iteration goes on after a flash error instead of giving up.
    #[allow(clippy::too_many_arguments)]
    pub fn exec2<D: CacheImpl<K>>(
        &self,
        st_mem: &[u8],
        st_wc: &[u8],
        cache: D,
        op: Op,
        fault: Option<Fault>,
        flip: Option<Flip>,
        record: bool,
        retry: bool,
    ) -> Run<D> {
        self.exec3(st_mem, st_wc, cache, op, fault, flip, record, retry, self.buf_len)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn exec3<D: CacheImpl<K>>(
        &self,
        st_mem: &[u8],
        st_wc: &[u8],
        cache: D,
        op: Op,
        fault: Option<Fault>,
        flip: Option<Flip>,
        record: bool,
        retry: bool,
        buf_len: usize,
    ) -> Run<D> {
        let mut fl = Fl::<R, W, E>::from_img(st_mem, st_wc, (self.o.base_pages * E) as u32);
        fl.erase_step = self.o.erase_step;
        fl.mon.fault = fault;
        fl.mon.flip = flip;
        fl.mon.record_images = record;
        let again = self.again();
        let cfg = self.cfg(&fl);
        let mut s = MapStorage::<K, _, _>::new(fl, cfg, cache);
        let mut store = ABuf::new(buf_len, 0xC3);
        let buf = store.get();
        let res = match op {
            Op::Fetch(k) => drive(async {
                let r = s.fetch_item::<&[u8]>(buf, &self.key_of(k)).await?;
                Ok(Res::Val(r.map(|v| v.to_vec())))
            }),
            Op::Store(k, v) => drive(async {
                let x: &[u8] = &self.vals[v as usize];
                // both ways of storing
                if v % 2 == 1 {
                    s.store_item_generic(buf, &self.key_of(k), &x).await?;
                } else {
                    s.store_item(buf, &self.key_of(k), &x).await?;
                }
                Ok(Res::Unit)
            }),
            Op::Remove(k) => drive(async {
                s.remove_item(buf, &self.key_of(k)).await?;
                Ok(Res::Unit)
            }),
            Op::RemoveAll => drive(async {
                s.remove_all_items(buf).await?;
                Ok(Res::Unit)
            }),
            Op::Iter => drive(async {
                let mut out = vec![];
                let mut it = match s.fetch_all_items(buf).await {
                    Err(Error::Storage { .. }) if retry => return Ok(Res::Unit),
                    r => r?,
                };
                loop {
                    match it.next::<&[u8]>(buf).await {
                        Err(Error::Storage { .. }) if retry => continue,
                        r => match r? {
                            None => {
                                // the end stays the end
                                if again && it.next::<&[u8]>(buf).await?.is_some() {
                                    return Ok(Res::Bool(false));
                                }
                                break;
                            }
                            Some((k, v)) => {
                                let mut kb = [0u8; 64];
                                let n = k.serialize_into(&mut kb).unwrap();
                                out.push((kb[..n].to_vec(), v.to_vec()));
                            }
                        },
                    }
                }
                Ok(Res::List(out))
            }),
            Op::EraseAll => drive(async {
                s.erase_all().await?;
                Ok(Res::Unit)
            }),
            Op::Reopen => Res::Unit,
        };
        let (fl, cache) = s.destroy();
        Run { res, fl_mem: fl.mem, fl_wc: fl.wc, cache, mon: fl.mon }
    }
    fn run(&self, st: &St<C>, op: Op, fault: Option<Fault>, flip: Option<Flip>, record: bool) -> Run<C> {
        let cache = if op == Op::Reopen { (self.mk)() } else { st.cache.clone() };
        self.exec(&st.mem, &st.wc, cache, op, fault, flip, record)
    }
    fn bit_of(&self, v: &Option<Vec<u8>>) -> u16 {
        match v {
            None => 1,
            Some(v) => self.vals.iter().position(|x| x == v).map_or(0, |i| 2 << i),
        }
    }
    fn show_mask(&self, m: u16) -> String {
        let mut s = vec![];
        if m & 1 != 0 {
            s.push("absent".to_string());
        }
        for (i, v) in self.vals.iter().enumerate() {
            if m & (2 << i) != 0 {
                s.push(hex(v));
            }
        }
        s.join("|")
    }
    pub fn data_len(&self, k: u8, v: u8) -> usize {
        self.key_of(k).ser_len() + self.vals[v as usize].len()
    }
    pub fn size_kv(&self, k: u8, v: usize) -> usize {
        item_size(self.key_of(k).ser_len() + self.vals[v].len(), Self::WORD)
    }
    /// Largest amount of live data the model allows.
    fn live_max(&self, mask: &[u16; MAXK]) -> usize {
        (0..self.o.keys.len())
            .map(|k| {
                (0..self.vals.len())
                    .filter(|v| mask[k] & (2 << v) != 0)
                    .map(|v| self.size_kv(k as u8, v))
                    .max()
                    .unwrap_or(0)
            })
            .sum()
    }
    /// Masks after the operation completed with `res`; Err = not allowed.
    fn judge(&self, st: &St<C>, op: Op, res: &Res) -> Result<[u16; MAXK], (&'static str, String)> {
        let mut m = st.mask;
        match (op, res) {
            (_, Res::Panic(p)) => return Err(("panic", format!("{op:?} panicked: {p}"))),
            (Op::Fetch(k), Res::Val(v)) => {
                let b = self.bit_of(v);
                if b & m[k as usize] == 0 {
                    return Err((
                        "val",
                        format!(
                            "fetch of key {} returned {}, allowed: {}",
                            self.o.keys[k as usize],
                            v.as_ref().map_or("absent".into(), |v| hex(v)),
                            self.show_mask(m[k as usize])
                        ),
                    ));
                }
                m[k as usize] = b;
            }
            (Op::Iter, Res::List(l)) => {
                let mut last: [u16; MAXK] = [1; MAXK];
                for (kb, v) in l {
                    let Some(k) = (0..self.o.keys.len()).find(|k| {
                        let mut b = [0u8; 64];
                        let n = self.key_of(*k as u8).serialize_into(&mut b).unwrap();
                        b[..n] == kb[..]
                    }) else {
                        return Err(("iter", format!("iteration yielded key {} that was never stored", hex(kb))));
                    };
                    last[k] = self.bit_of(&Some(v.clone()));
                    if last[k] == 0 {
                        return Err(("iter", format!("iteration yielded value {} that was never stored", hex(v))));
                    }
                }
                for k in 0..self.o.keys.len() {
                    if last[k] & m[k] == 0 {
                        return Err((
                            "iter",
                            format!(
                                "iteration ends with {} for key {}, allowed: {}",
                                self.show_mask(last[k]),
                                self.o.keys[k],
                                self.show_mask(m[k])
                            ),
                        ));
                    }
                    m[k] = last[k];
                }
            }
            (Op::Store(k, v), r) if self.size_kv(k, v as usize) > E - 2 * Self::WORD || self.data_len(k, v) > 0xFFFF => {
                if *r != Res::Err(Er::TooBig) {
                    return Err(("store_err", format!("store of an item of {} bytes, which can never fit on a page, gives {r:?}", self.data_len(k, v))));
                }
            }
            (Op::Store(k, v), Res::Unit) => m[k as usize] = 2 << v,
            (Op::Store(k, v), Res::Err(Er::Full)) => {
                if self.o.check_full {
                    let cap = E - 2 * Self::WORD;
                    let live = self.live_max(&st.mask);
                    let new = self.size_kv(k, v as usize);
                    let room = (self.o.pages - 1) * (cap + Self::WORD - new);
                    if live < room {
                        return Err((
                            "full",
                            format!(
                                "store of {new} bytes refused as full although only {live} bytes are live ({} pages of {cap} bytes)",
                                self.o.pages
                            ),
                        ));
                    }
                }
            }
            (Op::Remove(k), Res::Unit) => m[k as usize] = 1,
            (Op::RemoveAll, Res::Unit) | (Op::EraseAll, Res::Unit) => m = [1; MAXK],
            (Op::Reopen, _) => {}
            (Op::Fetch(k), r) => {
                return Err(("fetch_err", format!("fetch of key {} failed: {r:?}", self.o.keys[k as usize])));
            }
            (Op::Iter, r) => return Err(("iter_err", format!("iteration failed: {r:?}"))),
            (Op::Store(..), r) => return Err(("store_err", format!("{op:?} failed: {r:?}"))),
            (_, r) => return Err(("remove_err", format!("{op:?} failed: {r:?}"))),
        }
        Ok(m)
    }
    /// Masks when the operation was cut short.
    fn cut_mask(&self, st: &St<C>, op: Op) -> [u16; MAXK] {
        let mut m = st.mask;
        match op {
            Op::Store(k, v) => m[k as usize] |= 2 << v,
            Op::Remove(k) => m[k as usize] |= 1,
            Op::RemoveAll | Op::EraseAll => m.iter_mut().for_each(|x| *x |= 1),
            _ => {}
        }
        m
    }
    fn monitor(&self, l: Label, mon: &Mon, st: &St<C>, op: Op, sink: &mut Sink<St<C>>) -> bool {
        let mut ok = true;
        if let Some(b) = &mon.breach {
            ok &= !sink.observe(l, "breach", format!("{op:?}: {b}"));
        }
        if let Some(b) = &mon.rewrote {
            ok &= !sink.observe(l, "rewrite", format!("{op:?}: {b}"));
        }
        let clean = st.crashes == 0 && st.faults == 0 && st.after == 0;
        if clean {
            let lim = if self.o.remove || self.o.remove_all { 2 } else { 1 };
            if mon.max_wc > lim {
                ok &= !sink.observe(l, "rewrite", format!("{op:?}: a word was programmed {} times since its last erase", mon.max_wc));
            }
            if matches!(op, Op::Fetch(_) | Op::Iter) && mon.ops.iter().any(|o| o.kind != Kind::Read) {
                ok &= !sink.observe(l, "ro", format!("{op:?} modified the flash: {:?}", mon.ops.iter().find(|o| o.kind != Kind::Read)));
            }
        }
        ok
    }
    /// Wear rules, crash free only.
    fn wear(&self, l: Label, mon: &Mon, st: &St<C>, op: Op, sink: &mut Sink<St<C>>) -> (u16, bool) {
        let mut last = st.last_erase;
        if !self.o.wear || op == Op::EraseAll {
            return (if op == Op::EraseAll { 0xFFFF } else { last }, true);
        }
        for (p, used) in &mon.erased_pages {
            let want = if last == 0xFFFF { None } else { Some((last as usize + 1) % self.o.pages) };
            if !used {
                sink.viol(l, "wear", format!("{op:?} erased page {p}, which was already erased"));
                return (last, false);
            }
            if want.is_some_and(|w| w != *p) {
                sink.viol(l, "wear", format!("{op:?} erased page {p}, but after page {last} it is the turn of page {}", want.unwrap()));
                return (last, false);
            }
            last = *p as u16;
        }
        if !mon.erased_pages.is_empty() {
            let Op::Store(k, v) = op else {
                sink.viol(l, "wear", format!("{op:?} erased a page"));
                return (last, false);
            };
            // an erase is only justified when the item does not fit behind the items of the current page
            let need = self.size_kv(k, v as usize);
            for p in 0..self.o.pages {
                let d = decode_page(&st.mem[p * E..(p + 1) * E], R, Self::WORD);
                if d.state == PState::Partial && d.end - d.free_at >= need {
                    sink.viol(l, "wear", format!("{op:?} erased a page although page {p} still had room for the item"));
                    return (last, false);
                }
            }
            let m = mon.erased_pages.len();
            if m > self.o.pages {
                sink.viol(l, "wear", format!("{op:?} erased {m} pages"));
                return (last, false);
            }
        }
        (last, true)
    }
    /// Damage every byte of every item (and bits of the page markers): the item is treated as if never stored.
    fn damage(&self, st: &St<C>, pre: u16, free: u8, sink: &mut Sink<St<C>>) {
        let pages: Vec<Page> = (0..self.o.pages).map(|p| decode_page(&st.mem[p * E..(p + 1) * E], R, Self::WORD)).collect();
        let order = age_order(&pages);
        let live = |skip: Option<(usize, usize)>| {
            let mut m: [u16; MAXK] = [1; MAXK];
            for p in &order {
                for it in pages[*p].items.iter().filter(|i| i.state == IState::Live) {
                    if skip != Some((*p, it.off)) {
                        for k in 0..self.o.keys.len() {
                            let mut b = [0u8; 64];
                            let n = self.key_of(k as u8).serialize_into(&mut b).unwrap();
                            if it.data.len() >= n && it.data[..n] == b[..n] {
                                m[k] = self.bit_of(&Some(it.data[n..].to_vec()));
                            }
                        }
                    }
                }
            }
            m
        };
        if live(None) != st.mask {
            return; // only from states in which the contents are certain
        }
        for (p, off, addr, byte) in damages(&pages, &st.mem, R, Self::WORD, E, self.o.damage_len) {
            let mut mem = st.mem.clone();
            mem[addr] = byte;
            let mask = live(off.map(|o| (p, o)));
            sink.edge(
                lab(0xFF, M_DAMAGE, addr as u32, byte as u32),
                St { mem, cache: (self.mk)(), mask, pre, free, after: 1, ..st.clone() },
            );
        }
    }
    fn ser_key(&self, k: usize) -> Vec<u8> {
        let mut b = [0u8; 64];
        let n = self.key_of(k as u8).serialize_into(&mut b).unwrap();
        b[..n].to_vec()
    }
    /// What the documented format says the flash holds.
    fn by_format(&self, mem: &[u8]) -> Result<[u16; MAXK], String> {
        let mut m = [1; MAXK];
        for d in strict_all(mem, R, Self::WORD, E)? {
            let Some(k) = (0..self.o.keys.len()).find(|k| d.starts_with(&self.ser_key(*k))) else {
                return Err(format!("an item with an unknown key: {}", hex(&d)));
            };
            m[k] = self.bit_of(&Some(d[self.ser_key(k).len()..].to_vec()));
        }
        Ok(m)
    }
    fn fault_units(&self, r: &OpRec) -> Vec<u32> {
        match r.kind {
            Kind::Read => vec![0],
            _ => {
                if self.o.fine {
                    (0..=r.len).collect()
                } else {
                    let mut v = vec![0, 1, r.len / 2, r.len.saturating_sub(1), r.len];
                    v.dedup();
                    v.sort();
                    v.dedup();
                    v
                }
            }
        }
    }
}

pub fn lab(op: usize, mode: u64, a: u32, b: u32) -> Label {
    op as u64 | mode << 8 | (a as u64) << 16 | (b as u64) << 40
}
pub fn unlab(l: Label) -> (usize, u64, u32, u32) {
    ((l & 0xFF) as usize, (l >> 8) & 0xFF, ((l >> 16) & 0xFF_FFFF) as u32, (l >> 40) as u32)
}
pub const M_OK: u64 = 0;
pub const M_CRASH: u64 = 1;
pub const M_ERR: u64 = 2;
pub const M_PEND: u64 = 3;
pub const M_FLIP: u64 = 4;
pub const M_DUAL: u64 = 5;
pub const M_SCRIPT: u64 = 6;
pub const M_RETRY: u64 = 7;
pub const M_DAMAGE: u64 = 8;
pub const M_BUF: u64 = 9;

impl<K: TKey, C: CacheImpl<K> + Clone + Hash + Send + Sync, const R: usize, const W: usize, const E: usize> System
    for MapSys<K, C, R, W, E>
{
    type St = St<C>;
    fn name(&self) -> String {
        self.o.name.clone()
    }
    fn inits(&self) -> Vec<St<C>> {
        let blank = St {
            mem: vec![0xFF; self.o.pages * E],
            wc: vec![0; self.o.pages * E / W],
            cache: (self.mk)(),
            mask: [1; MAXK],
            crashes: 0,
            faults: 0,
            last_erase: 0xFFFF,
            pre: 0,
            free: 0,
            after: 0,
        };
        let Some((closed, max)) = self.o.images else { return vec![blank] };
        let mut kv = vec![];
        for k in 0..self.o.keys.len() {
            for v in 0..self.vals.len() {
                kv.push((k, v, [self.ser_key(k), self.vals[v].clone()].concat()));
            }
        }
        let items: Vec<Vec<u8>> = kv.iter().map(|x| x.2.clone()).collect();
        let mut out = vec![];
        for c in 0..=closed {
            for (mem, live) in images(self.o.pages, c, &items, max, Self::WORD, E) {
                let mut mask = [1; MAXK];
                for i in live {
                    mask[kv[i].0] = 2 << kv[i].1;
                }
                out.push(St { mem, mask, ..blank.clone() });
            }
        }
        out
    }
    fn key(&self, st: &St<C>) -> u128 {
        let mut h = H128::default();
        st.mem.hash(&mut h);
        if self.o.hash_wc {
            st.wc.hash(&mut h);
        }
        st.cache.hash(&mut h);
        st.mask.hash(&mut h);
        (st.crashes, st.faults).hash(&mut h);
        if self.o.wear {
            st.last_erase.hash(&mut h);
        }
        st.after.hash(&mut h);
        if self.o.pre_steps > 0 {
            (st.pre, st.free).hash(&mut h);
        }
        h.get()
    }
    fn describe(&self, l: Label) -> String {
        let (op, mode, a, b) = unlab(l);
        if mode == M_CRASH && op == 0xFF {
            return "power cut between operations; restart with an empty cache".into();
        }
        if mode == M_DAMAGE {
            return format!("byte {a} of the flash becomes {b:#04x}; restart with an empty cache");
        }
        let s = match self.ops[op] {
            Op::Fetch(k) => format!("fetch(key {})", self.o.keys[k as usize]),
            Op::Store(k, v) => format!("store(key {}, value {} [{} bytes])", self.o.keys[k as usize], hex(&self.vals[v as usize]), self.vals[v as usize].len()),
            Op::Remove(k) => format!("remove(key {})", self.o.keys[k as usize]),
            o => format!("{o:?}"),
        };
        match mode {
            M_OK | M_SCRIPT => s,
            M_CRASH => format!("{s} -- power cut after {b} bytes of flash operation #{a}; restart with an empty cache"),
            M_ERR => format!("{s} -- flash operation #{a} fails after {b} bytes took effect; storage kept"),
            M_PEND => format!("{s} -- future dropped at flash operation #{a} after {b} bytes took effect; storage kept"),
            M_RETRY => format!("{s} -- read #{a} fails once, the iteration is continued"),
            M_BUF => format!("{s} -- with a buffer of only {a} bytes"),
            M_FLIP => format!("{s} -- read #{a}: bit {b} of the data read is flipped once"),
            _ => format!("{s} -- compared with an uncached storage on the same flash"),
        }
    }
    fn show(&self, st: &St<C>) -> String {
        let mut s = String::new();
        for p in 0..self.o.pages {
            let d = decode_page(&st.mem[p * E..(p + 1) * E], R, Self::WORD);
            s += &format!("   page {p} {:?}: {}\n", d.state, hex(&st.mem[p * E..(p + 1) * E]));
        }
        for k in 0..self.o.keys.len() {
            s += &format!("   key {} allowed {};", self.o.keys[k], self.show_mask(st.mask[k]));
        }
        s
    }
    fn expand(&self, st: &St<C>, last: bool, sink: &mut Sink<St<C>>) {
        let scripted = self.o.pre_steps > 0 && st.pre < self.o.pre_steps;
        let (pre, free) = if self.o.pre_steps > 0 { (FREE, st.free + 1) } else { (0, 0) };
        let last = last || (self.o.pre_steps > 0 && st.free >= self.o.free);
        let last = last || st.after > self.o.damage;
        let after = if st.after > 0 { st.after + 1 } else { 0 };
        let can_crash = st.crashes < self.o.crashes && !last;
        if self.o.damage > 0 && st.after == 0 && !last {
            self.damage(st, pre, free, sink);
        }
        if MapStorage::<K, Fl<R, W, E>, C>::item_overhead_size() as usize != item_size(0, Self::WORD) {
            sink.viol(lab(0, M_OK, 0, 0), "format", format!("item_overhead_size is {}", MapStorage::<K, Fl<R, W, E>, C>::item_overhead_size()));
        }
        if can_crash {
            let n = St { cache: (self.mk)(), crashes: st.crashes + 1, pre, free, after, ..st.clone() };
            sink.edge(lab(0xFF, M_CRASH, 0, 0), n);
        }
        for (oi, op) in self.ops.iter().enumerate() {
            let op = *op;
            let l = lab(oi, M_OK, 0, 0);
            let r = self.run(st, op, None, None, can_crash && op != Op::Reopen);
            sink.evals += 1;
            let mut ok = self.monitor(l, &r.mon, st, op, sink);
            let (le, wok) = self.wear(l, &r.mon, st, op, sink);
            ok &= wok;
            if let Res::Panic(p) = &r.res {
                sink.viol(l, "panic", format!("{op:?} panicked: {p}"));
                continue;
            }
            if self.o.dual && op != Op::Reopen {
                let u = self.exec(&st.mem, &st.wc, Cache::new_uncached(), op, None, None, false);
                let dl = lab(oi, M_DUAL, 0, 0);
                if u.res != r.res {
                    sink.viol(dl, "dual", format!("{op:?}: cached storage returned {:?}, uncached storage {:?}", r.res, u.res));
                    ok = false;
                } else if u.fl_mem != r.fl_mem {
                    let i = (0..u.fl_mem.len()).find(|i| u.fl_mem[*i] != r.fl_mem[*i]).unwrap();
                    sink.viol(dl, "dual", format!("{op:?}: flash contents differ from those written by an uncached storage, first at offset {i}"));
                    ok = false;
                }
            }
            if r.res == Res::Err(Er::Full) && self.o.check_full {
                // a refused store leaves the contents alone
                for k in 0..self.o.keys.len() as u8 {
                    let a = self.run(st, Op::Fetch(k), None, None, false).res;
                    let b = self.exec(&r.fl_mem, &r.fl_wc, r.cache.clone(), Op::Fetch(k), None, None, false).res;
                    if a != b {
                        sink.viol(l, "full", format!("{op:?} was refused as full, but changed what key {} holds from {a:?} to {b:?}", self.o.keys[k as usize]));
                        ok = false;
                    }
                }
            }
            match self.judge(st, op, &r.res) {
                Err((c, m)) => {
                    sink.viol(l, c, m);
                    ok = false;
                }
                Ok(mask) => {
                    if self.o.format {
                        let got = self.by_format(&r.fl_mem);
                        if got != Ok(mask) {
                            sink.viol(l, "format", format!("after {op:?} the flash does not hold the contents in the documented format: {}", match got {
                                Ok(g) => (0..self.o.keys.len()).map(|k| format!("key {}: {} instead of {}", self.o.keys[k], self.show_mask(g[k]), self.show_mask(mask[k]))).collect::<Vec<_>>().join(", "),
                                Err(e) => e,
                            }));
                            ok = false;
                        }
                    }
                    if ok && scripted && self.o.pre[st.pre as usize % self.o.pre.len()] == op {
                        sink.edge(
                            lab(oi, M_SCRIPT, 0, 0),
                            St { mem: r.fl_mem.clone(), wc: r.fl_wc.clone(), cache: r.cache.clone(), mask, crashes: st.crashes, faults: st.faults, last_erase: le, pre: st.pre + 1, free: 0, after },
                        );
                    }
                    if ok && !last {
                        sink.edge(
                            l,
                            St { mem: r.fl_mem.clone(), wc: r.fl_wc.clone(), cache: r.cache, mask, crashes: st.crashes, faults: st.faults, last_erase: le, pre, free, after },
                        );
                    }
                }
            }
            if can_crash {
                let mask = self.cut_mask(st, op);
                for im in &r.mon.images {
                    sink.edge(
                        lab(oi, M_CRASH, im.op, im.units),
                        St { mem: im.mem.clone(), wc: im.wc.clone(), cache: (self.mk)(), mask, crashes: st.crashes + 1, faults: st.faults, last_erase: le, pre, free, after },
                    );
                }
            }
            if st.faults < self.o.faults && !last && op != Op::Reopen {
                for (j, rec) in r.mon.ops.iter().enumerate() {
                    for units in self.fault_units(rec) {
                        for kind in [FaultKind::Err, FaultKind::Pend] {
                            if (kind == FaultKind::Err && !self.o.fault_err) || (kind == FaultKind::Pend && !self.o.fault_pend) {
                                continue;
                            }
                            let fl = lab(oi, if kind == FaultKind::Err { M_ERR } else { M_PEND }, j as u32, units);
                            if kind == FaultKind::Err && op == Op::Iter && rec.kind == Kind::Read {
                                let f = self.exec2(&st.mem, &st.wc, st.cache.clone(), op, Some(Fault { op: j as u32, units, kind }), None, false, true);
                                sink.evals += 1;
                                if f.res != Res::Unit && f.res != r.res {
                                    sink.viol(lab(oi, M_RETRY, j as u32, units), "surface", format!("iteration continued after flash operation #{j} failed once: got {:?}, without the failure {:?}", f.res, r.res));
                                }
                            }
                            let f = self.run(st, op, Some(Fault { op: j as u32, units, kind }), None, false);
                            sink.evals += 1;
                            if !self.monitor(fl, &f.mon, st, op, sink) {
                                continue;
                            }
                            match (&f.res, kind) {
                                (Res::Panic(p), _) => {
                                    sink.viol(fl, "panic", format!("{op:?} panicked: {p}"));
                                    continue;
                                }
                                (Res::Err(Er::Injected(n)), FaultKind::Err) if *n == j as u32 => {}
                                (Res::Cancelled, FaultKind::Pend) => {}
                                (x, FaultKind::Err) => {
                                    sink.viol(fl, "surface", format!("{op:?}: flash operation #{j} ({:?}) failed but the call returned {x:?}", rec.kind));
                                    continue;
                                }
                                (x, _) => {
                                    sink.viol(fl, "surface", format!("{op:?}: dropped while pending but result {x:?}"));
                                    continue;
                                }
                            }
                            sink.edge(
                                fl,
                                St { mem: f.fl_mem, wc: f.fl_wc, cache: f.cache, mask: self.cut_mask(st, op), crashes: st.crashes, faults: st.faults + 1, last_erase: le, pre, free, after },
                            );
                        }
                    }
                }
            }
            if self.o.small_bufs && !last && op != Op::Reopen && op != Op::EraseAll {
                for n in 0..self.buf_len {
                    let fl = lab(oi, M_BUF, n as u32, 0);
                    let run = |n: usize| self.exec3(&st.mem, &st.wc, st.cache.clone(), op, None, None, false, false, n);
                    let f = run(n);
                    sink.evals += 1;
                    if !self.monitor(fl, &f.mon, st, op, sink) {
                        continue;
                    }
                    // a refused removal may have removed the item before it met one that does not fit in the buffer
                    let mut mask = if matches!(op, Op::Store(..)) { st.mask } else { self.cut_mask(st, op) };
                    match &f.res {
                        Res::Err(Er::BufTooSmall(need)) => {
                            // with what the error asks for the call gets further
                            let again = if *need > self.buf_len { Res::Err(Er::BufTooSmall(0)) } else { run(*need).res };
                            if matches!(again, Res::Err(Er::BufTooSmall(m)) if m <= *need) {
                                sink.viol(fl, "small", format!("{op:?} with a buffer of {n} bytes asks for {need} bytes, but with those gives {again:?}"));
                                continue;
                            }
                        }
                        Res::Err(Er::Ser) => {}
                        _ => match self.judge(st, op, &f.res) {
                            Err((c, m)) => {
                                sink.viol(fl, if c == "panic" { "panic" } else { "small" }, format!("with a buffer of {n} bytes: {m}"));
                                continue;
                            }
                            Ok(m) => mask = m,
                        },
                    }
                    sink.edge(
                        fl,
                        St { mem: f.fl_mem, wc: f.fl_wc, cache: f.cache, mask, crashes: st.crashes, faults: st.faults, last_erase: le, pre, free, after },
                    );
                }
            }
            if self.o.flips && op != Op::Reopen {
                for (j, rec) in r.mon.ops.iter().enumerate() {
                    if rec.kind != Kind::Read {
                        continue;
                    }
                    for bit in 0..rec.len * 8 {
                        let fl = lab(oi, M_FLIP, j as u32, bit);
                        let f = self.run(st, op, None, Some(Flip { op: j as u32, byte: bit / 8, bit: (bit % 8) as u8 }), false);
                        sink.evals += 1;
                        if let Res::Panic(p) = &f.res {
                            sink.viol(fl, "panic", format!("{op:?} panicked: {p}"));
                            continue;
                        }
                        match self.judge(st, op, &f.res) {
                            Err((_, m)) => sink.viol(fl, "flip", format!("one flipped bit in one read: {m}")),
                            _ if last => {}
                            Ok(mask) => sink.edge(
                                fl,
                                St { mem: f.fl_mem, wc: f.fl_wc, cache: f.cache, mask, crashes: st.crashes, faults: st.faults, last_erase: le, pre, free, after },
                            ),
                        }
                    }
                }
            }
        }
    }
}
