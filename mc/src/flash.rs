//! Simulated NOR flash with monitors, a fault plan and a crash-image recorder.
//!
//! `mem` is exactly the range the storage was given. Every access is checked against the NOR flash
//! contract (range, alignment, non-empty, only 1->0 programming, program count); breaches are recorded
//! in `mon.breach` and never silently tolerated.
use embedded_storage_async::nor_flash::*;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Read,
    Write,
    Erase,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct OpRec {
    pub kind: Kind,
    pub addr: u32,
    pub len: u32,
}

/// What happens at the chosen flash operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FaultKind {
    /// the flash call returns an error (after `units` bytes took effect)
    Err,
    /// the flash call never completes; the caller drops the future
    Pend,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Fault {
    /// index of the flash operation (reads, writes and erases counted together) within the API call
    pub op: u32,
    /// number of bytes that took effect before the fault
    pub units: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Flip {
    pub op: u32,
    pub byte: u32,
    pub bit: u8,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Image {
    pub mem: Vec<u8>,
    pub wc: Vec<u8>,
    /// flash op index and number of bytes done, for the label
    pub op: u32,
    pub units: u32,
}

#[derive(Clone, Default)]
pub struct Mon {
    pub ops: Vec<OpRec>,
    pub n_ops: u32,
    pub breach: Option<String>,
    /// programming of a word that already contained data (not merely clearing header bits)
    pub fault: Option<Fault>,
    pub fired: bool,
    pub flip: Option<Flip>,
    pub flipped: bool,
    pub record_images: bool,
    pub images: Vec<Image>,
    /// `(page, had any programmed byte)` for every erase
    pub erased_pages: Vec<(usize, bool)>,
    pub max_wc: u8,
    /// second (or later) program of a word that was not "header rewritten with zero checksum" or identical
    pub rewrote: Option<String>,
    pub limit: u32,
}

#[derive(Clone)]
pub struct Fl<const R: usize, const W: usize, const E: usize> {
    pub mem: Vec<u8>,
    /// program count per WRITE_SIZE word since the last erase
    pub wc: Vec<u8>,
    pub base: u32,
    /// bytes per erase unit used for torn-erase images
    pub erase_step: usize,
    pub mon: Mon,
}

impl<const R: usize, const W: usize, const E: usize> Hash for Fl<R, W, E> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write(&self.mem);
        h.write(&self.wc);
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FlErr {
    /// fault injected by the plan; carries the flash op index
    Injected(u32),
    OutOfBounds,
    NotAligned,
}
impl NorFlashError for FlErr {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            FlErr::OutOfBounds => NorFlashErrorKind::OutOfBounds,
            FlErr::NotAligned => NorFlashErrorKind::NotAligned,
            _ => NorFlashErrorKind::Other,
        }
    }
}

pub const OP_LIMIT: u32 = 200_000;

impl<const R: usize, const W: usize, const E: usize> Fl<R, W, E> {
    pub const WORD: usize = if R > W { R } else { W };
    pub fn new(pages: usize, base_pages: usize) -> Self {
        Fl {
            mem: vec![0xFF; pages * E],
            wc: vec![0; pages * E / W],
            base: (base_pages * E) as u32,
            erase_step: 1,
            mon: Mon::default(),
        }
    }
    pub fn from_img(mem: &[u8], wc: &[u8], base: u32) -> Self {
        Fl { mem: mem.to_vec(), wc: wc.to_vec(), base, erase_step: 1, mon: Mon::default() }
    }
    pub fn range(&self) -> std::ops::Range<u32> {
        self.base..self.base + self.mem.len() as u32
    }
    fn breach(&mut self, s: String) {
        if self.mon.breach.is_none() {
            self.mon.breach = Some(s);
        }
    }
    fn enter(&mut self, kind: Kind, addr: u32, len: u32) -> u32 {
        #[cfg(feature = "ring")]
        if let Some(s) = crate::ring::flash_access() {
            self.breach(s);
        }
        let n = self.mon.n_ops;
        self.mon.n_ops += 1;
        self.mon.ops.push(OpRec { kind, addr, len });
        let lim = if self.mon.limit == 0 { OP_LIMIT } else { self.mon.limit };
        if n > lim {
            panic!("HANG: more than {lim} flash operations in one API call");
        }
        n
    }
    fn fault_at(&mut self, n: u32) -> Option<Fault> {
        match self.mon.fault {
            Some(f) if f.op == n && !self.mon.fired => {
                self.mon.fired = true;
                Some(f)
            }
            _ => None,
        }
    }
    async fn fire(&mut self, f: Fault) -> Result<(), FlErr> {
        match f.kind {
            FaultKind::Err => Err(FlErr::Injected(f.op)),
            FaultKind::Pend => {
                #[cfg(feature = "ring")]
                crate::ring::FIRED.with(|f| f.set(true));
                std::future::pending().await
            }
        }
    }
    fn image(&mut self, op: u32, units: u32) {
        if self.mon.record_images {
            let same = match self.mon.images.last() {
                Some(i) => i.mem == self.mem,
                None => false,
            };
            if !same {
                let im = Image { mem: self.mem.clone(), wc: self.wc.clone(), op, units };
                self.mon.images.push(im);
            }
        }
    }
    pub fn page(&self, i: usize) -> &[u8] {
        &self.mem[i * E..(i + 1) * E]
    }
}

impl<const R: usize, const W: usize, const E: usize> ErrorType for Fl<R, W, E> {
    type Error = FlErr;
}

impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for Fl<R, W, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), FlErr> {
        let n = self.enter(Kind::Read, offset, bytes.len() as u32);
        if bytes.is_empty() {
            self.breach(format!("empty read at {offset:#x}"));
        }
        if offset as usize % R != 0 || bytes.len() % R != 0 {
            self.breach(format!("unaligned read {offset:#x}+{}", bytes.len()));
            return Err(FlErr::NotAligned);
        }
        let end = offset as u64 + bytes.len() as u64;
        if offset < self.base || end > self.range().end as u64 {
            self.breach(format!("read outside the given range: {offset:#x}+{}", bytes.len()));
            return Err(FlErr::OutOfBounds);
        }
        let o = (offset - self.base) as usize;
        if let Some(f) = self.fault_at(n) {
            // the buffer of a failed read holds an arbitrary mixture
            for (i, b) in bytes.iter_mut().enumerate() {
                *b = if (i as u32) < f.units { self.mem[o + i] } else { 0xA5 };
            }
            return self.fire(f).await;
        }
        bytes.copy_from_slice(&self.mem[o..o + bytes.len()]);
        if let Some(fl) = self.mon.flip {
            if fl.op == n && (fl.byte as usize) < bytes.len() && !self.mon.flipped {
                self.mon.flipped = true;
                bytes[fl.byte as usize] ^= 1 << fl.bit;
            }
        }
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.range().end as usize
    }
}

impl<const R: usize, const W: usize, const E: usize> NorFlash for Fl<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), FlErr> {
        let n = self.enter(Kind::Erase, from, to.wrapping_sub(from));
        if from >= to {
            self.breach(format!("empty or reversed erase {from:#x}..{to:#x}"));
            return Err(FlErr::NotAligned);
        }
        if from as usize % E != 0 || to as usize % E != 0 {
            self.breach(format!("unaligned erase {from:#x}..{to:#x}"));
            return Err(FlErr::NotAligned);
        }
        if from < self.base || to > self.range().end {
            self.breach(format!("erase outside the given range: {from:#x}..{to:#x}"));
            return Err(FlErr::OutOfBounds);
        }
        let (a, b) = ((from - self.base) as usize, (to - self.base) as usize);
        for p in a / E..b / E {
            let used = self.mem[p * E..(p + 1) * E].iter().any(|x| *x != 0xFF)
                || self.wc[p * E / W..(p + 1) * E / W].iter().any(|x| *x != 0);
            self.mon.erased_pages.push((p, used));
        }
        let f = self.fault_at(n);
        let todo = f.map(|f| (f.units as usize).min(b - a)).unwrap_or(b - a);
        for i in 0..todo {
            self.mem[a + i] = 0xFF;
            if (a + i) % W == W - 1 || W == 1 {
                self.wc[(a + i) / W] = 0;
            }
            if (i + 1) % self.erase_step == 0 || i + 1 == todo {
                self.image(n, i as u32 + 1);
            }
        }
        if let Some(f) = f {
            return self.fire(f).await;
        }
        Ok(())
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), FlErr> {
        let n = self.enter(Kind::Write, offset, bytes.len() as u32);
        if bytes.is_empty() {
            self.breach(format!("empty write at {offset:#x}"));
        }
        if offset as usize % W != 0 || bytes.len() % W != 0 {
            self.breach(format!("unaligned write {offset:#x}+{}", bytes.len()));
            return Err(FlErr::NotAligned);
        }
        if bytes.as_ptr() as usize % 4 != 0 {
            self.breach(format!("write of {offset:#x}+{} from a RAM buffer not aligned to 4 bytes", bytes.len()));
        }
        let end = offset as u64 + bytes.len() as u64;
        if offset < self.base || end > self.range().end as u64 {
            self.breach(format!("write outside the given range: {offset:#x}+{}", bytes.len()));
            return Err(FlErr::OutOfBounds);
        }
        let o = (offset - self.base) as usize;
        let f = self.fault_at(n);
        let todo = f.map(|f| (f.units as usize).min(bytes.len())).unwrap_or(bytes.len());
        for (i, b) in bytes.iter().take(todo).enumerate() {
            let a = o + i;
            if i % W == 0 {
                if self.wc[a / W] > 0 && self.mon.rewrote.is_none() {
                    let old = &self.mem[a..a + W];
                    let new = &bytes[i..i + W];
                    // only clearing bits is possible; asking for a 0 -> 1 change would be silently lost
                    if old.iter().zip(new).any(|(o, n)| *o & *n != *n) {
                        self.mon.rewrote =
                            Some(format!("word at {:#x} holds {old:02x?}, programmed with {new:02x?}", offset as usize + i));
                    }
                }
                self.wc[a / W] = self.wc[a / W].saturating_add(1).min(9);
                self.mon.max_wc = self.mon.max_wc.max(self.wc[a / W]);
            }
            self.mem[a] &= *b;
            self.image(n, i as u32 + 1);
        }
        if let Some(f) = f {
            return self.fire(f).await;
        }
        Ok(())
    }
}

impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for Fl<R, W, E> {}

/// RAM buffer aligned like a careful user would align it.
#[repr(align(32))]
pub struct Buf<const N: usize>(pub [u8; N]);

/// A heap buffer aligned to 16 bytes.
pub struct ABuf(Vec<u128>, usize);
impl ABuf {
    pub fn new(len: usize, fill: u8) -> Self {
        ABuf(vec![u128::from_ne_bytes([fill; 16]); len.div_ceil(16)], len)
    }
    pub fn get(&mut self) -> &mut [u8] {
        let n = self.1;
        unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr().cast::<u8>(), n) }
    }
}
