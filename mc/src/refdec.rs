//! Independent reference encoder/decoder of the on-flash format, written from the format description, not
//! from the library code (different CRC algorithm structure: table driven / bit-serial over the message).

pub fn crc32c_adapted(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0x82F6_3B78 ^ (c >> 1) } else { c >> 1 };
            }
            t[i as usize] = c;
        }
        t
    });
    let mut c = 0xEEEE_EEEEu32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xFF) as usize] ^ (c >> 8);
    }
    c ^= 0xFFFF_FFFF;
    if c == 0 {
        return 1;
    }
    if c & 0xFF == 0 || c & 0xFF == 0xFF {
        c ^= 1;
    }
    c
}
pub fn crc16_len(len: u16) -> u16 {
    let mut c: u32 = 0xFFFF;
    for b in len.to_le_bytes() {
        for i in 0..8 {
            let bit = (c & 1) ^ ((b as u32 >> i) & 1);
            c >>= 1;
            if bit != 0 {
                c ^= 0x1A2E;
            }
        }
    }
    c ^= 0xFFFF;
    if c == 0xFFFF {
        0xFFFE
    } else {
        c as u16
    }
}
pub fn up(v: usize, w: usize) -> usize {
    v.div_ceil(w) * w
}
/// Bytes an item of `len` data bytes occupies.
pub fn item_size(len: usize, word: usize) -> usize {
    up(8, word) + up(len, word)
}
/// Encode an item as it must appear in flash.
pub fn encode(data: &[u8], word: usize) -> Vec<u8> {
    let mut v = vec![];
    v.extend(crc32c_adapted(data).to_le_bytes());
    v.extend((data.len() as u16).to_le_bytes());
    v.extend(crc16_len(data.len() as u16).to_le_bytes());
    v.resize(up(8, word), 0xFF);
    v.extend(data);
    let n = item_size(data.len(), word);
    v.resize(n, 0);
    v
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PState {
    Open,
    Partial,
    Closed,
    Bad,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum IState {
    Live,
    Removed,
    Bad,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Item {
    pub off: usize,
    pub len: usize,
    pub state: IState,
    pub data: Vec<u8>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Page {
    pub state: PState,
    pub items: Vec<Item>,
    /// offset of the first free byte
    pub free_at: usize,
    /// end of the item area
    pub end: usize,
}
pub fn page_state(page: &[u8], read: usize) -> PState {
    let z = |b: &[u8]| b.iter().map(|x| x.count_zeros()).sum::<u32>() >= 4;
    match (z(&page[..read]), z(&page[page.len() - read..])) {
        (true, true) => PState::Closed,
        (true, false) => PState::Partial,
        (false, false) => PState::Open,
        (false, true) => PState::Bad,
    }
}
pub fn decode_page(page: &[u8], read: usize, word: usize) -> Page {
    let end = page.len() - word;
    let mut off = word;
    let h = up(8, word);
    let mut items = vec![];
    while off + h <= end {
        let hd = &page[off..off + h];
        if hd.iter().all(|b| *b == 0xFF) {
            break;
        }
        let crc = u32::from_le_bytes(hd[0..4].try_into().unwrap());
        let len = u16::from_le_bytes(hd[4..6].try_into().unwrap());
        let lc = u16::from_le_bytes(hd[6..8].try_into().unwrap());
        let sz = item_size(len as usize, word);
        if crc16_len(len) != lc || off + sz > end {
            off += word;
            continue;
        }
        let data = page[off + h..off + h + len as usize].to_vec();
        let state = if crc == 0 {
            IState::Removed
        } else if crc == crc32c_adapted(&data) {
            IState::Live
        } else {
            IState::Bad
        };
        items.push(Item { off, len: len as usize, state, data });
        off += sz;
    }
    Page { state: page_state(page, read), items, free_at: off, end }
}

/// The pages in use, oldest first.
pub fn age_order(pages: &[Page]) -> Vec<usize> {
    let n = pages.len();
    let cur = pages
        .iter()
        .position(|p| p.state == PState::Partial)
        .or_else(|| (0..n).find(|i| pages[*i].state == PState::Closed && pages[(i + 1) % n].state == PState::Open));
    match cur {
        None => vec![],
        Some(c) => (1..=n).map(|i| (c + i) % n).filter(|i| matches!(pages[*i].state, PState::Partial | PState::Closed)).collect(),
    }
}
/// Every single-byte damage worth looking at: `(page, offset of the item it makes unreadable, address, new byte)`.
pub fn damages(pages: &[Page], mem: &[u8], read: usize, word: usize, erase: usize, len_too: bool) -> Vec<(usize, Option<usize>, usize, u8)> {
    let mut out = vec![];
    let h = up(8, word);
    for (p, pg) in pages.iter().enumerate() {
        for i in [0, erase - read] {
            for b in 0..read {
                for bit in [0, 7] {
                    let a = p * erase + i + b;
                    out.push((p, None, a, mem[a] ^ 1 << bit));
                }
            }
        }
        if !matches!(pg.state, PState::Partial | PState::Closed) {
            continue;
        }
        for it in &pg.items {
            let o = p * erase + it.off;
            let mut push = |a: usize, lost: bool| {
                let mut v = vec![mem[a] ^ 1, mem[a] ^ 0x80, 0, 0xFF];
                v.retain(|x| *x != mem[a]);
                v.sort();
                v.dedup();
                for x in v {
                    out.push((p, lost.then_some(it.off), a, x));
                }
            };
            for i in 0..it.len {
                push(o + h + i, it.state == IState::Live);
            }
            if it.state == IState::Live {
                for i in 0..4 {
                    push(o + i, true);
                }
            }
            if len_too {
                for i in 4..8 {
                    push(o + i, it.state == IState::Live);
                }
            }
        }
    }
    out
}

/// The items of a page, `(data, live)`, if the page is byte for byte what the format asks for (padding left open).
pub fn strict(page: &[u8], read: usize, word: usize) -> Result<(PState, Vec<(Vec<u8>, bool)>), String> {
    let n = page.len();
    let mark = |b: &[u8]| match b {
        b if b.iter().all(|x| *x == 0xFF) => Ok(false),
        b if b.iter().all(|x| *x == 0) => Ok(true),
        b => Err(format!("page marker {b:02x?}")),
    };
    let state = match (mark(&page[..word])?, mark(&page[n - word..])?) {
        (false, false) => PState::Open,
        (true, false) => PState::Partial,
        (true, true) => PState::Closed,
        (false, true) => return Err("page with an end marker but no start marker".into()),
    };
    let _ = read;
    let (h, end) = (up(8, word), n - word);
    let mut off = word;
    let mut items = vec![];
    while off < end {
        if page[off..(off + h).min(end)].iter().all(|b| *b == 0xFF) {
            if page[off..end].iter().any(|b| *b != 0xFF) {
                return Err(format!("data behind the end of the items at {off}"));
            }
            break;
        }
        if off + h > end {
            return Err(format!("no room for an item header at {off}"));
        }
        let len = u16::from_le_bytes(page[off + 4..off + 6].try_into().unwrap()) as usize;
        let sz = item_size(len, word);
        if off + sz > end {
            return Err(format!("item at {off} with length {len} reaches beyond the page"));
        }
        let data = &page[off + h..off + h + len];
        let enc = encode(data, word);
        if enc[4..8] != page[off + 4..off + 8] {
            return Err(format!("header of the item at {off} is {:02x?}, should end with {:02x?}", &page[off..off + 8], &enc[4..8]));
        }
        let live = page[off..off + 4] == enc[..4];
        if !live && page[off..off + 4] != [0; 4] {
            return Err(format!("checksum of the item at {off} is {:02x?}, should be {:02x?} or zero", &page[off..off + 4], &enc[..4]));
        }
        items.push((data.to_vec(), live));
        off += sz;
    }
    if state == PState::Open && !items.is_empty() {
        return Err("items on a page that is not in use".into());
    }
    Ok((state, items))
}
/// The live items of all pages, oldest first; an error if anything is not as the format asks for.
pub fn strict_all(mem: &[u8], read: usize, word: usize, erase: usize) -> Result<Vec<Vec<u8>>, String> {
    let n = mem.len() / erase;
    let mut pages = vec![];
    for p in 0..n {
        pages.push(strict(&mem[p * erase..(p + 1) * erase], read, word).map_err(|e| format!("page {p}: {e}"))?);
    }
    let part: Vec<usize> = (0..n).filter(|p| pages[*p].0 == PState::Partial).collect();
    if part.len() > 1 {
        return Err(format!("pages {part:?} are all partially open"));
    }
    let Some(cur) = part.first() else {
        return if pages.iter().all(|p| p.0 == PState::Open) { Ok(vec![]) } else { Err("no current page".into()) };
    };
    Ok((1..=n).flat_map(|i| pages[(cur + i) % n].1.iter().filter(|i| i.1).map(|i| i.0.clone())).collect())
}
/// Every arrangement of up to `max` items (live or removed) on one page.
pub fn arrangements(items: &[Vec<u8>], max: usize, word: usize, erase: usize) -> Vec<Vec<(usize, bool)>> {
    let mut out: Vec<Vec<(usize, bool)>> = vec![vec![]];
    let mut level = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for a in &level {
            for i in 0..items.len() {
                for live in [true, false] {
                    let mut b = a.clone();
                    b.push((i, live));
                    if b.iter().map(|x| item_size(items[x.0].len(), word)).sum::<usize>() <= erase - 2 * word {
                        next.push(b);
                    }
                }
            }
        }
        out.extend(next.clone());
        level = next;
    }
    out
}
pub fn build_page(state: PState, arr: &[(usize, bool)], items: &[Vec<u8>], word: usize, erase: usize) -> Vec<u8> {
    let mut v = vec![if state == PState::Open { 0xFF } else { 0 }; word];
    for (i, live) in arr {
        let mut e = encode(&items[*i], word);
        if !live {
            e[..4].fill(0);
        }
        v.extend(e);
    }
    v.resize(erase - word, 0xFF);
    v.resize(erase, if state == PState::Closed { 0 } else { 0xFF });
    v
}
/// Images of a whole flash made by the reference encoder: `closed` closed pages followed by the current one, at every
/// position, each page with every arrangement of items. Returns `(image, live items oldest first)`.
pub fn images(pages: usize, closed: usize, items: &[Vec<u8>], max: usize, word: usize, erase: usize) -> Vec<(Vec<u8>, Vec<usize>)> {
    let arr = arrangements(items, max, word, erase);
    let mut out = vec![];
    let total = arr.len().pow(closed as u32 + 1);
    for cur in 0..pages {
        for mut x in 0..total {
            let mut mem = vec![0xFF; pages * erase];
            let mut live = vec![];
            for i in 0..=closed {
                let a = &arr[x % arr.len()];
                x /= arr.len();
                let p = (cur + pages - closed + i) % pages;
                let st = if i == closed { PState::Partial } else { PState::Closed };
                mem[p * erase..(p + 1) * erase].copy_from_slice(&build_page(st, a, items, word, erase));
                live.extend(a.iter().filter(|x| x.1).map(|x| x.0));
            }
            out.push((mem, live));
        }
    }
    out
}
