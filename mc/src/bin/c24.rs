//! Built-in key and value types: every value survives, and what does not fit or is malformed is refused without a panic.
use mc::caches::*;
use mc::engine::Stats;
use mc::flash::{ABuf, Fl};
use mc::map;
use mc::map::{MapSys, TKey};
use mc::report::Check;
use mc::util::{catching, drive, hex, Res};
use sequential_storage::cache::Cache;
use sequential_storage::map::{Key, MapConfig, MapStorage, PostcardValue, SerializationError, Value};
use std::fmt::Debug;

struct Ctx {
    evals: u64,
    bad: Option<String>,
}
impl Ctx {
    fn no(&mut self, s: String) {
        if self.bad.is_none() {
            self.bad = Some(s);
        }
    }
}
type Sr<T> = Result<T, SerializationError>;
fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catching(f)
}
/// Byte strings to decode: all up to 2 bytes, longer ones over a few telling bytes.
fn raws() -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for a in 0..=255u8 {
        v.push(vec![a]);
        for b in 0..=255u8 {
            v.push(vec![a, b]);
        }
    }
    let al = [0u8, 1, 2, 3, 5, 0x41, 0x80, 0xC3, 0xFF];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for n in 1..=5 {
        level = level.iter().flat_map(|x| al.iter().map(move |a| [&x[..], &[*a]].concat())).collect();
        if n >= 3 {
            v.extend(level.clone());
        }
    }
    for n in 6..=20 {
        for first in [0u8, 1, 4, 8, 0x41, 0xFF] {
            for fill in [0u8, 1, 0x41, 0xFF] {
                let mut x = vec![fill; n];
                x[0] = first;
                v.push(x.clone());
                x[1] = 0;
                v.push(x);
            }
        }
    }
    v
}
/// Writing into every buffer length.
fn ser(c: &mut Ctx, what: &str, want: &[u8], f: &dyn Fn(&mut [u8]) -> Sr<usize>) {
    for n in 0..=want.len() + 9 {
        let mut b = vec![0xEE; n];
        let r = call(|| f(&mut b));
        c.evals += 1;
        let ok = match &r {
            Ok(Err(SerializationError::BufferTooSmall)) => n < want.len(),
            Ok(Ok(m)) => n >= want.len() && *m == want.len() && b[..*m] == *want,
            _ => false,
        };
        if !ok {
            c.no(format!("{what}: serializing into {n} bytes gives {r:?} and {}, the encoding is {}", hex(&b), hex(want)));
        }
    }
}
fn keys<K: Key + Debug>(c: &mut Ctx, name: &str, vals: &[K], enc: impl Fn(&K) -> Vec<u8>) {
    for k in vals {
        let want = enc(k);
        let what = format!("key {name} {k:?}");
        ser(c, &what, &want, &|b| k.serialize_into(b));
        for suffix in [&[][..], &[0], &[0xFF, 0xFF], &[1, 2, 3, 4, 5]] {
            let b = [&want[..], suffix].concat();
            let r = call(|| (K::deserialize_from(&b), K::get_len(&b)));
            c.evals += 1;
            if !matches!(&r, Ok((Ok((k2, n)), Ok(m))) if k2 == k && *n == want.len() && *m == want.len()) {
                c.no(format!("{what}: its encoding followed by {suffix:?} decodes to {r:?}"));
            }
        }
        for n in 0..want.len() {
            let r = call(|| (K::deserialize_from(&want[..n]), K::get_len(&want[..n])));
            c.evals += 1;
            if !matches!(&r, Ok((Err(_), Err(_) | Ok(_)))) {
                c.no(format!("{what}: the first {n} bytes of its encoding decode to {r:?}"));
            }
        }
    }
    for b in raws() {
        let r = call(|| (K::deserialize_from(&b), K::get_len(&b)));
        c.evals += 1;
        match &r {
            Err(_) => c.no(format!("key {name}: decoding {b:02x?} panics")),
            Ok((Ok((k, n)), l)) => {
                if *n > b.len() || enc(k) != b[..*n] || *l != Ok(*n) {
                    c.no(format!("key {name}: {b:02x?} decodes to {k:?} with length {n}, get_len {l:?}"));
                }
            }
            Ok((Err(_), _)) => {}
        }
    }
}
macro_rules! values { ($c:expr, $name:expr, $t:ty, $vals:expr, $enc:expr, $fixed:expr, $strict:expr) => {{
    let c: &mut Ctx = $c;
    let enc: &dyn Fn(&$t) -> Vec<u8> = &$enc;
    let name: &str = $name;
    for v in $vals.iter() {
        let want = enc(v);
        let what = format!("value {name} {v:?}");
        ser(c, &what, &want, &|b| Value::serialize_into(v, b));
        for suffix in if $fixed { vec![&[][..], &[0], &[0xFF, 0xFF], &[1, 2, 3]] } else { vec![&[][..]] } {
            let b = [&want[..], suffix].concat();
            let r = call(|| <$t as Value>::deserialize_from(&b));
            c.evals += 1;
            if !matches!(&r, Ok(Ok((v2, n))) if format!("{v2:?}") == format!("{v:?}") && enc(v2) == want && *n == want.len()) {
                c.no(format!("{what}: its encoding followed by {suffix:?} decodes to {r:?}"));
            }
        }
        if $fixed {
            for n in 0..want.len() {
                let r = call(|| <$t as Value>::deserialize_from(&want[..n]));
                c.evals += 1;
                if !matches!(&r, Ok(Err(_))) {
                    c.no(format!("{what}: the first {n} bytes of its encoding decode to {r:?}"));
                }
            }
        }
        // through a map, in flash
        let mut mem = vec![0xFFu8; 3 * 2048];
        let mut wc = vec![0u8; 3 * 512];
        for round in 0..2 {
            let mut store = ABuf::new((want.len() + 1).div_ceil(4) * 4, 0x3C);
            let mut step = |what: &str, want: Res, f: &mut dyn FnMut(&mut MapStorage<u8, Fl<4, 4, 2048>, Un<u8>>, &mut [u8]) -> Res| {
                let fl = Fl::<4, 4, 2048>::from_img(&mem, &wc, 0);
                let cfg = MapConfig::new(fl.range());
                let mut s = MapStorage::new(fl, cfg, Cache::new_uncached());
                let r = f(&mut s, store.get());
                let (fl, _) = s.destroy();
                (mem, wc) = (fl.mem, fl.wc);
                c.evals += 1;
                if r != want {
                    c.no(format!("value {name} {v:?} in a map, round {round}: {what} gives {r:?}, not {want:?}"));
                }
            };
            let some = Res::Val(Some(want.clone()));
            for k in [7u8, 9] {
                step("store", Res::Unit, &mut |s, b| drive(async { s.store_item(b, &k, v).await?; Ok(Res::Unit) }));
                step("fetch", some.clone(), &mut |s, b| drive(async { Ok(Res::Val(s.fetch_item::<$t>(b, &k).await?.map(|v| enc(&v)))) }));
            }
            step("iterate", Res::List((0..2 * (round + 1)).map(|i| (vec![7 + 2 * (i % 2)], want.clone())).collect()), &mut |s, b| drive(async {
                let mut out = vec![];
                let mut it = s.fetch_all_items(b).await?;
                while let Some((k, v)) = it.next::<$t>(b).await? {
                    out.push((vec![k], enc(&v)));
                }
                Ok(Res::List(out))
            }));
        }
    }
    for b in raws() {
        let r = call(|| <$t as Value>::deserialize_from(&b));
        c.evals += 1;
        match &r {
            Err(_) => c.no(format!("value {name}: decoding {b:02x?} panics")),
            Ok(Ok((v, n))) if *n > b.len() || ($strict && enc(v) != b[..*n]) => c.no(format!("value {name}: {b:02x?} decodes to {v:?} with length {n}")),
            _ => {}
        }
    }
}}}
macro_rules! tkey { ($t:ty, $f:expr) => {
    impl TKey2 for $t {
        fn mk2(i: u8) -> Self {
            const N: [&str; 4] = ["", "a", "ab", "b"];
            let f: fn(&str) -> $t = $f;
            f(N[i as usize])
        }
    }
}}
trait TKey2: Key + std::hash::Hash + Send + Sync {
    fn mk2(i: u8) -> Self;
}
/// A built-in key type used in the map worlds.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Bk<T>(T);
impl<T: TKey2> Key for Bk<T> {
    fn serialize_into(&self, b: &mut [u8]) -> Sr<usize> {
        self.0.serialize_into(b)
    }
    fn deserialize_from(b: &[u8]) -> Sr<(Self, usize)> {
        T::deserialize_from(b).map(|(k, n)| (Bk(k), n))
    }
    fn get_len(b: &[u8]) -> Sr<usize> {
        T::get_len(b)
    }
}
impl<T: TKey2> TKey for Bk<T> {
    fn mk(i: u8) -> Self {
        Bk(T::mk2(i))
    }
    fn ser_len(&self) -> usize {
        let mut b = [0; 64];
        self.0.serialize_into(&mut b).unwrap()
    }
}
type HVec = heapless_dep::Vec<u8, 4>;
type HStr = heapless_dep::String<4>;
type HVec9 = heapless_09_dep::Vec<u8, 4>;
type HStr9 = heapless_09_dep::String<4>;
type AVec = arrayvec_dep::ArrayVec<u8, 4>;
type AStr = arrayvec_dep::ArrayString<4>;
tkey!(String, |s| s.into());
tkey!(Vec<u8>, |s| s.as_bytes().into());
tkey!(AStr, |s| s.try_into().unwrap());
tkey!(AVec, |s| s.bytes().collect());
tkey!(HStr, |s| s.try_into().unwrap());
tkey!(HVec, |s| s.bytes().collect());
tkey!(HStr9, |s| s.try_into().unwrap());
tkey!(HVec9, |s| s.bytes().collect());
tkey!([u8; 3], |s| [s.len() as u8, 0xFF, s.bytes().next().unwrap_or(0)]);
tkey!(u16, |s| s.bytes().fold(s.len() as u16 * 256, |a, b| a ^ b as u16));
tkey!(i32, |s| -(s.len() as i32) * 1000 - s.bytes().next().unwrap_or(0) as i32);
tkey!(u128, |s| u128::MAX / (1 + s.len() as u128 + s.bytes().next().unwrap_or(0) as u128));

#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct Pc<'a> {
    a: u8,
    b: bool,
    s: &'a str,
}
impl<'a> PostcardValue<'a> for Pc<'a> {}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
enum Pe {
    A,
    B(u8, i8),
    C { x: Option<u8> },
}
impl<'a> PostcardValue<'a> for Pe {}

fn pre(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u16).to_le_bytes()[..], b].concat()
}
fn strs(max: usize) -> Vec<String> {
    let al = ["\0", "a", "\u{7f}", "\u{e9}", "\u{20ac}", "\u{1f600}"];
    let mut out = vec![String::new()];
    let mut level = out.clone();
    for _ in 0..4 {
        level = level.iter().flat_map(|s| al.iter().map(move |a| format!("{s}{a}"))).filter(|s| s.len() <= max).collect();
        out.extend(level.clone());
    }
    out
}
fn vecs(max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<u8>> = out.clone();
    for _ in 0..max {
        level = level.iter().flat_map(|s| [0u8, 1, 2, 0x41, 0xFF].map(|a| [&s[..], &[a]].concat())).collect();
        out.extend(level.clone());
    }
    out
}
macro_rules! ints { ($c:expr, $($t:ident)*) => {$({
    let mut v: Vec<$t> = vec![];
    if size_of::<$t>() <= 2 {
        v.extend($t::MIN..=$t::MAX);
    } else {
        v.extend([0, 1, $t::MIN, $t::MAX, $t::MAX / 2, $t::MAX - 1, $t::MIN + 1]);
        for i in 0..$t::BITS {
            v.extend([(1 as $t) << i, !((1 as $t) << i)]);
        }
        for i in 0..size_of::<$t>() {
            v.extend([(0x5A as $t) << (8 * i), (0x81u8 as $t) << (8 * i)]);
        }
    }
    keys($c, stringify!($t), &v, |x| x.to_le_bytes().to_vec());
    let few: Vec<$t> = v.iter().step_by(v.len().div_ceil(600)).copied().chain([$t::MIN, $t::MAX]).collect();
    values!($c, stringify!($t), $t, few, |x: &$t| x.to_le_bytes().to_vec(), true, true);
    let arr: Vec<[$t; 3]> = few.windows(3).step_by(3).map(|w| [w[0], w[1], w[2]]).collect();
    values!($c, concat!("[", stringify!($t), "; 3]"), [$t; 3], arr, |x: &[$t; 3]| x.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>(), true, true);
    let one: Vec<[$t; 1]> = few.iter().step_by(7).map(|w| [*w]).collect();
    values!($c, concat!("[", stringify!($t), "; 1]"), [$t; 1], one, |x: &[$t; 1]| x[0].to_le_bytes().to_vec(), true, true);
    values!($c, concat!("[", stringify!($t), "; 0]"), [$t; 0], [[]], |_: &[$t; 0]| vec![], true, true);
    let opt: Vec<Option<$t>> = few.iter().step_by(5).map(|x| Some(*x)).chain([None]).collect();
    values!($c, concat!("Option<", stringify!($t), ">"), Option<$t>, opt, |x: &Option<$t>| x.map_or(vec![0], |x| [&[1][..], &x.to_le_bytes()].concat()), true, false);
})*}}

fn main() {
    let mut c = Check::new("C24", &["val", "iter", "fetch_err", "iter_err", "store_err", "remove_err", "full", "small", "panic"]);
    let t0 = std::time::Instant::now();
    let x = &mut Ctx { evals: 0, bad: None };
    if c.wants("codecs") {
        ints!(x, u8 i8 u16 i16 u32 i32 u64 i64 u128 i128);
        let f32s: Vec<f32> = [0u32, 1, 0x8000_0000, 0x3F80_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0001, 0x7F80_0001, 0x0080_0000, u32::MAX].map(f32::from_bits).to_vec();
        values!(x, "f32", f32, f32s, |v: &f32| v.to_bits().to_le_bytes().to_vec(), true, true);
        values!(x, "[f32; 2]", [f32; 2], f32s.windows(2).map(|w| [w[0], w[1]]).collect::<Vec<_>>(), |v: &[f32; 2]| v.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect::<Vec<u8>>(), true, true);
        let f64s: Vec<f64> = [0u64, 1, 1 << 63, 0x3FF0 << 48, 0x7FF0 << 48, 0xFFF0 << 48, (0x7FF8 << 48) + 1, (0x7FF0 << 48) + 1, u64::MAX].map(f64::from_bits).to_vec();
        values!(x, "f64", f64, f64s, |v: &f64| v.to_bits().to_le_bytes().to_vec(), true, true);
        values!(x, "bool", bool, [false, true], |v: &bool| vec![*v as u8], true, false);
        values!(x, "Option<Option<bool>>", Option<Option<bool>>, [None, Some(None), Some(Some(false)), Some(Some(true))], |v: &Option<Option<bool>>| match v {
            None => vec![0],
            Some(None) => vec![1, 0],
            Some(Some(b)) => vec![1, 1, *b as u8],
        }, true, false);
        let vs = vecs(4);
        let sl: Vec<&[u8]> = vs.iter().map(|v| &v[..]).collect();
        values!(x, "&[u8]", &[u8], sl, |v: &&[u8]| v.to_vec(), false, true);
        let long: Vec<u8> = (0..=255).collect();
        let sl: Vec<&[u8]> = (0..=256).map(|n| &long[..n]).collect();
        values!(x, "&[u8]", &[u8], sl, |v: &&[u8]| v.to_vec(), false, true);
        let ol: Vec<Option<&[u8]>> = sl.iter().step_by(9).map(|v| Some(*v)).chain([None]).collect();
        values!(x, "Option<&[u8]>", Option<&[u8]>, ol, |v: &Option<&[u8]>| v.map_or(vec![0], |v| [&[1][..], v].concat()), false, false);
        values!(x, "Vec<u8>", Vec<u8>, vs, |v: &Vec<u8>| v.clone(), false, true);
        let ss = strs(8);
        values!(x, "String", String, ss, |v: &String| v.as_bytes().to_vec(), false, true);
        let hv: Vec<HVec> = vs.iter().map(|v| v.iter().copied().collect()).collect();
        values!(x, "heapless::Vec", HVec, hv, |v: &HVec| v.to_vec(), false, true);
        let hv9: Vec<HVec9> = vs.iter().map(|v| v.iter().copied().collect()).collect();
        values!(x, "heapless-0.9 Vec", HVec9, hv9, |v: &HVec9| v.to_vec(), false, true);
        let s4 = strs(4);
        let hs: Vec<HStr> = s4.iter().map(|v| v.as_str().try_into().unwrap()).collect();
        values!(x, "heapless::String", HStr, hs, |v: &HStr| v.as_bytes().to_vec(), false, true);
        let hs9: Vec<HStr9> = s4.iter().map(|v| v.as_str().try_into().unwrap()).collect();
        values!(x, "heapless-0.9 String", HStr9, hs9, |v: &HStr9| v.as_bytes().to_vec(), false, true);
        let pcs: Vec<Pc> = ss.iter().take(40).enumerate().map(|(i, s)| Pc { a: (i * 7) as u8, b: i % 2 == 0, s }).collect();
        values!(x, "postcard struct", Pc, pcs, |v: &Pc| [&[v.a, v.b as u8, v.s.len() as u8][..], v.s.as_bytes()].concat(), false, false);
        values!(x, "postcard enum", Pe, [Pe::A, Pe::B(0, -1), Pe::B(255, 127), Pe::C { x: None }, Pe::C { x: Some(200) }], |v: &Pe| match v {
            Pe::A => vec![0],
            Pe::B(a, b) => vec![1, *a, *b as u8],
            Pe::C { x: None } => vec![2, 0],
            Pe::C { x: Some(x) } => vec![2, 1, *x],
        }, false, false);
        keys(x, "()", &[()], |_| vec![]);
        keys(x, "[u8; 0]", &[[]], |k: &[u8; 0]| k.to_vec());
        keys(x, "[u8; 1]", &[[0], [7], [255]], |k: &[u8; 1]| k.to_vec());
        keys(x, "[u8; 5]", &[[0; 5], [255; 5], [1, 2, 3, 4, 5]], |k: &[u8; 5]| k.to_vec());
        keys(x, "Vec<u8>", &vs, |k| pre(k));
        keys(x, "String", &ss, |k| pre(k.as_bytes()));
        keys(x, "ArrayVec", &vs.iter().map(|v| v.iter().copied().collect()).collect::<Vec<AVec>>(), |k| pre(k));
        keys(x, "ArrayString", &s4.iter().map(|v| v.as_str().try_into().unwrap()).collect::<Vec<AStr>>(), |k| pre(k.as_bytes()));
        keys(x, "heapless::Vec", &hv, |k| pre(k));
        keys(x, "heapless::String", &hs, |k| pre(k.as_bytes()));
        keys(x, "heapless-0.9 Vec", &hv9, |k| pre(k));
        keys(x, "heapless-0.9 String", &hs9, |k| pre(k.as_bytes()));
        // the length of a key takes two bytes
        for n in [65534usize, 65535, 65536] {
            for s in [false, true] {
                let mut b = vec![0; n + 10];
                let r = call(|| if s { "k".repeat(n).serialize_into2(&mut b) } else { Key::serialize_into(&vec![b'k'; n], &mut b) });
                x.evals += 1;
                let ok = if n > 65535 { matches!(r, Ok(Err(_))) } else { r == Ok(Ok(n + 2)) && b[..2] == (n as u16).to_le_bytes() && <Vec<u8> as Key>::deserialize_from(&b).is_ok_and(|k| k.0.len() == n && k.1 == n + 2) };
                if !ok {
                    x.no(format!("a key of {n} bytes serializes with {r:?}"));
                }
            }
        }
        let (evals, bad) = (x.evals, x.bad.take());
        let st = Stats { name: "codecs".into(), states: evals, transitions: evals, evals, closed: true, wall_s: t0.elapsed().as_secs_f64(), ..Default::default() };
        c.push_stats(st);
        if let Some(b) = bad {
            c.fail("codecs", &format!("[codec] {b}"), &[], &[]);
        }
    }
    // the variable length keys in whole maps, with and without a key cache
    let cap = c.pick(2_000_000, 40_000_000);
    macro_rules! m { ($($t:ty, $name:literal);*) => { $(
        for (n, cached) in [(concat!("map-", $name), false), (concat!("map-arr-", $name), true)] {
            let o = map::Opts { name: n.into(), keys: vec![0, 1, 2], vals: vec![0, 3], stores: vec![(0, 1), (1, 0), (1, 1), (2, 1)], small_bufs: !cached, reopen: cached, ..Default::default() };
            if c.wants(n) {
                if cached { c.run(&MapSys::<Bk<$t>, _, 4, 4, 40>::new(o, arr::<_, 2, 2>), 999, cap); } else { c.run(&MapSys::<Bk<$t>, _, 4, 4, 40>::new(o, un), 999, cap); }
            }
        }
    )* } }
    m!(String, "String"; Vec<u8>, "Vec"; AStr, "ArrayString"; AVec, "ArrayVec"; HStr, "heapless-String"; HVec, "heapless-Vec"; HStr9, "heapless09-String"; HVec9, "heapless09-Vec"; [u8; 3], "bytes3"; u16, "u16"; i32, "i32"; u128, "u128");
    c.finish()
}
trait Ser2 {
    fn serialize_into2(&self, b: &mut [u8]) -> Sr<usize>;
}
impl Ser2 for String {
    fn serialize_into2(&self, b: &mut [u8]) -> Sr<usize> {
        Key::serialize_into(self, b)
    }
}
