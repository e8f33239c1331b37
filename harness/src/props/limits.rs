//! C12 size limits, C13 failing writers, C14 borrowing and release of memory.
use super::codec::hostile_bytes;
use super::*;
use crate::alloc;
use crate::er::*;
use crate::gen::*;
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

const MIB16: usize = 16 * 1024 * 1024;
const TEN_M: usize = 10_000_000;

fn filler() -> &'static [u8] {
    static F: OnceLock<Vec<u8>> = OnceLock::new();
    F.get_or_init(|| vec![b'a'; MIB16 + 256])
}

fn varint(v: u64) -> Vec<u8> {
    let mut b = vec![];
    Ser::canon().varint(&mut b, v);
    b
}

/// declared lengths above the binary limit
fn over_bin() -> Vec<u64> {
    let l = MIB16 as u64;
    let mut v = vec![l + 1, l + 2, l + 127, l * 2, l * 2 + 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1];
    for k in 25..64 {
        v.push(1 << k);
        v.push((1 << k) + 5);
    }
    v
}

fn over_coll() -> Vec<u64> {
    let l = TEN_M as u64;
    let mut v = vec![l + 1, l + 2, l * 2, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1];
    for k in 25..64 {
        v.push(1 << k);
        v.push((1 << k) + 3);
    }
    v
}

/// places where a length-prefixed value can stand: prefix, way to decode, suffix
struct Place {
    what: &'static str,
    prefix: Vec<u8>,
    suffix: Vec<u8>,
    slice: fn(&[u8]) -> Result<usize, ThriftError>,
    read: fn(&mut dyn Read) -> Result<usize, ThriftError>,
}

macro_rules! place {
    ($what:expr, $pre:expr, $suf:expr, $t:ty, $len:expr) => {
        Place {
            what: $what,
            prefix: $pre.to_vec(),
            suffix: $suf.to_vec(),
            slice: |b| <$t>::read_thrift(&mut CompactThriftInputSlice::new(b)).map(|x| ($len)(&x)),
            read: |mut r| <$t>::read_thrift(&mut r).map(|x| ($len)(&x)),
        }
    };
}

fn bin_places() -> Vec<Place> {
    use crate::zoo::*;
    let e: [u8; 0] = [];
    vec![
        place!("Vec<u8>", e, e, Vec<u8>, |x: &Vec<u8>| x.len()),
        place!("String", e, e, String, |x: &String| x.len()),
        place!("Box<str>", e, e, Box<str>, |x: &Box<str>| x.len()),
        place!("Rc<str>", e, e, Rc<str>, |x: &Rc<str>| x.len()),
        place!("Arc<str>", e, e, Arc<str>, |x: &Arc<str>| x.len()),
        place!("Vec<Vec<u8>>", [0x18], e, Vec<Vec<u8>>, |x: &Vec<Vec<u8>>| x[0].len()),
        place!("string field", [0x15, 2, 0x18], [0], Small, |x: &Small| x.b.as_ref().unwrap().len()),
        place!("union member", [0x78], [0], U, |x: &U| if let U::bin(b) = x { b.len() } else { 0 }),
        place!("unknown field", [0x15, 2, 0x88], [0], Small, |_: &Small| usize::MAX),
        place!("unknown list element", [0x15, 2, 0x89, 0x18], [0], Small, |_: &Small| usize::MAX),
        place!("unknown map value", [0x15, 2, 0x8b, 1, 0x38, 7], [0], Small, |_: &Small| usize::MAX),
        Place {
            what: "read_binary",
            prefix: vec![],
            suffix: vec![],
            slice: |b| CompactThriftInputSlice::new(b).read_binary().map(|x| x.len()),
            read: |mut r| CompactThriftInput::read_binary(&mut r).map(|x| x.len()),
        },
        Place {
            what: "skip_binary",
            prefix: vec![],
            suffix: vec![],
            slice: |b| CompactThriftInputSlice::new(b).skip_binary().map(|_| usize::MAX),
            read: |mut r| CompactThriftInput::skip_binary(&mut r).map(|_| usize::MAX),
        },
        Place {
            what: "Cow<str>",
            prefix: vec![],
            suffix: vec![],
            slice: |b| Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(b)).map(|x| x.len()),
            read: |mut r| Cow::<str>::read_thrift(&mut r).map(|x| x.len()),
        },
    ]
}

/// memory requested at once while running `f`
fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    alloc::reset_max();
    let r = f();
    (r, alloc::max_req())
}

const SMALL: usize = 4096;

fn binary_over(c: &mut Ctx) -> R {
    let over = over_bin();
    let len = over[c.idx as usize % over.len()];
    for p in bin_places() {
        let mut m = p.prefix.clone();
        m.extend(varint(len));
        // with no data, with a little, with as much as is declared
        let fills: &[usize] = if len <= (MIB16 + 127) as u64 { &[0, 9, MIB16 + 256] } else { &[0, 9, 70] };
        for fill in fills {
            let mut b = m.clone();
            b.extend_from_slice(&filler()[..*fill]);
            b.extend_from_slice(&p.suffix);
            let (r, req) = measured(|| (p.slice)(&b));
            ensure!(r.is_err(), "{}: a binary of declared length {len} ({fill} bytes follow) is accepted: {r:?}", p.what);
            ensure!(req <= SMALL, "{}: a binary of declared length {len} requests {req} bytes before it is rejected", p.what);
            let mut rd = (&m[..]).chain(std::io::repeat(b'a').take(*fill as u64));
            let (r, req) = measured(|| (p.read)(&mut rd));
            ensure!(r.is_err(), "{}: a binary of declared length {len} ({fill} bytes follow) is accepted from a stream: {r:?}", p.what);
            ensure!(req <= SMALL, "{}: a binary of declared length {len} requests {req} bytes from a stream before it is rejected", p.what);
            c.eval(hash_bytes(*fill as u64, &m) ^ hash_bytes(1, p.what.as_bytes()));
        }
    }
    c.sample(|| format!("binary of declared length {len} in 14 places, slice and stream"));
    Ok(())
}

fn binary_within(c: &mut Ctx) -> R {
    let rng = &mut c.rng;
    let k = rng.range(6, 24);
    let lens = [0usize, 1, 127, 128, 16383, 65536, MIB16 - 1, MIB16, 1 + rng.idx(MIB16), (1 << k) + 1 + rng.idx(3 << (k - 6)), (1 << k) - 1, rng.idx(20_000)].map(|n| n.min(MIB16));
    let len = lens[c.idx as usize % lens.len()];
    let ps = bin_places();
    let p = &ps[c.idx as usize / lens.len() % ps.len()];
    let mut b = p.prefix.clone();
    b.extend(varint(len as u64));
    b.extend_from_slice(&filler()[..len]);
    b.extend_from_slice(&p.suffix);
    let bound = len + SMALL;
    let (r, req) = measured(|| (p.slice)(&b));
    ensure!(matches!(r, Ok(n) if n == len || n == usize::MAX), "{}: a binary of {len} bytes gives {r:?}", p.what);
    ensure!(req <= bound, "{}: a binary of {len} bytes requests {req}", p.what);
    let (r, req) = measured(|| (p.read)(&mut TestReader::new(&b)));
    ensure!(matches!(r, Ok(n) if n == len || n == usize::MAX), "{}: a binary of {len} bytes from a stream gives {r:?}", p.what);
    ensure!(req <= bound, "{}: a binary of {len} bytes from a stream requests {req}", p.what);
    c.peak("binary bytes accepted", len as u64);
    // declared but missing
    let cut = p.prefix.len() + varint(len as u64).len();
    if len > 0 {
        let short = &b[..cut + c.rng.idx(len.min(60))];
        let (r, req) = measured(|| (p.slice)(short));
        ensure!(r.is_err() && req <= bound, "{}: declared {len}, {} bytes there: {r:?}, requested {req}", p.what, short.len() - cut);
        let (r, req) = measured(|| (p.read)(&mut TestReader::new(short)));
        ensure!(r.is_err() && req <= bound, "{}: declared {len}, {} bytes there, stream: {r:?}, requested {req}", p.what, short.len() - cut);
    }
    c.eval(hash_bytes(len as u64, p.what.as_bytes()));
    Ok(())
}

struct ListPlace {
    what: &'static str,
    prefix: &'static [u8],
    /// element type nibble; 0 for a map
    et: u8,
    run: fn(&[u8]) -> Result<usize, ThriftError>,
    read: fn(&mut dyn Read) -> Result<usize, ThriftError>,
    /// bytes of memory per element, 0 if skipped
    size: usize,
}

macro_rules! lp {
    ($what:expr, $pre:expr, $et:expr, $t:ty, $size:expr, $len:expr) => {
        ListPlace {
            what: $what,
            prefix: $pre,
            et: $et,
            run: |b| <$t>::read_thrift(&mut CompactThriftInputSlice::new(b)).map(|x| ($len)(&x)),
            read: |mut r| <$t>::read_thrift(&mut r).map(|x| ($len)(&x)),
            size: $size,
        }
    };
}

fn list_places() -> Vec<ListPlace> {
    use crate::zoo::*;
    use std::mem::size_of as s;
    fn sk(_: &Small) -> usize { usize::MAX }
    #[allow(unused_mut)]
    let mut v = vec![
        lp!("Vec<bool>", &[], 2, Vec<bool>, 1, |x: &Vec<bool>| x.len()),
        lp!("Vec<i8>", &[], 3, Vec<i8>, 1, |x: &Vec<i8>| x.len()),
        lp!("Vec<i16>", &[], 4, Vec<i16>, 2, |x: &Vec<i16>| x.len()),
        lp!("Vec<i32>", &[], 5, Vec<i32>, 4, |x: &Vec<i32>| x.len()),
        lp!("Vec<i64>", &[], 6, Vec<i64>, 8, |x: &Vec<i64>| x.len()),
        lp!("Vec<f64>", &[], 7, Vec<f64>, 8, |x: &Vec<f64>| x.len()),
        lp!("Vec<String>", &[], 8, Vec<String>, s::<String>(), |x: &Vec<String>| x.len()),
        lp!("Vec<Vec<u8>>", &[], 8, Vec<Vec<u8>>, s::<Vec<u8>>(), |x: &Vec<Vec<u8>>| x.len()),
        lp!("Vec<Vec<i32>>", &[], 9, Vec<Vec<i32>>, s::<Vec<i32>>(), |x: &Vec<Vec<i32>>| x.len()),
        lp!("Vec<Empty>", &[], 12, Vec<Empty>, s::<Empty>(), |x: &Vec<Empty>| x.len()),
        lp!("Vec<U>", &[], 12, Vec<U>, s::<U>(), |x: &Vec<U>| x.len()),
        lp!("Vec<Outer>", &[], 12, Vec<Outer>, s::<Outer>(), |x: &Vec<Outer>| x.len()),
        lp!("Vec<Box<i64>>", &[], 6, Vec<Box<i64>>, 8, |x: &Vec<Box<i64>>| x.len()),
        lp!("list<i32> field", &[0xc9], 5, AllOpt, 4, |x: &AllOpt| x.li.as_ref().unwrap().len()),
        lp!("list<bool> union member", &[0xa9], 2, U, 1, |_: &U| usize::MAX),
        lp!("unknown list<i8>", &[0x15, 2, 0x89], 3, Small, 0, sk),
        lp!("unknown list<bool>", &[0x15, 2, 0x89], 1, Small, 0, sk),
        lp!("unknown set<i32>", &[0x15, 2, 0x8a], 5, Small, 0, sk),
        lp!("unknown list<double>", &[0x15, 2, 0x89], 7, Small, 0, sk),
        lp!("unknown list<binary>", &[0x15, 2, 0x89], 8, Small, 0, sk),
        lp!("unknown list<list>", &[0x15, 2, 0x89], 9, Small, 0, sk),
        lp!("unknown list<map>", &[0x15, 2, 0x89], 11, Small, 0, sk),
        lp!("unknown list<struct>", &[0x15, 2, 0x89], 12, Small, 0, sk),
        lp!("unknown map", &[0x15, 2, 0x8b], 0, Small, 0, sk),
        lp!("unknown list in a list", &[0x15, 2, 0x89, 0x19], 3, Small, 0, sk),
        lp!("unknown map in a struct", &[0x15, 2, 0x8c, 0x1b], 0, Small, 0, sk),
        ListPlace {
            what: "read_collection_len_and_type",
            prefix: &[],
            et: 5,
            run: |b| read_collection_len_and_type(&mut CompactThriftInputSlice::new(b)).map(|x| x.0 as usize),
            read: |mut r| read_collection_len_and_type(&mut r).map(|x| x.0 as usize),
            size: 0,
        },
        ListPlace {
            what: "read_map_len_and_types",
            prefix: &[],
            et: 0,
            run: |b| read_map_len_and_types(&mut CompactThriftInputSlice::new(b)).map(|x| x.0 as usize),
            read: |mut r| read_map_len_and_types(&mut r).map(|x| x.0 as usize),
            size: 0,
        },
    ];
    #[cfg(feature = "pq")]
    {
        use compact_thrift_parquet::format::*;
        use compact_thrift_parquet::EncodingSet;
        v.push(lp!("EncodingSet", &[], 5, EncodingSet, 0, |_: &EncodingSet| usize::MAX));
        v.push(lp!("Vec<ColumnChunk>", &[], 12, Vec<ColumnChunk>, s::<ColumnChunk>(), |x: &Vec<ColumnChunk>| x.len()));
        v.push(lp!("schema of FileMetaData", &[0x29], 12, FileMetaData, s::<SchemaElement>(), |x: &FileMetaData| x.schema.elements()));
        v.push(lp!("null_pages of ColumnIndex", &[0x19], 2, ColumnIndex, 1, |x: &ColumnIndex| x.null_pages.elements()));
    }
    v
}

/// the length of a list field, required or not
#[cfg(feature = "pq")]
trait Elements {
    fn elements(&self) -> usize;
}
#[cfg(feature = "pq")]
impl<T> Elements for Vec<T> {
    fn elements(&self) -> usize {
        self.len()
    }
}
#[cfg(feature = "pq")]
impl<T> Elements for Option<Vec<T>> {
    fn elements(&self) -> usize {
        self.as_ref().map_or(0, |v| v.len())
    }
}

fn list_head(p: &ListPlace, len: u64) -> Vec<u8> {
    let mut b = p.prefix.to_vec();
    if p.et == 0 {
        b.extend(varint(len));
        b.push(0x33);
    } else {
        b.push(0xf0 | p.et);
        b.extend(varint(len));
    }
    b
}

/// a byte that, repeated, makes any number of elements (or entries) of this place
fn unit(p: &ListPlace) -> Option<u8> {
    match (p.et, p.what) {
        (_, w) if w.starts_with("read_") || w.contains("null_pages") || w.contains("schema of") => None,
        (0 | 1 | 2 | 3 | 7, _) => Some(1),
        (4 | 5 | 6, _) => Some(2),
        (8 | 11, _) => Some(0),
        (9, _) => Some(5),
        (12, "Vec<Empty>" | "unknown list<struct>") => Some(0),
        _ => None,
    }
}
/// bytes per element (or entry) made of `unit`
fn unit_len(p: &ListPlace) -> u64 {
    match p.et {
        0 => 2,
        7 => 8,
        _ => 1,
    }
}

fn list_over(c: &mut Ctx) -> R {
    let over = over_coll();
    let len = over[c.idx as usize % over.len()];
    for p in list_places() {
        let m = list_head(&p, len);
        for fill in [0usize, 40] {
            let mut b = m.clone();
            b.extend(vec![0u8; fill]);
            let (r, req) = measured(|| (p.run)(&b));
            ensure!(r.is_err(), "{}: declared length {len} is accepted: {r:?}", p.what);
            ensure!(req <= SMALL, "{}: declared length {len} requests {req} bytes before it is rejected", p.what);
            let (r, req) = measured(|| (p.read)(&mut TestReader::new(&b)));
            ensure!(r.is_err(), "{}: declared length {len} is accepted from a stream: {r:?}", p.what);
            ensure!(req <= SMALL, "{}: declared length {len} requests {req} bytes from a stream before it is rejected", p.what);
            c.eval(hash_bytes(fill as u64, &m) ^ hash_bytes(1, p.what.as_bytes()));
        }
        // just above the limit with all elements there: only the limit can reject it
        if len <= TEN_M as u64 + 2 {
            if let Some(u) = unit(&p) {
                let mut rd = std::io::BufReader::with_capacity(1 << 16, (&m[..]).chain(std::io::repeat(u).take(len * unit_len(&p))).chain(std::io::repeat(0)));
                let r = (p.read)(&mut rd);
                ensure!(r.is_err(), "{}: declared length {len} with all elements is accepted: {r:?}", p.what);
                c.count("collections refused with all elements there", 1);
            }
        }
    }
    c.sample(|| format!("collections of declared length {len} in all places"));
    Ok(())
}

fn list_within(c: &mut Ctx) -> R {
    let ps = list_places();
    let p = &ps[c.idx as usize % ps.len()];
    let k = c.rng.range(4, 24);
    let some = [c.rng.below(10_000_000), 1 << k, (1 << k) + 1, (1 << k) - 1, c.rng.below(3000)];
    let len = if c.rng.p(100) { *c.rng.pick(&some) } else { *c.rng.pick(&[15u64, 16, 100, 127, 128, 1000, 16384, 100_000, 1_000_000, 9_999_999, 10_000_000]) };
    let len = len.clamp(1, 10_000_000);
    let m = list_head(p, len);
    // elements missing: the request must not exceed what `len` elements need
    let bound = len as usize * p.size + SMALL;
    for stream in [false, true] {
        let (r, req) = measured(|| if stream { (p.read)(&mut TestReader::new(&m)) } else { (p.run)(&m) });
        if p.what.starts_with("read_") {
            ensure!(matches!(r, Ok(n) if n as u64 == len), "{}: length {len}: {r:?}", p.what);
        } else {
            ensure!(r.is_err(), "{}: {len} elements declared, none there: {r:?}", p.what);
        }
        ensure!(req <= bound, "{}: {len} elements declared, none there: {req} bytes requested, {len} elements need {}", p.what, len as usize * p.size);
        c.peak("bytes requested at once", req as u64);
        // memory not available
        if p.size > 0 {
            let limit = *c.rng.pick(&[SMALL, 64 << 10, 1 << 20]);
            if len as usize * p.size > limit * 2 {
                let r = alloc::refusing(limit, || if stream { (p.read)(&mut TestReader::new(&m)) } else { (p.run)(&m) });
                ensure!(r.is_err(), "{}: {len} elements with no memory: {r:?}", p.what);
                // the same with the elements there
                if let (true, Some(u)) = (len <= 1_000_000, unit(p)) {
                    let mut b = m.clone();
                    b.resize(m.len() + (len * unit_len(p)) as usize + 4, u);
                    let r = alloc::refusing(limit, || if stream { (p.read)(&mut &b[..]) } else { (p.run)(&b) });
                    ensure!(r.is_err(), "{}: {len} elements with memory for {limit} bytes at once: {r:?}", p.what);
                }
                c.count("allocations refused", 1);
            }
        }
        c.eval(hash_bytes(stream as u64, &m) ^ hash_bytes(2, p.what.as_bytes()));
    }
    Ok(())
}

/// one more than allowed of every type of element, key and value, all of them there
fn over_types(c: &mut Ctx) -> R {
    use crate::zoo::Small;
    let len = TEN_M as u64 + 1 + *c.rng.pick(&[0u64, 0, 0, 1, 100]);
    let (wt, head) = match c.idx {
        i @ 0..=15 => (9u8, [vec![0xf0 | i as u8], varint(len)].concat()),
        i @ 16..=31 => (10, [vec![0xf0 | (i - 16) as u8], varint(len)].concat()),
        i => (11, [varint(len), vec![(i - 32) as u8]].concat()),
    };
    let places: [(&str, Vec<u8>); 5] = [
        ("alone", vec![]),
        ("as an unknown field", vec![0x15, 2, 0x80 | wt]),
        ("as an unknown field in a struct", vec![0x15, 2, 0x8c, 0x10 | wt]),
        ("in an unknown list", vec![0x15, 2, 0x89, 0x10 | wt]),
        ("in an unknown map", vec![0x15, 2, 0x8b, 1, 0x30 | wt, 7]),
    ];
    // the elements or entries, behind room for what is before them
    let one = |t: u8| match t {
        7 => vec![0u8; 8],
        9 | 10 => vec![5],
        _ => vec![0],
    };
    let unit = if wt == 11 { [one(head[head.len() - 1] >> 4), one(head[head.len() - 1] & 15)].concat() } else { one(head[0] & 15) };
    const ROOM: usize = 16;
    let mut buf = vec![0; ROOM];
    buf.extend(unit.repeat(len as usize));
    buf.extend([0; 4]);
    for (what, pre) in &places {
        let m = [&pre[..], &head].concat();
        let from = ROOM - m.len();
        buf[from..ROOM].copy_from_slice(&m);
        let b = &buf[from..];
        let mut rd = std::io::BufReader::with_capacity(1 << 16, b);
        let (r, s) = if pre.is_empty() {
            (CompactThriftInputSlice::new(b).skip_field(wt), CompactThriftInput::skip_field(&mut &mut rd, wt))
        } else {
            (Small::read_thrift(&mut CompactThriftInputSlice::new(b)).map(|_| ()), Small::read_thrift(&mut &mut rd).map(|_| ()))
        };
        ensure!(r.is_err(), "{what}: {} with the declared length {len} and {len} times {} is accepted", hex(&m), hex(&unit));
        ensure!(s.is_err(), "{what}: {} with the declared length {len} and {len} times {} is accepted from a stream", hex(&m), hex(&unit));
        c.eval(hash_bytes(wt as u64, &m));
    }
    c.count("collections refused with all elements there", 1);
    Ok(())
}

/// exactly ten million elements are accepted
fn list_at_limit(c: &mut Ctx) -> R {
    let ps = list_places();
    let p = &ps[c.idx as usize % ps.len()];
    let Some(u) = unit(p) else {
        return Ok(());
    };
    let len = TEN_M as u64;
    let m = list_head(p, len);
    let mut b = m.clone();
    b.resize(m.len() + TEN_M * unit_len(p) as usize, u);
    b.extend([0; 4]);
    {
        let r = (p.run)(&b);
        ensure!(matches!(r, Ok(n) if n == TEN_M || n == usize::MAX), "{}: ten million elements give {r:?}", p.what);
        let r = (p.read)(&mut std::io::Cursor::new(&b));
        ensure!(matches!(r, Ok(n) if n == TEN_M || n == usize::MAX), "{}: ten million elements from a stream give {r:?}", p.what);
    }
    c.peak("elements accepted", len);
    c.eval(hash_bytes(3, p.what.as_bytes()));
    Ok(())
}

struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn write_limit(c: &mut Ctx) -> R {
    use crate::zoo::*;
    let over = c.idx % 2 == 1;
    let wide = c.idx >= 32;
    // a text of that many bytes, of few or many bytes per character
    let text = |n: usize, rng: &mut Rng| {
        let u = if wide { *rng.pick(&["\u{e9}", "\u{2260}", "\u{10437}"]) } else { "a" };
        let mut s = u.repeat(n / u.len());
        s.push_str(&"a".repeat(n - s.len()));
        s
    };
    let what;
    let r: Result<(), ThriftError>;
    let mut w = Count(0);
    let want: usize;
    match c.idx % 32 / 2 {
        k @ 0..=7 => {
            let n = MIB16 + over as usize * (1 + c.rng.idx(100));
            let s = text(n, &mut c.rng).into_bytes();
            let st = || String::from_utf8(s.clone()).unwrap();
            what = format!("binary #{k} of {n} bytes");
            want = n + 4;
            r = match k {
                0 => s.write_thrift(&mut w),
                1 => st().write_thrift(&mut w),
                2 => st().into_boxed_str().write_thrift(&mut w),
                3 => Rc::<str>::from(st()).write_thrift(&mut w),
                4 => Arc::<str>::from(st()).write_thrift(&mut w),
                5 => Cow::<[u8]>::Borrowed(&s).write_thrift(&mut w),
                6 => Cow::<str>::Owned(st()).write_thrift(&mut w),
                _ => w.write_binary(&s),
            };
        }
        k @ 8..=9 => {
            let n = MIB16 + over as usize;
            what = format!("string field #{k} of {n} bytes");
            want = n + 4 + if k == 8 { 4 } else { 2 };
            let s = text(n, &mut c.rng);
            r = if k == 8 { Small { a: 1, b: Some(s) }.write_thrift(&mut w) } else { U::str_(s).write_thrift(&mut w) };
        }
        k => {
            let n = TEN_M + over as usize;
            what = format!("list #{k} of {n} elements");
            r = match k {
                10 => vec![true; n].write_thrift(&mut w),
                11 => vec![1i8; n].write_thrift(&mut w),
                12 => vec![Empty {}; n].write_thrift(&mut w),
                13 => Box::new(vec![1i16; n]).write_thrift(&mut w),
                14 => U::bools(vec![false; n]).write_thrift(&mut w),
                _ => Some(vec![1i32; n]).write_thrift_field(&mut w, 3, &mut 0),
            };
            want = 1 + 4 + n + if k == 14 { 2 } else if k == 15 { 1 } else { 0 };
        }
    }
    if over {
        ensure!(r.is_err(), "writing a {what} is accepted");
        c.count("writes refused", 1);
    } else {
        ensure!(r.is_ok() && w.0 == want, "writing a {what}: {r:?}, {} bytes instead of {want}", w.0);
        c.count("writes at the limit", 1);
    }
    c.eval(c.idx);
    c.sample(|| what);
    Ok(())
}

fn absent(c: &mut Ctx) -> R {
    use crate::zoo::*;
    fn go<T: for<'i> CompactThriftProtocol<'i> + Default + Clone + std::fmt::Debug>(c: &mut Ctx, mk: impl Fn(&mut Rng) -> T) -> R {
        let n = *c.rng.pick(&[1usize, 2, 3, 14, 15, 16, 40]);
        let mut v: Vec<Option<T>> = (0..n).map(|_| Some(mk(&mut c.rng))).collect();
        let mut full = vec![];
        v.write_thrift(&mut full).map_err(|e| format!("{e:?}"))?;
        let k = 1 + c.rng.idx(2);
        for _ in 0..k {
            let i = c.rng.idx(n);
            v[i] = None;
        }
        let mut out = vec![];
        let r = v.write_thrift(&mut out).map_err(er);
        ensure!(r == Err(Er::MissingValue), "a list with an absent element {v:?} is written: {r:?} {}", hex(&out));
        let mut l = 0;
        let r = Some(v.clone()).write_thrift_field(&mut out, 3, &mut l).map_err(er);
        ensure!(r == Err(Er::MissingValue), "a list field with an absent element {v:?} is written: {r:?}");
        let r = Box::new(vec![Rc::new(v)]).write_thrift(&mut out).map_err(er);
        ensure!(r == Err(Er::MissingValue), "a nested list with an absent element is written: {r:?}");
        let r = None::<T>.write_thrift(&mut out).map_err(er);
        ensure!(r == Err(Er::MissingValue), "an absent value is written: {r:?}");
        c.eval(hash_bytes(4, &full) ^ c.idx % 7);
        Ok(())
    }
    match c.idx % 7 {
        0 => go(c, |r| r.p(128)),
        1 => go(c, |r| r.int(32) as i32),
        2 => go(c, |r| gen_string(r, 5)),
        3 => go(c, |_| Empty {}),
        4 => go(c, |r| U::b(r.p(128))),
        5 => go(c, |r| vec![r.int(64)]),
        _ => go(c, |r| Box::new(r.int(16) as i16)),
    }
}

pub fn c12(t: bool) -> Vec<Stage> {
    let ps = list_places().len() as u64;
    vec![
        stage("binary-over", over_bin().len() as u64, binary_over),
        stage("binary-within", 12 * 14 * if t { 40 } else { 4 }, binary_within),
        stage("list-over", over_coll().len() as u64, list_over),
        stage("list-within", ps * q(t, 60, 1000), list_within),
        stage("list-at-limit", ps, list_at_limit),
        stage("over-types", 16 + 16 + 256, over_types),
        stage("write", 64, write_limit),
        stage("absent", q(t, 3000, 40_000), absent),
        stage("inline-bound", q(t, 30_000, 300_000), |c| {
            // hostile messages: a single request is never larger than the largest declared size
            let tg = pick(&mut c.rng);
            let b = hostile_bytes(&mut c.rng, tg);
            let (_, req) = measured(|| (tg.run_slice)(&b).is_ok());
            // what a list of ten million of the largest elements or a binary would need
            ensure!(req <= TEN_M * 1024, "{}: {} requests {req} bytes at once", tg.name, hex(&b));
            c.peak("bytes requested at once", req as u64);
            c.eval(vh(tg, &b));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C13

fn writer_case(c: &mut Ctx, tg: &'static Target, v: &Val) -> R {
    let full = canon(&tg.ty, v);
    // slow but working
    for _ in 0..2 {
        let mut w = TestWriter::new();
        w.chunk = gen_chunk(&mut c.rng);
        w.interrupt = *c.rng.pick(&[0, 30, 128]);
        w.rng = Rng::new(c.rng.u64());
        let r = (tg.enc)(v, &mut w);
        ensure!(r.is_ok() && w.got == full, "{}: writing {} in pieces ({:?}): {r:?}, wrote {} instead of {}", tg.name, show(v), w.chunk, hex(&w.got), hex(&full));
        c.count("slow writes", 1);
        c.count("write calls", w.calls);
    }
    let n = full.len();
    let offs: Vec<usize> = if n <= 80 { (0..=n).collect() } else { {
        let mut v: Vec<usize> = if n <= 2000 { (0..30).chain(n - 20..=n).chain((0..20).map(|_| c.rng.idx(n))).collect() } else { vec![0, 1, n - 1, n] };
        v.extend(edge_offsets(&mut c.rng, n, 12));
        v
    } };
    for at in offs {
        let kind = *c.rng.pick(KINDS);
        let mut w = TestWriter::new();
        w.chunk = gen_chunk(&mut c.rng);
        w.interrupt = *c.rng.pick(&[0, 30]);
        w.rng = Rng::new(c.rng.u64());
        let zero = c.rng.p(50);
        w.once = c.rng.p(128);
        let kind = if zero {
            w.zero_at = Some(at);
            std::io::ErrorKind::WriteZero
        } else {
            w.fail = Some((at, kind));
            kind
        };
        let r = (tg.enc)(v, &mut w);
        if at < n {
            ensure!(r == Err(Er::Io(kind)), "{}: writing {} to an output failing with {kind:?} after {at} of {n} bytes gives {r:?}", tg.name, show(v));
            ensure!(w.got == full[..w.got.len()], "{}: output failing after {at} bytes received {} which is no prefix of {}", tg.name, hex(&w.got), hex(&full));
        } else {
            ensure!(r.is_ok() && w.got == full, "{}: output of {n} bytes gives {r:?}", tg.name);
        }
        c.eval(vh(tg, &full) ^ (at as u64) << 48 ^ (kind as u64) << 32 ^ zero as u64);
        c.count("faults", (at < n) as u64);
    }
    // refuses long pieces, takes short ones
    for _ in 0..2 {
        let mut w = TestWriter::new();
        let kind = *c.rng.pick(KINDS);
        w.too_long = Some((1 + if n > 200 && c.rng.p(128) { edge_len(&mut c.rng, n) } else { c.rng.idx(12) }, kind));
        let r = (tg.enc)(v, &mut w);
        let fine = if w.errors == 0 { r.is_ok() && w.got == full } else { r == Err(Er::Io(kind)) && full.starts_with(&w.got) };
        ensure!(fine, "{}: writing {} to an output that refuses more than {:?} bytes at once ({} times) gives {r:?}, it holds {} of {}", tg.name, show(v), w.too_long, w.errors, hex(&w.got), hex(&full));
        c.count("outputs refusing long pieces", w.errors.min(1));
    }
    // fixed-size memory
    let size = c.rng.idx(n + 4);
    let mut buf = vec![0u8; size];
    let r = {
        let mut s = &mut buf[..];
        (tg.enc)(v, &mut s)
    };
    if size < n {
        ensure!(r == Err(Er::Io(std::io::ErrorKind::WriteZero)), "{}: {n} bytes into {size} give {r:?}", tg.name);
        // write_all to a slice stores what fits
        let fit = buf.iter().zip(&full).take_while(|(a, b)| a == b).count();
        ensure!(buf[fit..].iter().all(|x| *x == 0), "{}: {} bytes of memory received {} which is no prefix of {}", tg.name, size, hex(&buf), hex(&full));
    } else {
        ensure!(r.is_ok() && buf[..n] == full[..], "{}: {n} bytes into {size} give {r:?}", tg.name);
    }
    c.sample(|| format!("{} {} with an output failing after every byte", tg.name, hex(&full)));
    Ok(())
}

pub fn c13(t: bool) -> Vec<Stage> {
    vec![
        stage("random", raw(t, 25_000, 500_000), |c| {
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            writer_case(c, tg, &v)
        }),
        stage("large", raw(t, 1500, 20_000), |c| {
            let tg = pick(&mut c.rng);
            let mut cfg = GenCfg { budget: 300, present: 200, big: true };
            let v = gen_val(&mut c.rng, &tg.ty, &mut cfg);
            writer_case(c, tg, &v)
        }),
        stage("long", raw(t, 1500, 20_000), |c| {
            let (tg, v) = long_case(&mut c.rng, 100_000);
            writer_case(c, tg, &v)
        }),
        stage("each-type", targets().len() as u64 * raw(t, 10, 60), |c| {
            let tg = &targets()[c.idx as usize % targets().len()];
            let v = small_val(&mut c.rng, &tg.ty);
            writer_case(c, tg, &v)
        }),
        stage("fields", 4096, |c| {
            // single fields with short and long headers
            let names = ["bool", "i8", "i64", "f64", "String", "Vec<bool>", "Small", "U", "Option<Box<bool>>", "Arc<str>"];
            let tg = target(names[c.idx as usize % names.len()]);
            let v = small_val(&mut c.rng, &tg.ty);
            let id = c.rng.int(16) as i16;
            let last = if c.rng.p(128) { id.wrapping_sub(c.rng.range(1, 15) as i16) } else { c.rng.int(16) as i16 };
            let wf = field_to_wire(id, &tg.ty, &v);
            let mut full = vec![];
            let mut s = Ser::canon();
            s.header(&mut full, &mut { last }, id, wf.wt);
            s.ser(&mut full, &wf.w);
            for at in 0..=full.len() {
                let kind = *c.rng.pick(KINDS);
                let mut w = TestWriter::new();
                w.chunk = gen_chunk(&mut c.rng);
                w.fail = Some((at, kind));
                w.once = c.rng.p(128);
                let r = (tg.enc_field)(&v, id, &mut { last }, &mut w);
                if at < full.len() {
                    ensure!(r == Err(Er::Io(kind)), "field {id} of type {} after {last} to an output failing with {kind:?} after {at} bytes gives {r:?}", tg.name);
                } else {
                    ensure!(r.is_ok(), "field {id} of type {}: {r:?}", tg.name);
                }
                ensure!(w.got == full[..at], "field {id} of type {} after {last}: output failing after {at} bytes holds {} instead of {}", tg.name, hex(&w.got), hex(&full[..at]));
                c.eval(vh(tg, &full) ^ (at as u64) << 48);
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C14

/// a hand-written borrowing structure, as users of the trait write it
#[derive(Default, Debug, PartialEq, Clone)]
struct View<'a> {
    id: i32,
    name: Cow<'a, str>,
    blob: Option<Cow<'a, [u8]>>,
    tags: Vec<Cow<'a, str>>,
    blobs: Option<Box<Vec<Cow<'a, [u8]>>>>,
}

impl<'a> CompactThriftProtocol<'a> for View<'a> {
    const FIELD_TYPE: u8 = 12;
    fn fill_thrift<T: CompactThriftInput<'a>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        let mut last = 0;
        loop {
            let t = input.read_field_header(&mut last)?;
            if t == 0 {
                return Ok(());
            }
            match last {
                1 => self.id.fill_thrift_field(input, t)?,
                2 => self.name.fill_thrift_field(input, t)?,
                3 => self.blob.fill_thrift_field(input, t)?,
                4 => self.tags.fill_thrift_field(input, t)?,
                5 => self.blobs.fill_thrift_field(input, t)?,
                _ => input.skip_field(t)?,
            }
        }
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        let mut last = 0;
        self.id.write_thrift_field(output, 1, &mut last)?;
        self.name.write_thrift_field(output, 2, &mut last)?;
        self.blob.write_thrift_field(output, 3, &mut last)?;
        self.tags.write_thrift_field(output, 4, &mut last)?;
        self.blobs.write_thrift_field(output, 5, &mut last)?;
        output.write_byte(0)
    }
}

fn borrowed(c: &mut Ctx) -> R {
    let n = c.rng.idx(5);
    let long = c.idx % 512 == 100;
    let sl = |r: &mut Rng| if long { edge_len(r, 140_000) } else { *r.pick(&[0usize, 1, 3, 20, 130]) };
    let name = { let k = sl(&mut c.rng); gen_string(&mut c.rng, k) };
    let blob = { let k = sl(&mut c.rng); c.rng.bytes(k) };
    let tags: Vec<String> = (0..n).map(|_| { let k = sl(&mut c.rng); gen_string(&mut c.rng, k) }).collect();
    let blobs: Vec<Vec<u8>> = (0..n).map(|_| { let k = sl(&mut c.rng); c.rng.bytes(k) }).collect();
    let fs = vec![
        WF { id: 1, wt: 5, w: W::Var(zz(77)) },
        WF { id: 2, wt: 8, w: W::Bin(name.clone().into_bytes()) },
        WF { id: 9, wt: 8, w: W::Bin(vec![0xff; 3]) },
        WF { id: 3, wt: 8, w: W::Bin(blob.clone()) },
        WF { id: 4, wt: 9, w: W::List(8, tags.iter().map(|s| W::Bin(s.clone().into_bytes())).collect()) },
        WF { id: 5, wt: 9, w: W::List(8, blobs.iter().map(|s| W::Bin(s.clone())).collect()) },
    ];
    let b = Ser::alt(&mut c.rng).bytes(&W::Struct(fs));
    // where each payload lies, found by decoding positions with the reference
    let mut spans = vec![];
    {
        let mut d = Dec::new(&b);
        let mut last = 0;
        loop {
            let wt = d.header(&mut last).unwrap();
            if wt == 0 {
                break;
            }
            match (last, wt) {
                (4 | 5, _) => {
                    // list header, then elements
                    let h = b[d.pos];
                    d.pos += 1;
                    if h >> 4 == 15 {
                        while b[d.pos] >= 128 {
                            d.pos += 1;
                        }
                        d.pos += 1;
                    }
                    for _ in 0..n {
                        let s = d.bin().unwrap();
                        spans.push((last, s.as_ptr() as usize, s.len()));
                    }
                }
                (2 | 3, _) => {
                    let s = d.bin().unwrap();
                    spans.push((last, s.as_ptr() as usize, s.len()));
                }
                _ => d.skip(wt, false, 64).unwrap(),
            }
        }
    }
    let (live0, count0) = (alloc::live(), alloc::count());
    let v = View::read_thrift(&mut CompactThriftInputSlice::new(&b)).map_err(|e| format!("borrowed decode of {} fails: {e:?}", hex(&b)))?;
    let allocs = alloc::count() - count0;
    let mut got = vec![];
    let mut owned = 0;
    fn span(id: i16, bytes: &[u8]) -> (i16, usize, usize) {
        (id, bytes.as_ptr() as usize, bytes.len())
    }
    got.push(span(2, v.name.as_bytes()));
    owned += matches!(v.name, Cow::Owned(_)) as u32;
    let bl = v.blob.as_ref().unwrap();
    got.push(span(3, bl));
    owned += matches!(bl, Cow::Owned(_)) as u32;
    for x in &v.tags {
        got.push(span(4, x.as_bytes()));
        owned += matches!(x, Cow::Owned(_)) as u32;
    }
    for x in v.blobs.as_ref().unwrap().iter() {
        got.push(span(5, x));
        owned += matches!(x, Cow::Owned(_)) as u32;
    }
    ensure!(owned == 0, "{owned} of {} values were copied when decoding {}", got.len(), hex(&b));
    ensure!(got == spans, "borrowed views {got:?} differ from the payload positions {spans:?} in {} at {:p}", hex(&b), b.as_ptr());
    // the two list buffers and the box
    let most = 1 + 2 * (n > 0) as u64;
    ensure!(allocs <= most, "borrowed decode of {} made {allocs} allocations, {most} are needed", hex(&b));
    drop((v, got));
    // stream: same content, owned
    let v = View::read_thrift(&mut TestReader::random(&b, &mut c.rng)).map_err(|e| format!("stream decode of {} fails: {e:?}", hex(&b)))?;
    let own = |s: &Cow<str>| matches!(s, Cow::Owned(_));
    ensure!(own(&v.name) && v.tags.iter().all(own) && matches!(v.blob, Some(Cow::Owned(_))), "stream decode does not own its data");
    ensure!(
        v.name == name && v.blob.as_deref() == Some(&blob[..]) && v.tags.iter().map(|s| s.to_string()).collect::<Vec<_>>() == tags && v.blobs.as_ref().unwrap().iter().map(|s| s.to_vec()).collect::<Vec<_>>() == blobs,
        "stream decode of {} gives {v:?}",
        hex(&b)
    );
    // borrowed views written again
    let mut out = vec![];
    View::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap().write_thrift(&mut out).map_err(|e| format!("{e:?}"))?;
    ensure!(View::read_thrift(&mut CompactThriftInputSlice::new(&out)).map_err(er) == Ok(v.clone()), "borrowed views do not survive writing");
    // single values, no allocation at all
    let mut one = vec![];
    Ser::canon().ser(&mut one, &W::Bin(name.clone().into_bytes()));
    let at = one.len() - name.len();
    let count0 = alloc::count();
    let ok = {
        let s = Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(&one)).map_err(|e| format!("{e:?}"))?;
        let o = Option::<Cow<[u8]>>::read_thrift(&mut CompactThriftInputSlice::new(&one)).map_err(|e| format!("{e:?}"))?.unwrap();
        let r = CompactThriftInputSlice::new(&one).read_binary().map_err(|e| format!("{e:?}"))?;
        s.as_ptr() == one[at..].as_ptr() && o.as_ptr() == s.as_ptr() && r.as_ptr() == s.as_ptr() && s.len() == name.len()
    };
    ensure!(ok && alloc::count() == count0, "a borrowed string of {} bytes is copied", name.len());
    c.count("borrowed views", spans.len() as u64);
    c.eval(hash_bytes(6, &b));
    c.sample(|| format!("borrowed decode of {}", hex(&b)));
    drop((v, out, one, spans));
    let _ = live0;
    Ok(())
}

/// everything acquired by `f` is gone when it returns
fn balanced(c: &mut Ctx, what: impl Fn() -> String, f: &mut dyn FnMut(&mut Rng)) -> R {
    let mut r = Rng::new(c.rng.u64());
    let l0 = alloc::live();
    f(&mut r);
    let l1 = alloc::live();
    if l1 != l0 {
        // once more, in case something was initialised lazily
        let l0 = alloc::live();
        f(&mut r);
        let d = alloc::live() - l0;
        ensure!(d == 0, "{}: {d} bytes are not released", what());
    }
    Ok(())
}

fn release_case(c: &mut Ctx, tg: &'static Target, b: &[u8]) -> R {
    let count0 = alloc::count();
    balanced(c, || format!("{} decoding {}", tg.name, hex(b)), &mut |_| drop((tg.run_slice)(b)))?;
    c.count("allocations observed", alloc::count() - count0);
    balanced(c, || format!("{} decoding the stream {}", tg.name, hex(b)), &mut |r| drop((tg.run_read)(&mut TestReader::random(b, r))))?;
    c.eval(vh(tg, b));
    Ok(())
}

pub fn c14(t: bool) -> Vec<Stage> {
    vec![
        stage("borrowed", q(t, 30_000, 500_000), borrowed),
        stage("release", q(t, 60_000, 1_500_000), |c| {
            let tg = pick(&mut c.rng);
            let b = if c.rng.p(128) {
                hostile_bytes(&mut c.rng, tg)
            } else {
                let v = any_val(&mut c.rng, &tg.ty);
                canon(&tg.ty, &v)
            };
            release_case(c, tg, &b)
        }),
        stage("long", raw(t, 400, 8_000), |c| {
            // contents large enough to be read or kept in pieces, failing wherever a piece could end
            let (tg, v) = long_case(&mut c.rng, 100_000);
            let b = canon(&tg.ty, &v);
            balanced(c, || format!("{} decoding {}", tg.name, hex(&b)), &mut |r| drop((tg.run_read)(&mut TestReader::random(&b, r))))?;
            for k in edge_offsets(&mut c.rng, b.len(), 5) {
                balanced(c, || format!("{} decoding {} cut after {k} bytes", tg.name, hex(&b)), &mut |_| drop((tg.run_slice)(&b[..k])))?;
                let kind = *c.rng.pick(KINDS);
                balanced(c, || format!("{} decoding {} with an error after {k} bytes", tg.name, hex(&b)), &mut |r| {
                    let mut t = TestReader::random(&b, r);
                    t.fail = Some((k, kind));
                    drop((tg.run_read)(&mut t))
                })?;
                let mut x = b.clone();
                x[k] = c.rng.u64() as u8;
                balanced(c, || format!("{} decoding {} with byte {k} damaged", tg.name, hex(&b)), &mut |r| {
                    drop((tg.run_slice)(&x));
                    drop((tg.run_read)(&mut TestReader::random(&x, r)))
                })?;
                c.count("failure points", 3);
            }
            c.eval(vh(tg, &b));
            Ok(())
        }),
        stage("every-cut", q(t, 8_000, 150_000), |c| {
            // failure at every point
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let b = canon(&tg.ty, &v);
            if b.len() > 400 {
                return Ok(());
            }
            for k in 0..b.len() {
                balanced(c, || format!("{} decoding {} cut after {k} bytes", tg.name, hex(&b)), &mut |_| drop((tg.run_slice)(&b[..k])))?;
                let kind = *c.rng.pick(KINDS);
                balanced(c, || format!("{} decoding {} with an error after {k} bytes", tg.name, hex(&b)), &mut |r| {
                    let mut t = TestReader::random(&b, r);
                    t.fail = Some((k, kind));
                    drop((tg.run_read)(&mut t))
                })?;
                c.count("failure points", 1);
            }
            c.eval(vh(tg, &b));
            c.sample(|| format!("{} {} failing at every byte", tg.name, hex(&b)));
            Ok(())
        }),
        stage("duplicates", q(t, 30_000, 500_000), |c| {
            // repeated fields, first and second occurrence both holding memory
            let tg = pick(&mut c.rng);
            let v = any_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            let mut r = Rng::new(c.rng.u64());
            let mut n = 0;
            visit_structs(&tg.ty, &mut w, &mut |t, fs| {
                if let Ty::Struct(s) = t {
                    let k = fs.len();
                    for i in 0..k {
                        if r.p(40) {
                            let f = s.field(fs[i].id).unwrap();
                            let mut cfg = GenCfg::small(&mut r);
                            let v = gen_val(&mut r, &f.ty, &mut cfg);
                            let at = r.idx(fs.len() + 1);
                            fs.insert(at, field_to_wire(f.id, &f.ty, &v));
                            n += 1;
                        }
                    }
                }
            });
            let b = Ser::canon().bytes(&w);
            c.count("repeated fields", n);
            release_case(c, tg, &b)
        }),
        stage("refill", q(t, 30_000, 500_000), |c| {
            // decoding into a populated value
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let b = if c.rng.p(128) {
                hostile_bytes(&mut c.rng, tg)
            } else {
                let v = small_val(&mut c.rng, &tg.ty);
                canon(&tg.ty, &v)
            };
            balanced(c, || format!("{} holding {} filled from {}", tg.name, show(&v), hex(&b)), &mut |_| drop((tg.refill)(&v, &b)))?;
            c.eval(vh(tg, &b));
            Ok(())
        }),
        stage("writing", q(t, 20_000, 200_000), |c| {
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let n = canon(&tg.ty, &v).len();
            let at = c.rng.idx(n + 2);
            balanced(c, || format!("{} writing {}", tg.name, show(&v)), &mut |_| {
                let mut w = TestWriter::new();
                w.fail = Some((at, std::io::ErrorKind::Other));
                drop((tg.enc)(&v, &mut w))
            })?;
            c.eval(hash_bytes(at as u64, tg.name.as_bytes()) ^ c.idx);
            Ok(())
        }),
    ]
}
