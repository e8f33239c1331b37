//! C24: work proportional to the input. Thread CPU time against generous linear bounds, and exact
//! counts of the calls made to inputs, outputs and sources.
use super::codec::hostile_bytes;
use super::*;
use crate::gen::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice};

#[cfg(all(unix, not(miri)))]
pub fn cpu() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
#[cfg(not(all(unix, not(miri))))]
pub fn cpu() -> u64 {
    0
}

/// nanoseconds allowed for `n` bytes: fifty times and more what this takes
fn allowed(n: usize) -> u64 {
    if cfg!(debug_assertions) { 200_000_000 + 4000 * n as u64 } else { 60_000_000 + 1000 * n as u64 }
}

/// the quickest of up to four runs must be within bounds
fn timed(c: &mut Ctx, n: usize, what: &dyn Fn() -> String, mut f: impl FnMut() -> R) -> R {
    let limit = allowed(n);
    let mut best = u64::MAX;
    for _ in 0..4 {
        let t = cpu();
        f()?;
        best = best.min(cpu() - t);
        if best <= limit || best > 20 * limit {
            break;
        }
    }
    c.peak("permille of the allowed time used", best * 1000 / limit);
    ensure!(best <= limit, "{}: {} ms of CPU time for {n} bytes", what(), best / 1_000_000);
    Ok(())
}

fn reads_ok(r: &TestReader, what: &dyn Fn() -> String) -> R {
    ensure!(r.calls <= r.pos as u64 + r.eof_reads + 8, "{}: {} read calls for {} bytes", what(), r.calls, r.pos);
    ensure!(r.eof_reads <= 3, "{}: asks {} times at the end", what(), r.eof_reads);
    Ok(())
}

/// decode from both, write to both, from one typed value
fn both_ways<T: for<'i> compact_thrift_runtime::CompactThriftProtocol<'i> + Default>(c: &mut Ctx, name: &str, b: &[u8], ok: bool) -> R {
    let n = b.len();
    let what = |w: &str| format!("{name}: {w} {}", hex(&b[..n.min(60)]));
    timed(c, n, &|| what("decoding the slice"), || {
        let r = T::read_thrift(&mut CompactThriftInputSlice::new(b));
        ensure!(r.is_ok() == ok, "{}: {:?}", what("decoding the slice"), r.err());
        Ok(())
    })?;
    timed(c, n, &|| what("decoding the stream"), || {
        let mut r = TestReader::new(b);
        let x = T::read_thrift(&mut r);
        ensure!(x.is_ok() == ok, "{}: {:?}", what("decoding the stream"), x.err());
        drop(x);
        reads_ok(&r, &|| what("decoding the stream"))
    })?;
    let mut k = CountingInput::new(b);
    let _ = T::read_thrift(&mut k);
    ensure!(k.calls <= 2 * n as u64 + 16, "{}: {} operations on {n} bytes", what("decoding"), k.calls);
    if ok {
        let x = T::read_thrift(&mut CompactThriftInputSlice::new(b)).unwrap();
        timed(c, n, &|| what("writing to memory what was read from"), || {
            let mut out = vec![];
            x.write_thrift(&mut out).map_err(|e| format!("{name}: {e:?}"))?;
            Ok(())
        })?;
        let mut w = TestWriter::new();
        timed(c, n, &|| what("writing what was read from"), || {
            w = TestWriter::new();
            x.write_thrift(&mut w).map_err(|e| format!("{name}: {e:?}"))
        })?;
        ensure!(w.calls <= w.got.len() as u64 + 16, "{}: {} write calls for {} bytes", what("writing"), w.calls, w.got.len());
        c.count("values written", 1);
    }
    c.count("bytes decoded", n as u64);
    c.peak("message bytes", n as u64);
    c.eval(hash_bytes(hash_bytes(1, name.as_bytes()), &b[..n.min(4096)]) ^ n as u64);
    Ok(())
}

fn skipping(c: &mut Ctx, wt: u8, b: &[u8], ok: bool) -> R {
    let n = b.len();
    let what = |w: &str| format!("skipping type {wt} in the {w} {}", hex(&b[..n.min(60)]));
    timed(c, n, &|| what("slice"), || {
        crate::alloc::reset_max();
        let r = CompactThriftInputSlice::new(b).skip_field(wt);
        let max = crate::alloc::max_req();
        ensure!(r.is_ok() == ok, "{}: {r:?}", what("slice"));
        ensure!(max <= 1 << 16, "{}: {max} bytes of memory requested", what("slice"));
        Ok(())
    })?;
    timed(c, n, &|| what("stream"), || {
        let mut r = TestReader::new(b);
        let x = CompactThriftInput::skip_field(&mut r, wt);
        ensure!(x.is_ok() == ok, "{}: {x:?}", what("stream"));
        reads_ok(&r, &|| what("stream"))
    })?;
    let mut k = CountingInput::new(b);
    let _ = k.skip_field(wt);
    ensure!(k.calls <= 2 * n as u64 + 16, "{}: {} operations", what("input"), k.calls);
    c.count("bytes skipped", n as u64);
    c.eval(hash_bytes(wt as u64, &b[..n.min(4096)]) ^ n as u64);
    Ok(())
}

fn varint(out: &mut Vec<u8>, v: u64) {
    Ser::canon().varint(out, v)
}

/// a list header and `n` elements
fn listed(wt: u8, n: usize, mut e: impl FnMut(&mut Vec<u8>, usize)) -> Vec<u8> {
    let mut b = vec![];
    Ser::canon().list_header(&mut b, n, wt);
    for i in 0..n {
        e(&mut b, i);
    }
    b
}

/// one element of the wire type, of a few bytes
fn elem(rng: &mut Rng, wt: u8) -> Vec<u8> {
    match wt {
        1 | 2 | 3 => vec![1 + rng.below(2) as u8],
        4..=6 => {
            let mut b = vec![];
            let v = if wt == 6 { rng.u64() >> rng.below(64) } else { rng.below(30000) };
            varint(&mut b, v);
            b
        }
        7 => rng.bytes(8),
        8 => {
            let n = rng.idx(9);
            let mut b = vec![n as u8];
            b.extend(rng.bytes(n));
            b
        }
        9 | 10 => vec![0x23, 1, 2],
        11 => if rng.p(128) { vec![0] } else { vec![1, 0x33, 1, 2] },
        12 => if rng.p(100) { vec![0] } else { vec![0x15, 2, 0x11, 0] },
        _ => unreachable!(),
    }
}

const KINDS_LARGE: u64 = 40;

mod nested {
    compact_thrift_runtime::thrift! {
        struct Node { 1: optional Box<Node> next; 2: optional i32 v; }
        struct Tree { 1: optional list<Tree> kids; 2: optional string v; }
        struct Shared { 1: optional Arc<Shared> next; 2: optional bool v; }
        union Chain { 1: i32 v; 2: Box<Link> next; }
        struct Link { 1: required Chain chain; 2: optional Rc<str> v; }
    }
}

/// values inside values of one type, one level more each time
fn nesting(c: &mut Ctx) -> R {
    let kind = c.rng.below(4);
    let values = c.rng.p(128);
    let mut b: Vec<u8> = if kind == 3 { vec![0x15, 2, 0] } else { vec![0] };
    for d in 1..200usize {
        let mut o = vec![];
        match kind {
            0 | 2 => {
                o.push(0x1c);
                o.extend(&b);
                if values {
                    o.extend(if kind == 0 { &[0x15u8, 8][..] } else { &[0x11] });
                }
            }
            1 => {
                o.extend([0x19, 0x1c]);
                o.extend(&b);
                if values {
                    o.extend([0x18, 2, 65, 66]);
                }
            }
            _ => {
                o.extend([0x2c, 0x1c]);
                o.extend(&b);
                if values {
                    o.extend([0x18, 1, 65]);
                }
                o.push(0);
            }
        }
        o.push(0);
        b = o;
        match kind {
            0 => both_ways::<nested::Node>(c, "Node", &b, true),
            1 => both_ways::<nested::Tree>(c, "Tree", &b, true),
            2 => both_ways::<nested::Shared>(c, "Shared", &b, true),
            _ => both_ways::<nested::Chain>(c, "Chain", &b, true),
        }
        .map_err(|e| format!("{d} levels: {e}"))?;
        c.peak("levels of nesting", d as u64);
    }
    Ok(())
}

/// as many elements as there may be, of the smallest size
fn most(c: &mut Ctx) -> R {
    let n = 10_000_000 - c.rng.idx(3);
    let b = |wt: u8, e: u8| {
        let mut b = vec![];
        Ser::canon().list_header(&mut b, n, wt);
        b.resize(b.len() + n, e);
        b
    };
    match c.idx % 8 {
        0 => both_ways::<Vec<Vec<i32>>>(c, "Vec<Vec<i32>>", &b(9, 5), true),
        1 => both_ways::<Vec<String>>(c, "Vec<String>", &b(8, 0), true),
        2 => both_ways::<Vec<Vec<u8>>>(c, "Vec<Vec<u8>>", &b(8, 0), true),
        3 => both_ways::<Vec<bool>>(c, "Vec<bool>", &b(1, 1), true),
        4 => both_ways::<Vec<Option<i64>>>(c, "Vec<Option<i64>>", &b(6, 3), true),
        5 => both_ways::<Vec<Option<bool>>>(c, "Vec<Option<bool>>", &b(2, 2), true),
        6 => both_ways::<Vec<crate::zoo::Empty>>(c, "Vec<Empty>", &b(12, 0), true),
        _ => both_ways::<Vec<i16>>(c, "Vec<i16>", &b(4, 9), true),
    }
}

fn large(c: &mut Ctx) -> R {
    let top = if cfg!(debug_assertions) { 60_000 } else { 250_000 };
    let n = match c.idx / KINDS_LARGE {
        // so many that even a little work per element and earlier element is seen
        0 => if cfg!(debug_assertions) { top } else { 2_000_000 },
        _ => 1000 + (c.rng.idx(top) >> c.rng.below(5)),
    };
    let rng = &mut c.rng.clone();
    let cut = c.idx / KINDS_LARGE > 1 && c.rng.p(100);
    let fin = |mut b: Vec<u8>| {
        if cut {
            b.pop();
        }
        b
    };
    let ints = |rng: &mut Rng, wt: u8, n: usize| {
        let w = rng.below(3);
        listed(wt, n, |b, i| varint(b, match w {
            0 => (i % 100) as u64,
            1 => if wt == 6 { u64::MAX - i as u64 } else { 65535 - (i % 9) as u64 },
            _ => mix(i as u64, 3) >> (if wt == 6 { mix(i as u64, 5) % 60 } else { 49 }),
        }))
    };
    let texts = |rng: &mut Rng, n: usize| {
        let words: Vec<Vec<u8>> = (0..50).map(|_| { let k = rng.idx(12); gen_string(rng, k).into_bytes() }).collect();
        listed(8, n, |b, i| {
            let w = &words[i * 7 % 50];
            varint(b, w.len() as u64);
            b.extend(w);
        })
    };
    let text = |rng: &mut Rng, n: usize| {
        let unit = match rng.below(4) { 0 => "a", 1 => "ä", 2 => "日", _ => "𝄞b" };
        let s = unit.repeat(n / unit.len());
        let mut b = vec![];
        varint(&mut b, s.len() as u64);
        b.extend(s.bytes());
        b
    };
    let small = |b: &mut Vec<u8>, i: usize| b.extend(if i % 2 == 0 { &[0x15u8, 2, 0][..] } else { &[0x15, 2, 0x18, 1, 65, 0] });
    let big = (n * 16).min(16 << 20);
    match c.idx % KINDS_LARGE {
        0 => both_ways::<Vec<i64>>(c, "Vec<i64>", &fin(ints(rng, 6, n)), !cut),
        1 => both_ways::<Vec<i32>>(c, "Vec<i32>", &fin(ints(rng, 5, n)), !cut),
        2 => both_ways::<Vec<i16>>(c, "Vec<i16>", &fin(ints(rng, 4, n)), !cut),
        3 => both_ways::<Vec<bool>>(c, "Vec<bool>", &fin(listed(2, n * 4, |b, i| b.push(1 + (i % 2) as u8))), !cut),
        4 => both_ways::<Vec<f64>>(c, "Vec<f64>", &fin(listed(7, n, |b, i| b.extend(mix(i as u64, 1).to_le_bytes()))), !cut),
        5 => both_ways::<Vec<String>>(c, "Vec<String>", &fin(texts(rng, n)), !cut),
        6 => both_ways::<Vec<Vec<u8>>>(c, "Vec<Vec<u8>>", &fin(texts(rng, n)), !cut),
        7 => both_ways::<Vec<std::rc::Rc<str>>>(c, "Vec<Rc<str>>", &fin(texts(rng, n)), !cut),
        8 => both_ways::<Vec<Vec<i32>>>(c, "Vec<Vec<i32>>", &fin(listed(9, n, |b, i| b.extend(if i % 3 == 0 { &[0x05u8][..] } else { &[0x25, 2, 4] }))), !cut),
        9 => both_ways::<Vec<crate::zoo::Small>>(c, "Vec<Small>", &fin(listed(12, n, small)), !cut),
        10 => both_ways::<Vec<std::sync::Arc<crate::zoo::Small>>>(c, "Vec<Arc<Small>>", &fin(listed(12, n, small)), !cut),
        11 => both_ways::<Vec<crate::zoo::U>>(c, "Vec<U>", &fin(listed(12, n, |b, i| b.extend(if i % 2 == 0 { &[0x56u8, 1, 0][..] } else { &[0x11, 0] }))), !cut),
        12 => both_ways::<Vec<crate::zoo::Empty>>(c, "Vec<Empty>", &fin(listed(12, n, |b, _| b.push(0))), !cut),
        13 => both_ways::<Vec<Option<i32>>>(c, "Vec<Option<i32>>", &fin(ints(rng, 5, n)), !cut),
        14 => both_ways::<String>(c, "String", &fin(text(rng, big)), !cut),
        15 => both_ways::<Box<str>>(c, "Box<str>", &fin(text(rng, big)), !cut),
        16 => {
            let mut b = vec![];
            varint(&mut b, big as u64);
            b.extend(std::iter::repeat(0xff).take(big));
            both_ways::<Vec<u8>>(c, "Vec<u8>", &fin(b), !cut)
        }
        17 => {
            // nested, wide
            let inner = [0x15u8, 2, 0x11, 0xec, 0x11, 0x16, 4, 0, 0];
            let mut b = vec![0x1c, 0x1c];
            b.extend(inner);
            b.push(0x29);
            b.extend(listed(12, n / 10, |b, _| b.extend(inner)));
            b.extend([0, 0x05, 0x40, 0x0e, 0]);
            both_ways::<crate::zoo::Outer>(c, "Outer", &fin(b), !cut)
        }
        18..=21 => {
            // unknown fields, one after the other
            let wt = 1 + rng.below(12) as u8;
            let mut b = vec![0x15, 2];
            let first = c.idx % 2 == 0;
            if first {
                b.clear();
            }
            let mut k = 0;
            while k < n {
                let e = if wt <= 2 { vec![] } else { elem(rng, wt) };
                if k % 1000 == 0 {
                    b.push(wt);
                    varint(&mut b, zz(100));
                } else {
                    b.push(0x10 | wt);
                }
                b.extend(e);
                k += 1;
            }
            if first {
                b.extend([5, 2, 2]);
            }
            b.push(0);
            both_ways::<crate::zoo::Small>(c, "Small", &fin(b), !cut)
        }
        22..=25 => {
            let wt = *rng.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
            let es: Vec<Vec<u8>> = (0..64).map(|_| elem(rng, wt)).collect();
            let b = fin(listed(wt, n, |b, i| b.extend(&es[i % 64])));
            unknown(c, if rng.p(128) { 9 } else { 10 }, b, !cut)
        }
        26..=29 => {
            let (k, v) = (1 + rng.below(12) as u8, 1 + rng.below(12) as u8);
            let (ks, vs): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (0..64).map(|_| (elem(rng, k), elem(rng, v))).unzip();
            let mut b = vec![];
            varint(&mut b, n as u64);
            b.push(k << 4 | v);
            for i in 0..n {
                b.extend(&ks[i % 64]);
                b.extend(&vs[i % 64]);
            }
            unknown(c, 11, fin(b), !cut)
        }
        30 => {
            // a tree: every level holds two of the next
            let mut b = vec![5u8];
            let mut wt = 3;
            while b.len() < n * 4 {
                let k = *rng.pick(&[9u8, 10, 11, 12]);
                let inner = std::mem::take(&mut b);
                match k {
                    9 | 10 => {
                        b.push(0x20 | wt);
                        b.extend(&inner);
                        b.extend(&inner);
                    }
                    11 => {
                        b.extend([1, wt << 4 | wt]);
                        b.extend(&inner);
                        b.extend(&inner);
                    }
                    _ => {
                        b.push(0x10 | wt);
                        b.extend(&inner);
                        b.push(0x10 | wt);
                        b.extend(&inner);
                        b.push(0);
                    }
                }
                wt = k;
            }
            unknown(c, wt, fin(b), !cut)
        }
        31 => {
            // as deep as can be, again and again
            let mut b = vec![];
            let k = 1 + n / 200;
            Ser::canon().list_header(&mut b, k, 12);
            let kind = rng.below(8);
            // the list and the struct take two of the levels
            let (wt, d) = super::hostile::deep(kind, 62, rng);
            for _ in 0..k {
                b.push(0x10 | wt);
                b.extend(&d);
                b.push(0);
            }
            unknown(c, 9, fin(b), !cut)
        }
        33 => nesting(c),
        34 | 35 => {
            // integers far longer than needed
            let pad = 1 + rng.idx(40);
            let wt = 4 + rng.below(3) as u8;
            let k = n * 4 / (pad + 2);
            let b = fin(listed(wt, k, |b, i| {
                b.push(0x80 | i as u8);
                b.extend(std::iter::repeat(0x80).take(pad));
                b.push(0);
            }));
            unknown(c, 9, b.clone(), !cut)?;
            match wt {
                4 => both_ways::<Vec<i16>>(c, "Vec<i16>", &b, !cut),
                5 => both_ways::<Vec<i32>>(c, "Vec<i32>", &b, !cut),
                _ => both_ways::<Vec<i64>>(c, "Vec<i64>", &b, !cut),
            }
        }
        36 => {
            // nothing but one integer
            let mut b = vec![0x80; n * 10];
            b.push(0);
            let b = fin(b);
            skipping(c, 6, &b, !cut)?;
            both_ways::<i64>(c, "i64", &b, !cut)
        }
        37 | 38 => {
            // long texts and binaries nobody wants
            let one = |rng: &mut Rng, n: usize| {
                let mut b = vec![];
                varint(&mut b, n as u64);
                b.resize(b.len() + n, rng.below(256) as u8);
                b
            };
            match rng.below(4) {
                0 => unknown(c, 8, fin(one(rng, big)), !cut),
                1 => {
                    let k = 1 + rng.idx(20);
                    let e = one(rng, big / k);
                    let wt = 9 + rng.below(2) as u8;
                    unknown(c, wt, fin(listed(8, k, |b, _| b.extend(&e))), !cut)
                }
                2 => {
                    let (k, v) = (one(rng, big / 2), one(rng, big / 2));
                    unknown(c, 11, fin([&[1, 0x88][..], &k, &v].concat()), !cut)
                }
                _ => {
                    let (x, y) = (one(rng, big / 2), one(rng, big / 2));
                    unknown(c, 12, fin([&[0x18][..], &x, &[0x28], &y, &[0]].concat()), !cut)
                }
            }
        }
        32 => both_ways::<crate::zoo::AllOpt>(c, "AllOpt", &fin([&[0xc9][..], &listed(5, n, |b, i| varint(b, i as u64)), &[0]].concat()), !cut),
        _ => parquet(c, n, rng, cut),
    }
}

#[cfg(feature = "pq")]
fn parquet(c: &mut Ctx, n: usize, rng: &mut Rng, cut: bool) -> R {
    use compact_thrift_parquet::format::*;
    use compact_thrift_parquet::EncodingSet;
    let fin = |mut b: Vec<u8>| {
        if cut {
            b.pop();
        }
        b
    };
    match rng.below(4) {
        0 => both_ways::<EncodingSet>(c, "EncodingSet", &fin(listed(5, n, |b, i| b.push((i % 31 * 2) as u8))), !cut),
        1 => both_ways::<OffsetIndex>(c, "OffsetIndex", &fin([&[0x19][..], &listed(12, n / 4, |b, i| {
            b.push(0x16);
            varint(b, i as u64 * 4000);
            b.extend([0x15, 20, 0x16]);
            varint(b, i as u64);
            b.push(0);
        }), &[0]].concat()), !cut),
        _ => {
            let ty = &target("FileMetaData").ty;
            let mut v = small_val(rng, ty);
            let Ty::Struct(s) = ty else { unreachable!() };
            let rg = &s.fields.iter().find(|f| f.name == "row_groups").unwrap();
            let Ty::List(e) = &rg.ty else { unreachable!() };
            let one = any_val(rng, e);
            let size = canon(e, &one).len();
            if let Val::Struct(fs) = &mut v {
                for f in fs {
                    if f.0 == rg.id {
                        f.1 = Val::List(vec![one.clone(); (n * 4 / size.max(1)).clamp(1, 20_000)]);
                    }
                }
            }
            both_ways::<FileMetaData>(c, "FileMetaData", &fin(canon(ty, &v)), !cut)
        }
    }
}
#[cfg(not(feature = "pq"))]
fn parquet(_: &mut Ctx, _: usize, _: &mut Rng, _: bool) -> R {
    Ok(())
}

/// skipped by itself and as a field of a struct
fn unknown(c: &mut Ctx, wt: u8, b: Vec<u8>, ok: bool) -> R {
    skipping(c, wt, &b, ok)?;
    let mut m = vec![];
    Ser::canon().header(&mut m, &mut 0, 77, wt);
    m.extend(b);
    if ok {
        m.extend([5, 2, 2, 0]);
    }
    both_ways::<crate::zoo::Small>(c, "Small", &m, ok)
}

/// few bytes that declare a lot
fn declared(c: &mut Ctx) -> R {
    let rng = &mut c.rng.clone();
    let count = *rng.pick(&[10_000_000u64, 9_999_999, 5_000_000, 1 << 20]);
    let mut body = vec![];
    let wt;
    match rng.below(3) {
        0 => {
            wt = 11;
            varint(&mut body, count);
            body.push(rng.u64() as u8);
        }
        1 => {
            wt = 8;
            varint(&mut body, *rng.pick(&[16u64 << 20, (16 << 20) - 1, 8 << 20]));
        }
        _ => {
            wt = if rng.p(128) { 9 } else { 10 };
            body.push(0xf0 | rng.below(16) as u8);
            varint(&mut body, count);
        }
    }
    // one hundred of them, should one by itself cost nothing
    let mut b = vec![];
    let k = 1 + rng.idx(100);
    for _ in 0..k {
        b.push(0x10 | wt);
        b.extend(&body);
    }
    let n = rng.idx(40);
    b.extend(rng.bytes(n));
    let d = || format!("{} declaring {count} {k} times", hex(&b[..b.len().min(40)]));
    timed(c, b.len(), &|| format!("skipping {}", d()), || {
        let _ = CompactThriftInputSlice::new(&b).skip_field(12);
        Ok(())
    })?;
    timed(c, b.len(), &|| format!("skipping {} in a stream", d()), || {
        let mut r = TestReader::new(&b);
        let _ = CompactThriftInput::skip_field(&mut r, 12);
        reads_ok(&r, &d)
    })?;
    for tg in ["Small", "Empty", "Gaps"] {
        let tg = target(tg);
        timed(c, b.len(), &|| format!("{}: decoding {}", tg.name, d()), || {
            let _ = (tg.run_slice)(&b);
            Ok(())
        })?;
    }
    // where a list or a string is expected
    let tg = pick(&mut c.rng);
    let v = small_val(&mut c.rng, &tg.ty);
    let mut w = to_wire(&tg.ty, &v);
    let at = sizes(&mut w, &mut c.rng);
    if at > 0 {
        let b = Ser::canon().bytes(&w);
        c.count("declared sizes blown up", 1);
        timed(c, b.len(), &|| format!("{}: decoding {}", tg.name, hex(&b)), || {
            let _ = (tg.run_slice)(&b);
            Ok(())
        })?;
        timed(c, b.len(), &|| format!("{}: decoding the stream {}", tg.name, hex(&b)), || {
            let mut r = TestReader::new(&b);
            let _ = (tg.run_read)(&mut r);
            reads_ok(&r, &|| format!("{}: {}", tg.name, hex(&b)))
        })?;
        c.eval(vh(tg, &b));
    }
    c.eval(hash_bytes(4, &b));
    Ok(())
}

/// makes one list (or string) announce far more than follows; number of those found
fn sizes(w: &mut W, rng: &mut Rng) -> usize {
    fn count(w: &W) -> usize {
        match w {
            W::List(_, es) => 1 + es.iter().map(count).sum::<usize>(),
            W::Bin(_) => 1,
            W::Struct(fs) => fs.iter().map(|f| count(&f.w)).sum(),
            _ => 0,
        }
    }
    fn set(w: &mut W, k: &mut usize, size: u64) {
        let hit = matches!(w, W::List(..) | W::Bin(_)) && {
            *k = k.wrapping_sub(1);
            *k == usize::MAX
        };
        match w {
            W::List(wt, es) => {
                if hit {
                    let mut b = vec![0xf0 | *wt];
                    varint(&mut b, size);
                    for e in es {
                        b.extend(Ser::canon().bytes(e));
                    }
                    *w = W::Raw(b);
                } else {
                    es.iter_mut().for_each(|e| set(e, k, size));
                }
            }
            W::Bin(x) if hit => {
                let mut b = vec![];
                varint(&mut b, size.min(16 << 20));
                b.extend(x.iter());
                *w = W::Raw(b);
            }
            W::Struct(fs) => fs.iter_mut().for_each(|f| set(&mut f.w, k, size)),
            _ => {}
        }
    }
    let n = count(w);
    if n > 0 {
        let mut k = rng.idx(n);
        set(w, &mut k, *rng.pick(&[10_000_000, 9_999_999, 1 << 23]));
    }
    n
}

/// any bytes: calls and time
fn hostile(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let b = hostile_bytes(&mut c.rng, tg);
    let mut r = TestReader::new(&b);
    if c.rng.p(60) {
        r.chunk = Chunk::One;
    }
    let t = cpu();
    let _ = (tg.run_read)(&mut r);
    let spent = cpu() - t;
    reads_ok(&r, &|| format!("{}: {}", tg.name, hex(&b)))?;
    if spent > allowed(b.len()) {
        timed(c, b.len(), &|| format!("{}: decoding {}", tg.name, hex(&b)), || {
            let _ = (tg.run_read)(&mut TestReader::new(&b));
            Ok(())
        })?;
    }
    let (_, calls) = (tg.counting)(&b);
    ensure!(calls <= 2 * b.len() as u64 + 16, "{}: {calls} operations on {}", tg.name, hex(&b));
    c.count("read calls", r.calls);
    if b.is_empty() { c.eval_trivial() } else { c.eval(vh(tg, &b)) }
    Ok(())
}

/// any value: calls made to the output
fn written(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let v = any_val(&mut c.rng, &tg.ty);
    let mut w = TestWriter::new();
    let r = (tg.enc)(&v, &mut w);
    ensure!(r.is_ok(), "{}: writing {}: {r:?}", tg.name, show(&v));
    ensure!(w.calls <= w.got.len() as u64 + 16, "{}: {} write calls for the {} bytes {}", tg.name, w.calls, w.got.len(), hex(&w.got));
    c.count("write calls", w.calls);
    c.eval(vh(tg, &w.got));
    Ok(())
}

#[cfg(feature = "pq")]
struct Tally<T> {
    inner: T,
    reads: u64,
    bytes: u64,
    seeks: u64,
}
#[cfg(feature = "pq")]
impl<T: std::io::Read> std::io::Read for Tally<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        let n = self.inner.read(b)?;
        self.bytes += n as u64;
        Ok(n)
    }
}
#[cfg(feature = "pq")]
impl<T: std::io::Seek> std::io::Seek for Tally<T> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.seeks += 1;
        self.inner.seek(p)
    }
}

/// only the parts that matter are read, however large the file
#[cfg(feature = "pq")]
fn sources(c: &mut Ctx) -> R {
    use compact_thrift_parquet::*;
    let n = c.rng.idx(3000);
    let mut tail = c.rng.bytes(n);
    tail.extend((n as u32).to_le_bytes());
    tail.extend(b"PAR1");
    let size = (3 << 20) + (c.rng.u64() >> (2 + c.rng.below(40)));
    let v = Virtual { size, pos: c.rng.below(size), parts: vec![(size - tail.len() as u64, tail)], seed: 1, chunk: Chunk::All, rng: Rng::new(1), pulled: 0, budget: 3 << 20 };
    let mut s = Tally { inner: v, reads: 0, bytes: 0, seeks: 0 };
    let r = get_metadata_chunk(&mut s).map(|m| m.len());
    let d = format!("{n} bytes of metadata at the end of {size}");
    ensure!(matches!(r, Ok(k) if k == n), "{d}: {r:?}");
    let slack = 1 << 20;
    ensure!(s.bytes <= 4 * n as u64 + slack && s.reads <= 64 + n as u64 / 64 && s.seeks <= 32, "{d}: {} bytes read in {} calls, {} seeks", s.bytes, s.reads, s.seeks);
    // page indexes of many columns
    let cols = 1 + c.rng.idx(40);
    let at = c.rng.below(size - (1 << 21));
    let mut groups = vec![vec![]];
    for i in 0..cols {
        let o = at as i64 + i as i64 * 60;
        groups[0].push(super::parquet::Col { oo: Some(o), ol: Some(20), co: Some(o + 30), cl: Some(20), pair: None });
    }
    let meta = super::parquet::metadata(&mut c.rng, &groups);
    s.bytes = 0;
    s.reads = 0;
    s.seeks = 0;
    s.inner.pulled = 0;
    let r = get_page_index_chunk(&mut s, &meta).map(|r| r.map(|x| x.1));
    let span = cols as u64 * 60 - 10;
    let d = format!("indexes of {cols} columns at {at} of {size}: {r:?}, {} bytes read in {} calls, {} seeks", s.bytes, s.reads, s.seeks);
    ensure!(matches!(&r, Ok(Some(x)) if *x == (at as usize..(at + span) as usize)), "{d}");
    ensure!(s.bytes <= 4 * span + slack && s.reads <= 64 + span / 64 && s.seeks <= 32, "{d}");
    c.count("bytes read", s.bytes);
    c.count("read calls", s.reads);
    c.eval(mix(size, at));
    c.sample(|| d.clone());
    Ok(())
}

/// page indexes of very many columns, of their own or shared
#[cfg(feature = "pq")]
fn columns(c: &mut Ctx) -> R {
    use compact_thrift_parquet::*;
    let rng = &mut c.rng;
    let n = if cfg!(debug_assertions) { 5000 } else { 100_000 } + rng.idx(1000);
    let per = *rng.pick(&[1usize, 40, 1000, n]);
    let own = rng.p(170);
    let none = *rng.pick(&[0u32, 0, 40, 255]);
    let gap = rng.idx(3);
    // the first kind first, or columns interleaved, forwards or backwards
    let apart = rng.p(128);
    let back = rng.p(100);
    let oi = vec![0x19, 0x0c, 0];
    let ci = canon(&target("ColumnIndex").ty, &Val::Struct(vec![(1, Val::List(vec![])), (2, Val::List(vec![])), (3, Val::List(vec![])), (4, Val::I32(0))]));
    let (lo, lc) = (oi.len(), ci.len());
    let unit = lo + lc + gap;
    let mut chunk = vec![];
    let slots = if own { n } else { 1 + rng.idx(3) };
    if apart {
        chunk.extend(oi.repeat(slots));
        chunk.extend(ci.repeat(slots));
    } else {
        for _ in 0..slots {
            chunk.extend(&oi);
            chunk.extend(&ci);
            chunk.extend(&vec![0; gap]);
        }
    }
    let start = rng.below(1 << 33) as i64;
    let mut cols = vec![];
    for i in 0..n {
        let mut col = super::parquet::Col::default();
        if !rng.p(none) {
            let k = if back { slots - 1 - i % slots } else { i % slots };
            let (o, cc) = if apart { (k * lo, slots * lo + k * lc) } else { (k * unit, k * unit + lo) };
            col = super::parquet::Col { oo: Some(start + o as i64), ol: Some(lo as i32), co: Some(start + cc as i64), cl: Some(lc as i32), pair: None };
        }
        cols.push(col);
    }
    let groups: Vec<Vec<super::parquet::Col>> = cols.chunks(per).map(|c| c.to_vec()).collect();
    let meta = super::parquet::metadata(rng, &groups);
    let d = format!("page indexes of {n} columns in groups of {per}, {slots} of each index, apart {apart}, backwards {back}, {none}/256 without");
    let bytes = n * 20;
    timed(c, bytes, &|| format!("{d}: their range"), || get_page_index_range(&meta).map(|_| ()).map_err(|e| format!("{d}: {e:?}")))?;
    let mut got = 0;
    timed(c, bytes, &|| format!("{d}: reading them"), || {
        let r = read_page_index(&chunk, start as usize, &meta).map_err(|e| format!("{d}: {e:?}"))?;
        got = r.iter().flatten().filter(|x| x.is_some()).count();
        Ok(())
    })?;
    ensure!(got == cols.iter().filter(|c| c.oo.is_some()).count(), "{d}: {got} indexes");
    c.count("columns", n as u64);
    c.eval(mix(n as u64, start as u64));
    c.sample(|| d.clone());
    Ok(())
}

/// every list there is in a declared type, with many elements
fn lists(c: &mut Ctx) -> R {
    let rng = &mut c.rng.clone();
    let mut all: Vec<(&'static Target, Option<i16>, &'static Ty)> = vec![];
    for tg in targets() {
        match &tg.ty {
            Ty::List(e) => all.push((tg, None, e)),
            Ty::Struct(s) => all.extend(s.fields.iter().filter_map(|f| if let Ty::List(e) = &f.ty { Some((tg, Some(f.id), &**e)) } else { None })),
            Ty::Union(s) => all.extend(s.fields.iter().filter_map(|f| if let Ty::List(e) = &f.ty { Some((tg, Some(f.id), &**e)) } else { None })),
            _ => {}
        }
    }
    let (tg, id, e) = all[(c.idx % all.len() as u64) as usize];
    // a few elements again and again
    let kinds = 1 + rng.idx(4);
    let few: Vec<(Val, usize)> = (0..kinds)
        .map(|_| {
            let present = *rng.pick(&[0, 40, 256]);
            let v = gen_val(rng, e, &mut GenCfg { budget: 3, present, big: false });
            let n = canon(e, &v).len();
            (v, n)
        })
        .collect();
    let unit = few.iter().map(|x| x.1).max().unwrap();
    let bytes = if cfg!(debug_assertions) { 60_000 } else { 400_000 };
    let n = (bytes / unit).clamp(1, if cfg!(debug_assertions) { 8_000 } else { 50_000 });
    let l = Val::List((0..n).map(|i| few[i % few.len()].0.clone()).collect());
    let v = match (&tg.ty, id) {
        (Ty::Struct(s), Some(id)) => Val::Struct(
            s.fields
                .iter()
                .filter(|f| f.id == id || f.required)
                .map(|f| (f.id, if f.id == id { l.clone() } else { gen_val(rng, &f.ty, &mut GenCfg { budget: 3, present: 0, big: false }) }))
                .collect(),
        ),
        (Ty::Union(_), Some(id)) => Val::Union(id, Box::new(l)),
        _ => l,
    };
    let b = canon(&tg.ty, &v);
    let what = |w: &str| format!("{}: {w} a list (field {id:?}) of {n} elements as in {}", tg.name, hex(&b[..b.len().min(60)]));
    timed(c, b.len(), &|| what("decoding"), || (tg.run_slice)(&b).map_err(|e| format!("{}: {e:?}", what("decoding"))))?;
    timed(c, b.len(), &|| what("decoding the stream with"), || {
        let mut r = TestReader::new(&b);
        (tg.run_read)(&mut r).map_err(|e| format!("{}: {e:?}", what("decoding the stream with")))?;
        reads_ok(&r, &|| what("decoding the stream with"))
    })?;
    timed(c, b.len() * 2, &|| what("writing"), || (tg.enc_vec)(&v).map(|_| ()).map_err(|e| format!("{}: {e:?}", what("writing"))))?;
    c.count("elements", n as u64);
    c.eval(vh(tg, &b[..b.len().min(4096)]) ^ n as u64);
    Ok(())
}

pub fn c24(t: bool) -> Vec<Stage> {
    vec![
        stage("lists", raw(t, 300, 6000), lists),
        stage("large", KINDS_LARGE * raw(t, 6, 120), large),
        stage("most", if cfg!(debug_assertions) { 0 } else { 8 }, most),
        stage("declared", q(t, 1000, 20_000), declared),
        stage("hostile", q(t, 60_000, 1_500_000), hostile),
        stage("written", q(t, 20_000, 500_000), written),
        #[cfg(feature = "pq")]
        stage("columns", raw(t, 24, 500), columns),
        #[cfg(feature = "pq")]
        stage("sources", q(t, 3000, 60_000), sources),
    ]
}
