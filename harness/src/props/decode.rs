//! C06 unknown fields, C07 slice = stream, C08 truncation, C09 presence rules, C10 wire types, C11 UTF-8.
use super::codec::hostile_bytes;
use super::*;
use crate::er::*;
use crate::gen::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice};
use std::io::{ErrorKind, Read};
use std::sync::Arc;

/// skip through the public method, from a slice and from a stream
pub fn skip_slice(b: &[u8], wt: u8) -> (Result<(), Er>, usize) {
    let mut i = CompactThriftInputSlice::new(b);
    let r = i.skip_field(wt).map_err(er);
    (r, b.len() - i.as_slice().len())
}
pub fn skip_read(mut r: &mut dyn Read, wt: u8) -> Result<(), Er> {
    CompactThriftInput::skip_field(&mut r, wt).map_err(er)
}

fn expect_skip(b: &[u8], wt: u8, n: usize, rng: &mut Rng) -> R {
    let (r, used) = skip_slice(b, wt);
    ensure!(r.is_ok() && used == n, "skipping wire type {wt} at {}: {r:?} after {used} bytes, the value has {n}", hex(b));
    let mut t = TestReader::random(b, rng);
    let r = skip_read(&mut t, wt);
    ensure!(r.is_ok() && t.pos == n, "skipping wire type {wt} in a stream {}: {r:?} after {} bytes, the value has {n}", hex(b), t.pos);
    Ok(())
}

fn tail(rng: &mut Rng) -> Vec<u8> {
    let n = *rng.pick(&[0usize, 0, 1, 2, 5, 7, 14, 15, 16, 17, 18, 31, 33]);
    match rng.below(4) {
        0 => vec![0xff; n],
        1 => vec![0; n],
        2 => vec![0x80; n],
        _ => rng.bytes(n),
    }
}

/// fields before a nested struct (ending in its header) and behind it (ending in a stop byte)
fn id_runs(rng: &mut Rng, depth: usize) -> (Vec<u8>, Vec<u8>) {
    let mut b = vec![];
    let mut id: i32 = 0;
    let mut s = Ser::canon();
    // where the nested struct is, and what surrounds it
    let wide = depth <= 8 || rng.p(20);
    let nested = match rng.below(4) {
        0 => *rng.pick(&[-32768i32, -32767, -1, 0, 1, 15, 16]),
        1 => *rng.pick(&[32752, 32753, 32766, 32767]),
        _ => rng.int(16) as i32,
    };
    let put = |b: &mut Vec<u8>, id: &mut i32, to: i32, wt: u8, s: &mut Ser, rng: &mut Rng| {
        let mut last = *id as i16;
        s.header(b, &mut last, to as i16, wt);
        match wt {
            3 => b.push(rng.u64() as u8),
            5 => b.push(rng.u64() as u8 & 0x7f),
            _ => {}
        }
        *id = to;
    };
    let chain = |b: &mut Vec<u8>, id: &mut i32, to: i32, s: &mut Ser, rng: &mut Rng| {
        if to - *id > 15 && !wide {
            let from = (to - 15 * rng.range(1, 3) as i32).max(*id + 1);
            put(b, id, from, 1, s, rng);
        }
        while to - *id > 15 {
            let next = *id + 15;
            put(b, id, next, *rng.clone().pick(&[1, 2, 3]), s, rng);
        }
    };
    if rng.p(128) {
        put(&mut b, &mut id, *rng.clone().pick(&[-32768, -5, 1, 7, 32000, 32767]), 5, &mut s, rng);
    }
    if nested > id {
        chain(&mut b, &mut id, nested, &mut s, rng);
    }
    put(&mut b, &mut id, nested, 12, &mut s, rng);
    let mut a = vec![];
    chain(&mut a, &mut id, 32767, &mut s, rng);
    if id < 32767 {
        put(&mut a, &mut id, 32767, 1, &mut s, rng);
    }
    a.push(0);
    (b, a)
}

pub fn c06(t: bool) -> Vec<Stage> {
    vec![
        stage("integers", 20 * 45 * 6, |c| {
            // every encoded length, at every distance from the end of the input, all continuations
            let len = 1 + (c.idx % 20) as usize;
            let dist = (c.idx / 20 % 45) as usize;
            let kind = c.idx / 900;
            let mut b: Vec<u8> = (0..len - 1).map(|_| 0x80 | if kind & 1 == 0 { c.rng.u64() as u8 } else { 0 }).collect();
            b.push(c.rng.u64() as u8 & 0x7f);
            match kind / 2 {
                0 => b.extend(std::iter::repeat(0xff).take(dist)),
                1 => b.extend(std::iter::repeat(0).take(dist)),
                _ => b.extend(c.rng.bytes(dist)),
            }
            for wt in [4u8, 5, 6] {
                expect_skip(&b, wt, len, &mut c.rng)?;
                c.eval(hash_bytes(wt as u64, &b));
            }
            let mut i = CompactThriftInputSlice::new(&b);
            let r = i.skip_integer();
            ensure!(r.is_ok() && b.len() - i.as_slice().len() == len, "skip_integer at {}: {r:?}, left {}", hex(&b), hex(i.as_slice()));
            // the same integer as an unknown field between known ones
            for at in 0..3usize {
                let wf = WF { id: 7, wt: 4 + (kind % 3) as u8, w: W::Raw(b[..len].to_vec()) };
                let mut fs = vec![WF { id: 1, wt: 5, w: W::Var(84) }, WF { id: 2, wt: 8, w: W::Bin(vec![b'x'; dist]) }];
                fs.insert(at, wf);
                let m = Ser::canon().bytes(&W::Struct(fs));
                let v = Val::Struct(vec![(1, Val::I32(42)), (2, Val::Str("x".repeat(dist)))]);
                expect_value(target("Small"), &m, m.len(), &v, &mut c.rng)?;
                c.eval(hash_bytes(9, &m));
            }
            c.sample(|| format!("{len}-byte integer, {dist} bytes before the end of the input"));
            Ok(())
        }),
        stage("lengths", 310 * 14, |c| {
            let n = (c.idx / 14) as usize;
            let n = if n > 301 { [16384usize, 70000, 300_000, 16383, 32768, 65535, 127, 128][n - 302] } else { n };
            let k = (c.idx % 14) as u8;
            let (wt, w) = match k {
                0 => (8, W::Bin(c.rng.bytes(n))),
                1..=8 => {
                    let e = [1, 2, 3, 4, 5, 6, 7, 8][k as usize - 1];
                    (9, W::List(e, (0..n).map(|_| gen_wire(&mut c.rng, e, true, 1, &mut -1)).collect()))
                }
                9 => (10, W::List(12, (0..n).map(|_| W::Struct(vec![])).collect())),
                10 => (9, W::List(9, (0..n).map(|_| W::List(3, vec![])).collect())),
                11 => (11, W::Map(8, 5, (0..n.min(20000)).map(|i| (W::Bin(vec![1; i % 3]), W::Var(i as u64))).collect())),
                12 => (11, W::Map(2, 12, (0..n.min(20000)).map(|_| (W::Byte(1), W::Struct(vec![]))).collect())),
                _ => (10, W::List(11, (0..n.min(20000)).map(|i| W::Map(3, 3, vec![(W::Byte(1), W::Byte(2)); i % 2])).collect())),
            };
            let mut b = Ser::canon().bytes(&w);
            let len = b.len();
            b.extend(tail(&mut c.rng));
            c.eval(hash_bytes(wt as u64, &b[..len]));
            expect_skip(&b, wt, len, &mut c.rng)
        }),
        stage("long", raw(t, 3000, 40_000), |c| {
            let (wt, w) = long_wire(&mut c.rng, 150_000);
            let mut b = if c.rng.p(128) { Ser::canon().bytes(&w) } else { Ser::alt(&mut c.rng).bytes(&w) };
            let len = b.len();
            b.extend(tail(&mut c.rng));
            c.eval(hash_bytes(wt as u64, &b[..len]));
            c.peak("bytes skipped", len as u64);
            expect_skip(&b, wt, len, &mut c.rng)
        }),
        stage("huge", raw(t, 40, 300), |c| {
            // contents up to the longest that are read at all
            let mib = 1usize << 20;
            let n = match c.idx % 8 {
                0 => mib * c.rng.range(1, 16) as usize,
                1 => mib * c.rng.range(1, 16) as usize - 1,
                2 => (mib * c.rng.range(1, 15) as usize) + 1 + c.rng.idx(20),
                3 => 16 * mib,
                _ => 300_000 + c.rng.idx(16 * mib - 300_000),
            };
            let (wt, mut b) = if c.idx % 4 != 3 {
                let mut b = vec![];
                Ser::canon().varint(&mut b, n as u64);
                let at = b.len();
                b.resize(at + n, *c.rng.pick(&[0u8, 1, 0x80, 0xff, 0x15]));
                (8u8, b)
            } else {
                let n = n.min(3_000_000);
                let e = *c.rng.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12]);
                let mut b = vec![0xf0 | e];
                Ser::canon().varint(&mut b, n as u64);
                let at = b.len();
                b.resize(at + n * if e == 7 { 8 } else { 1 }, if e == 9 { 5 } else { 0 });
                (9 + c.rng.below(2) as u8, b)
            };
            let len = b.len();
            c.eval(hash_bytes(wt as u64, &b));
            c.peak("bytes skipped", len as u64);
            b.extend(tail(&mut c.rng));
            expect_skip(&b, wt, len, &mut c.rng)?;
            let mut m = vec![0x15, 84, 0x60 | wt];
            m.extend(&b[..len]);
            m.push(0);
            expect_value(target("Small"), &m, m.len(), &Val::Struct(vec![(1, Val::I32(42))]), &mut c.rng)
        }),
        stage("exact", q(t, 80_000, 2_000_000), |c| {
            let wt = 1 + c.rng.below(12) as u8;
            let depth = c.rng.range(1, 6) as u32;
            let mut budget = *c.rng.pick(&[5i64, 20, 60]);
            let w = gen_wire(&mut c.rng, wt, false, depth, &mut budget);
            let mut b = Ser::alt(&mut c.rng).bytes(&w);
            let len = b.len();
            debug_assert_eq!(ref_skip(wt, &b), Ok(len));
            b.extend(tail(&mut c.rng));
            if len == 0 { c.eval_trivial() } else { c.eval(hash_bytes(wt as u64, &b[..len])) }
            c.count(WT[wt as usize], 1);
            c.sample(|| format!("skip wire type {wt}: {}", hex(&b[..len])));
            expect_skip(&b, wt, len, &mut c.rng)
        }),
        stage("nested", 64 * q(t, 60, 1500), |c| {
            let depth = 1 + (c.idx % 64) as u32;
            let (wt, w) = gen_chain(&mut c.rng, depth);
            let mut b = Ser::alt(&mut c.rng).bytes(&w);
            let len = b.len();
            b.extend(tail(&mut c.rng));
            expect_skip(&b, wt, len, &mut c.rng)?;
            c.eval(hash_bytes(wt as u64, &b[..len]));
            c.peak("nesting depth skipped", depth as u64);
            // as an unknown field of a struct that is itself nested in the decoded value
            let tg = *c.rng.pick(&[target("Outer"), target("Small"), target("Vec<Vec<Inner3>>"), target("Boxed")]);
            let v = small_val(&mut c.rng, &tg.ty);
            let mut tree = to_wire(&tg.ty, &v);
            let mut one = Some(WF { id: 29, wt, w });
            let mut r2 = Rng::new(c.rng.u64());
            visit_structs(&tg.ty, &mut tree, &mut |_, fs| {
                if one.is_some() && fs.iter().all(|f| f.id != 29) && r2.p(128) {
                    let at = r2.idx(fs.len() + 1);
                    fs.insert(at, one.take().unwrap());
                }
            });
            // unions must not receive one
            if one.is_some() || has_union(&tg.ty, &tree) {
                return Ok(());
            }
            let m = Ser::canon().bytes(&tree);
            c.eval(vh(tg, &m));
            expect_value(tg, &m, m.len(), &v, &mut c.rng)
        }),
        stage("ids", 63 * raw(t, 20, 500), |c| {
            // ids reach the ends of their range at every level of what is skipped
            let depth = 1 + (c.idx % 63) as usize;
            let runs: Vec<(Vec<u8>, Vec<u8>)> = (0..depth).map(|_| id_runs(&mut c.rng, depth)).collect();
            let mut b = vec![];
            for (before, _) in &runs {
                b.extend(before);
            }
            // the innermost struct is empty
            b.push(0);
            for (_, after) in runs.iter().rev() {
                b.extend(after);
            }
            let n = b.len();
            b.extend(tail(&mut c.rng));
            assert_eq!(ref_skip(12, &b), Ok(n), "harness: {}", hex(&b));
            expect_skip(&b, 12, n, &mut c.rng)?;
            let m = [&[0x15, 84, 0x0c, 98][..], &b[..n], &[0]].concat();
            c.eval(hash_bytes(12, &m));
            c.peak("nesting depth with full ids", depth as u64);
            c.sample(|| format!("{depth} nested structs: {}", hex(&b)));
            expect_value(target("Small"), &m, m.len(), &Val::Struct(vec![(1, Val::I32(42))]), &mut c.rng)
        }),
        stage("unknown", q(t, 120_000, 3_000_000), |c| {
            let tg = pick(&mut c.rng);
            let v = any_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            let p = *c.rng.pick(&[20, 90, 170]);
            let depth = *c.rng.pick(&[1u32, 2, 4, 10, 30]);
            let n = add_unknown(&mut c.rng, &tg.ty, &mut w, p, depth);
            if c.rng.p(60) {
                shuffle_fields(&mut c.rng, &tg.ty, &mut w);
            }
            let mut b = if c.rng.p(128) { Ser::canon().bytes(&w) } else { Ser::alt(&mut c.rng).bytes(&w) };
            let len = b.len();
            let (rv, rn) = ref_decode(&tg.ty, &b).unwrap_or_else(|e| panic!("reference rejects {e:?}: {}", hex(&b)));
            assert!(rv == v && rn == len);
            b.extend(tail(&mut c.rng));
            if n == 0 { c.eval_trivial() } else { c.eval(vh(tg, &b[..len])) }
            c.count("unknown fields inserted", n as u64);
            c.sample(|| format!("{} with {n} unknown fields: {}", tg.name, hex(&b[..len])));
            expect_value(tg, &b, len, &v, &mut c.rng)
        }),
        stage("unknown-everywhere", q(t, 25_000, 300_000), |c| {
            // each position of each struct of the value, one unknown field at a time
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let base = to_wire(&tg.ty, &v);
            let mut places = 0usize;
            visit_structs(&tg.ty, &mut base.clone(), &mut |t, fs| {
                if let Ty::Struct(_) = t {
                    places += fs.len() + 1;
                }
            });
            if places == 0 {
                c.eval_trivial();
                return Ok(());
            }
            let step = (places / 12).max(1);
            let mut pos = c.rng.idx(step);
            while pos < places {
                let mut w = base.clone();
                let mut k = 0;
                let mut r = Rng::new(c.rng.u64());
                visit_structs(&tg.ty, &mut w, &mut |t, fs| {
                    if let Ty::Struct(s) = t {
                        let m = fs.len() + 1;
                        if (k..k + m).contains(&pos) {
                            let id = unused_id(&mut r, s);
                            let wt = gen_wt_field(&mut r, 3);
                            let x = gen_wire(&mut r, wt, false, 3, &mut 10);
                            fs.insert(pos - k, WF { id, wt, w: x });
                        }
                        k += m;
                    }
                });
                let b = Ser::canon().bytes(&w);
                c.eval(vh(tg, &b));
                expect_value(tg, &b, b.len(), &v, &mut c.rng)?;
                pos += step;
            }
            Ok(())
        }),
        stage("hostile-skip", q(t, 150_000, 3_000_000), |c| {
            let wt = 1 + c.rng.below(15) as u8;
            let mut b = if wt < 13 && c.rng.p(190) {
                let mut budget = 20;
                let w = gen_wire(&mut c.rng, wt, false, 4, &mut budget);
                Ser::alt(&mut c.rng).bytes(&w)
            } else {
                let n = c.rng.idx(40);
                headerish(&mut c.rng, n)
            };
            mutate(&mut c.rng, &mut b);
            let want = ref_skip(wt, &b);
            if want == Err(Bad::Gray) {
                c.eval_trivial();
                return Ok(());
            }
            let (r, used) = skip_slice(&b, wt);
            let mut tr = TestReader::random(&b, &mut c.rng);
            let r2 = skip_read(&mut tr, wt);
            match want {
                Ok(n) => {
                    ensure!(r.is_ok() && used == n, "skipping wire type {wt} at {}: {r:?} after {used} bytes, the value has {n}", hex(&b));
                    ensure!(r2.is_ok() && tr.pos == n, "skipping wire type {wt} in a stream {}: {r2:?} after {} bytes, the value has {n}", hex(&b), tr.pos);
                    c.count("valid", 1);
                }
                Err(e) => {
                    ensure!(r.is_err() && r2.is_err(), "skipping wire type {wt} at {} succeeds but the value is invalid: {e:?}", hex(&b));
                    c.count("invalid", 1);
                }
            }
            c.eval(hash_bytes(wt as u64, &b));
            Ok(())
        }),
    ]
}

const WT: [&str; 16] = ["wt0", "wt1 true", "wt2 false", "wt3 i8", "wt4 i16", "wt5 i32", "wt6 i64", "wt7 double", "wt8 binary", "wt9 list", "wt10 set", "wt11 map", "wt12 struct", "wt13", "wt14", "wt15"];

/// any union node holding field 29?
fn has_union(ty: &Ty, w: &W) -> bool {
    let mut bad = false;
    visit_structs(ty, &mut w.clone(), &mut |t, fs| {
        if let Ty::Union(_) = t {
            bad |= fs.len() != 1;
        }
    });
    bad
}

// ---------------------------------------------------------------- C07

/// both outcomes, shortened
fn apart(a: &Outcome, b: &Outcome) -> String {
    let f = |o: &Outcome| match o {
        Ok(v) => show(v),
        Err(e) => format!("{e:?}"),
    };
    format!("{} / {}", f(a), f(b))
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    a == b
}

/// decode through one of several standard and instrumented readers; pulled bytes where countable
fn via_any(tg: &Target, b: &[u8], rng: &mut Rng) -> (Outcome, Option<usize>, &'static str) {
    match rng.below(9) {
        0 => {
            let mut s = b;
            let o = (tg.dec_read)(&mut s);
            (o, Some(b.len() - s.len()), "&[u8]")
        }
        1 => {
            let mut s = std::io::Cursor::new(b);
            let o = (tg.dec_read)(&mut s);
            let p = s.position() as usize;
            (o, Some(p), "Cursor")
        }
        2 => {
            let cap = *rng.pick(&[1, 2, 7, 16, 64]);
            let mut s = std::io::BufReader::with_capacity(cap, TestReader::random(b, rng));
            let o = (tg.dec_read)(&mut s);
            let left = s.buffer().len();
            let p = s.get_ref().pos - left;
            (o, Some(p), "BufReader")
        }
        3 => {
            let k = rng.idx(b.len() + 1);
            let mut s = (&b[..k]).chain(&b[k..]);
            ((tg.dec_read)(&mut s), None, "Chain")
        }
        4 => {
            let mut d: std::collections::VecDeque<u8> = b.iter().copied().collect();
            let o = (tg.dec_read)(&mut d);
            (o, Some(b.len() - d.len()), "VecDeque")
        }
        _ => {
            let (o, p) = via_chunks(tg, b, rng);
            (o, Some(p), "chunked")
        }
    }
}

pub fn c07(t: bool) -> Vec<Stage> {
    vec![
        stage("agree", q(t, 250_000, 6_000_000), |c| {
            let tg = pick(&mut c.rng);
            let b = if c.rng.p(60) {
                let v = any_val(&mut c.rng, &tg.ty);
                let mut w = to_wire(&tg.ty, &v);
                add_unknown(&mut c.rng, &tg.ty, &mut w, 60, 5);
                let mut b = Ser::alt(&mut c.rng).bytes(&w);
                if c.rng.p(60) {
                    let k = c.rng.idx(b.len() + 1);
                    b.truncate(k);
                }
                b
            } else {
                hostile_bytes(&mut c.rng, tg)
            };
            let (o, used) = (tg.dec_slice)(&b);
            let owned = c.rng.p(128);
            let (o2, used2) = (tg.dec_min)(&b, owned);
            ensure!(same(&o, &o2) && (o.is_err() || used == used2), "{}: {} gives {o:?} ({used} bytes) from the slice but {o2:?} ({used2} bytes) from an input of the user's", tg.name, hex(&b));
            for _ in 0..2 {
                let (o2, pulled, how) = via_any(tg, &b, &mut c.rng);
                ensure!(same(&o, &o2), "{}: {} gives {o:?} from the slice but {o2:?} from a stream ({how})", tg.name, hex(&b));
                if o.is_ok() {
                    if let Some(p) = pulled {
                        ensure!(p == used, "{}: {}: slice decode consumed {used}, stream decode {p} ({how})", tg.name, hex(&b));
                    }
                }
                c.count(how, 1);
            }
            c.count(if o.is_ok() { "accepted" } else { "rejected" }, 1);
            if b.is_empty() { c.eval_trivial() } else { c.eval(vh(tg, &b)) }
            c.sample(|| format!("{} {} -> {:?}", tg.name, hex(&b), o.as_ref().map(|_| "value")));
            Ok(())
        }),
        stage("long", raw(t, 1500, 20_000), |c| {
            // large messages, also damaged, and an I/O error wherever blocks could end
            let (tg, v) = long_case(&mut c.rng, 100_000);
            let mut w = to_wire(&tg.ty, &v);
            if let W::Struct(fs) = &mut w {
                if matches!(tg.ty, Ty::Struct(_)) && c.rng.p(100) {
                    let (wt, w) = long_wire(&mut c.rng, 100_000);
                    let at = c.rng.idx(fs.len() + 1);
                    fs.insert(at, WF { id: 20_000, wt, w });
                }
            }
            let mut b = if c.rng.p(128) { Ser::canon().bytes(&w) } else { Ser::alt(&mut c.rng).bytes(&w) };
            if c.rng.p(60) {
                let i = edge_offsets(&mut c.rng, b.len(), 1)[0];
                b[i] = c.rng.u64() as u8;
            }
            let (o, used) = (tg.dec_slice)(&b);
            for _ in 0..3 {
                let (o2, pulled, how) = via_any(tg, &b, &mut c.rng);
                ensure!(same(&o, &o2), "{}: {} gives another outcome from the slice than from a stream ({how}): {}", tg.name, hex(&b), apart(&o, &o2));
                if let (true, Some(p)) = (o.is_ok(), pulled) {
                    ensure!(p == used, "{}: {}: slice decode consumed {used}, stream decode {p} ({how})", tg.name, hex(&b));
                }
            }
            let wants = if o == Err(EOF) { b.len() + 1 } else { via_read(tg, &b).1 };
            for at in edge_offsets(&mut c.rng, b.len(), 6) {
                let kind = *c.rng.pick(KINDS);
                let mut tr = TestReader::random(&b, &mut c.rng);
                tr.fail = Some((at, kind));
                tr.once = c.rng.p(128);
                let r = (tg.dec_read)(&mut tr);
                let want = if at < wants { Err(Er::Io(kind)) } else { o.clone() };
                ensure!(r == want, "{}: {} with {kind:?} after {at} bytes of {}: {}", tg.name, hex(&b), b.len(), apart(&want, &r));
                c.count("faults", tr.after_fail.min(1));
            }
            c.count(if o.is_ok() { "accepted" } else { "rejected" }, 1);
            c.eval(vh(tg, &b));
            c.peak("message bytes", b.len() as u64);
            Ok(())
        }),
        stage("skip-agree", q(t, 120_000, 2_000_000), |c| {
            let wt = c.rng.below(17) as u8;
            let mut b = if (1..13).contains(&wt) && c.rng.p(190) {
                let w = gen_wire(&mut c.rng, wt, false, 4, &mut 20);
                Ser::alt(&mut c.rng).bytes(&w)
            } else {
                let n = c.rng.idx(40);
                headerish(&mut c.rng, n)
            };
            if c.rng.p(160) {
                mutate(&mut c.rng, &mut b);
            }
            let (r, used) = skip_slice(&b, wt);
            let mut tr = TestReader::random(&b, &mut c.rng);
            let r2 = skip_read(&mut tr, wt);
            ensure!(r == r2, "skipping wire type {wt} at {}: {r:?} from the slice, {r2:?} from a stream", hex(&b));
            if r.is_ok() {
                ensure!(tr.pos == used, "skipping wire type {wt} at {}: {used} bytes of the slice, {} of the stream", hex(&b), tr.pos);
            }
            c.eval(hash_bytes(wt as u64, &b));
            Ok(())
        }),
        stage("sequence", q(t, 40_000, 600_000), |c| {
            let n = c.rng.range(2, 6);
            let mut b = vec![];
            let mut parts = vec![];
            for _ in 0..n {
                let tg = pick(&mut c.rng);
                let v = small_val(&mut c.rng, &tg.ty);
                let mut w = to_wire(&tg.ty, &v);
                add_unknown(&mut c.rng, &tg.ty, &mut w, 30, 3);
                b.extend(Ser::alt(&mut c.rng).bytes(&w));
                parts.push((tg, v, b.len()));
            }
            let mut tr = TestReader::random(&b, &mut c.rng);
            let mut pos = 0;
            for (k, (tg, v, end)) in parts.iter().enumerate() {
                let (o, used) = (tg.dec_slice)(&b[pos..]);
                ensure!(o.as_ref() == Ok(v) && pos + used == *end, "message {k} ({}) at {pos} of {}: {o:?}, ends at {} instead of {end}", tg.name, hex(&b), pos + used);
                let o = (tg.dec_read)(&mut tr);
                ensure!(o.as_ref() == Ok(v) && tr.pos == *end, "message {k} ({}) from stream {}: {o:?}, ends at {} instead of {end}", tg.name, hex(&b), tr.pos);
                pos = *end;
            }
            c.count("messages", n as u64);
            c.eval(hash_bytes(11, &b));
            Ok(())
        }),
        stage("faults", q(t, 30_000, 500_000), |c| {
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            add_unknown(&mut c.rng, &tg.ty, &mut w, 40, 3);
            let mut b = Ser::alt(&mut c.rng).bytes(&w);
            if c.rng.p(80) {
                mutate(&mut c.rng, &mut b);
            }
            let mut tr = TestReader::new(&b);
            let full = (tg.dec_read)(&mut tr);
            let pulled = tr.pos;
            // running out of data counts as wanting more
            let wants = if full == Err(EOF) { b.len() + 1 } else { pulled };
            let offs: Vec<usize> = if b.len() <= 60 { (0..=b.len()).collect() } else { (0..40).map(|_| c.rng.idx(b.len() + 1)).chain([0, pulled, pulled.saturating_sub(1)]).collect() };
            for at in offs {
                let kind = *c.rng.pick(KINDS);
                let mut tr = TestReader::random(&b, &mut c.rng);
                tr.fail = Some((at, kind));
                tr.once = c.rng.p(128);
                let o = (tg.dec_read)(&mut tr);
                if at < wants {
                    ensure!(o == Err(Er::Io(kind)), "{}: {} with {kind:?} after {at} bytes gives {o:?}", tg.name, hex(&b));
                } else {
                    ensure!(o == full, "{}: {} with {kind:?} after {at} bytes gives {o:?} although complete ({full:?})", tg.name, hex(&b));
                }
                c.count("faults", tr.after_fail.min(1));
                c.eval(vh(tg, &b) ^ (at as u64) << 50 ^ (kind as u64) << 32);
            }
            c.sample(|| format!("{} {} with an I/O error after every byte", tg.name, hex(&b)));
            Ok(())
        }),
        stage("skip-faults", q(t, 15_000, 200_000), |c| {
            let wt = 3 + c.rng.below(10) as u8;
            let w = gen_wire(&mut c.rng, wt, false, 4, &mut 15);
            let b = Ser::alt(&mut c.rng).bytes(&w);
            for at in 0..b.len().min(80) {
                let kind = *c.rng.pick(KINDS);
                let mut tr = TestReader::random(&b, &mut c.rng);
                tr.fail = Some((at, kind));
                tr.once = c.rng.p(128);
                let o = skip_read(&mut tr, wt);
                ensure!(o == Err(Er::Io(kind)), "skipping {wt} at {} with {kind:?} after {at} bytes gives {o:?}", hex(&b));
                c.eval(hash_bytes(at as u64, &b));
            }
            Ok(())
        }),
        stage("primitives", q(t, 40_000, 400_000), |c| {
            // the input operations themselves, call by call on the same bytes
            let n = c.rng.idx(60);
            let b = if c.rng.p(128) { headerish(&mut c.rng, n) } else { c.rng.bytes(n) };
            let mut s = if c.rng.p(128) { CompactThriftInputSlice::new(&b) } else { CompactThriftInputSlice::from(&b[..]) };
            let mut tr = TestReader::random(&b, &mut c.rng);
            for _ in 0..12 {
                if c.rng.p(60) {
                    // a copy of the cursor moves on its own
                    let before = s.as_slice();
                    let mut s2 = s.clone();
                    let r1 = s2.read_string().map(|v| v.to_string()).map_err(er);
                    ensure!(std::ptr::eq(before, s.as_slice()), "reading from a clone moves the original at {}", hex(before));
                    let mut s3 = CompactThriftInputSlice::new(before);
                    let r2 = s3.read_string().map(|v| v.to_string()).map_err(er);
                    ensure!(r1 == r2 && s2.as_slice().len() == s3.as_slice().len(), "a clone of an input reads {r1:?} at {}, a new one {r2:?}", hex(before));
                }
                let op = c.rng.below(12);
                let (x, y): (Result<String, Er>, Result<String, Er>) = match op {
                    0 => (s.read_byte().map(|v| v.to_string()).map_err(er), CompactThriftInput::read_byte(&mut tr).map(|v| v.to_string()).map_err(er)),
                    1 => (s.read_i16().map(|v| v.to_string()).map_err(er), tr.read_i16().map(|v| v.to_string()).map_err(er)),
                    2 => (s.read_i32().map(|v| v.to_string()).map_err(er), tr.read_i32().map(|v| v.to_string()).map_err(er)),
                    3 => (s.read_i64().map(|v| v.to_string()).map_err(er), tr.read_i64().map(|v| v.to_string()).map_err(er)),
                    4 => (s.read_double().map(|v| v.to_bits().to_string()).map_err(er), tr.read_double().map(|v| v.to_bits().to_string()).map_err(er)),
                    5 => (s.read_binary().map(|v| hex(&v)).map_err(er), tr.read_binary().map(|v| hex(&v)).map_err(er)),
                    6 => (s.read_string().map(|v| v.to_string()).map_err(er), CompactThriftInput::read_string(&mut tr).map(|v| v.to_string()).map_err(er)),
                    7 => (s.skip_integer().map(|_| String::new()).map_err(er), tr.skip_integer().map(|_| String::new()).map_err(er)),
                    8 => (s.skip_binary().map(|_| String::new()).map_err(er), tr.skip_binary().map(|_| String::new()).map_err(er)),
                    9 => (s.read_len().map(|v| v.to_string()).map_err(er), CompactThriftInput::read_len(&mut tr).map(|v| v.to_string()).map_err(er)),
                    10 => {
                        let l = c.rng.u64() as i16;
                        let (mut l1, mut l2) = (l, l);
                        (s.read_field_header(&mut l1).map(|v| format!("{v} {l1}")).map_err(er), tr.read_field_header(&mut l2).map(|v| format!("{v} {l2}")).map_err(er))
                    }
                    _ => {
                        use compact_thrift_runtime::read_collection_len_and_type as f;
                        (f(&mut s).map(|v| format!("{v:?}")).map_err(er), f(&mut tr).map(|v| format!("{v:?}")).map_err(er))
                    }
                };
                ensure!(x == y, "operation {op} on {}: {x:?} from the slice, {y:?} from the stream", hex(&b));
                if x.is_err() {
                    break;
                }
                let p = b.len() - s.as_slice().len();
                ensure!(p == tr.pos, "operation {op} on {}: slice at {p}, stream at {}", hex(&b), tr.pos);
            }
            c.eval(hash_bytes(5, &b));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C08

fn cuts(c: &mut Ctx, n: usize) -> Vec<usize> {
    if n <= 250 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..40).chain(n - 60..n).collect();
        for _ in 0..30 {
            v.push(c.rng.idx(n));
        }
        v.extend(edge_offsets(&mut c.rng, n, 30));
        v
    }
}

fn truncations(c: &mut Ctx, tg: &'static Target, b: &[u8], g: &mut GuardBuf) -> R {
    for k in cuts(c, b.len()) {
        one_cut(c, tg, b, g, k)?;
    }
    c.eval(vh(tg, b));
    Ok(())
}

fn one_cut(c: &mut Ctx, tg: &'static Target, b: &[u8], g: &mut GuardBuf, k: usize) -> R {
    let cut = g.at_end(&b[..k]);
    let (o, _) = (tg.dec_slice)(cut);
    ensure!(o == Err(EOF), "{}: the first {k} bytes of {} decode to {:?}", tg.name, hex(b), o.as_ref().map(show));
    let (o, _) = via_chunks(tg, cut, &mut c.rng);
    ensure!(o == Err(EOF), "{}: a stream ending after {k} bytes of {} decodes to {:?}", tg.name, hex(b), o.as_ref().map(show));
    c.count("cuts", 1);
    Ok(())
}

/// a copy that ends where the readable memory ends
fn g2<'a>(g: &'a mut GuardBuf, b: &[u8]) -> &'a [u8] {
    *g = GuardBuf::new(b.len());
    g.at_end(b)
}

fn skip_cut(c: &mut Ctx, wt: u8, cut: &[u8]) -> R {
    let (r, _) = skip_slice(cut, wt);
    ensure!(r == Err(EOF), "skipping wire type {wt} in the {} bytes {}, which end early: {r:?}", cut.len(), hex(cut));
    let mut tr = TestReader::random(cut, &mut c.rng);
    let r = skip_read(&mut tr, wt);
    ensure!(r == Err(EOF), "skipping wire type {wt} in a stream of the {} bytes {}, which end early: {r:?}", cut.len(), hex(cut));
    c.count("cuts", 1);
    Ok(())
}

pub fn c08(t: bool) -> Vec<Stage> {
    vec![
        stage("messages", raw(t, 20_000, 400_000), |c| {
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            let n = add_unknown(&mut c.rng, &tg.ty, &mut w, 70, 6);
            let b = if c.rng.p(128) { Ser::canon().bytes(&w) } else { Ser::alt(&mut c.rng).bytes(&w) };
            if b.len() > 20_000 {
                return Ok(());
            }
            c.count("unknown fields", n as u64);
            c.sample(|| format!("every prefix of {} {}", tg.name, hex(&b)));
            let mut g = GuardBuf::new(b.len());
            truncations(c, tg, &b, &mut g)
        }),
        stage("large", raw(t, 200, 3000), |c| {
            let tg = pick(&mut c.rng);
            let mut cfg = GenCfg { budget: 500, present: 200, big: true };
            let v = gen_val(&mut c.rng, &tg.ty, &mut cfg);
            let b = canon(&tg.ty, &v);
            let mut g = GuardBuf::new(b.len());
            truncations(c, tg, &b, &mut g)
        }),
        stage("long", raw(t, 700, 10_000), |c| {
            // long contents, read and skipped, cut wherever a block could end
            let (tg, v) = long_case(&mut c.rng, 100_000);
            let mut w = to_wire(&tg.ty, &v);
            if let W::Struct(fs) = &mut w {
                if matches!(tg.ty, Ty::Struct(_)) && c.rng.p(100) {
                    let (wt, w) = long_wire(&mut c.rng, 100_000);
                    let at = c.rng.idx(fs.len() + 1);
                    fs.insert(at, WF { id: 20_000, wt, w });
                }
            }
            let b = Ser::canon().bytes(&w);
            let mut g = GuardBuf::new(b.len());
            for k in edge_offsets(&mut c.rng, b.len(), 24) {
                one_cut(c, tg, &b, &mut g, k)?;
            }
            let (wt, w) = long_wire(&mut c.rng, 150_000);
            let b = Ser::canon().bytes(&w);
            for k in edge_offsets(&mut c.rng, b.len(), 40) {
                skip_cut(c, wt, &b[..k])?;
            }
            c.peak("bytes before the cut", b.len() as u64);
            c.eval(vh(tg, &b));
            Ok(())
        }),
        stage("integers-cut", 20 * 20, |c| {
            // an unknown integer cut after any number of its bytes, the input having any size
            let len = 1 + (c.idx % 20) as usize;
            let lead = (c.idx / 20) as usize;
            let mut fs = vec![];
            if lead > 0 {
                fs.push(WF { id: 2, wt: 8, w: W::Bin(vec![b'a'; lead - 1]) });
            }
            let mut raw = vec![0xff; len - 1];
            raw.push(1);
            fs.push(WF { id: 9, wt: 6, w: W::Raw(raw) });
            fs.push(WF { id: 11, wt: 9, w: W::List(5, vec![W::Raw(vec![0x80, 0x80, 1]), W::Var(3)]) });
            fs.push(WF { id: 1, wt: 5, w: W::Var(2) });
            let b = Ser::canon().bytes(&W::Struct(fs));
            let mut g = GuardBuf::new(b.len());
            truncations(c, target("Small"), &b, &mut g)?;
            // nothing but the beginning of an integer, alone and as the last thing in a container
            let mut x: Vec<u8> = (0..2 * len + lead).map(|_| 0x80 | c.rng.below(128) as u8).collect();
            if c.rng.p(128) {
                x.fill(*c.rng.pick(&[0x80, 0xff, 0x81]));
            }
            let t = c.rng.below(3) as u8;
            for (wt, pre) in [(4 + t, vec![]), (9, vec![0x14 + t]), (10, vec![0x24 + t, 2]), (11, vec![1, 0x44 + 0x11 * t]), (11, vec![1, 0x34 + t, 9]), (12, vec![0x14 + t]), (12, vec![0x04 + t, 5]), (8, vec![])] {
                let mut m = pre;
                m.extend(&x);
                skip_cut(c, wt, g2(&mut g, &m))?;
                c.eval(hash_bytes(wt as u64, &m));
            }
            Ok(())
        }),
        stage("skipped", q(t, 30_000, 500_000), |c| {
            let (wt, w) = if c.rng.p(30) {
                let d = c.rng.range(1, 60) as u32;
                gen_chain(&mut c.rng, d)
            } else {
                let wt = 3 + c.rng.below(10) as u8;
                (wt, gen_wire(&mut c.rng, wt, false, 4, &mut 20))
            };
            let b = Ser::alt(&mut c.rng).bytes(&w);
            let mut g = GuardBuf::new(b.len());
            for k in cuts(c, b.len()) {
                let cut = g.at_end(&b[..k]);
                skip_cut(c, wt, cut)?;
            }
            c.eval(hash_bytes(wt as u64, &b));
            c.sample(|| format!("every cut while skipping wire type {wt} {}", hex(&b)));
            Ok(())
        }),
        stage("reads", 64 * 12, |c| {
            // every cut of every varint length, double, binary
            let k = c.idx / 12;
            let mut vi = vec![];
            Ser { rng: Some(Rng::new(c.idx)), long_hdr: 0, long_list: 0, pad: 128, bool_alt: 0 }.varint(&mut vi, 1u64 << k);
            for cut in 0..vi.len() {
                let b = &vi[..cut];
                let e = [
                    CompactThriftInputSlice::new(b).read_i16().map(|_| ()).map_err(er),
                    CompactThriftInputSlice::new(b).read_i32().map(|_| ()).map_err(er),
                    CompactThriftInputSlice::new(b).read_i64().map(|_| ()).map_err(er),
                    CompactThriftInputSlice::new(b).read_len().map(|_| ()).map_err(er),
                    CompactThriftInputSlice::new(b).skip_integer().map_err(er),
                    CompactThriftInputSlice::new(b).read_binary().map(|_| ()).map_err(er),
                    CompactThriftInputSlice::new(b).skip_binary().map_err(er),
                    TestReader::new(b).read_i64().map(|_| ()).map_err(er),
                    TestReader::new(b).skip_integer().map_err(er),
                    TestReader::new(b).read_binary().map(|_| ()).map_err(er),
                ];
                ensure!(e.iter().all(|x| *x == Err(EOF)), "varint cut to {}: {e:?}", hex(b));
            }
            let n = (c.idx % 12) as usize;
            let mut b = vec![n as u8 + 1];
            b.extend(c.rng.bytes(n));
            let e = [
                CompactThriftInputSlice::new(&b).read_binary().map(|_| ()).map_err(er),
                CompactThriftInputSlice::new(&b).skip_binary().map_err(er),
                TestReader::new(&b).read_binary().map(|_| ()).map_err(er),
                TestReader::new(&b).skip_binary().map_err(er),
            ];
            ensure!(e.iter().all(|x| *x == Err(EOF)), "binary cut to {}: {e:?}", hex(&b));
            if n < 8 {
                let e = [CompactThriftInputSlice::new(&b[1..]).read_double().map(|_| ()).map_err(er), TestReader::new(&b[1..]).read_double().map(|_| ()).map_err(er)];
                ensure!(e.iter().all(|x| *x == Err(EOF)), "double cut to {}: {e:?}", hex(&b[1..]));
            }
            c.eval(hash_bytes(n as u64, &vi));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C09

/// number of struct and union nodes
fn nodes(ty: &Ty, w: &W) -> usize {
    let mut n = 0;
    visit_structs(ty, &mut w.clone(), &mut |_, _| n += 1);
    n
}

fn both(c: &mut Ctx, tg: &Target, b: &[u8]) -> Result<Outcome, String> {
    let (o, _) = (tg.dec_slice)(b);
    let (o2, _) = via_chunks(tg, b, &mut c.rng);
    ensure!(o == o2, "{}: {} gives {o:?} from the slice, {o2:?} from a stream", tg.name, hex(b));
    c.eval(vh(tg, b));
    Ok(o)
}

/// edits one node of a valid tree against the rules and checks the rejection
fn rule_case(c: &mut Ctx, tg: &'static Target, v: &Val) -> R {
    let base = to_wire(&tg.ty, v);
    let n = nodes(&tg.ty, &base);
    if n == 0 {
        c.eval_trivial();
        return Ok(());
    }
    let pickn = c.rng.idx(n);
    let mut k = 0;
    let mut r = Rng::new(c.rng.u64());
    let mut w = base.clone();
    let mut expect: Option<(&str, Vec<String>)> = None;
    visit_structs(&tg.ty, &mut w, &mut |t, fs| {
        let me = k == pickn;
        k += 1;
        if !me {
            return;
        }
        match t {
            Ty::Struct(s) => {
                let req: Vec<&FieldTy> = s.fields.iter().filter(|f| f.required).collect();
                let opt: Vec<usize> = (0..fs.len()).filter(|i| s.field(fs[*i].id).map_or(false, |f| !f.required)).collect();
                match r.below(4) {
                    0..=1 if !req.is_empty() => {
                        // drop a non-empty set of required fields
                        let mut gone: Vec<&FieldTy> = req.iter().copied().filter(|_| r.p(60)).collect();
                        if gone.is_empty() {
                            gone.push(req[r.idx(req.len())]);
                        }
                        fs.retain(|f| gone.iter().all(|g| g.id != f.id));
                        if r.p(60) {
                            let id = unused_id(&mut r, s);
                            let wt = gen_wt_field(&mut r, 2);
                            fs.push(WF { id, wt, w: gen_wire(&mut r, wt, false, 2, &mut 5) });
                        }
                        expect = Some(("missing", gone.iter().map(|g| format!("{}::{}", s.name, g.name)).collect()));
                    }
                    _ if !opt.is_empty() => {
                        let i = *r.pick(&opt);
                        let f = s.field(fs[i].id).unwrap();
                        let dup = if r.p(128) {
                            fs[i].clone()
                        } else {
                            let mut cfg = GenCfg::small(&mut r);
                            let v = gen_val(&mut r, &f.ty, &mut cfg);
                            field_to_wire(f.id, &f.ty, &v)
                        };
                        let at = i + 1 + r.idx(fs.len() - i);
                        fs.insert(at, dup);
                        expect = Some(("dup", vec![format!("{}::{}", s.name, f.name)]));
                    }
                    _ => {}
                }
            }
            Ty::Union(s) => match r.below(4) {
                0 => {
                    fs.clear();
                    expect = Some(("union-empty", vec![s.name.to_string()]));
                }
                1 => {
                    let id = unused_id(&mut r, s);
                    let wt = gen_wt_field(&mut r, 3);
                    *fs = vec![WF { id, wt, w: gen_wire(&mut r, wt, false, 3, &mut 10) }];
                    expect = Some(("union-unknown", vec![s.name.to_string()]));
                }
                _ => {
                    let extra = match r.below(3) {
                        0 => fs[0].clone(),
                        1 => {
                            let f = r.pick(&s.fields);
                            let mut cfg = GenCfg::small(&mut r);
                            let v = gen_val(&mut r, &f.ty, &mut cfg);
                            field_to_wire(f.id, &f.ty, &v)
                        }
                        _ => {
                            let id = unused_id(&mut r, s);
                            let wt = gen_wt_field(&mut r, 3);
                            WF { id, wt, w: gen_wire(&mut r, wt, false, 3, &mut 10) }
                        }
                    };
                    if r.p(128) && s.field(extra.id).is_some() { fs.push(extra) } else { fs.push(extra) }
                    expect = Some(("union-second", vec![s.name.to_string()]));
                }
            },
            _ => {}
        }
    });
    let Some((rule, names)) = expect else {
        c.eval_trivial();
        return Ok(());
    };
    if c.rng.p(60) {
        // order must not matter
        let mut w2 = w.clone();
        shuffle_fields(&mut c.rng, &tg.ty, &mut w2);
        w = w2;
    }
    let b = if c.rng.p(128) { Ser::canon().bytes(&w) } else { Ser::alt(&mut c.rng).bytes(&w) };
    c.count(rule, 1);
    c.sample(|| format!("{rule} {names:?} in {} {}", tg.name, hex(&b)));
    let o = both(c, tg, &b)?;
    if let Err(Er::MissingField(m)) = &o {
        named(c, tg, &b, m)?;
    }
    let ok = match (&o, rule) {
        (Err(Er::MissingField(m)), "missing") => names.contains(m),
        (Err(Er::Dup), "dup") => true,
        (Err(Er::MissingField(m)), "union-unknown") => names.contains(m),
        (Err(_), "union-empty" | "union-second") => true,
        _ => false,
    };
    ensure!(ok, "{}: {rule} {names:?} in {} is answered by {o:?}", tg.name, hex(&b));
    Ok(())
}

/// the error a user prints or logs names the same field
fn named(c: &mut Ctx, tg: &Target, b: &[u8], name: &str) -> R {
    if c.rng.p(128) {
        return Ok(());
    }
    let Err(e) = (tg.run_slice)(b) else {
        return Err(format!("{}: {} is accepted when decoded again", tg.name, hex(b)));
    };
    for t in [format!("{e}"), format!("{e:?}"), format!("{e:#?}"), format!("{:?}", Box::<dyn std::error::Error>::from(e))] {
        ensure!(t.contains(name), "{}: {} lacks {name} but says {t}", tg.name, hex(b));
    }
    c.count("names in messages", 1);
    Ok(())
}

pub fn c09(t: bool) -> Vec<Stage> {
    let st = struct_targets();
    let n = st.len() as u64;
    let st2 = struct_targets();
    vec![
        // every subset of fields of every struct: value or error, decided by the required ones
        stage("subsets", n * 4096, move |c| {
            let tg = st[(c.idx % n) as usize];
            let bits = c.idx / n;
            let Ty::Struct(s) = &tg.ty else {
                return Ok(());
            };
            let k = s.fields.len() as u32;
            if k < 12 && bits >> k != 0 {
                return Ok(());
            }
            // mostly full for wide structs
            let mut present: Vec<bool> = (0..k).map(|i| if k > 12 { c.rng.p(if bits % 3 == 0 { 224 } else { 192 }) } else { bits >> i & 1 == 1 }).collect();
            if k > 12 && bits % 3 == 1 {
                // all but a few
                present.fill(true);
                for _ in 0..c.rng.idx(4) {
                    let i = c.rng.idx(k as usize);
                    present[i] = false;
                }
            }
            let mut fs = vec![];
            let mut vals = vec![];
            let mut missing = vec![];
            for (i, f) in s.fields.iter().enumerate() {
                if present[i] {
                    let v = small_val(&mut c.rng, &f.ty);
                    fs.push(field_to_wire(f.id, &f.ty, &v));
                    vals.push((f.id, v));
                } else if f.required {
                    missing.push(format!("{}::{}", s.name, f.name));
                }
            }
            let again = !fs.is_empty() && c.rng.p(60);
            let mut optional = false;
            if again {
                // some of what is there is there more than once: it does not make up for what is not
                for _ in 0..1 + c.rng.idx(1 + 2 * missing.len()) {
                    let id = c.rng.pick(&vals).0;
                    let f = s.field(id).unwrap();
                    let v = small_val(&mut c.rng, &f.ty);
                    fs.push(field_to_wire(f.id, &f.ty, &v));
                    optional |= !f.required;
                }
            }
            if c.rng.p(100) {
                c.rng.shuffle(&mut fs);
            }
            let b = Ser::canon().bytes(&W::Struct(fs));
            let o = both(c, tg, &b)?;
            if again && !missing.is_empty() {
                ensure!(o.is_err(), "{}: {} lacks {missing:?} but gives {o:?}", tg.name, hex(&b));
                c.count("incomplete with repeated fields", 1);
            } else if again {
                // what a repeated required field means is left open
                ensure!(o.is_err() || !optional, "{}: {} repeats an optional field but gives {o:?}", tg.name, hex(&b));
                c.count("complete with repeated fields", 1);
            } else if missing.is_empty() {
                ensure!(o == Ok(Val::Struct(vals.clone())), "{}: {} gives {o:?} instead of {}", tg.name, hex(&b), show(&Val::Struct(vals)));
                c.count("complete", 1);
            } else {
                ensure!(matches!(&o, Err(Er::MissingField(m)) if missing.contains(m)), "{}: {} lacks {missing:?} but gives {o:?}", tg.name, hex(&b));
                if let Err(Er::MissingField(m)) = &o {
                    named(c, tg, &b, m)?;
                }
                c.count("incomplete", 1);
            }
            c.sample(|| format!("{} without {missing:?}: {}", tg.name, hex(&b)));
            Ok(())
        }),
        // union: every header id and type, one or two members
        stage("unions", 6000, move |c| {
            let us: Vec<&&Target> = st2.iter().filter(|t| matches!(t.ty, Ty::Union(_))).collect();
            let tg: &'static Target = us[(c.idx % us.len() as u64) as usize];
            let Ty::Union(s) = &tg.ty else { unreachable!() };
            let id = (c.idx / us.len() as u64) as i16 - 60;
            let wt0 = gen_wt_field(&mut c.rng, 2);
            let (wf, v) = match s.field(id) {
                Some(f) => {
                    let v = small_val(&mut c.rng, &f.ty);
                    (field_to_wire(id, &f.ty, &v), Some(Val::Union(id, Box::new(v))))
                }
                None => (WF { id, wt: wt0, w: gen_wire(&mut c.rng, wt0, false, 2, &mut 5) }, None),
            };
            let b = Ser::canon().bytes(&W::Struct(vec![wf.clone()]));
            let o = both(c, tg, &b)?;
            match &v {
                Some(v) => ensure!(o.as_ref() == Ok(v), "{}: {} gives {o:?} instead of {v:?}", tg.name, hex(&b)),
                None => {
                    ensure!(o == Err(Er::MissingField(s.name.to_string())), "{}: undeclared member {id} in {} gives {o:?}", tg.name, hex(&b));
                    named(c, tg, &b, s.name)?;
                }
            }
            // a second member
            let f2 = c.rng.pick(&s.fields);
            let v2 = small_val(&mut c.rng, &f2.ty);
            let b = Ser::canon().bytes(&W::Struct(vec![wf, field_to_wire(f2.id, &f2.ty, &v2)]));
            let o = both(c, tg, &b)?;
            ensure!(o.is_err(), "{}: two members in {} give {o:?}", tg.name, hex(&b));
            let o = both(c, tg, &[0])?;
            ensure!(o.is_err(), "{}: an empty union gives {o:?}", tg.name);
            // anything but the stop byte behind the member
            if let Some(f) = s.field(id) {
                let v = small_val(&mut c.rng, &f.ty);
                let mut b = Ser::canon().bytes(&W::Struct(vec![field_to_wire(id, &f.ty, &v)]));
                let at = b.len() - 1;
                b.extend(headerish(&mut c.rng, 12));
                b.extend([0; 4]);
                for stop in 1..=255u8 {
                    b[at] = stop;
                    let o = both(c, tg, &b)?;
                    ensure!(o.is_err(), "{}: {} with {stop:#x} in place of the stop byte gives {o:?}", tg.name, hex(&b));
                }
            }
            Ok(())
        }),
        stage("rules", q(t, 200_000, 4_000_000), |c| {
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            rule_case(c, tg, &v)
        }),
    ]
}

// ---------------------------------------------------------------- C10

fn other_wt(rng: &mut Rng, ty: &Ty, allow_high: bool) -> u8 {
    loop {
        let wt = if allow_high && rng.p(30) { 13 + rng.below(3) as u8 } else { 1 + rng.below(12) as u8 };
        if wt == ty.wt() || (*ty == Ty::Bool && wt <= 2) {
            continue;
        }
        return wt;
    }
}

fn payload(rng: &mut Rng, wt: u8, in_coll: bool) -> W {
    if wt <= 12 {
        gen_wire(rng, wt, in_coll, 3, &mut 8)
    } else {
        let n = rng.idx(20);
        W::Raw(rng.bytes(n))
    }
}

pub fn c10(t: bool) -> Vec<Stage> {
    // all (struct or union, field, wire type) triples
    let mut triples: Vec<(&'static Target, usize, u8)> = vec![];
    for tg in struct_targets() {
        if let Ty::Struct(s) | Ty::Union(s) = &tg.ty {
            for (i, f) in s.fields.iter().enumerate() {
                for wt in 1..=15u8 {
                    if wt != f.ty.wt() && !(f.ty == Ty::Bool && wt <= 2) {
                        triples.push((tg, i, wt));
                    }
                }
            }
        }
    }
    let lists: Vec<&'static Target> = targets().iter().filter(|t| matches!(t.ty, Ty::List(_) | Ty::EncSet)).collect();
    let n = triples.len() as u64;
    vec![
        stage("fields", n * q(t, 8, 100), move |c| {
            let (tg, i, wt) = triples[(c.idx % n) as usize];
            let (s, is_union) = match &tg.ty {
                Ty::Struct(s) => (s, false),
                Ty::Union(s) => (s, true),
                _ => unreachable!(),
            };
            let f = &s.fields[i];
            let mut bad = WF { id: f.id, wt, w: payload(&mut c.rng, wt, false) };
            if c.rng.p(100) {
                // what the declared type would have
                let v = small_val(&mut c.rng, &f.ty);
                let w = field_to_wire(f.id, &f.ty, &v).w;
                if w != W::Hdr {
                    bad.w = w;
                }
            }
            let fs = if is_union {
                vec![bad]
            } else {
                let mut fs = vec![];
                let full = c.rng.p(128);
                for g in &s.fields {
                    if g.id == f.id {
                        fs.push(bad.clone());
                    } else if g.required || (full && c.rng.p(128)) {
                        let v = small_val(&mut c.rng, &g.ty);
                        fs.push(field_to_wire(g.id, &g.ty, &v));
                    }
                }
                if c.rng.p(80) {
                    c.rng.shuffle(&mut fs);
                }
                fs
            };
            let b = Ser::alt(&mut c.rng).bytes(&W::Struct(fs));
            let o = both(c, tg, &b)?;
            ensure!(o == Err(Er::Type), "{}::{} (declared {:?}) arriving as wire type {wt} in {} gives {}", s.name, f.name, f.ty, hex(&b), match o { Ok(v) => show(&v), Err(e) => format!("{e:?}") });
            c.count(WT[wt as usize], 1);
            c.sample(|| format!("{}::{} as wire type {wt}: {}", s.name, f.name, hex(&b)));
            Ok(())
        }),
        stage("elements", lists.len() as u64 * 16 * q(t, 60, 600), move |c| {
            let tg = lists[(c.idx % lists.len() as u64) as usize];
            let wt = (c.idx / lists.len() as u64 % 16) as u8;
            let ety = match &tg.ty {
                Ty::List(e) => (**e).clone(),
                _ => Ty::I32,
            };
            if wt == ety.wt() || (ety == Ty::Bool && wt <= 2) {
                return Ok(());
            }
            let n = *c.rng.pick(&[0usize, 1, 1, 2, 14, 15, 16]);
            let own = wt == 0 || c.rng.p(100);
            let w = W::List(
                wt,
                (0..n)
                    .map(|_| {
                        if own {
                            // what the declared type would have
                            let v = small_val(&mut c.rng, &ety);
                            to_wire(&ety, &v)
                        } else {
                            payload(&mut c.rng, wt, true)
                        }
                    })
                    .collect(),
            );
            let b = Ser::alt(&mut c.rng).bytes(&w);
            let o = both(c, tg, &b)?;
            ensure!(o == Err(Er::Type), "{} (elements {:?}) with element type {wt}: {} gives {o:?}", tg.name, ety, hex(&b));
            // it does not matter what the list held before
            let k = if c.rng.p(160) { n } else { c.rng.idx(20) };
            let old = sized(&mut c.rng, &tg.ty, k);
            let (r, v, _) = (tg.refill)(&old, &b);
            ensure!(matches!(r, Err(Er::Type | Er::Dup)), "{} (elements {:?}) holding {} with element type {wt}: {} gives {r:?} {}", tg.name, ety, show(&old), hex(&b), show(&v));
            Ok(())
        }),
        stage("nested", q(t, 120_000, 3_000_000), |c| {
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            let total = {
                let mut n = 0;
                visit_structs(&tg.ty, &mut w.clone(), &mut |_, fs| n += fs.len());
                n
            };
            if total == 0 {
                c.eval_trivial();
                return Ok(());
            }
            let pos = c.rng.idx(total);
            let mut k = 0;
            let mut r = Rng::new(c.rng.u64());
            let mut what = None;
            visit_structs(&tg.ty, &mut w, &mut |t, fs| {
                let (Ty::Struct(s) | Ty::Union(s)) = t else { return };
                for f in fs.iter_mut() {
                    if k == pos {
                        let ft = s.field(f.id).unwrap();
                        let elem = match (&ft.ty, &f.w) {
                            (Ty::List(e), W::List(_, es)) if !es.is_empty() && r.p(128) => Some((**e).clone()),
                            (Ty::EncSet, W::List(_, es)) if !es.is_empty() && r.p(128) => Some(Ty::I32),
                            _ => None,
                        };
                        match elem {
                            Some(e) => {
                                let wt = other_wt(&mut r, &e, true);
                                let n = r.below(3);
                                f.w = W::List(wt, (0..n).map(|_| payload(&mut r, wt, true)).collect());
                                what = Some(format!("{}::{} elements as wire type {wt}", s.name, ft.name));
                            }
                            None => {
                                let wt = other_wt(&mut r, &ft.ty, true);
                                // the payload the declared type would have, or one of the announced type
                                if r.p(128) || f.w == W::Hdr {
                                    f.w = payload(&mut r, wt, false);
                                }
                                f.wt = wt;
                                what = Some(format!("{}::{} as wire type {wt}", s.name, ft.name));
                            }
                        }
                    }
                    k += 1;
                }
            });
            let what = what.unwrap();
            let b = Ser::alt(&mut c.rng).bytes(&w);
            c.sample(|| format!("{what} within {}: {}", tg.name, hex(&b)));
            let o = both(c, tg, &b)?;
            ensure!(o == Err(Er::Type), "{}: {what} in {} gives {}", tg.name, hex(&b), match o { Ok(v) => show(&v), Err(e) => format!("{e:?}") });
            Ok(())
        }),
        stage("direct", targets().len() as u64 * 16 * q(t, 6, 60), |c| {
            // fill_thrift_field with every wire type on every type
            let m = targets().len() as u64;
            let tg = &targets()[(c.idx % m) as usize];
            let wt = (c.idx / m % 16) as u8;
            let v = small_val(&mut c.rng, &tg.ty);
            if wt == tg.ty.wt() && tg.ty != Ty::Bool {
                let b = canon(&tg.ty, &v);
                let (o, used) = (tg.dec_field)(&b, wt);
                ensure!(o.as_ref() == Ok(&v) && used == b.len(), "{} as a field of its own wire type: {o:?}", tg.name);
            } else if tg.ty == Ty::Bool && (wt == 1 || wt == 2) {
                let (o, used) = (tg.dec_field)(&[9, 9], wt);
                ensure!(o == Ok(Val::Bool(wt == 1)) && used == 0, "{} as a field of wire type {wt}: {o:?}, {used} bytes", tg.name);
            } else {
                let mut b = Ser::canon().bytes(&payload(&mut c.rng, wt.max(1), false));
                b.extend([0; 20]);
                let (o, _) = (tg.dec_field)(&b, wt);
                ensure!(o == Err(Er::Type), "{} as a field of wire type {wt}: {o:?}", tg.name);
            }
            c.eval(c.idx);
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C11

const STRINGY: &[&str] = &["String", "Box<str>", "Rc<str>", "Arc<str>"];

fn utf8_case(c: &mut Ctx, b: &[u8]) -> R {
    let want = std::str::from_utf8(b).ok().map(|s| s.to_string());
    c.count(if want.is_some() { "valid" } else { "invalid" }, 1);
    let exp: Outcome = match &want {
        Some(s) => Ok(Val::Str(s.clone())),
        None => Err(Er::Str),
    };
    let mut m = vec![];
    Ser::canon().ser(&mut m, &W::Bin(b.to_vec()));
    for name in STRINGY {
        let tg = target(name);
        let o = both(c, tg, &m)?;
        ensure!(o == exp, "{name}: bytes {} decode to {o:?} instead of {exp:?}", hex(b));
    }
    // borrowed views
    {
        use compact_thrift_runtime::CompactThriftProtocol;
        use std::borrow::Cow;
        let o: Outcome = Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(&m)).map(|s| Val::Str(s.to_string())).map_err(er);
        ensure!(o == exp, "Cow<str>: bytes {} decode to {o:?} instead of {exp:?}", hex(b));
        let o: Outcome = Cow::<str>::read_thrift(&mut TestReader::random(&m, &mut c.rng)).map(|s| Val::Str(s.to_string())).map_err(er);
        ensure!(o == exp, "Cow<str> from a stream: bytes {} decode to {o:?} instead of {exp:?}", hex(b));
        let o: Outcome = Option::<Vec<Cow<str>>>::read_thrift(&mut CompactThriftInputSlice::new(&[&[0x18][..], &m].concat())).map(|s| Val::Str(s.unwrap()[0].to_string())).map_err(er);
        ensure!(o == exp, "list of Cow<str>: bytes {} decode to {o:?} instead of {exp:?}", hex(b));
        let o = CompactThriftInputSlice::new(&m).read_string().map(|s| Val::Str(s.to_string())).map_err(er);
        ensure!(o == exp, "read_string: bytes {} give {o:?} instead of {exp:?}", hex(b));
        // binary accepts everything
        let o = Vec::<u8>::read_thrift(&mut CompactThriftInputSlice::new(&m)).map_err(er);
        ensure!(o.as_deref() == Ok(b), "binary: bytes {} decode to {o:?}", hex(b));
        let o = Cow::<[u8]>::read_thrift(&mut CompactThriftInputSlice::new(&m)).map_err(er);
        ensure!(o.as_deref() == Ok(b), "borrowed binary: bytes {} decode to {o:?}", hex(b));
        let o = Vec::<u8>::read_thrift(&mut TestReader::random(&m, &mut c.rng)).map_err(er);
        ensure!(o.as_deref() == Ok(b), "binary from a stream: bytes {} decode to {o:?}", hex(b));
    }
    // as a field of every string type, list element, union member, and skipped
    let tg = target("Strs");
    let Ty::Struct(s) = &tg.ty else { unreachable!() };
    let g = WF { id: 7, wt: 8, w: W::Bin(b"g".to_vec()) };
    let f = &s.fields[c.rng.idx(s.fields.len())];
    let bin = W::Bin(b.to_vec());
    let (w, val): (W, Option<Val>) = match &f.ty {
        Ty::Str => (bin, want.clone().map(Val::Str)),
        Ty::Bin => (bin, Some(Val::Bin(b.to_vec()))),
        Ty::List(e) => {
            let other = if **e == Ty::Str { Val::Str("ok".into()) } else { Val::Bin(vec![0xff]) };
            let mine = if **e == Ty::Str { want.clone().map(Val::Str) } else { Some(Val::Bin(b.to_vec())) };
            let n = c.rng.idx(3);
            let mut es = vec![to_wire(e, &other); n];
            es.push(bin);
            let mut vs = vec![other; n];
            (W::List(8, es), mine.map(|m| {
                vs.push(m);
                Val::List(vs)
            }))
        }
        Ty::Union(_) => (W::Struct(vec![WF { id: 3, wt: 8, w: bin }]), want.clone().map(|s| Val::Union(3, Box::new(Val::Str(s))))),
        x => panic!("unexpected {x:?}"),
    };
    let wf = WF { id: f.id, wt: f.ty.wt(), w };
    let fs = if f.id == 7 { vec![wf] } else { vec![wf, g.clone()] };
    let mb = Ser::canon().bytes(&W::Struct(fs));
    let o = both(c, tg, &mb)?;
    match val {
        Some(v) => {
            let mut exp = vec![(f.id, v)];
            if f.id != 7 {
                exp.push((7, Val::Str("g".into())));
            }
            exp.sort_by_key(|x| s.fields.iter().position(|f| f.id == x.0));
            ensure!(o == Ok(Val::Struct(exp.clone())), "{}::{}: bytes {} give {o:?}", s.name, f.name, hex(b));
        }
        None => ensure!(o == Err(Er::Str), "{}::{}: bytes {} give {o:?}", s.name, f.name, hex(b)),
    }
    // skipped
    let mb = Ser::canon().bytes(&W::Struct(vec![WF { id: 99, wt: 8, w: W::Bin(b.to_vec()) }, g, WF { id: 100, wt: 9, w: W::List(8, vec![W::Bin(b.to_vec())]) }]));
    let o = both(c, tg, &mb)?;
    ensure!(o == Ok(Val::Struct(vec![(7, Val::Str("g".into()))])), "skipped string {} changes the outcome: {o:?}", hex(b));
    // at any place in what is skipped
    let (wt, mut w) = (8u8, W::Bin(b.to_vec()));
    let mut wt = wt;
    for _ in 0..c.rng.below(4) {
        let small = W::Byte(1);
        (wt, w) = match c.rng.below(6) {
            0 => (9, W::List(wt, vec![w.clone(), w])),
            1 => (10, W::List(wt, vec![w])),
            2 => (11, W::Map(wt, 3, vec![(w.clone(), small.clone()), (w, small)])),
            3 => (11, W::Map(3, wt, vec![(small, w)])),
            4 => (11, W::Map(wt, wt, vec![(w.clone(), w)])),
            _ => (12, W::Struct(vec![WF { id: c.rng.range(1, 40) as i16, wt, w }])),
        };
    }
    let mut sb = Ser::canon().bytes(&w);
    let n = sb.len();
    sb.extend([0x80; 20]);
    let mut i = CompactThriftInputSlice::new(&sb);
    let o = i.skip_field(wt).map_err(er);
    ensure!(o == Ok(()) && sb.len() - i.as_slice().len() == n, "skipping type {wt} at {}: {o:?}, {} bytes left", hex(&sb), i.as_slice().len());
    let mut r = TestReader::random(&sb, &mut c.rng);
    let o = CompactThriftInput::skip_field(&mut r, wt).map_err(er);
    ensure!(o == Ok(()) && r.pos == n, "skipping type {wt} at {} in a stream: {o:?} after {} bytes", hex(&sb), r.pos);
    let owned = c.rng.p(128);
    let mut m = MinInput { data: &sb, pos: 0, owned };
    let o = m.skip_field(wt).map_err(er);
    ensure!(o == Ok(()) && m.pos == n, "skipping type {wt} at {} in an input of the user's: {o:?} after {} bytes", hex(&sb), m.pos);
    let mut last = 7;
    let mut mb = vec![0x78, 1, b'g'];
    Ser::canon().header(&mut mb, &mut last, 99, wt);
    mb.extend(&sb[..n]);
    mb.push(0);
    let o = both(c, tg, &mb)?;
    ensure!(o == Ok(Val::Struct(vec![(7, Val::Str("g".into()))])), "skipped strings in {} change the outcome: {o:?}", hex(&mb));
    Ok(())
}

pub fn c11(t: bool) -> Vec<Stage> {
    let edge: &'static [u8] = &[
        0x00, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff,
    ];
    vec![
        stage("short", 256 + 256 * 256, |c| {
            let i = c.idx;
            let b = if i < 256 { vec![i as u8] } else { vec![((i - 256) >> 8) as u8, i as u8] };
            c.sample(|| format!("all one- and two-byte strings, e.g. {}", hex(&b)));
            utf8_case(c, &b)
        }),
        stage("edges", 26 * 26 * 26 * 2, move |c| {
            let i = c.idx as usize;
            let mut b = vec![edge[i % 26], edge[i / 26 % 26], edge[i / 676 % 26]];
            if i >= 17576 {
                b.push(*c.rng.pick(edge));
            }
            utf8_case(c, &b)
        }),
        stage("embedded", q(t, 60_000, 1_000_000), move |c| {
            let n = c.rng.idx(80);
            let mut b = gen_string(&mut c.rng, n).into_bytes();
            match c.rng.below(4) {
                0 => {}
                1 => {
                    let i = c.rng.idx(b.len() + 1);
                    b.truncate(i);
                }
                2 => {
                    let i = c.rng.idx(b.len() + 1);
                    let x = *c.rng.pick(edge);
                    b.insert(i, x);
                }
                _ => {
                    let k = c.rng.range(1, 4) as usize;
                    let i = c.rng.idx(b.len() + 1);
                    let x: Vec<u8> = (0..k).map(|_| *c.rng.pick(edge)).collect();
                    b.splice(i..i, x);
                }
            }
            c.sample(|| hex(&b));
            utf8_case(c, &b)
        }),
        stage("special", q(t, 10_000, 200_000), move |c| {
            // defects around texts that programs like to treat in another way, and those the code knows
            let mut b = vec![];
            for _ in 0..1 + c.rng.below(3) {
                match c.rng.below(4) {
                    0 => b.extend(c.rng.pick(crate::gen::SPECIAL).as_bytes()),
                    1 => b.extend(c.rng.known_bytes().unwrap_or(b"\xef\xbb\xbf")),
                    2 => b.push(*c.rng.pick(edge)),
                    _ => {
                        let n = c.rng.idx(8);
                        b.extend(gen_string(&mut c.rng, n).bytes());
                    }
                }
            }
            c.sample(|| hex(&b));
            utf8_case(c, &b)
        }),
        stage("long", raw(t, 120, 2000) * 8, |c| {
            // one bad byte anywhere in long strings
            let top = if c.rng.p(10) { 1 << 20 } else { 70_000 };
            let n = match c.idx % 8 {
                0 => 1usize << c.rng.range(8, 17),
                1 => (1usize << c.rng.range(8, 17)) + 1,
                _ => 300 + (c.rng.idx(top) >> c.rng.below(8)),
            };
            let unit = *c.rng.pick(&["a", "bc d", "ä", "日x", "𝄞"]);
            let mut b = unit.repeat(n / unit.len() + 1).into_bytes();
            b.truncate(n);
            let i = match c.rng.below(6) {
                0 => n - 1,
                1 => n / 2,
                2 => n - 1 - c.rng.idx(20),
                _ => c.rng.idx(n),
            };
            if c.rng.p(230) {
                b[i] = *c.rng.pick(&[0x80, 0xff, 0xc3, 0xe2, 0xf0]);
            }
            c.peak("string bytes", n as u64);
            utf8_case(c, &b)
        }),
        stage("blocks", raw(t, 1500, 30_000), |c| {
            // characters, whole or damaged, wherever blocks could end
            let n = edge_len(&mut c.rng, 150_000);
            let fill = *c.rng.pick(&["a", "a", "ä", "日", "😀"]);
            let x: &[u8] = *c.rng.pick(&[
                &b"a"[..], b"\xc3\xa4", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xed\x9f\xbf", b"\xf4\x8f\xbf\xbf", b"\xc2\x80",
                b"\xc3", b"\xa4", b"\xe2\x82", b"\xf0\x9f\x98", b"\x9f\x98\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xff",
            ]);
            let i = edge_offsets(&mut c.rng, n + 1, 1)[0].saturating_sub(c.rng.idx(4));
            let mut b = vec![];
            // whole characters in front, padded to the byte
            while b.len() + fill.len() <= i {
                b.extend(fill.bytes());
            }
            b.resize(i, b'x');
            b.extend(x);
            while b.len() + fill.len() <= n {
                b.extend(fill.bytes());
            }
            c.peak("string bytes", b.len() as u64);
            c.count(if std::str::from_utf8(&b).is_ok() { "valid" } else { "invalid" }, 1);
            utf8_case(c, &b)
        }),
        stage("positions", 300 * 6, |c| {
            // one bad byte at every position of strings of all sizes
            let n = 1 + (c.idx / 6) as usize;
            let mut b = vec![b'a'; n];
            let i = match c.idx % 6 {
                0 => n - 1,
                1 => 0,
                2 => n / 2,
                _ => c.rng.idx(n),
            };
            b[i] = *c.rng.pick(&[0x80, 0xff, 0xc3, 0xe2, 0xf0]);
            utf8_case(c, &b)
        }),
    ]
}

#[allow(dead_code)]
fn unused(_: Arc<()>, _: ErrorKind) {}
