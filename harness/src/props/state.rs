//! C20 purity and concurrency, C21 refilling and shared data.
use super::codec::hostile_bytes;
use super::*;
use crate::er::{er, Er};
use crate::gen::*;
use crate::traits::*;
use crate::zoo::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

/// valid or hostile message
fn some_bytes(rng: &mut Rng, tg: &Target) -> Vec<u8> {
    if rng.p(110) {
        hostile_bytes(rng, tg)
    } else {
        let v = small_val(rng, &tg.ty);
        let mut w = to_wire(&tg.ty, &v);
        add_unknown(rng, &tg.ty, &mut w, 30, 3);
        Ser::alt(rng).bytes(&w)
    }
}

fn repeat_case(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let b = some_bytes(&mut c.rng, tg);
    let first = (tg.dec_slice)(&b);
    let (sfirst, spos) = via_read(tg, &b);
    let text = (tg.debug)(&b);
    for k in 0..c.rng.range(1, 4) {
        // anything may happen in between
        for _ in 0..c.rng.below(4) {
            let o = pick(&mut c.rng);
            let ob = some_bytes(&mut c.rng, o);
            match c.rng.below(4) {
                0 => drop((o.dec_slice)(&ob)),
                1 => drop(via_chunks(o, &ob, &mut c.rng)),
                2 => drop((o.run_slice)(&ob)),
                _ => {
                    let v = small_val(&mut c.rng, &o.ty);
                    let mut w = TestWriter::new();
                    w.fail = Some((c.rng.idx(20), *c.rng.pick(KINDS)));
                    drop((o.enc)(&v, &mut w));
                }
            }
        }
        // another place in memory, another alignment
        let mut moved = vec![0u8; c.rng.idx(17)];
        let off = moved.len();
        moved.extend(&b);
        let again = (tg.dec_slice)(&moved[off..]);
        ensure!(again == first, "{}: decoding {} again (repetition {k}) gives {again:?} after {first:?}", tg.name, hex(&b));
        let s = via_read(tg, &b);
        ensure!(s == (sfirst.clone(), spos), "{}: reading {} again (repetition {k}) gives {s:?} after {sfirst:?}", tg.name, hex(&b));
    }
    let t = (tg.debug)(&b);
    ensure!(t == text, "{}: the value of {} prints differently the second time", tg.name, hex(&b));
    if let (Ok(v), _) = &first {
        let e = (tg.enc_vec)(v);
        ensure!(e == (tg.enc_vec)(v), "{}: encoding twice differs", tg.name);
        let mut w = TestWriter::new();
        w.chunk = gen_chunk(&mut c.rng);
        let r = (tg.enc)(v, &mut w);
        ensure!(r.is_ok() == e.is_ok() && e.as_ref().map_or(true, |e| *e == w.got), "{}: encoding to another writer differs", tg.name);
    }
    c.count(if first.0.is_ok() { "accepted" } else { "rejected" }, 1);
    if b.is_empty() { c.eval_trivial() } else { c.eval(vh(tg, &b)) }
    c.sample(|| format!("{} {} repeated with other work in between", tg.name, hex(&b)));
    Ok(())
}

struct Job {
    tg: &'static Target,
    b: Vec<u8>,
    first: (Outcome, usize),
    enc: Option<(Val, Vec<u8>)>,
    /// Display of the error, to be formatted on other threads
    err: Option<(ThriftError, String)>,
}

fn threads_case(c: &mut Ctx, nt: usize, jobs: usize, rounds: usize) -> R {
    let mut v = vec![];
    for _ in 0..jobs {
        let tg = pick(&mut c.rng);
        let b = some_bytes(&mut c.rng, tg);
        let first = (tg.dec_slice)(&b);
        let enc = first.0.as_ref().ok().and_then(|x| (tg.enc_vec)(x).ok().map(|e| (x.clone(), e)));
        let err = (tg.run_slice)(&b).err().map(|e| {
            let s = format!("{e} {e:?}");
            (e, s)
        });
        c.eval(vh(tg, &b));
        v.push(Job { tg, b, first, enc, err });
    }
    c.count("accepted", v.iter().filter(|j| j.first.0.is_ok()).count() as u64);
    c.count("rejected", v.iter().filter(|j| j.first.0.is_err()).count() as u64);
    let (jobs, bar) = (&v, &Barrier::new(nt));
    let bad: std::sync::Mutex<Option<String>> = Default::default();
    let ops = AtomicU64::new(0);
    // how many operations overlapped with one of another thread
    let (active, overlapped) = (AtomicUsize::new(0), AtomicU64::new(0));
    std::thread::scope(|s| {
        for t in 0..nt {
            let mut rng = Rng::new(c.rng.u64());
            let (bad, ops, active, overlapped) = (&bad, &ops, &active, &overlapped);
            s.spawn(move || {
                bar.wait();
                for k in 0..rounds {
                    // all threads work on the same job at first, then drift apart
                    let j = if k % 3 == 0 { &jobs[k / 3 % jobs.len()] } else { rng.pick(jobs) };
                    if active.fetch_add(1, Ordering::Relaxed) > 0 {
                        overlapped.fetch_add(1, Ordering::Relaxed);
                    }
                    let mut fail = None;
                    match rng.below(4) {
                        0 => {
                            let (o, _) = via_chunks(j.tg, &j.b, &mut rng);
                            // the stream outcome is compared only where it has to be the same
                            if let (Ok(a), Ok(b)) = (&o, &j.first.0) {
                                if a != b {
                                    fail = Some(format!("{}: stream decode of {} on thread {t} gives {}", j.tg.name, hex(&j.b), show(a)));
                                }
                            }
                        }
                        1 if j.enc.is_some() => {
                            let (v, e) = j.enc.as_ref().unwrap();
                            let x = (j.tg.enc_vec)(v);
                            if x.as_ref() != Ok(e) {
                                fail = Some(format!("{}: encoding {} on thread {t} gives {x:?}", j.tg.name, show(v)));
                            }
                        }
                        2 if j.err.is_some() => {
                            let (e, s) = j.err.as_ref().unwrap();
                            let x = format!("{} {:?}", e.clone(), e);
                            if x != *s {
                                fail = Some(format!("{}: the error of {} prints as {x} instead of {s} on thread {t}", j.tg.name, hex(&j.b)));
                            }
                        }
                        _ => {
                            let x = (j.tg.dec_slice)(&j.b);
                            if x != j.first {
                                fail = Some(format!("{}: decode of {} on thread {t} gives {x:?} instead of {:?}", j.tg.name, hex(&j.b), j.first));
                            }
                        }
                    }
                    active.fetch_sub(1, Ordering::Relaxed);
                    ops.fetch_add(1, Ordering::Relaxed);
                    if let Some(f) = fail {
                        *bad.lock().unwrap() = Some(f);
                    }
                }
            });
        }
    });
    c.count("operations on threads", ops.into_inner());
    c.count("operations overlapping another thread", overlapped.into_inner());
    match bad.into_inner().unwrap() {
        Some(m) => Err(m),
        None => Ok(()),
    }
}

/// one decoded value encoded by several threads at once
fn shared_value<T>(c: &mut Ctx, name: &str, nt: usize) -> R
where
    T: P + Send + Sync + Clone,
{
    let tg = target(name);
    let v = small_val(&mut c.rng, &tg.ty);
    let b = canon(&tg.ty, &v);
    let x = T::read_thrift(&mut CompactThriftInputSlice::new(&b)).map_err(|e| format!("{name}: {} is refused: {e:?}", hex(&b)))?;
    let x = Arc::new(x);
    let hs: Vec<_> = (0..nt)
        .map(|_| {
            let x = x.clone();
            std::thread::spawn(move || {
                let mut out = vec![];
                let r = x.write_thrift(&mut out).map_err(er);
                let y: T = (*x).clone();
                let mut out2 = vec![];
                let r2 = y.write_thrift(&mut out2).map_err(er);
                (r, out, r2, out2)
            })
        })
        .collect();
    for h in hs {
        let (r, o, r2, o2) = h.join().map_err(|_| format!("{name}: encoding {} on a thread panics", show(&v)))?;
        ensure!(r == Ok(()) && r2 == Ok(()) && o == b && o2 == b, "{name}: {} encoded on a thread as {} instead of {}", show(&v), hex(&o), hex(&b));
    }
    c.eval(vh(tg, &b));
    Ok(())
}

fn error_case(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let b: Box<[u8]> = match c.rng.below(6) {
        0 => Box::new([0]),
        1 => Box::new([]),
        2 => vec![0x0c, 0xfe, 0x01, 0].into(), // an unknown id
        _ => hostile_bytes(&mut c.rng, tg).into(),
    };
    let one = (tg.run_slice)(&b);
    let two = (tg.run_slice)(&b);
    let Err(e) = one else {
        c.eval_trivial();
        return Ok(());
    };
    let text = format!("{e}");
    let clone = e.clone();
    // the input is gone, its memory reused
    let n = b.len();
    drop(b);
    let junk: Vec<Vec<u8>> = (0..8).map(|i| vec![0x41 + i as u8; n.max(1)]).collect();
    let boxed: Box<dyn std::error::Error + Send + Sync> = Box::new(clone);
    let h = std::thread::spawn(move || {
        let s = boxed.to_string();
        let d = format!("{boxed:?}");
        drop(boxed);
        (s, d)
    });
    let (s, d) = h.join().map_err(|_| "formatting an error on another thread panics".to_string())?;
    ensure!(s == text && d == format!("{e:?}") && format!("{e}") == text, "an error prints as {text}, on another thread as {s}");
    match two {
        Err(e2) => ensure!(format!("{e2}") == text && er(e2) == er(e), "the same input gives different errors: {text}"),
        Ok(()) => return Err(format!("{}: the same input is refused once ({text}) and accepted once", tg.name)),
    }
    drop(junk);
    c.count("errors passed to a thread", 1);
    c.eval(hash_bytes(n as u64, text.as_bytes()));
    c.sample(|| format!("error {text} of {}", tg.name));
    Ok(())
}

/// the `k`-th decode of a series: type, bytes
fn series(seed: u64, k: u64) -> (&'static Target, Vec<u8>) {
    let mut rng = Rng::new(seed ^ mix(77, k));
    let tg = pick(&mut rng);
    let b = match rng.below(5) {
        0 => vec![0],
        1 => vec![0x0c, 0xfe, 0x01, 0],
        _ => some_bytes(&mut rng, tg),
    };
    (tg, b)
}
/// everything observable of one decode
fn observed(tg: &Target, b: &[u8]) -> String {
    let text = (tg.run_slice)(b).err().map(|e| format!("{e} {e:?}"));
    let o = (tg.dec_slice)(b);
    let again = o.0.as_ref().ok().map(|v| (tg.enc_vec)(v));
    format!("{o:?} {:?} {text:?} {:?} {again:?}", via_read(tg, b), (tg.debug)(b))
}
const SERIES: u64 = 30;

/// helper process: the series in another order, from a fresh start
pub fn fresh_child(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let first: u64 = args[1].parse().unwrap();
    let mut order: Vec<u64> = (0..SERIES).rev().filter(|k| *k != first).collect();
    order.insert(0, first);
    for k in order {
        let (tg, b) = series(seed, k);
        println!("{k} {:016x}", hash_bytes(5, observed(tg, &b).as_bytes()));
    }
}

/// nothing that happened before in this process may show in a result
#[cfg(not(miri))]
fn fresh_case(c: &mut Ctx) -> R {
    let seed = c.rng.u64();
    let first = c.rng.below(SERIES);
    let mine: Vec<String> = (0..SERIES)
        .map(|k| {
            let (tg, b) = series(seed, k);
            observed(tg, &b)
        })
        .collect();
    let out = std::process::Command::new(std::env::current_exe().map_err(|e| format!("harness: {e}"))?)
        .args(["child", "fresh", &seed.to_string(), &first.to_string()])
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| format!("harness: {e}"))?;
    let text = String::from_utf8_lossy(&out.stdout);
    ensure!(out.status.success() && text.lines().count() as u64 == SERIES, "a fresh process doing the same decodes ends with {:?} after {} of {SERIES}", out.status, text.lines().count());
    for l in text.lines() {
        let (k, h) = l.split_once(' ').unwrap();
        let k: usize = k.parse().unwrap();
        let (tg, b) = series(seed, k as u64);
        ensure!(
            h == format!("{:016x}", hash_bytes(5, mine[k].as_bytes())),
            "{}: {} decoded after other work gives another result than in a fresh process (order {first} first): {}",
            tg.name,
            hex(&b),
            mine[k].chars().take(600).collect::<String>()
        );
        c.eval(mix(vh(tg, &b), 3));
    }
    c.count("fresh processes compared", 1);
    Ok(())
}

/// the same place in memory with other contents, again and again
fn place_case(c: &mut Ctx) -> R {
    let mut buf = vec![0u8; 4096];
    let (mut tg, mut b) = series(c.rng.u64(), 2 + c.idx % 7);
    b.truncate(4000);
    for k in 0..c.rng.range(2, 9) {
        match c.rng.below(4) {
            // a text in which one byte is no longer valid, or is again
            0 => {
                tg = *c.rng.pick(&replaceable());
                let v = any_val(&mut c.rng, &tg.ty);
                b = canon(&tg.ty, &v);
                b.truncate(4000);
            }
            1 => tg = pick(&mut c.rng),
            _ => {
                for _ in 0..c.rng.range(1, 3) {
                    if !b.is_empty() {
                        let i = c.rng.idx(b.len());
                        b[i] = *c.rng.pick(&[0xff, 0x80, b[i] ^ 1, b[i].wrapping_add(1), 0, 65]);
                    }
                }
            }
        }
        buf[..b.len()].copy_from_slice(&b);
        let mut moved = vec![0u8; 1 + c.rng.idx(30)];
        let off = moved.len();
        moved.extend(&b);
        let here = (tg.dec_slice)(&buf[..b.len()]);
        let there = (tg.dec_slice)(&moved[off..]);
        ensure!(here == there, "{}: {} gives {here:?} where something else was before (step {k}), {there:?} elsewhere", tg.name, hex(&b));
        let mut r: &[u8] = &buf[..b.len()];
        let (a, b2) = ((tg.dec_read)(&mut r), via_read(tg, &b).0);
        ensure!(a == b2, "{}: the stream {} gives {a:?} where something else was before (step {k}), {b2:?} elsewhere", tg.name, hex(&b));
        if b.is_empty() { c.eval_trivial() } else { c.eval(mix(vh(tg, &b), 5)) }
    }
    Ok(())
}

/// values that differ in little, one after the other and back
fn nearly_case(c: &mut Ctx) -> R {
    let tg = *c.rng.pick(&replaceable());
    let tg = if c.rng.p(128) { tg } else { pick(&mut c.rng) };
    let mut seen = vec![small_val(&mut c.rng, &tg.ty)];
    for k in 0..c.rng.range(3, 12) {
        let v = if k > 0 && c.rng.p(60) {
            c.rng.pick(&seen).clone()
        } else {
            let mut v = seen.last().unwrap().clone();
            for _ in 0..c.rng.range(1, 2) {
                super::decl::tweak(&mut c.rng, &tg.ty, &mut v);
            }
            v
        };
        let b = canon(&tg.ty, &v);
        let o = if c.rng.p(128) { (tg.dec_slice)(&b).0 } else { via_read(tg, &b).0 };
        ensure!(o.as_ref() == Ok(&v), "{}: {} gives {o:?} instead of {} (step {k})", tg.name, hex(&b), show(&v));
        let w = (tg.enc_vec)(&v);
        ensure!(w.as_ref() == Ok(&b), "{}: {} written as {w:?} instead of {} (step {k})", tg.name, show(&v), hex(&b));
        c.eval(mix(vh(tg, &b), 9));
        seen.push(v);
    }
    Ok(())
}

/// a long history: gigabytes and billions of elements later, results are the same
#[cfg(not(miri))]
fn history_case(c: &mut Ctx, deep: bool) -> R {
    let seed = c.rng.u64();
    let all = |n: u64| -> Vec<String> {
        (0..n)
            .map(|k| {
                let (tg, b) = series(seed, k);
                observed(tg, &b)
            })
            .collect()
    };
    let before = all(300);
    let f = if deep { 10 } else { 1 };
    let small = 10_000_000usize;
    let mut bools = vec![0xf1];
    Ser::canon().varint(&mut bools, small as u64);
    bools.resize(bools.len() + small, 1);
    let mut text = vec![];
    Ser::canon().varint(&mut text, 16 << 20);
    text.resize(text.len() + (16 << 20), 65);
    let fail = |what: &str, k: u64| format!("{what}: refused or different after {k} times");
    let mut elements = 0u64;
    let mut bytes = 0u64;
    match c.idx % 4 {
        0 => {
            for k in 0..440 * f {
                ensure!(CompactThriftInputSlice::new(&bools).skip_field(9).is_ok(), "{}", fail("skipping ten million elements", k));
                elements += small as u64;
                bytes += bools.len() as u64;
            }
            for k in 0..40 * f {
                let n = Vec::<i8>::read_thrift(&mut CompactThriftInputSlice::new(&[&[0xf3], &bools[1..]].concat())).map(|v| v.len());
                ensure!(n.as_ref().is_ok_and(|n| *n == small), "{}", fail("ten million elements", k));
                elements += small as u64;
            }
        }
        1 => {
            for k in 0..300 * f {
                ensure!(CompactThriftInputSlice::new(&text).skip_field(8).is_ok(), "{}", fail("skipping 16 MiB", k));
                let r = std::borrow::Cow::<[u8]>::read_thrift(&mut CompactThriftInputSlice::new(&text)).map(|x| x.len());
                ensure!(r.as_ref().is_ok_and(|n| *n == 16 << 20), "{}", fail("a binary of 16 MiB", k));
                bytes += 2 * text.len() as u64;
            }
            for k in 0..270 * f {
                let r = std::borrow::Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(&text)).map(|x| x.len());
                ensure!(r.as_ref().is_ok_and(|n| *n == 16 << 20), "{}", fail("a string of 16 MiB", k));
                if k % 8 == 0 {
                    let mut s: &[u8] = &text;
                    let r = String::read_thrift(&mut s).map(|x| x.len());
                    ensure!(r.as_ref().is_ok_and(|n| *n == 16 << 20), "{}", fail("a string of 16 MiB from a stream", k));
                }
                bytes += text.len() as u64;
            }
        }
        2 => {
            // many small ones, good and bad
            let good = [0x15u8, 2, 0x18, 1, 65, 0];
            let bad = [0x15u8, 2, 0x18, 1, 255, 0];
            let unknown = [0x15u8, 2, 0x59, 0x2c, 0x11, 0, 0x3b, 1, 0x88, 1, 65, 1, 66, 0, 0];
            let none = [0x28u8, 1, 65, 0];
            for k in 0..3_000_000 * f {
                let r = (
                    Small::read_thrift(&mut CompactThriftInputSlice::new(&good)).is_ok(),
                    Small::read_thrift(&mut CompactThriftInputSlice::new(&bad)).is_err(),
                    Small::read_thrift(&mut CompactThriftInputSlice::new(&unknown)).is_ok(),
                    Small::read_thrift(&mut CompactThriftInputSlice::new(&none)).is_err(),
                );
                ensure!(r == (true, true, true, true), "{}: {r:?}", fail("four small messages", k));
                bytes += (good.len() + bad.len() + unknown.len() + none.len()) as u64;
            }
        }
        _ => {
            // writing
            let v = vec![true; small];
            let t = "x".repeat(16 << 20);
            for k in 0..10 * f {
                let mut o = vec![];
                ensure!(v.write_thrift(&mut o).is_ok() && o.len() == bools.len(), "{}", fail("writing ten million elements", k));
                elements += small as u64;
                bytes += o.len() as u64;
            }
            let mut o = vec![];
            for k in 0..300 * f {
                o.clear();
                ensure!(t.write_thrift(&mut o).is_ok() && o.len() == text.len(), "{}", fail("writing 16 MiB", k));
                bytes += o.len() as u64;
            }
            let s = Small { a: 5, b: Some("b".into()) };
            for k in 0..5_000_000 * f {
                o.clear();
                ensure!(s.write_thrift(&mut o).is_ok() && o == [0x15, 10, 0x18, 1, 98, 0], "{}", fail("writing a small struct", k));
            }
        }
    }
    let after = all(300);
    for (k, (a, b)) in before.iter().zip(&after).enumerate() {
        let (tg, m) = series(seed, k as u64);
        ensure!(a == b, "{}: {} gives another result after {elements} elements and {bytes} bytes: {b} instead of {a}", tg.name, hex(&m));
        c.eval(mix(vh(tg, &m), 6));
    }
    c.count("elements of the long histories", elements);
    c.count("bytes of the long histories", bytes);
    Ok(())
}

/// the hundred-thousandth time is like the first, for whatever is done and however it ends
#[cfg(not(miri))]
fn many_case(c: &mut Ctx, times: u32) -> R {
    let small = target("Small");
    let fixed: [(&str, &'static Target, &[u8]); 16] = [
        ("repeated field", small, &[0x15, 2, 0x18, 1, 65, 0x08, 4, 1, 66, 0]),
        ("repeated flag", target("Flags"), &[0x11, 0x01, 2, 0]),
        ("repeated member", target("V"), &[0x12, 0x18, 1, 65, 0]),
        ("repeated union member", target("V"), &[0x38, 1, 65, 0x08, 6, 1, 65, 0]),
        ("no member", target("V"), &[0]),
        ("unknown member", target("V"), &[0x95, 2, 0]),
        ("missing field", small, &[0x28, 1, 65, 0]),
        ("missing field of many", target("Many"), &[0]),
        ("not a string", small, &[0x15, 2, 0x18, 1, 255, 0]),
        ("a long string", small, &[0x15, 2, 0x18, 0xff, 0xff, 0xff, 0xff, 0x0f]),
        ("end of input", small, &[0x15, 2, 0x18]),
        ("a long number", small, &[0x15, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 1, 0]),
        ("another type", target("Vec<Small>"), &[0x15, 2]),
        ("an undeclared field", small, &[0x15, 2, 0x59, 0x2c, 0x11, 0, 0x3b, 1, 0x88, 1, 65, 1, 66, 0, 0]),
        ("an unknown type", small, &[0x1e, 0]),
        ("a long list", target("Vec<Small>"), &[0xfc, 0xff, 0xff, 0xff, 0xff, 0x07]),
    ];
    let (what, tg, b): (&str, &'static Target, Vec<u8>) = match fixed.get(c.idx as usize) {
        Some((w, t, b)) => (w, t, b.to_vec()),
        None => loop {
            let tg = pick(&mut c.rng);
            let b = some_bytes(&mut c.rng, tg);
            if b.len() < 60 {
                break ("a message", tg, b);
            }
        },
    };
    let text = |r: Result<(), compact_thrift_runtime::ThriftError>| match r {
        Ok(()) => String::new(),
        Err(compact_thrift_runtime::ThriftError::MissingField(n)) => format!("{n} {n:?}"),
        Err(e) => format!("{e} {e:?}"),
    };
    let slice = || text((tg.run_slice)(&b));
    let stream = || text((tg.run_read)(&mut &b[..]));
    let (v, pos) = (tg.dec_slice)(&b);
    let (one, two) = (slice(), stream());
    for k in 1..=times {
        let o = if k % 2 == 0 { slice() } else { stream() };
        let want = if k % 2 == 0 { &one } else { &two };
        ensure!(o == *want, "{}: {what} {}: the first time {want:?}, after {k} times {o:?}", tg.name, hex(&b));
    }
    let again = (tg.dec_slice)(&b);
    ensure!(again == (v.clone(), pos), "{}: {what} {}: the first time {v:?} at {pos}, after {times} times {again:?}", tg.name, hex(&b));
    if let Ok(v) = &v {
        let kind = *c.rng.pick(KINDS);
        let e = (tg.enc_vec)(v).map_err(|e| format!("{e:?}"))?;
        let cut = c.rng.idx(e.len().max(1));
        let mut first = None;
        for k in 1..=times / 4 {
            let good = (tg.enc_vec)(v);
            ensure!(good.as_ref() == Ok(&e), "{}: written the first time as {}, after {k} times as {good:?}", tg.name, hex(&e));
            let mut w = TestWriter::new();
            w.fail = Some((cut, kind));
            let o = (tg.enc)(v, &mut w);
            let f = first.get_or_insert_with(|| o.clone());
            ensure!(o == *f, "{}: a failing writer gives {f:?} the first time, {o:?} after {k} times", tg.name);
        }
    }
    c.count("the same thing again", times as u64);
    c.eval(mix(vh(tg, &b), 8));
    Ok(())
}

/// user code that panics inside a decode or write leaves nothing behind
#[cfg(not(miri))]
fn unwound_case(c: &mut Ctx) -> R {
    struct Bomb<'a>(&'a [u8], usize);
    impl std::io::Read for Bomb<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if self.1 == 0 {
                panic!("user code");
            }
            let n = b.len().min(self.1).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            self.1 -= n;
            Ok(n)
        }
    }
    impl std::io::Write for Bomb<'_> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.1 == 0 {
                panic!("user code");
            }
            let n = b.len().min(self.1);
            self.1 -= n;
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let (tg, b) = series(c.rng.u64(), 0);
    let before = observed(tg, &b);
    for _ in 0..2 {
        let o = pick(&mut c.rng);
        let v = small_val(&mut c.rng, &o.ty);
        let m = canon(&o.ty, &v);
        let at = c.rng.idx(m.len());
        let what = guarded(|| drop((o.dec_read)(&mut Bomb(&m, at))));
        ensure!(matches!(&what, Err((m, _)) if m.contains("user code")), "{}: a reader that panics after {at} bytes: {what:?}", o.name);
        let what = guarded(|| drop((o.enc)(&v, &mut Bomb(&[], at))));
        ensure!(matches!(&what, Err((m, _)) if m.contains("user code")), "{}: a writer that panics after {at} bytes: {what:?}", o.name);
        c.count("panics of user code", 2);
    }
    let after = observed(tg, &b);
    ensure!(before == after, "{}: {} gives {after} after user code panicked, {before} before", tg.name, hex(&b));
    c.eval(mix(vh(tg, &b), 4));
    Ok(())
}

/// a reader and writer that decode and encode other things whenever they are called
struct Busy<'a> {
    b: &'a [u8],
    out: Vec<u8>,
    rng: Rng,
    depth: u32,
    chunk: usize,
    bad: Option<String>,
    inner: u64,
    /// how often it may still do so
    left: u32,
}
impl Busy<'_> {
    fn work(&mut self) {
        if self.depth == 0 || self.left == 0 || self.bad.is_some() || !self.rng.p(40) {
            return;
        }
        self.left -= 1;
        let tg = pick(&mut self.rng);
        let v = small_val(&mut self.rng, &tg.ty);
        let m = canon(&tg.ty, &v);
        let mut i = Busy { b: &m, out: vec![], rng: Rng::new(self.rng.u64()), depth: self.depth - 1, chunk: 1 + self.rng.idx(9), bad: None, inner: 1, left: 2 };
        let r = match self.rng.below(4) {
            0 => {
                let r = (tg.enc)(&v, &mut i);
                if r.is_ok() && i.out == m { Ok(v.clone()) } else { Err(format!("{r:?} {}", hex(&i.out))) }
            }
            1 => (tg.dec_slice)(&m).0.map_err(|e| format!("{e:?}")),
            2 => {
                // and errors
                let k = self.rng.idx(m.len());
                i.b = &m[..k];
                match (tg.dec_read)(&mut i) {
                    Err(_) => Ok(v.clone()),
                    o => Err(format!("{k} of its bytes give {o:?}")),
                }
            }
            _ => (tg.dec_read)(&mut i).map_err(|e| format!("{e:?}")),
        };
        self.inner += i.inner;
        if let Some(b) = i.bad {
            self.bad = Some(b);
        } else if r.as_ref() != Ok(&v) {
            self.bad = Some(format!("{} {}: {r:?}", tg.name, hex(&m)));
        }
    }
}
impl std::io::Read for Busy<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.work();
        let n = b.len().min(self.chunk).min(self.b.len());
        b[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        self.work();
        Ok(n)
    }
}
impl std::io::Write for Busy<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.chunk);
        let part = b[..n].to_vec();
        self.work();
        // what is written is the same before and after
        if part != b[..n] {
            self.bad = Some(format!("the bytes to write change while they are written: {} {}", hex(&part), hex(&b[..n])));
        }
        self.out.extend(part);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn reentrant_case(c: &mut Ctx) -> R {
    let (tg, v) = if c.rng.p(20) && !cfg!(miri) {
        long_case(&mut c.rng, 400)
    } else {
        let tg = pick(&mut c.rng);
        (tg, small_val(&mut c.rng, &tg.ty))
    };
    let m = canon(&tg.ty, &v);
    let depth = 1 + c.rng.below(2) as u32;
    let new = |rng: &mut Rng| Busy { b: &m, out: vec![], rng: Rng::new(rng.u64()), depth, chunk: if m.len() > 200 { 100 + rng.idx(100) } else { 1 + rng.idx(20) }, bad: None, inner: 0, left: 12 };
    let mut r = new(&mut c.rng);
    let o = (tg.dec_read)(&mut r);
    ensure!(r.bad.is_none(), "{}: decoded inside a reader: {}", tg.name, r.bad.unwrap());
    ensure!(o.as_ref() == Ok(&v) && r.b.is_empty(), "{}: reading {} from a reader that itself decodes gives {o:?}, {} bytes left", tg.name, hex(&m), r.b.len());
    let mut w = new(&mut c.rng);
    let o = (tg.enc)(&v, &mut w);
    ensure!(w.bad.is_none(), "{}: encoded inside a writer: {}", tg.name, w.bad.unwrap());
    ensure!(o.is_ok() && w.out == m, "{}: writing {} to a writer that itself encodes gives {o:?} {}", tg.name, hex(&m), hex(&w.out));
    c.count("operations inside other operations", r.inner + w.inner);
    c.eval(mix(vh(tg, &m), 7));
    Ok(())
}

pub fn c20(t: bool, variant: &str) -> Vec<Stage> {
    let miri = variant == "miri";
    let tsan = variant == "tsan";
    let n = move |quick: u64, deep: u64, ts: u64, m: u64| {
        if miri {
            raw(t, m, m * 8)
        } else if tsan {
            raw(t, ts, ts * 12)
        } else {
            q(t, quick, deep)
        }
    };
    let nt = if miri { 3 } else { 6 };
    #[allow(unused_mut)]
    let mut v = vec![
        stage("repeat", n(60_000, 1_500_000, 3_000, 40), repeat_case),
        stage("threads", n(600, 12_000, 80, 6), move |c| if miri { threads_case(c, 3, 6, 12) } else { threads_case(c, 6, 24, 300) }),
        stage("shared-values", n(600, 8_000, 100, 8), move |c| match c.rng.below(6) {
            0 => shared_value::<AllReq>(c, "AllReq", nt),
            1 => shared_value::<Lists2>(c, "Lists2", nt),
            2 => shared_value::<Unordered>(c, "Unordered", nt),
            3 => shared_value::<Vec<Vec<Inner3>>>(c, "Vec<Vec<Inner3>>", nt),
            4 => shared_value::<Vec<Arc<Small>>>(c, "Vec<Arc<Small>>", nt),
            _ => shared_value::<Arc<str>>(c, "Arc<str>", nt),
        }),
        stage("errors", n(3_000, 40_000, 300, 20), error_case),
        stage("reentrant", n(10_000, 300_000, 200, 10), reentrant_case),
        stage("nearly", n(40_000, 800_000, 1_000, 20), nearly_case),
        stage("place", n(40_000, 800_000, 1_000, 20), place_case),
    ];
    #[cfg(not(miri))]
    {
        if !tsan {
            v.push(stage("fresh", raw(t, 600, 20_000), fresh_case));
            v.push(stage("history", if cfg!(debug_assertions) { 0 } else { 4 }, move |c| history_case(c, t)));
        }
        let times = if tsan || cfg!(debug_assertions) { 20_000 } else { 500_000 };
        v.push(stage("many", raw(t, 32, 320), move |c| many_case(c, times)));
        v.push(stage("unwound", n(2_000, 60_000, 200, 0), unwound_case));
    }
    v
}

// ---------------------------------------------------------------------------------------------

/// a type whose refill must equal a fresh decode
fn replaces(tg: &Target) -> bool {
    !matches!(tg.ty, Ty::Struct(_)) && !tg.name.starts_with("Option") && !tg.name.starts_with("Box<Option")
}

fn replaceable() -> Vec<&'static Target> {
    targets().iter().filter(|t| replaces(t)).collect()
}

fn is_replaced(ty: &Ty) -> bool {
    !matches!(ty, Ty::Struct(_))
}

struct Probe {
    name: &'static str,
    f: fn(&mut Ctx, &'static str) -> R,
}

/// `a` shares its data with the value that is filled
fn shared_ptr<S, T>(c: &mut Ctx, name: &'static str, mk: fn(&Val) -> S, share: fn(&S) -> T, ty: Ty) -> R
where
    S: ToVal,
    T: for<'i> CompactThriftProtocol<'i> + ToVal,
{
    let old = small_val(&mut c.rng, &ty);
    let new = small_val(&mut c.rng, &ty);
    let a = mk(&old);
    let before = a.to_val();
    let mut b = share(&a);
    let bytes = canon(&ty, &new);
    let as_field = c.rng.p(128);
    let r = if as_field {
        let (wt, body) = match (&ty, &new) {
            (Ty::Bool, Val::Bool(x)) => (if *x { 1 } else { 2 }, vec![]),
            _ => (ty.wt(), bytes.clone()),
        };
        b.fill_thrift_field(&mut CompactThriftInputSlice::new(&body), wt).map_err(er)
    } else {
        b.fill_thrift(&mut CompactThriftInputSlice::new(&bytes)).map_err(er)
    };
    ensure!(a.to_val() == before, "{name}: filling one owner with {} changed the other from {} to {}", show(&new), show(&before), show(&a.to_val()));
    match &r {
        Ok(()) => ensure!(b.to_val() == new, "{name}: filled with {} but holds {}", show(&new), show(&b.to_val())),
        Err(Er::Dup) => ensure!(b.to_val() == before, "{name}: refused, but now holds {}", show(&b.to_val())),
        Err(e) => return Err(format!("{name}: filling a shared value with {} fails with {e:?}", hex(&bytes))),
    }
    // once the other owner is gone the value can be filled
    drop(a);
    let r2 = b.fill_thrift(&mut CompactThriftInputSlice::new(&bytes)).map_err(er);
    if is_replaced(&ty) {
        ensure!(r2 == Ok(()) && b.to_val() == new, "{name}: filling the only owner with {} gives {r2:?} {}", show(&new), show(&b.to_val()));
    }
    c.count(if r.is_ok() { "shared: replaced" } else { "shared: refused" }, 1);
    c.eval(hash_bytes(hash_bytes(as_field as u64, name.as_bytes()), &bytes));
    Ok(())
}

fn probes() -> Vec<Probe> {
    macro_rules! probe {
        ($($n:literal $t:ty, $ty:expr;)*) => { vec![$(Probe { name: $n, f: |c, n| shared_ptr::<$t, $t>(c, n, |v| <$t>::from_val(v), |s| s.clone(), $ty) }),*] };
    }
    probe! {
        "Rc<bool>" Rc<bool>, Ty::Bool;
        "Arc<bool>" Arc<bool>, Ty::Bool;
        "Rc<i32>" Rc<i32>, Ty::I32;
        "Arc<i64>" Arc<i64>, Ty::I64;
        "Rc<f64>" Rc<f64>, Ty::F64;
        "Arc<i8>" Arc<i8>, Ty::I8;
        "Rc<String>" Rc<String>, Ty::Str;
        "Arc<String>" Arc<String>, Ty::Str;
        "Rc<str>" Rc<str>, Ty::Str;
        "Arc<str>" Arc<str>, Ty::Str;
        "Rc<Vec<u8>>" Rc<Vec<u8>>, Ty::Bin;
        "Arc<Vec<u8>>" Arc<Vec<u8>>, Ty::Bin;
        "Rc<Vec<i32>>" Rc<Vec<i32>>, list(Ty::I32);
        "Arc<Vec<bool>>" Arc<Vec<bool>>, list(Ty::Bool);
        "Rc<Color>" Rc<Color>, Ty::I32;
        "Rc<V>" Rc<V>, V::ty();
        "Arc<V>" Arc<V>, V::ty();
        "Rc<Pair>" Rc<Pair>, Pair::ty();
        "Arc<Pair>" Arc<Pair>, Pair::ty();
        "Box<Rc<i32>>" Box<Rc<i32>>, Ty::I32;
        "Rc<Box<str>>" Rc<Box<str>>, Ty::Str;
        "Arc<Rc<i16>>" Arc<Rc<i16>>, Ty::I16;
        "Vec<Rc<str>>" Vec<Rc<str>>, list(Ty::Str);
        "Vec<Arc<Pair>>" Vec<Arc<Pair>>, list(Pair::ty());
        "Vec<Rc<Vec<i32>>>" Vec<Rc<Vec<i32>>>, list(list(Ty::I32));
        "Vec<Rc<bool>>" Vec<Rc<bool>>, list(Ty::Bool);
    }
}

/// weak references do not see changes either
fn weak_case(c: &mut Ctx) -> R {
    let old = small_val(&mut c.rng, &list(Ty::Str));
    let new = small_val(&mut c.rng, &list(Ty::Str));
    let b = canon(&list(Ty::Str), &new);
    macro_rules! go {
        ($p:ident) => {{
            let mut x: $p<Vec<String>> = $p::new(Vec::from_val(&old));
            let w = $p::downgrade(&x);
            let r = x.fill_thrift(&mut CompactThriftInputSlice::new(&b)).map_err(er);
            let seen = w.upgrade().map(|y| y.to_val());
            match &r {
                Ok(()) => ensure!(x.to_val() == new, "filled with {} but holds {}", show(&new), show(&x.to_val())),
                Err(Er::Dup) => ensure!(x.to_val() == old, "refused but holds {}", show(&x.to_val())),
                Err(e) => return Err(format!("filling a weakly referenced value fails with {e:?}")),
            }
            // the weak reference leads to this owner's value, to the old one, or nowhere
            ensure!(seen.as_ref().map_or(true, |s| *s == old || *s == x.to_val()), "weak reference sees {seen:?}");
        }};
    }
    go!(Rc);
    go!(Arc);
    c.eval(hash_bytes(4, &b));
    Ok(())
}

pub fn c21(t: bool) -> Vec<Stage> {
    let rs = replaceable();
    let rs2 = replaceable();
    let rs3: Vec<_> = replaceable().into_iter().filter(|t| matches!(t.ty, Ty::List(_) | Ty::Str | Ty::Bin)).collect();
    let st = struct_targets();
    let st2 = struct_targets();
    let ps = probes();
    vec![
        stage("refill", q(t, 120_000, 3_000_000), move |c| {
            let tg = *c.rng.pick(&rs);
            let old = any_val(&mut c.rng, &tg.ty);
            let new = match c.rng.below(4) {
                0 => {
                    // nearly the same
                    let mut v = old.clone();
                    for _ in 0..1 + c.rng.idx(2) {
                        super::decl::tweak(&mut c.rng, &tg.ty, &mut v);
                    }
                    v
                }
                1 => small_val(&mut c.rng, &tg.ty),
                _ => any_val(&mut c.rng, &tg.ty),
            };
            let b = canon(&tg.ty, &new);
            let (r, v, used) = (tg.refill)(&old, &b);
            ensure!(r == Ok(()), "{}: filling {} with {} fails: {r:?}", tg.name, show(&old), hex(&b));
            ensure!(v == new && used == b.len(), "{}: {} filled with {} becomes {}", tg.name, show(&old), show(&new), show(&v));
            c.eval(vh(tg, &b) ^ hash_bytes(0, &canon(&tg.ty, &old)));
            c.sample(|| format!("{} {} filled with {}", tg.name, show(&old), show(&new)));
            Ok(())
        }),
        stage("long", raw(t, 2000, 30_000), move |c| {
            // something long in place of something long
            let tg = *c.rng.pick(&rs3);
            let (a, b) = (edge_len(&mut c.rng, 70_000), edge_len(&mut c.rng, 70_000));
            let old = sized(&mut c.rng, &tg.ty, a);
            let mut new = sized(&mut c.rng, &tg.ty, b);
            if c.rng.p(100) {
                new = old.clone();
                super::decl::tweak(&mut c.rng, &tg.ty, &mut new);
            }
            let b = canon(&tg.ty, &new);
            let (r, v, used) = (tg.refill)(&old, &b);
            ensure!(r == Ok(()), "{}: filling {} with {} fails: {r:?}", tg.name, show(&old), hex(&b));
            ensure!(v == new && used == b.len(), "{}: {} filled with {} becomes {}", tg.name, show(&old), show(&new), show(&v));
            c.eval(vh(tg, &b) ^ hash_bytes(0, &canon(&tg.ty, &old)));
            Ok(())
        }),
        stage("after-failure", q(t, 80_000, 1_500_000), move |c| {
            let tg = *c.rng.pick(&rs2);
            let old = small_val(&mut c.rng, &tg.ty);
            let new = small_val(&mut c.rng, &tg.ty);
            let b = canon(&tg.ty, &new);
            let a = if c.rng.p(128) {
                hostile_bytes(&mut c.rng, tg)
            } else {
                let other = small_val(&mut c.rng, &tg.ty);
                let mut a = canon(&tg.ty, &other);
                let n = c.rng.idx(a.len() + 1);
                a.truncate(n);
                a
            };
            let (r, v) = (tg.refill2)(&old, &a, &b);
            ensure!(r == Ok(()) && v == new, "{}: {} filled with {} and then {} gives {r:?} {}", tg.name, show(&old), hex(&a), hex(&b), show(&v));
            c.eval(vh(tg, &b) ^ hash_bytes(0, &a));
            Ok(())
        }),
        stage("optional-populated", q(t, 80_000, 1_500_000), move |c| {
            let tg = *c.rng.pick(&st);
            let Ty::Struct(s) = &tg.ty else {
                c.eval_trivial();
                return Ok(());
            };
            let old = small_val(&mut c.rng, &tg.ty);
            let new = small_val(&mut c.rng, &tg.ty);
            let b = canon(&tg.ty, &new);
            let (r, v, _) = (tg.refill)(&old, &b);
            let both: Vec<i16> = s.fields.iter().filter(|f| !f.required && lookup(&old, f.id).is_some() && lookup(&new, f.id).is_some()).map(|f| f.id).collect();
            if !both.is_empty() {
                ensure!(r == Err(Er::Dup), "{}: {} filled with {}: {r:?} although fields {both:?} are populated already", tg.name, show(&old), show(&new));
            } else {
                ensure!(matches!(r, Ok(()) | Err(Er::Dup)), "{}: {} filled with {} fails: {r:?}", tg.name, show(&old), show(&new));
            }
            for f in s.fields.iter().filter(|f| !f.required) {
                let (o, n) = (lookup(&old, f.id), lookup(&v, f.id));
                if let Some(o) = o {
                    ensure!(n == Some(o), "{}: populated optional {} changed from {} to {n:?} by filling with {}", tg.name, f.name, show(o), show(&new));
                } else if r == Ok(()) {
                    ensure!(n == lookup(&new, f.id), "{}: optional {} is {n:?} after filling with {}", tg.name, f.name, show(&new));
                }
            }
            if r == Ok(()) {
                for f in s.fields.iter().filter(|f| f.required && is_replaced(&f.ty)) {
                    ensure!(lookup(&v, f.id) == lookup(&new, f.id), "{}: required {} is {:?} after filling {} with {}", tg.name, f.name, lookup(&v, f.id), show(&old), show(&new));
                }
            }
            c.count(if both.is_empty() { "disjoint" } else { "populated twice" }, 1);
            c.eval(vh(tg, &b) ^ hash_bytes(0, &canon(&tg.ty, &old)));
            Ok(())
        }),
        stage("option", q(t, 20_000, 200_000), |c| {
            let names = ["Option<bool>", "Option<Box<bool>>", "Box<Option<Rc<bool>>>", "Option<Small>", "Option<Arc<Vec<i16>>>"];
            let tg = target(*c.rng.pick(&names));
            let old = small_val(&mut c.rng, &tg.ty);
            let new = small_val(&mut c.rng, &tg.ty);
            let b = canon(&tg.ty, &new);
            let (r, v, _) = (tg.refill)(&old, &b);
            ensure!(r == Err(Er::Dup) && v == old, "{}: populated with {} and filled with {}: {r:?} {}", tg.name, show(&old), show(&new), show(&v));
            c.eval(vh(tg, &b));
            Ok(())
        }),
        stage("repeated-required", q(t, 80_000, 1_500_000), move |c| {
            let tg = *c.rng.pick(&st2);
            let v = small_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            let mut n = 0;
            let mut r = Rng::new(c.rng.u64());
            visit_structs(&tg.ty, &mut w, &mut |ty, fs| {
                let Ty::Struct(s) = ty else { return };
                for f in s.fields.iter().filter(|f| f.required && is_replaced(&f.ty)) {
                    if r.p(100) {
                        let at = fs.iter().position(|x| x.id == f.id).unwrap();
                        for _ in 0..r.range(1, 3) {
                            let x = small_val(&mut r, &f.ty);
                            let k = r.idx(at + 1);
                            fs.insert(k, field_to_wire(f.id, &f.ty, &x));
                            n += 1;
                        }
                    }
                }
            });
            let b = Ser::alt(&mut c.rng).bytes(&w);
            if n == 0 {
                c.eval_trivial();
            } else {
                c.eval(vh(tg, &b));
            }
            c.count("repeated fields", n);
            expect_value(tg, &b, b.len(), &v, &mut c.rng)
        }),
        stage("shared", q(t, 40_000, 600_000), move |c| {
            let p = &ps[c.idx as usize % ps.len()];
            (p.f)(c, p.name)
        }),
        stage("shared-structs", q(t, 20_000, 300_000), |c| {
            // a clone of a structure shares its reference-counted members
            let tg = target("Boxed");
            let old = small_val(&mut c.rng, &tg.ty);
            let a = Boxed::from_val(&old);
            let mut b = a.clone();
            let new = if c.rng.p(60) { hostile_bytes(&mut c.rng, tg) } else { canon(&tg.ty, &small_val(&mut c.rng, &tg.ty)) };
            let r = b.fill_thrift(&mut CompactThriftInputSlice::new(&new)).map_err(er);
            ensure!(a.to_val() == old, "filling a clone of {} with {} ({r:?}) changed the original to {}", show(&old), hex(&new), show(&a.to_val()));
            let tg = target("U");
            let old = small_val(&mut c.rng, &tg.ty);
            let a = U::from_val(&old);
            let mut b = a.clone();
            let v = small_val(&mut c.rng, &tg.ty);
            let r = b.fill_thrift(&mut CompactThriftInputSlice::new(&canon(&tg.ty, &v))).map_err(er);
            ensure!(a.to_val() == old, "filling a clone of {} changed the original to {}", show(&old), show(&a.to_val()));
            ensure!(r == Ok(()) && b.to_val() == v, "a union {} filled with {} becomes {r:?} {}", show(&old), show(&v), show(&b.to_val()));
            c.eval(hash_bytes(6, &new));
            Ok(())
        }),
        stage("weak", q(t, 10_000, 100_000), weak_case),
    ]
}
