//! C01 hostile bytes, C02 memory safety workloads.
use super::codec::hostile_bytes;
use super::*;
use crate::er::{er, Er, EOF};
use crate::gen::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, CompactThriftProtocol, ThriftError};
use std::borrow::Cow;
use std::io::Read;

/// a number that identifies an outcome, the same in every build
fn digest(o: &Outcome) -> u64 {
    hash_bytes(11, format!("{o:?}").as_bytes())
}

fn skip_slice(b: &[u8], wt: u8) -> (Result<(), Er>, usize) {
    let mut i = CompactThriftInputSlice::new(b);
    let r = i.skip_field(wt).map_err(er);
    (r, b.len() - i.as_slice().len())
}
fn skip_read(r: &mut dyn Read, wt: u8) -> Result<(), Er> {
    let mut r = r;
    CompactThriftInput::skip_field(&mut r, wt).map_err(er)
}

fn hostile_case(c: &mut Ctx, tg: &'static Target, b: &[u8]) -> R {
    let (o, used) = (tg.dec_slice)(b);
    ensure!(used <= b.len(), "{}: consumed {used} of {} bytes", tg.name, b.len());
    c.outcome(digest(&o) ^ used as u64);
    let (s, _) = via_chunks(tg, b, &mut c.rng);
    c.outcome(digest(&s));
    let (k, calls) = (tg.counting)(b);
    c.outcome(hash_bytes(1, format!("{k:?}").as_bytes()));
    ensure!(calls <= 2 * b.len() as u64 + 16, "{}: {calls} read operations on the {} bytes {}", tg.name, b.len(), hex(b));
    if let Err(e) = (tg.run_slice)(b) {
        let t = format!("{e}");
        ensure!(!t.is_empty() && t == format!("{e:?}"), "{}: error of {} prints as {t:?} and {e:?}", tg.name, hex(b));
    }
    c.count(if o.is_ok() { "accepted" } else { "rejected" }, 1);
    if b.is_empty() { c.eval_trivial() } else { c.eval(vh(tg, b)) }
    c.sample(|| format!("{} {} -> {}", tg.name, hex(b), if o.is_ok() { "value".into() } else { format!("{:?}", o.as_ref().err()) }));
    Ok(())
}

fn skip_case(c: &mut Ctx, wt: u8, b: &[u8]) -> R {
    let (o, used) = skip_slice(b, wt);
    c.outcome(hash_bytes(used as u64, format!("{o:?}").as_bytes()));
    let mut r = TestReader::random(b, &mut c.rng);
    let s = skip_read(&mut r, wt);
    c.outcome(hash_bytes(2, format!("{s:?}").as_bytes()));
    let mut k = CountingInput::new(b);
    let _ = k.skip_field(wt);
    ensure!(k.calls <= 2 * b.len() as u64 + 16, "skipping type {wt}: {} read operations on the {} bytes {}", k.calls, b.len(), hex(b));
    c.count(if o.is_ok() { "skipped" } else { "skip refused" }, 1);
    c.eval(hash_bytes(wt as u64, b));
    Ok(())
}

/// `depth` containers of one kind (or a random mix) in each other, as content of wire type
pub fn deep(kind: u64, depth: usize, rng: &mut Rng) -> (u8, Vec<u8>) {
    let mut b = Vec::with_capacity(depth * 3 + 8);
    let pick = |k: u64, rng: &mut Rng| -> u8 {
        match k {
            0 => 9,
            1 => 10,
            2 => 11,
            3 => 12,
            4 => 11, // nested in keys
            _ => *rng.pick(&[9u8, 10, 11, 12]),
        }
    };
    let first = pick(kind, rng);
    let mut cur = first;
    let mut closers: Vec<u8> = vec![];
    for i in 0..depth {
        let next = if i + 1 == depth { 3 } else { pick(kind, rng) };
        match cur {
            9 | 10 => b.push(0x10 | next),
            11 => {
                b.push(1);
                if kind == 4 {
                    b.push(next << 4 | 3);
                    closers.push(7);
                } else {
                    b.push(0x30 | next);
                    b.push(7);
                }
            }
            _ => {
                b.push(0x10 | next);
                closers.push(0);
            }
        }
        cur = next;
    }
    b.push(5);
    closers.reverse();
    b.extend(closers);
    (first, b)
}

fn deep_case(c: &mut Ctx) -> R {
    const DEPTHS: &[usize] = &[1, 2, 40, 63, 64, 65, 66, 67, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 10_000, 50_000, 100_000, 400_000, 1_000_000];
    let kind = c.idx % 8;
    let mut depth = DEPTHS[(c.idx / 8) as usize % DEPTHS.len()];
    if c.idx / 8 >= DEPTHS.len() as u64 {
        depth = 1 + c.rng.idx(depth * 2);
    }
    let (wt, body) = deep(kind, depth, &mut c.rng);
    let mut inputs: Vec<Vec<u8>> = vec![body.clone()];
    let cut = c.rng.idx(body.len() + 1);
    inputs.push(body[..cut].to_vec());
    for b in &inputs {
        skip_case(c, wt, b)?;
    }
    // as an unknown field of several structures, also inside a list
    for name in ["Small", "Empty", "AllOpt", "Gaps", "Vec<Small>", "Outer", "V"] {
        let tg = target(name);
        let mut b = vec![];
        if name.starts_with("Vec") {
            b.push(0x1c);
        }
        let mut last = 0;
        Ser::canon().header(&mut b, &mut last, 77, wt);
        b.extend(&body);
        b.extend([0x05, 2, 2, 0]); // field 1: i32
        let (o, _) = (tg.dec_slice)(&b);
        c.outcome(hash_bytes(3, format!("{:?}", o.as_ref().err()).as_bytes()));
        let (s, _) = via_read(tg, &b);
        c.outcome(hash_bytes(3, format!("{:?}", s.as_ref().err()).as_bytes()));
        c.eval(vh(tg, &b[..b.len().min(200)]) ^ depth as u64);
    }
    c.peak("nesting depth", depth as u64);
    c.sample(|| format!("{depth} nested containers of kind {kind}, skipped and as unknown field"));
    Ok(())
}

/// an input that delivers `left` continuation bytes and then ends
struct Endless {
    left: u64,
}
impl CompactThriftInput<'static> for Endless {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        if self.left == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        self.left -= 1;
        Ok(0x80)
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        Ok(0.0)
    }
    fn read_binary(&mut self) -> Result<Cow<'static, [u8]>, ThriftError> {
        Ok(Cow::Borrowed(&[]))
    }
}

/// streams that fail, would block or time out, and stay so: the error is returned, they are not asked again and again
fn failing_case(c: &mut Ctx) -> R {
    let (tg, v) = if c.rng.p(20) {
        long_case(&mut c.rng, 3000)
    } else {
        let tg = pick(&mut c.rng);
        (tg, small_val(&mut c.rng, &tg.ty))
    };
    let b = canon(&tg.ty, &v);
    let at = c.rng.idx(b.len().max(1));
    let kind = KINDS[c.idx as usize % KINDS.len()];
    let what = |w: &str| format!("{}: {w} {} failing with {kind:?} after {at} bytes", tg.name, hex(&b));
    let new = |rng: &mut Rng| {
        let mut r = TestReader::random(&b, rng);
        r.fail = Some((at, kind));
        r
    };
    let mut r = new(&mut c.rng);
    let o = (tg.dec_read)(&mut r);
    ensure!(r.after_fail <= 1000, "{} is asked {} times more", what("a stream"), r.after_fail);
    ensure!(o.is_err(), "{} gives {o:?}", what("a stream"));
    let mut r = new(&mut c.rng);
    let o = skip_read(&mut r, tg.ty.wt());
    ensure!(r.after_fail <= 1000, "{} is asked {} times more while skipping", what("a stream"), r.after_fail);
    c.outcome(hash_bytes(r.after_fail, format!("{o:?}").as_bytes()));
    let mut w = TestWriter::new();
    w.chunk = gen_chunk(&mut c.rng);
    w.fail = Some((at, kind));
    let o = (tg.enc)(&v, &mut w);
    ensure!(w.errors <= 1000, "{} is asked {} times more", what("an output"), w.errors);
    ensure!(o.is_err() || b.is_empty(), "{}: written without an error", what("an output"));
    c.eval(mix(vh(tg, &b), at as u64) ^ c.idx % KINDS.len() as u64);
    Ok(())
}

pub fn c01(t: bool) -> Vec<Stage> {
    let _ = t;
    vec![
        stage("deep", 8 * q(t, 34, 200), deep_case),
        stage("many-declared", 17 * 16, |c| {
            // collections that announce ten million elements but hold none, one after the other
            let (k, v) = ((c.idx / 16) as u8, (c.idx % 16) as u8);
            let mut one = vec![];
            let (wt, len) = (if k < 16 { 11 } else { 9 }, 10_000_000);
            if k == 16 {
                one.push(0xf0 | v);
            }
            Ser::canon().varint(&mut one, len);
            if k < 16 {
                one.push(k << 4 | v);
            }
            let n = 1000;
            let mut list = vec![];
            Ser::canon().list_header(&mut list, n, wt);
            let mut fields = vec![];
            for _ in 0..n {
                list.extend(&one);
                fields.push(0x10 | wt);
                fields.extend(&one);
            }
            fields.push(0);
            #[cfg(not(miri))]
            let start = super::cost::cpu();
            for (wt, b) in [(9, &list), (12, &fields)] {
                let (r, _) = skip_slice(b, wt);
                ensure!(r.is_err(), "skipping {n} collections of ten million elements succeeds on the {} bytes {}", b.len(), hex(&b[..20]));
                let r = skip_read(&mut TestReader::new(b), wt);
                ensure!(r.is_err(), "skipping {n} collections of ten million elements in a stream succeeds on the {} bytes {}", b.len(), hex(&b[..20]));
                c.outcome(hash_bytes(wt as u64, format!("{r:?}").as_bytes()));
                c.eval(hash_bytes(wt as u64, b));
            }
            #[cfg(not(miri))]
            {
                let ms = (super::cost::cpu() - start) / 1_000_000;
                ensure!(ms < 5000, "skipping {} takes {ms} ms", hex(&fields[..20]));
            }
            Ok(())
        }),
        stage("short", 65536 + 256 + 1, |c| {
            let i = c.idx;
            let b: Vec<u8> = if i == 0 {
                vec![]
            } else if i <= 256 {
                vec![(i - 1) as u8]
            } else {
                ((i - 257) as u16).to_be_bytes().to_vec()
            };
            for tg in targets() {
                let r = (tg.run_slice)(&b);
                let k = match &r {
                    Ok(()) => 0,
                    Err(e) => 1 + hash_bytes(0, format!("{e:?}").as_bytes()),
                };
                c.outcome(k);
                if i % 16 == 3 {
                    let _ = via_read(tg, &b);
                }
                c.eval(vh(tg, &b));
            }
            for wt in 0..16u8 {
                skip_case(c, wt, &b)?;
            }
            Ok(())
        }),
        stage("bytes", q(t, 400_000, 10_000_000), |c| {
            let tg = pick(&mut c.rng);
            let b = hostile_bytes(&mut c.rng, tg);
            hostile_case(c, tg, &b)
        }),
        stage("failing", q(t, 20_000, 500_000), failing_case),
        stage("every-cut", q(t, 6_000, 100_000), |c| {
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            add_unknown(&mut c.rng, &tg.ty, &mut w, 60, 4);
            let b = Ser::alt(&mut c.rng).bytes(&w);
            for n in 0..b.len().min(300) {
                hostile_case(c, tg, &b[..n])?;
            }
            Ok(())
        }),
        stage("skip", q(t, 300_000, 6_000_000), |c| {
            let wt = c.rng.below(16) as u8;
            let mut b = match c.rng.below(4) {
                0 => {
                    let n = c.rng.idx(40);
                    c.rng.bytes(n)
                }
                1 => {
                    let n = c.rng.idx(60);
                    headerish(&mut c.rng, n)
                }
                _ => {
                    let mut out = vec![];
                    let k = if (1..=12).contains(&wt) { wt } else { 12 };
                    let mut budget = 30;
                    let d = c.rng.range(1, 6) as u32;
                    let w = gen_wire(&mut c.rng, k, false, d, &mut budget);
                    Ser::alt(&mut c.rng).ser(&mut out, &w);
                    if c.rng.p(200) {
                        mutate(&mut c.rng, &mut out);
                    }
                    out
                }
            };
            if c.rng.p(60) {
                // a long run of continuation bytes
                let at = c.rng.idx(b.len() + 1);
                let n = c.rng.idx(70);
                b.splice(at..at, std::iter::repeat(0x80 | c.rng.u64() as u8).take(n));
            }
            skip_case(c, wt, &b)
        }),
        stage("ids", q(t, 40_000, 400_000), |c| {
            // field ids at the ends of their range, reached by short and long headers
            let st = struct_targets();
            let tg = *c.rng.pick(&st);
            let mut b = vec![];
            if c.rng.p(200) {
                b.push(*c.rng.pick(&[1u8, 2, 3, 8]));
                let id = *c.rng.pick(&[32767i64, 32766, 32760, 32752, 32753, -32768, -32767, -1, -8]);
                Ser::canon().varint(&mut b, zz(id));
                if matches!(b[0], 3 | 8) {
                    b.push(0);
                }
            }
            for _ in 0..c.rng.below(5) {
                let d = c.rng.range(1, 15) as u8;
                let wt = *c.rng.pick(&[1u8, 2, 3, 8]);
                b.push(d << 4 | wt);
                if wt >= 3 {
                    b.push(0);
                }
            }
            if c.rng.p(200) {
                b.push(0);
            }
            hostile_case(c, tg, &b)
        }),
        stage("declared", q(t, 20_000, 300_000), |c| {
            // huge declared sizes in front of little data
            let tg = pick(&mut c.rng);
            let v = small_val(&mut c.rng, &tg.ty);
            let mut b = canon(&tg.ty, &v);
            let at = c.rng.idx(b.len() + 1);
            let mut big = vec![];
            if c.rng.p(128) {
                big.push(0xf0 | c.rng.below(16) as u8);
            }
            let n = *c.rng.pick(&[10_000_000u64, 9_999_999, 10_000_001, 16 << 20, (16 << 20) + 1, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 63, u64::MAX, 100_000]);
            Ser::canon().varint(&mut big, n);
            let end = (at + c.rng.idx(3)).min(b.len());
            b.splice(at..end, big);
            hostile_case(c, tg, &b)
        }),
        stage("endless", 3, |c| {
            // more continuation bytes than a 32-bit shift count can absorb
            let mut i = Endless { left: (1 << 32) / 7 + 64 };
            let r = match c.idx {
                0 => i.read_i64().map(|_| ()),
                1 => i.read_len().map(|_| ()),
                _ => i.skip_field(6),
            };
            let e = r.map_err(er);
            ensure!(e == Err(EOF), "{} continuation bytes: {e:?}", (1u64 << 32) / 7 + 64);
            c.outcome(c.idx);
            c.eval(c.idx);
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------------------------------------

thread_local! {
    static GUARD: std::cell::RefCell<Option<GuardBuf>> = const { std::cell::RefCell::new(None) };
}

/// run `f` on `b` placed where an access beyond either end is noticed
fn fenced(b: &[u8], at_start: bool, native: bool, f: &mut dyn FnMut(&[u8]) -> R) -> R {
    if native && b.len() <= 1 << 18 {
        GUARD.with(|g| {
            let mut g = g.borrow_mut();
            let g = g.get_or_insert_with(|| GuardBuf::new(1 << 18));
            let s: &[u8] = if at_start { g.at_start(b) } else { g.at_end(b) };
            f(s)
        })
    } else {
        // an allocation of exactly this size
        let e: Box<[u8]> = b.into();
        f(&e)
    }
}

fn utf8(v: &Val) -> bool {
    match v {
        Val::Str(s) => std::str::from_utf8(s.as_bytes()).is_ok(),
        Val::List(l) => l.iter().all(utf8),
        Val::Struct(f) => f.iter().all(|x| utf8(&x.1)),
        Val::Union(_, x) => utf8(x),
        _ => true,
    }
}

/// looks at the buffer it is given before writing, and may claim more than it wrote
struct Peeker<'a> {
    data: &'a [u8],
    lie: bool,
    sum: u64,
}
impl Read for Peeker<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.sum = hash_bytes(self.sum, buf);
        let n = buf.len().min(self.data.len());
        if n == 0 {
            return Ok(0);
        }
        if self.lie && n > 1 {
            // claims all, writes one
            buf[0] = self.data[0];
        } else {
            buf[..n].copy_from_slice(&self.data[..n]);
        }
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn peek_case(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let v = any_val(&mut c.rng, &tg.ty);
    let b = canon(&tg.ty, &v);
    let lie = c.rng.p(128);
    let go = |fill: u8| {
        crate::alloc::filled(fill, || {
            let mut p = Peeker { data: &b, lie, sum: 0 };
            let o = (tg.dec_read)(&mut p);
            (o, p.sum)
        })
    };
    let (o1, s1) = go(0x41);
    let (o2, s2) = go(0x42);
    ensure!(s1 == s2, "{}: a reader of {} is shown uninitialised memory", tg.name, hex(&b));
    ensure!(o1 == o2, "{}: content of {} comes from uninitialised memory: {o1:?} / {o2:?}", tg.name, hex(&b));
    if let Ok(v) = &o1 {
        ensure!(utf8(v), "{}: a string is not UTF-8: {}", tg.name, show(v));
    }
    c.eval(vh(tg, &b) ^ lie as u64);
    c.sample(|| format!("{} read through a {} reader", tg.name, if lie { "lying" } else { "peeking" }));
    Ok(())
}

/// integers of every length at every distance to the end of the buffer
fn ends_case(c: &mut Ctx, native: bool) -> R {
    let (cont, rest) = ((c.idx % 41) as usize, (c.idx / 41 % 41) as usize);
    let wt = [4u8, 5, 6][(c.idx / 1681 % 3) as usize];
    for form in 0..3 {
        let mut b = vec![];
        b.extend((0..cont).map(|i| if form == 0 { 0x80 } else { 0x80 | (i * 37) as u8 }));
        let terminated = rest > 0;
        if terminated {
            b.push(0x11);
            b.extend((1..rest).map(|i| if form == 1 { 0xff } else { (i * 91) as u8 }));
        }
        let want = if terminated { Ok(cont + 1) } else { Err(EOF) };
        fenced(&b, form == 2, native, &mut |b| {
            let (o, used) = skip_slice(b, wt);
            let got = o.map(|_| used);
            ensure!(got == want, "skipping an integer of type {wt} in {}: {got:?} instead of {want:?}", hex(b));
            // same inside a list and a struct
            Ok(())
        })?;
        let mut l = vec![0x10 | wt];
        l.extend(&b);
        fenced(&l, false, native, &mut |b| {
            let (o, used) = skip_slice(b, 9);
            let got = o.map(|_| used);
            let want = want.clone().map(|n| n + 1);
            ensure!(got == want, "skipping a list of one integer in {}: {got:?} instead of {want:?}", hex(b));
            Ok(())
        })?;
        c.eval(hash_bytes(wt as u64, &b));
    }
    c.sample(|| format!("integer of {cont} continuation bytes, {rest} bytes from its last byte to the end"));
    Ok(())
}

fn decode_case(c: &mut Ctx, native: bool) -> R {
    let tg = pick(&mut c.rng);
    let b = if c.rng.p(180) {
        hostile_bytes(&mut c.rng, tg)
    } else {
        let v = any_val(&mut c.rng, &tg.ty);
        let mut w = to_wire(&tg.ty, &v);
        add_unknown(&mut c.rng, &tg.ty, &mut w, 50, 4);
        let mut b = Ser::alt(&mut c.rng).bytes(&w);
        if c.rng.p(128) {
            let n = c.rng.idx(b.len() + 1);
            b.truncate(n);
        }
        b
    };
    let start = c.rng.p(40);
    let mut ok = false;
    fenced(&b, start, native, &mut |b| {
        let (o, used) = (tg.dec_slice)(b);
        ensure!(used <= b.len(), "consumed {used} of {}", b.len());
        if let Ok(v) = &o {
            ok = true;
            ensure!(utf8(v), "{}: a string decoded from {} is not UTF-8", tg.name, hex(b));
            if c.rng.p(60) {
                let _ = (tg.debug)(b);
                let mut w = TestWriter::new();
                let _ = (tg.enc)(v, &mut w);
            }
        }
        Ok(())
    })?;
    let mut r = TestReader::random(&b, &mut c.rng);
    if c.rng.p(60) && !b.is_empty() {
        r.fail = Some((c.rng.idx(b.len()), *c.rng.pick(KINDS)));
    }
    if let Ok(v) = (tg.dec_read)(&mut r) {
        ensure!(utf8(&v), "{}: a string decoded from the stream {} is not UTF-8", tg.name, hex(&b));
    }
    c.count(if ok { "accepted" } else { "rejected" }, 1);
    c.eval(vh(tg, &b));
    c.sample(|| format!("{} {}", tg.name, hex(&b)));
    Ok(())
}

/// a message of every type, cut at every byte near its end and anywhere, at the end of readable memory
fn cuts_case(c: &mut Ctx, native: bool) -> R {
    let ts = targets();
    let tg = &ts[(c.idx % ts.len() as u64) as usize];
    let v = small_val(&mut c.rng, &tg.ty);
    let b = canon(&tg.ty, &v);
    let from = if c.rng.p(128) { b.len().saturating_sub(12) } else { c.rng.idx(b.len() + 1) };
    for n in (from..b.len()).take(if native { 64 } else { 9 }) {
        fenced(&b[..n], false, native, &mut |b| {
            let (o, used) = (tg.dec_slice)(b);
            ensure!(used <= b.len(), "consumed {used} of {}", b.len());
            ensure!(o.is_err(), "{}: {} is accepted without its end", tg.name, hex(b));
            let _ = skip_slice(b, tg.ty.wt());
            Ok(())
        })?;
    }
    c.count("cuts", b.len().saturating_sub(from) as u64);
    c.eval(vh(tg, &b) ^ from as u64);
    Ok(())
}

/// borrowed views, kept while the container is moved, refilled and dropped
fn borrow_case(c: &mut Ctx) -> R {
    let n = c.rng.idx(6);
    let items: Vec<Val> = (0..n).map(|_| Val::Str(gen_string(&mut c.rng, 5))).collect();
    let mut b = canon(&list(Ty::Str), &Val::List(items.clone()));
    if c.rng.p(100) {
        mutate(&mut c.rng, &mut b);
    }
    let b: Box<[u8]> = b.into();
    let mut kept: Vec<Cow<[u8]>> = vec![];
    let mut strs: Vec<Cow<str>> = vec![];
    let mut opt: Option<Vec<Option<Cow<str>>>> = None;
    for _ in 0..2 {
        let mut v: Vec<Cow<[u8]>> = vec![];
        let r = v.fill_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok();
        let _ = strs.fill_thrift(&mut CompactThriftInputSlice::new(&b));
        let _ = opt.fill_thrift(&mut CompactThriftInputSlice::new(&b));
        kept.extend(v.iter().cloned());
        drop(v);
        if r {
            c.count("borrowing values", 1);
        }
    }
    let total: usize = kept.iter().map(|x| x.iter().map(|b| *b as usize).sum::<usize>()).sum();
    for s in strs.iter().chain(opt.iter().flatten().flatten()) {
        ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "borrowed string of {} is not UTF-8", hex(&b));
    }
    let mut out = vec![];
    kept.write_thrift(&mut out).map_err(|e| format!("{e:?}"))?;
    c.eval(hash_bytes(total as u64, &b));
    Ok(())
}

fn refill_case(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let old = small_val(&mut c.rng, &tg.ty);
    let a = hostile_bytes(&mut c.rng, tg);
    let new = small_val(&mut c.rng, &tg.ty);
    let b = canon(&tg.ty, &new);
    let (_, v, _) = (tg.refill)(&old, &a);
    ensure!(utf8(&v), "{}: refill leaves a string that is not UTF-8", tg.name);
    let (_, v) = (tg.refill2)(&old, &a, &b);
    ensure!(utf8(&v), "{}: refill leaves a string that is not UTF-8", tg.name);
    for wt in [1u8, 2, tg.ty.wt(), c.rng.below(16) as u8] {
        let _ = (tg.dec_field)(&b, wt);
    }
    c.eval(vh(tg, &a) ^ vh(tg, &b));
    Ok(())
}

fn errors_case(c: &mut Ctx) -> R {
    let st = struct_targets();
    let tg = *c.rng.pick(&st);
    let e = {
        let b: Box<[u8]> = if c.rng.p(200) { Box::new([0]) } else { hostile_bytes(&mut c.rng, tg).into() };
        (tg.run_slice)(&b).err()
    };
    if let Some(e) = e {
        let t = format!("{e:?}");
        let d = e.clone();
        let u = std::thread::spawn(move || format!("{d}")).join().map_err(|_| "formatting an error panics")?;
        ensure!(t == u, "error prints as {t} and {u}");
        if let ThriftError::MissingField(f) = &e {
            let n = format!("{f}");
            ensure!(n.len() < 1000 && n.chars().all(|c| !c.is_control()), "field name prints as {n:?}");
            c.count("names printed", 1);
        }
        c.eval(hash_bytes(5, t.as_bytes()));
    } else {
        c.eval_trivial();
    }
    Ok(())
}

/// names given by the user for an error, in allocations of exactly their size
fn names_case(c: &mut Ctx) -> R {
    let n = if c.rng.p(24) { 100 + c.rng.idx(900) } else { c.rng.idx(20) };
    let mut s: String = (0..n).map(|_| *c.rng.pick(&['a', 'Z', ':', '_', 'é', '0'])).collect();
    match c.rng.below(4) {
        0 => {}
        1 => s.insert(0, '\0'),
        2 => s.push_str("\0b"),
        _ => s.push('\0'),
    }
    // the memory is never reused, as for a static string, but is given back to the sanitizer's eyes
    let owned: Box<str> = s.clone().into();
    let p: *mut str = Box::into_raw(owned);
    // Safety: freed below after its last use
    let st: &'static str = unsafe { &*p };
    let made = crate::run::guarded(|| compact_thrift_runtime::FieldName::from(st));
    let r = match made {
        Ok(f) => {
            ensure!(s.contains('\0'), "a name without terminator is accepted: {s:?}");
            let want = &s[..s.find('\0').unwrap()];
            let e = ThriftError::MissingField(f.clone());
            let (a, b, d) = (f.to_string(), e.clone().to_string(), format!("{f:?}"));
            ensure!(a == want, "name {s:?} prints as {a:?}");
            ensure!(b.contains("MissingField") && d.starts_with('"') && (!want.is_ascii() || d.contains(want)), "name {s:?} prints as {d} in {b}");
            // the same name given as a C string
            let cs = std::ffi::CStr::from_bytes_with_nul(st[..want.len() + 1].as_bytes()).unwrap();
            let g = compact_thrift_runtime::FieldName::from(cs);
            ensure!(g.to_string() == want && format!("{g:?}") == d, "name {s:?} as a C string prints as {g} {g:?}");
            c.count("names accepted", 1);
            Ok(())
        }
        Err(_) => {
            ensure!(!s.ends_with('\0') || s[..s.len() - 1].contains('\0'), "name {s:?} is refused");
            c.count("names refused", 1);
            Ok(())
        }
    };
    c.eval(hash_bytes(23, s.as_bytes()));
    // Safety: from Box::into_raw above; no name made of it lives on
    drop(unsafe { Box::from_raw(p) });
    r
}

/// a writer that keeps what it gets and fails somewhere
fn write_case(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let v = any_val(&mut c.rng, &tg.ty);
    let mut w = TestWriter::new();
    w.chunk = gen_chunk(&mut c.rng);
    if c.rng.p(128) {
        w.fail = Some((c.rng.idx(60), *c.rng.pick(KINDS)));
    }
    let _ = (tg.enc)(&v, &mut w);
    let mut n: &mut [u8] = &mut [0u8; 13];
    let _ = n.write_len(c.rng.u64() as usize);
    c.eval(vh(tg, &w.got));
    Ok(())
}

/// a source or sink that breaks every promise: claims more than there is room for, panics, shrinks
struct Rude<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    how: u64,
    got: Vec<u8>,
}
impl Rude<'_> {
    fn claim(&mut self, n: usize, room: usize) -> std::io::Result<usize> {
        if self.pos < self.at {
            return Ok(n);
        }
        match self.how {
            0 => Ok(room + 1),
            1 => Ok(usize::MAX),
            2 => Ok(room + 4096),
            3 => Ok(1 << 63),
            4 => panic!("ORACLE reader panics"),
            _ => {
                self.how = 4;
                Ok(room + 8)
            }
        }
    }
}
impl Read for Rude<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.claim(n, buf.len())
    }
}
impl std::io::Write for Rude<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.got.extend_from_slice(buf);
        self.pos = self.got.len();
        self.claim(buf.len(), buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for Rude<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let r = std::io::Cursor::new(self.data);
        let mut r = r;
        r.set_position(self.pos as u64);
        let n = r.seek(p)?;
        self.pos = (n as usize).min(self.data.len());
        Ok(match self.how {
            // not more than a little: what is said to be there may be asked for at once
            0 => n,
            1 => n / 2,
            2 => 0,
            _ => n + 1000,
        })
    }
}

/// whatever a reader or writer claims, and if it panics: memory stays intact
fn rude_case(c: &mut Ctx) -> R {
    let tg = pick(&mut c.rng);
    let v = any_val(&mut c.rng, &tg.ty);
    let b = canon(&tg.ty, &v);
    let at = c.rng.idx(b.len() + 1);
    let how = c.rng.below(6);
    let rude = |how| Rude { data: &b, pos: 0, at, how, got: vec![] };
    let r = crate::run::guarded(|| (tg.dec_read)(&mut rude(how)));
    if let Ok(Ok(v)) = &r {
        ensure!(utf8(v), "{}: a string read from a rude reader is not UTF-8: {}", tg.name, show(v));
    }
    c.count(if r.is_ok() { "returned" } else { "unwound" }, 1);
    // in what is skipped, too
    let _ = crate::run::guarded(|| skip_read(&mut rude(how), tg.ty.wt()));
    let r = crate::run::guarded(|| (tg.enc)(&v, &mut rude(how)));
    c.count(if r.is_ok() { "returned" } else { "unwound" }, 1);
    #[cfg(feature = "pq")]
    {
        let f = super::parquet::gen_file(&mut c.rng, true);
        let mut s = Rude { data: &f.bytes, pos: 0, at: c.rng.idx(f.bytes.len() + 1), how, got: vec![] };
        let r = crate::run::guarded(|| compact_thrift_parquet::get_metadata_chunk(&mut s).map(|b| b.iter().map(|x| *x as usize).sum::<usize>()).is_ok());
        c.count(if r.is_ok() { "returned" } else { "unwound" }, 1);
        let r = crate::run::guarded(|| compact_thrift_parquet::get_page_index_chunk(&mut s, &f.meta).map(|b| b.map(|b| b.0.iter().map(|x| *x as usize).sum::<usize>())).is_ok());
        c.count(if r.is_ok() { "returned" } else { "unwound" }, 1);
    }
    c.eval(vh(tg, &b) ^ how ^ (at as u64) << 40);
    c.sample(|| format!("{} through a reader misbehaving after {at} bytes in way {how}", tg.name));
    Ok(())
}

/// long contents, whole or damaged or cut wherever a block could end
fn long_bytes_case(c: &mut Ctx, native: bool, cap: usize) -> R {
    let (tg, v) = long_case(&mut c.rng, cap);
    let mut b = canon(&tg.ty, &v);
    if b.is_empty() {
        return Ok(());
    }
    let i = edge_offsets(&mut c.rng, b.len(), 1)[0];
    match c.rng.below(4) {
        0 => {}
        1 => b.truncate(i),
        2 => b[i] = c.rng.u64() as u8,
        _ => b[i] ^= 1 << c.rng.below(8),
    }
    let start = c.rng.p(40);
    fenced(&b, start, native, &mut |b| {
        let (o, used) = (tg.dec_slice)(b);
        ensure!(used <= b.len(), "consumed {used} of {}", b.len());
        ensure!(o.as_ref().map_or(true, utf8), "{}: a string decoded from {} is not UTF-8", tg.name, hex(b));
        Ok(())
    })?;
    if let Ok(v) = (tg.dec_read)(&mut TestReader::random(&b, &mut c.rng)) {
        ensure!(utf8(&v), "{}: a string decoded from the stream {} is not UTF-8", tg.name, hex(&b));
    }
    let (wt, w) = long_wire(&mut c.rng, cap);
    let mut s = Ser::canon().bytes(&w);
    if c.rng.p(128) && !s.is_empty() {
        let i = edge_offsets(&mut c.rng, s.len(), 1)[0];
        s.truncate(i);
    }
    fenced(&s, start, native, &mut |b| {
        let _ = skip_slice(b, wt);
        Ok(())
    })?;
    let _ = skip_read(&mut TestReader::random(&s, &mut c.rng), wt);
    c.eval(vh(tg, &b));
    c.peak("bytes", b.len().max(s.len()) as u64);
    Ok(())
}

#[cfg(feature = "pq")]
fn parquet_case(c: &mut Ctx) -> R {
    use super::parquet::*;
    use compact_thrift_parquet::*;
    let f = gen_file(&mut c.rng, true);
    let go = |fill: u8| {
        crate::alloc::filled(fill, || {
            struct S<'a>(std::io::Cursor<&'a [u8]>, u64, bool);
            impl Read for S<'_> {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    self.1 = hash_bytes(self.1, b);
                    if self.2 && b.len() > 8 {
                        let n = b.len() - 1;
                        let p = self.0.position();
                        let left = (self.0.get_ref().len() as u64).saturating_sub(p) as usize;
                        let n = n.min(left);
                        self.0.set_position(p + n as u64);
                        return Ok(n);
                    }
                    self.0.read(b)
                }
            }
            impl std::io::Seek for S<'_> {
                fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
                    self.0.seek(p)
                }
            }
            let mut sums = vec![];
            for lie in [false, true] {
                let mut s = S(std::io::Cursor::new(&f.bytes), 0, lie);
                let a = get_metadata_chunk(&mut s).map_err(|e| format!("{e:?}"));
                let m = crate::run::guarded(|| get_page_index_chunk(&mut s, &f.meta).map_err(|e| format!("{e:?}")));
                sums.push(hash_bytes(s.1, format!("{a:?}{m:?}").as_bytes()));
            }
            sums
        })
    };
    let (a, b) = (go(0x41), go(0x42));
    ensure!(a == b, "parquet reader functions expose uninitialised memory");
    // indexes of hostile metadata over exactly sized chunks
    let n = c.rng.idx(200);
    let chunk: Box<[u8]> = c.rng.bytes(n).into();
    let off = c.rng.idx(100);
    let _ = crate::run::guarded(|| read_page_index(&chunk, off, &f.meta).is_ok());
    c.eval(hash_bytes(9, &f.bytes));
    Ok(())
}

pub fn c02(t: bool, variant: &str) -> Vec<Stage> {
    let native = variant == "dbg" || variant == "rel";
    let miri = variant == "miri";
    let n = move |quick: u64, deep: u64, m: u64| if miri { raw(t, m, m * 12) } else { q(t, quick, deep) };
    let mut v = vec![
        stage("ends", 1681 * 3, move |c| ends_case(c, native)),
        stage("peek", n(20_000, 400_000, 60), peek_case),
        stage("decode", n(150_000, 4_000_000, 250), move |c| decode_case(c, native)),
        stage("cuts", n(20_000, 300_000, 300), move |c| cuts_case(c, native)),
        stage("borrow", n(20_000, 200_000, 60), borrow_case),
        stage("refill", n(40_000, 800_000, 80), refill_case),
        stage("errors", n(1_000, 10_000, 16), errors_case),
        stage("write", n(20_000, 300_000, 60), write_case),
        stage("names", n(1_000, 10_000, 40), names_case),
        stage("rude", if variant == "asan" { n(5_000, 80_000, 0) } else { n(20_000, 300_000, 60) }, rude_case),
        stage("long", n(500, 8_000, 4), move |c| long_bytes_case(c, native, if miri { 600 } else { 70_000 })),
    ];
    #[cfg(feature = "pq")]
    v.push(stage("parquet", n(10_000, 200_000, 40), parquet_case));
    if miri {
        // the full product is for native runs
        v[0] = stage("ends", q(t, 160, 1681), move |c| {
            let full = c.idx;
            c.idx = if c.thorough { full } else { c.rng.below(1681 * 3) };
            // distances 15..18 decide which implementation is used
            if !c.thorough && full % 2 == 0 {
                c.idx = (10 + c.rng.below(9)) + 41 * c.rng.below(9) + 1681 * c.rng.below(3);
            }
            ends_case(c, false)
        });
    }
    v
}

// ---------------------------------------------------------------------------------------------

mod probes {
    compact_thrift_runtime::thrift! {
        struct Node { 1: optional Box<Node> next; 2: optional i32 v; }
        struct WithSet { 1: required set<i32> s; }
    }
}

/// `node DEPTH`: decodes a chain of a self-referential type; `set`: wire type of a set field
pub fn child(args: &[String]) {
    match args.first().map(|s| s.as_str()) {
        Some("node") => {
            let depth: usize = args[1].parse().unwrap();
            let mut b = vec![0x1cu8; depth];
            b.resize(2 * depth + 1, 0);
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let r = probes::Node::read_thrift(&mut CompactThriftInputSlice::new(&b));
                    let s = match &r {
                        Ok(_) => "value".to_string(),
                        Err(e) => format!("{e:?}"),
                    };
                    // dropping a long chain recurses, too
                    if let Ok(mut n) = r {
                        while let Some(x) = n.next.take() {
                            n = *x;
                        }
                    }
                    s
                })
                .unwrap();
            println!("node: {}", h.join().unwrap_or("panic".into()));
        }
        Some("set") => {
            let x = probes::WithSet { s: [1].into_iter().collect() };
            let mut b = vec![];
            x.write_thrift(&mut b).unwrap();
            println!("written: {}", hex(&b));
            for t in [9u8, 10] {
                let r = probes::WithSet::read_thrift(&mut CompactThriftInputSlice::new(&[0x10 | t, 0x15, 2, 0]));
                println!("read{t}: {}", if r.is_ok_and(|v| v == x) { "ok".to_string() } else { "refused".into() });
            }
        }
        Some("fresh") => super::state::fresh_child(&args[1..]),
        _ => std::process::exit(2),
    }
}
