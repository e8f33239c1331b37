//! C03 canonical encoding, C04 round trip, C05 every valid encoding.
use super::*;
use crate::er::Er;
use crate::gen::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftProtocol};

fn lasts(id: i16, rng: &mut Rng) -> Vec<i16> {
    let mut v = vec![0, -1, 1, 15, 16, i16::MIN, i16::MAX, i16::MAX - 15, i16::MAX - 14, i16::MIN + 15, id ^ i16::MIN];
    for d in -17..=17i16 {
        v.push(id.wrapping_sub(d));
    }
    for d in [31, 32, 127, 128, 255, 256, 257, 271, 4096, 16384, 32767, -256, -272, -4096] {
        v.push(id.wrapping_sub(d));
    }
    for _ in 0..6 {
        v.push(rng.u64() as i16);
    }
    v
}

fn field_cases() -> Vec<(&'static str, Val)> {
    vec![
        ("i8", Val::I8(-77)),
        ("bool", Val::Bool(true)),
        ("bool", Val::Bool(false)),
        ("Option<bool>", Val::Bool(true)),
        ("Option<Box<bool>>", Val::Bool(false)),
        ("Arc<bool>", Val::Bool(true)),
        ("Box<Option<Rc<bool>>>", Val::Bool(false)),
        ("i16", Val::I16(-2)),
        ("Color", Val::I32(-3)),
        ("i64", Val::I64(i64::MIN)),
        ("f64", Val::F64(1)),
        ("String", Val::Str("é".into())),
        ("Arc<str>", Val::Str("".into())),
        ("Vec<u8>", Val::Bin(vec![0, 255])),
        ("Option<Arc<Vec<i16>>>", Val::List(vec![Val::I16(300)])),
        ("Empty", Val::Struct(vec![])),
        ("Option<Small>", Val::Struct(vec![(1, Val::I32(5))])),
        ("V", Val::Union(2, Box::new(Val::Bool(true)))),
    ]
}

/// a value of any type in a field behind another one
fn any_field(rng: &mut Rng) -> (&'static Target, Val, i16, i16) {
    let tg = pick(rng);
    let v = match rng.below(3) {
        0 => super::decl::default_of(&tg.ty),
        _ => small_val(rng, &tg.ty),
    };
    let last = if rng.p(128) { rng.range(0, 40) as i16 } else { rng.u64() as i16 };
    let id = if rng.p(20) { rng.u64() as i16 } else { last.wrapping_add(rng.range(0, 20) as i16 - 1) };
    (tg, v, id, last)
}

pub fn c03(t: bool) -> Vec<Stage> {
    let cases = field_cases();
    vec![
        stage("headers", 65536, move |c| {
            let id = c.idx as u16 as i16;
            let ls = lasts(id, &mut c.rng);
            for (k, last) in ls.into_iter().enumerate() {
                // all kinds for close ids, rotating kinds otherwise
                let n = cases.len();
                for j in 0..if k < 6 { n } else { 3 } {
                    let (name, v) = &cases[(j * 5 + k) % n];
                    let tg = target(name);
                    let mut l = last;
                    let mut got = vec![];
                    (tg.enc_field)(v, id, &mut l, &mut got).map_err(|e| format!("writing {name} field {id} after {last} fails: {e:?}"))?;
                    let wf = field_to_wire(id, &tg.ty, v);
                    let mut want = vec![];
                    let mut l2 = last;
                    let mut s = Ser::canon();
                    s.header(&mut want, &mut l2, id, wf.wt);
                    s.ser(&mut want, &wf.w);
                    ensure!(got == want, "{name} field {id} after {last}: wrote {} instead of {}", hex(&got), hex(&want));
                    ensure!(l == id, "{name} field {id} after {last}: last id left at {l}");
                    c.eval(vh(tg, &got) ^ (last as u16 as u64) << 40);
                }
            }
            c.sample(|| format!("field id {id} after each of 66 previous ids, 18 field kinds"));
            // absent optional: nothing written, last id untouched
            let mut l = 7;
            let mut got: Vec<u8> = vec![];
            None::<bool>.write_thrift_field(&mut got, id, &mut l).map_err(|e| format!("{e:?}"))?;
            None::<Box<String>>.write_thrift_field(&mut got, id, &mut l).map_err(|e| format!("{e:?}"))?;
            Box::new(None::<i32>).write_thrift_field(&mut got, id, &mut l).map_err(|e| format!("{e:?}"))?;
            ensure!(got.is_empty() && l == 7, "absent optional field {id} wrote {} (last id {l})", hex(&got));
            Ok(())
        }),
        stage("fields", q(t, 100_000, 2_000_000), |c| {
            let (tg, v, id, last) = any_field(&mut c.rng);
            let mut l = last;
            let mut got = vec![];
            (tg.enc_field)(&v, id, &mut l, &mut got).map_err(|e| format!("writing {} field {id} after {last} fails: {e:?}", tg.name))?;
            let wf = field_to_wire(id, &tg.ty, &v);
            let mut want = vec![];
            let mut l2 = last;
            let mut s = Ser::canon();
            s.header(&mut want, &mut l2, id, wf.wt);
            s.ser(&mut want, &wf.w);
            ensure!(got == want, "{} {} in field {id} after {last}: wrote {} instead of {}", tg.name, show(&v), hex(&got), hex(&want));
            ensure!(l == id, "{} field {id} after {last}: last id left at {l}", tg.name);
            c.eval(vh(tg, &got) ^ (last as u16 as u64) << 40);
            Ok(())
        }),
        stage("scalars", 65536 + 256 + 64 * 40, |c| {
            let i = c.idx;
            let (name, v): (&str, Val) = if i < 65536 {
                ("i16", Val::I16(i as u16 as i16))
            } else if i < 65536 + 256 {
                ("i8", Val::I8((i - 65536) as u8 as i8))
            } else {
                let k = i - 65536 - 256;
                let (bit, d) = (k / 40, k % 40);
                let mut x = (1u64 << bit) as i64;
                x = x.wrapping_add((d % 10) as i64 - 5);
                if d % 20 >= 10 {
                    x = x.wrapping_neg();
                }
                if d < 20 { ("i64", Val::I64(x)) } else { ("i32", Val::I32(x as i32)) }
            };
            one(c, target(name), &v)
        }),
        stage("lengths", 330 * 14, |c| {
            let k = c.idx / 14;
            let n = if k <= 300 {
                k as usize
            } else {
                *[16383usize, 16384, 16385, 65535, 65536, 127, 128, 129, 255, 256, 32767, 32768, 1000, 4096, 8191, 8192, 2097151, 2097152]
                    .get(k as usize - 301)
                    .unwrap_or(&(14 + k as usize % 3))
            };
            let kind = c.idx % 14;
            let cap = |m: usize| n.min(m);
            let rng = &mut c.rng;
            let (name, v) = match kind {
                0 => ("Vec<bool>", Val::List((0..n).map(|_| Val::Bool(rng.p(128))).collect())),
                1 => ("Vec<i64>", Val::List((0..cap(70000)).map(|_| Val::I64(rng.int(64))).collect())),
                2 => ("Vec<f64>", Val::List((0..cap(70000)).map(|_| Val::F64(gen_f64(rng))).collect())),
                3 => ("Vec<String>", Val::List((0..cap(3000)).map(|_| Val::Str(gen_string(rng, 2))).collect())),
                4 => ("Vec<Vec<u8>>", Val::List((0..cap(3000)).map(|_| Val::Bin(rng.bytes(2))).collect())),
                5 => ("Vec<Vec<i32>>", Val::List((0..cap(3000)).map(|_| Val::List(vec![Val::I32(rng.int(32) as i32)])).collect())),
                6 => ("Vec<Small>", Val::List((0..cap(3000)).map(|_| Val::Struct(vec![(1, Val::I32(rng.int(32) as i32))])).collect())),
                7 => ("Vec<U>", Val::List((0..cap(3000)).map(|_| Val::Union(1, Box::new(Val::Bool(rng.p(128))))).collect())),
                8 => ("Vec<Box<bool>>", Val::List((0..cap(3000)).map(|_| Val::Bool(rng.p(128))).collect())),
                9 => ("Vec<Option<bool>>", Val::List((0..cap(3000)).map(|_| Val::Bool(rng.p(128))).collect())),
                10 => ("Vec<u8>", Val::Bin(rng.bytes(n))),
                11 => ("String", Val::Str(gen_string(rng, n))),
                12 => ("Arc<str>", Val::Str(gen_string(rng, n))),
                _ => ("Box<str>", Val::Str(gen_string(rng, n))),
            };
            one(c, target(name), &v)
        }),
        stage("long", raw(t, 3000, 40_000), |c| {
            let (tg, v) = long_case(&mut c.rng, 150_000);
            one(c, tg, &v)
        }),
        subsets_stage(t, one),
        stage("random", q(t, 150_000, 3_000_000), |c| {
            let tg = pick(&mut c.rng);
            let v = any_val(&mut c.rng, &tg.ty);
            one(c, tg, &v)
        }),
    ]
}

/// every subset of present optional fields of every struct (random subsets when there are many)
pub fn subsets_stage(t: bool, f: fn(&mut Ctx, &'static Target, &Val) -> R) -> Stage {
    const PER: u64 = 2048;
    let st = struct_targets();
    let n = st.len() as u64;
    let m = raw(t, 1, 4);
    stage("subsets", n * PER * m, move |c| {
        let tg = st[(c.idx % n) as usize];
        let bits = c.idx / n % PER;
        match &tg.ty {
            Ty::Struct(s) => {
                let opt = s.fields.iter().filter(|f| !f.required).count() as u32;
                if opt < 11 && bits >> opt != 0 {
                    return Ok(());
                }
                let p = *c.rng.pick(&[128u32, 128, 30, 230]);
                let mut k = 0;
                let mut out = vec![];
                for f in &s.fields {
                    let p = f.required || {
                        k += 1;
                        if opt > 11 { c.rng.p(p) } else { bits >> (k - 1) & 1 == 1 }
                    };
                    if p {
                        out.push((f.id, small_val(&mut c.rng, &f.ty)));
                    }
                }
                f(c, tg, &Val::Struct(out))
            }
            Ty::Union(s) => {
                if bits as usize >= 4 * s.fields.len() {
                    return Ok(());
                }
                let fl = &s.fields[bits as usize % s.fields.len()];
                let v = small_val(&mut c.rng, &fl.ty);
                f(c, tg, &Val::Union(fl.id, Box::new(v)))
            }
            _ => Ok(()),
        }
    })
}

pub fn one(c: &mut Ctx, tg: &'static Target, v: &Val) -> R {
    let want = canon(&tg.ty, v);
    let got = (tg.enc_vec)(v).map_err(|e| format!("{}: writing {} fails with {e:?}", tg.name, show(v)))?;
    ensure!(got == want, "{}: {} written as {} instead of {}", tg.name, show(v), hex(&got), hex(&want));
    let mut w = crate::io::TestWriter::new();
    (tg.enc)(v, &mut w).map_err(|e| format!("{}: writing {} to a stream fails with {e:?}", tg.name, show(v)))?;
    ensure!(w.got == want, "{}: {} written to a stream as {} instead of {}", tg.name, show(v), hex(&w.got), hex(&want));
    let m = (tg.enc_min)(v).map_err(|e| format!("{}: writing {} to an output of the user's fails with {e:?}", tg.name, show(v)))?;
    ensure!(m == want, "{}: {} written to an output of the user's as {} instead of {}", tg.name, show(v), hex(&m), hex(&want));
    c.eval(vh(tg, &want));
    c.count("bytes compared", want.len() as u64);
    c.sample(|| format!("{} = {}", tg.name, hex(&want)));
    Ok(())
}

pub fn round(c: &mut Ctx, tg: &'static Target, v: &Val) -> R {
    let mut b = (tg.enc_vec)(v).map_err(|e| format!("{}: writing {} fails with {e:?}", tg.name, show(v)))?;
    let n = b.len();
    c.eval(vh(tg, &b));
    // what follows the message must not matter and not be touched
    let extra = *c.rng.pick(&[0usize, 0, 1, 3, 20]);
    let tail = c.rng.bytes(extra);
    b.extend(tail);
    expect_value(tg, &b, n, v, &mut c.rng)?;
    c.count("bytes read back", n as u64);
    c.sample(|| format!("{} {}", tg.name, show(v)));
    Ok(())
}

fn field_back(c: &mut Ctx, tg: &'static Target, v: &Val, id: i16, last: i16) -> R {
    let name = tg.name;
    let mut l = last;
    let mut b = vec![];
    (tg.enc_field)(v, id, &mut l, &mut b).map_err(|e| format!("writing {name} field {id} after {last} fails: {e:?}"))?;
    let n = b.len();
    b.push(0xA5);
    let mut i = CompactThriftInputSlice::new(&b);
    let mut l = last;
    let wt = i.read_field_header(&mut l).map_err(|e| format!("{name} field {id} after {last} written as {}: header unreadable: {e:?}", hex(&b)))?;
    let (o, used) = (tg.dec_field)(i.as_slice(), wt);
    let used = used + b.len() - i.as_slice().len();
    ensure!(
        l == id && used == n && o.as_ref() == Ok(v),
        "{name} {} field {id} after {last} written as {}: reads back as field {l} = {o:?} ({used} bytes)",
        show(v),
        hex(&b)
    );
    c.eval(vh(tg, &b) ^ (last as u16 as u64) << 40);
    Ok(())
}

pub fn c04(t: bool) -> Vec<Stage> {
    let cases = field_cases();
    vec![
        stage("fields", 65536, move |c| {
            let id = c.idx as u16 as i16;
            for last in lasts(id, &mut c.rng) {
                let (name, v) = c.rng.pick(&cases);
                field_back(c, target(name), v, id, last)?;
            }
            Ok(())
        }),
        stage("behind", q(t, 100_000, 2_000_000), |c| {
            let (tg, v, id, last) = any_field(&mut c.rng);
            field_back(c, tg, &v, id, last)
        }),
        stage("scalars", 65536 + 256, |c| {
            let i = c.idx;
            if i < 65536 {
                round(c, target("i16"), &Val::I16(i as u16 as i16))
            } else {
                round(c, target("i8"), &Val::I8((i - 65536) as u8 as i8))
            }
        }),
        stage("sizes", raw(t, 3000, 40_000), |c| {
            let (tg, v) = long_case(&mut c.rng, 150_000);
            round(c, tg, &v)
        }),
        subsets_stage(t, round),
        stage("long", q(t, 400, 4000), |c| {
            let n = *c.rng.pick(&[14usize, 15, 16, 127, 128, 300, 16383, 16384, 65536, 200_000]);
            let rng = &mut c.rng;
            let (name, v) = match rng.below(6) {
                0 => ("Vec<bool>", Val::List((0..n).map(|_| Val::Bool(rng.p(128))).collect())),
                1 => ("Vec<i64>", Val::List((0..n).map(|_| Val::I64(rng.int(64))).collect())),
                2 => ("Vec<u8>", Val::Bin(rng.bytes(n * 10))),
                3 => ("Rc<str>", Val::Str(gen_string(rng, n))),
                4 => ("Vec<Vec<u8>>", Val::List((0..n.min(20000)).map(|_| Val::Bin(rng.bytes(3))).collect())),
                _ => ("Vec<Small>", Val::List((0..n.min(20000)).map(|_| Val::Struct(vec![(1, Val::I32(rng.int(32) as i32))])).collect())),
            };
            round(c, target(name), &v)
        }),
        stage("random", q(t, 150_000, 3_000_000), |c| {
            let tg = pick(&mut c.rng);
            let v = any_val(&mut c.rng, &tg.ty);
            let back = (tg.rebuild)(&v);
            assert!(back == v || tg.name.contains("EncodingSet") || tg.pq, "conversion of {} differs: {back:?} {v:?}", tg.name);
            round(c, tg, &v)
        }),
    ]
}

/// differential against the strict reference decoder; unspecified inputs are only counted
pub fn differential(c: &mut Ctx, tg: &'static Target, b: &[u8]) -> R {
    let want = ref_decode(&tg.ty, b);
    let (got, used) = (tg.dec_slice)(b);
    match (&want, &got) {
        (Err(Bad::Gray), _) => {
            c.eval_trivial();
            c.count("unspecified", 1);
            return Ok(());
        }
        (Ok((v, n)), Ok(g)) => {
            ensure!(v == g, "{}: {} decodes to {} instead of {}", tg.name, hex(b), show(g), show(v));
            ensure!(used == *n, "{}: decoding {} consumed {used} instead of {n}", tg.name, hex(b));
            c.count("valid", 1);
        }
        (Ok((v, _)), Err(e)) => return Err(format!("{}: {} is rejected with {e:?} but encodes {}", tg.name, hex(b), show(v))),
        (Err(bad), Ok(g)) => return Err(format!("{}: {} is accepted as {} but is invalid: {bad:?}", tg.name, hex(b), show(g))),
        (Err(_), Err(_)) => c.count("invalid", 1),
    }
    if b.is_empty() { c.eval_trivial() } else { c.eval(vh(tg, b)) }
    let (r, _) = via_chunks(tg, b, &mut c.rng);
    match (&want, &r) {
        (Ok((v, _)), Ok(g)) if v == g => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{}: stream decode of {} gives {r:?}, expected {want:?}", tg.name, hex(b))),
    }
}

/// bytes around the messages of a type: valid, alternative, mutated or free
pub fn hostile_bytes(rng: &mut Rng, tg: &Target) -> Vec<u8> {
    match rng.below(10) {
        0..=6 => {
            let v = small_val(rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            if rng.p(60) {
                let p = *rng.pick(&[30, 120]);
                let d = rng.range(1, 8) as u32;
                add_unknown(rng, &tg.ty, &mut w, p, d);
            }
            if rng.p(60) {
                shuffle_fields(rng, &tg.ty, &mut w);
            }
            let mut b = if rng.p(128) { Ser::canon().bytes(&w) } else { Ser::alt(rng).bytes(&w) };
            mutate(rng, &mut b);
            b
        }
        7 => {
            let n = rng.idx(40);
            rng.bytes(n)
        }
        _ => {
            let n = rng.idx(60);
            headerish(rng, n)
        }
    }
}

pub fn alt_one(c: &mut Ctx, tg: &'static Target, v: &Val) -> R {
    let mut w = to_wire(&tg.ty, v);
    if c.rng.p(150) {
        shuffle_fields(&mut c.rng, &tg.ty, &mut w);
    }
    let mut b = Ser::alt(&mut c.rng).bytes(&w);
    let n = b.len();
    let (rv, rn) = ref_decode(&tg.ty, &b).expect("reference decodes its own encoding");
    assert!(rv == *v && rn == n, "reference codec disagrees with itself: {} {:?} {:?}", hex(&b), rv, v);
    let extra = *c.rng.pick(&[0usize, 0, 2, 19]);
    let tail = c.rng.bytes(extra);
    b.extend(tail);
    c.eval(vh(tg, &b[..n]));
    c.sample(|| format!("{} {}", tg.name, hex(&b[..n])));
    expect_value(tg, &b, n, v, &mut c.rng)
}

/// a wire type the protocol does not declare, wherever one can be named, before any bytes
fn undeclared(c: &mut Ctx) -> R {
    let bad = *c.rng.pick(&[13u8, 14, 15]);
    let place = c.idx % 6;
    // what a reader could take for its content
    let n = (c.idx / 6 % 40) as usize;
    let body = match c.rng.below(3) {
        0 => vec![0; n],
        1 => vec![1; n],
        _ => c.rng.bytes(n),
    };
    let (wt, mut w) = match place {
        0 => (bad, vec![]),
        1 => (*c.rng.pick(&[9u8, 10]), vec![0x10 | bad]),
        2 => (11, vec![1, 0x30 | bad, 7]),
        3 => (11, vec![1, bad << 4 | 3]),
        4 => (12, vec![0x10 | bad]),
        _ => (9, vec![0x1c, 0x10 | bad]),
    };
    w.extend(&body);
    w.extend([0; 3]);
    let (r, _) = {
        let mut i = CompactThriftInputSlice::new(&w);
        (i.skip_field(wt), i.as_slice().len())
    };
    ensure!(r.is_err(), "skipping type {wt} at {} succeeds in spite of type {bad}", hex(&w));
    let r = CompactThriftInput::skip_field(&mut TestReader::random(&w, &mut c.rng), wt);
    ensure!(r.is_err(), "skipping type {wt} at {} in a stream succeeds in spite of type {bad}", hex(&w));
    for name in ["Small", "Empty", "AllOpt", "Gaps", "V"] {
        let tg = target(name);
        let mut b = match name {
            "Small" => vec![0x15, 2],
            "V" => vec![],
            _ => vec![],
        };
        let mut last = (name == "Small") as i16;
        let declared = |id: i16| if let Ty::Struct(s) | Ty::Union(s) = &tg.ty { s.field(id).is_some() } else { false };
        let mut id = 77;
        for _ in 0..3 {
            let x = match c.rng.below(4) {
                0 => last + c.rng.range(1, 16) as i16,
                1 => *c.rng.pick(&[-1, -2, -15, 0, i16::MIN, i16::MAX, -128, 255, 256]),
                _ => c.rng.int(16) as i16,
            };
            if !declared(x) {
                id = x;
                break;
            }
        }
        if c.rng.p(128) {
            Ser::canon().header(&mut b, &mut last, id, wt);
        } else {
            b.push(wt);
            b.extend(Ser::canon().bytes(&W::Var(zz(id as i64))));
        }
        b.extend(&w);
        let (o, _) = (tg.dec_slice)(&b);
        ensure!(o.is_err(), "{name}: {} with type {bad} decodes to {o:?}", hex(&b));
        let (o, _) = via_chunks(tg, &b, &mut c.rng);
        ensure!(o.is_err(), "{name}: the stream {} with type {bad} decodes to {o:?}", hex(&b));
        c.eval(vh(tg, &b));
    }
    c.sample(|| format!("type {bad} in {}", hex(&w)));
    Ok(())
}

pub fn c05(t: bool) -> Vec<Stage> {
    vec![
        stage("undeclared-types", 6 * 40 * raw(t, 12, 200), undeclared),
        stage("short-headers", 65536, |c| {
            // every one-byte header after every previous id
            let last = c.idx as u16 as i16;
            for h in 0..=255u8 {
                let b = [h, 2, 0xEE];
                let mut i = CompactThriftInputSlice::new(&b);
                let mut l = last;
                let got = i.read_field_header(&mut l);
                let mut d = Dec::new(&b);
                let mut l2 = last;
                let want = d.header(&mut l2);
                let used = 3 - i.as_slice().len();
                match (&want, &got) {
                    (Err(Bad::Gray), _) => {}
                    (Ok(0), Ok(0)) => ensure!(used == d.pos, "stop consumed {used}"),
                    (Ok(w), Ok(g)) => ensure!(w == g && l == l2 && used == d.pos, "header {h:#04x} after id {last}: type {g} id {l} ({used} bytes), expected type {w} id {l2}"),
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("header {h:#04x} after id {last}: {got:?} id {l}, expected {want:?} {l2}")),
                }
                c.eval((last as u16 as u64) << 8 | h as u64);
            }
            c.sample(|| format!("all 256 header bytes after field id {last}"));
            Ok(())
        }),
        stage("long-headers", 65536, |c| {
            let id = c.idx as u16 as i16;
            for wt in 1..=12u8 {
                let pad = c.rng.idx(9);
                let mut b = vec![wt];
                let mut s = Ser::canon();
                let mut vi = vec![];
                s.varint(&mut vi, zz(id as i64));
                if pad > 0 && vi.len() + pad <= 10 {
                    *vi.last_mut().unwrap() |= 0x80;
                    vi.extend(std::iter::repeat(0x80).take(pad - 1));
                    vi.push(0);
                }
                b.extend(vi);
                let n = b.len();
                b.push(0x55);
                let mut i = CompactThriftInputSlice::new(&b);
                let mut l = c.rng.u64() as i16;
                let got = i.read_field_header(&mut l).map_err(|e| format!("header {}: {e:?}", hex(&b)))?;
                let used = b.len() - i.as_slice().len();
                ensure!(got == wt && l == id && used == n, "header {} read as type {got} id {l} in {used} bytes", hex(&b));
                let mut r = TestReader::new(&b);
                let mut l = 0;
                let got = r.read_field_header(&mut l).map_err(|e| format!("header {}: {e:?}", hex(&b)))?;
                ensure!(got == wt && l == id && r.pos == n, "header {} read from a stream as type {got} id {l} in {} bytes", hex(&b), r.pos);
                c.eval(hash_bytes(1, &b));
            }
            Ok(())
        }),
        stage("varints", 64 * 20 * 4, |c| {
            let (k, rest) = (c.idx / 80, c.idx % 80);
            let (d, kind) = (rest / 4, rest % 4);
            let mut x = ((1u64 << k) as i64).wrapping_add(d as i64 % 10 - 5);
            if d >= 10 {
                x = x.wrapping_neg();
            }
            let u = match kind {
                0 => zz(x as i16 as i64),
                1 => zz(x as i32 as i64),
                2 => zz(x),
                _ => x as u64,
            };
            let mut vi = vec![];
            Ser::canon().varint(&mut vi, u);
            for len in vi.len()..=10 {
                let mut b = vi.clone();
                if len > b.len() {
                    *b.last_mut().unwrap() |= 0x80;
                    while b.len() < len - 1 {
                        b.push(0x80);
                    }
                    b.push(0);
                }
                b.extend([0x80, 1, 2]);
                let mut i = CompactThriftInputSlice::new(&b);
                let ok = match kind {
                    0 => i.read_i16().map(|v| v as i64 == unzz(u)),
                    1 => i.read_i32().map(|v| v as i64 == unzz(u)),
                    2 => i.read_i64().map(|v| v == unzz(u)),
                    _ => i.read_len().map(|v| v as u64 == u),
                };
                let used = b.len() - i.as_slice().len();
                ensure!(matches!(ok, Ok(true)) && used == len, "varint {} (kind {kind}, value {u}) misread: {ok:?}, {used} bytes", hex(&b));
                let mut r = TestReader::new(&b);
                let ok = match kind {
                    0 => r.read_i16().map(|v| v as i64 == unzz(u)),
                    1 => r.read_i32().map(|v| v as i64 == unzz(u)),
                    2 => r.read_i64().map(|v| v == unzz(u)),
                    _ => CompactThriftInput::read_len(&mut r).map(|v| v as u64 == u),
                };
                ensure!(matches!(ok, Ok(true)) && r.pos == len, "stream varint {} (kind {kind}, value {u}) misread: {ok:?}, {} bytes", hex(&b), r.pos);
                c.eval(hash_bytes(kind, &b));
            }
            c.sample(|| format!("value {u} in every padding up to ten bytes: {}", hex(&vi)));
            Ok(())
        }),
        stage("bool-lists", 2 * 2 * 1092, |c| {
            // all lists up to length six of all conventions
            let et = 1 + (c.idx % 2) as u8;
            let long = c.idx / 2 % 2 == 1;
            let mut k = c.idx / 4;
            let (mut n, mut pow) = (0usize, 1);
            while k >= pow {
                k -= pow;
                pow *= 3;
                n += 1;
            }
            let mut els = vec![];
            for _ in 0..n {
                els.push((k % 3) as u8);
                k /= 3;
            }
            let mut b = if long { vec![0xF0 | et, n as u8] } else { vec![(n as u8) << 4 | et] };
            b.extend(&els);
            let v = Val::List(els.iter().map(|e| Val::Bool(*e == 1)).collect());
            for name in ["Vec<bool>", "Vec<Box<bool>>", "Vec<Option<bool>>"] {
                let len = b.len();
                expect_value(target(name), &b, len, &v, &mut c.rng)?;
                c.eval(vh(target(name), &b));
            }
            Ok(())
        }),
        stage("long", raw(t, 3000, 40_000), |c| {
            let (tg, v) = long_case(&mut c.rng, 100_000);
            alt_one(c, tg, &v)
        }),
        subsets_stage(t, alt_one),
        stage("alternatives", q(t, 100_000, 2_000_000), |c| {
            let tg = pick(&mut c.rng);
            let v = any_val(&mut c.rng, &tg.ty);
            alt_one(c, tg, &v)
        }),
        stage("mutated", q(t, 250_000, 6_000_000), |c| {
            let tg = pick(&mut c.rng);
            let b = hostile_bytes(&mut c.rng, tg);
            differential(c, tg, &b)
        }),
    ]
}

#[allow(dead_code)]
pub fn is_type_error(e: &Er) -> bool {
    *e == Er::Type
}
