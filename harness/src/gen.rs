//! Generators: values of a type, arbitrary wire values, tree edits, byte mutations.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct GenCfg {
    /// remaining number of leaves
    pub budget: i64,
    /// presence probability of optional fields, 1/256
    pub present: u32,
    /// allow long strings and lists
    pub big: bool,
}

impl GenCfg {
    pub fn new(rng: &mut Rng) -> Self {
        GenCfg {
            budget: *rng.pick(&[8, 30, 30, 100, 400]),
            present: *rng.pick(&[0u32, 60, 128, 128, 200, 256]),
            big: rng.p(16),
        }
    }
    pub fn small(rng: &mut Rng) -> Self {
        GenCfg { budget: *rng.pick(&[5, 12, 30]), present: *rng.pick(&[40u32, 128, 200, 256]), big: false }
    }
}

pub fn gen_len(rng: &mut Rng, cfg: &GenCfg) -> usize {
    if cfg.budget <= 0 {
        return 0;
    }
    if rng.p(10) {
        if let Some(n) = rng.known(if cfg.big { 20_000 } else { 150 }) {
            return n as usize;
        }
    }
    match rng.below(12) {
        0..=1 => 0,
        2..=6 => rng.range(1, 4) as usize,
        7..=8 => rng.range(13, 18) as usize,
        9 => rng.range(0, 40) as usize,
        10 if cfg.big => *rng.pick(&[126, 127, 128, 129, 255, 256, 300, 1000, 16383, 16384]),
        _ => rng.range(0, 9) as usize,
    }
}

pub fn gen_blob_len(rng: &mut Rng, cfg: &GenCfg) -> usize {
    if rng.p(10) {
        if let Some(n) = rng.known(if cfg.big { 70_000 } else { 300 }) {
            return n as usize;
        }
    }
    match rng.below(16) {
        0 => 0,
        1..=9 => rng.range(1, 12) as usize,
        10..=11 => rng.range(13, 20) as usize,
        12 => rng.range(20, 130) as usize,
        13 => *rng.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129]),
        14 if cfg.big => *rng.pick(&[255, 256, 257, 4095, 4096, 8192, 16383, 16384, 16385, 65535, 65536, 70000]),
        _ => rng.range(0, 30) as usize,
    }
}

pub fn gen_string(rng: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n + 4);
    let ascii = rng.p(140);
    while s.len() < n {
        let room = n - s.len();
        let c = if ascii || room < 2 {
            (rng.below(128) as u8) as char
        } else {
            match rng.below(6) {
                0 => *rng.pick(&['\0', '\u{7f}', 'a', 'Z']),
                1 => *rng.pick(&['\u{80}', '\u{7ff}', 'é']),
                2 if room >= 3 => *rng.pick(&['\u{800}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '€']),
                3 if room >= 4 => *rng.pick(&['\u{10000}', '\u{10ffff}', '😀']),
                _ => (rng.below(128) as u8) as char,
            }
        };
        s.push(c);
    }
    s
}

/// texts that programs like to treat in another way
pub const SPECIAL: &[&str] = &[
    "\u{feff}", "\0", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{200b}", "\u{202e}", "\u{301}", "\r\n", "\n", " ", "\t", "\u{a0}", "\u{2028}", "\\", "\"", "'", "%s", "{}", "/", "..", "//", "-", "+", "0", "1", "true",
    "null", "http://", "\u{1b}[0m", "\u{85}",
];

/// a piece of binary data of the code, alone or with something before or behind it
pub fn known_binary(rng: &mut Rng, s: &[u8]) -> Vec<u8> {
    let n = rng.idx(6);
    let x = rng.bytes(n);
    match rng.below(5) {
        0 => [&x, s].concat(),
        1 => [s, &x].concat(),
        _ => s.to_vec(),
    }
}

/// a text of the code, alone or with something before or behind it
pub fn known_text(rng: &mut Rng, s: &str) -> String {
    let n = rng.idx(6);
    match rng.below(5) {
        0 => gen_string(rng, n) + s,
        1 => s.to_string() + &gen_string(rng, n),
        2 => s.to_uppercase(),
        _ => s.to_string(),
    }
}

pub fn gen_f64(rng: &mut Rng) -> u64 {
    if rng.p(10) {
        if let Some(x) = rng.known_f64() {
            return x;
        }
        if let Some(x) = rng.known(u64::MAX) {
            return if rng.p(128) { x } else { (x as f64).to_bits() };
        }
    }
    match rng.below(8) {
        0 => *rng.pick(&[0u64, 1 << 63, 1, u64::MAX, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0x7fff_ffff_ffff_ffff]),
        1 => (rng.int(32) as f64).to_bits(),
        2 => 1u64 << rng.below(64),
        _ => rng.u64(),
    }
}

/// sorts what has an order
fn order(l: &mut [Val], up: bool) {
    let key = |v: &Val| match v {
        Val::Bool(x) => (*x as i64, vec![]),
        Val::I8(x) => (*x as i64, vec![]),
        Val::I16(x) => (*x as i64, vec![]),
        Val::I32(x) => (*x as i64, vec![]),
        Val::I64(x) => (*x, vec![]),
        Val::Str(x) => (0, x.as_bytes().to_vec()),
        Val::Bin(x) => (0, x.clone()),
        _ => (0, vec![]),
    };
    l.sort_by_cached_key(key);
    if !up {
        l.reverse();
    }
}

pub fn gen_val(rng: &mut Rng, ty: &Ty, cfg: &mut GenCfg) -> Val {
    cfg.budget -= 1;
    match ty {
        Ty::Bool => Val::Bool(rng.p(128)),
        Ty::I8 => Val::I8(rng.int(8) as i8),
        Ty::I16 => Val::I16(rng.int(16) as i16),
        Ty::I32 => Val::I32(rng.int(32) as i32),
        Ty::I64 => Val::I64(rng.int(64)),
        Ty::F64 => Val::F64(gen_f64(rng)),
        Ty::Bin => {
            let n = gen_blob_len(rng, cfg);
            Val::Bin(match if rng.p(12) { rng.known_bytes() } else { None } {
                Some(s) => match std::str::from_utf8(s) {
                    Ok(s) => known_text(rng, s).into_bytes(),
                    Err(_) => known_binary(rng, s),
                },
                None => rng.bytes(n),
            })
        }
        Ty::Str => {
            let n = gen_blob_len(rng, cfg);
            Val::Str(match if rng.p(14) { if rng.p(40) { Some(*rng.pick(SPECIAL)) } else { rng.known_str() } } else { None } {
                Some(s) => known_text(rng, s),
                None => gen_string(rng, n),
            })
        }
        Ty::EncSet => {
            let m = match rng.below(4) {
                0 => 0,
                1 => 1 << rng.below(31),
                2 => rng.u64() as u32 & rng.u64() as u32,
                _ => rng.u64() as u32,
            };
            Val::EncSet(m & 0x7fff_ffff)
        }
        Ty::List(e) => {
            let n = gen_len(rng, cfg);
            let heavy = matches!(**e, Ty::Struct(_) | Ty::Union(_) | Ty::List(_));
            let n = if heavy && n > 40 { 40 } else { n };
            // elements in order, or again and again
            let again = *rng.pick(&[0, 0, 0, 0, 20, 128, 250]);
            let mut l: Vec<Val> = Vec::with_capacity(n);
            // large ones are not repeated without end
            let mut room = 1usize << 17;
            for i in 0..n {
                let old = (i > 0 && rng.p(again)).then(|| i - 1 - if rng.p(200) { 0 } else { rng.idx(i) }).filter(|k| {
                    let w = weight(&l[*k]);
                    room = room.saturating_sub(w);
                    room > 0
                });
                let v = match old {
                    Some(k) => l[k].clone(),
                    None => gen_val(rng, e, cfg),
                };
                l.push(v);
            }
            if rng.p(8) {
                order(&mut l, rng.p(128));
            }
            Val::List(l)
        }
        Ty::Struct(s) => {
            let mut out: Vec<(i16, Val)> = vec![];
            for f in &s.fields {
                if f.required || (rng.p(cfg.present) && cfg.budget > -200) {
                    if rng.p(8) {
                        // the same as in an earlier field
                        let k = rng.idx(s.fields.len());
                        let like = s.fields.iter().cycle().skip(k).take(s.fields.len()).filter(|g| g.ty == f.ty).find_map(|g| out.iter().find(|o| o.0 == g.id)).filter(|o| weight(&o.1) < 1000).map(|o| o.1.clone());
                        if let Some(v) = like {
                            out.push((f.id, v));
                            continue;
                        }
                    }
                    out.push((f.id, gen_val(rng, &f.ty, cfg)));
                }
            }
            Val::Struct(out)
        }
        Ty::Union(s) => {
            let f = rng.pick(&s.fields);
            Val::Union(f.id, Box::new(gen_val(rng, &f.ty, cfg)))
        }
    }
}

/// how much there is to copy
fn weight(v: &Val) -> usize {
    8 + match v {
        Val::Bin(b) => b.len(),
        Val::Str(s) => s.len(),
        Val::List(l) => l.iter().map(weight).sum(),
        Val::Struct(fs) => fs.iter().map(|f| weight(&f.1)).sum(),
        Val::Union(_, x) => weight(x),
        _ => 0,
    }
}

/// Arbitrary well-formed wire value of wire type `wt`. `depth` bounds container nesting.
pub fn gen_wire(rng: &mut Rng, wt: u8, in_coll: bool, depth: u32, budget: &mut i64) -> W {
    *budget -= 1;
    match wt {
        1 | 2 => {
            if in_coll {
                W::Byte(*rng.pick(&[0, 1, 2]))
            } else {
                W::Hdr
            }
        }
        3 => W::Byte(rng.u64() as u8),
        4 => W::Var(zz(rng.int(16))),
        5 => W::Var(zz(rng.int(32))),
        6 => W::Var(zz(rng.int(64))),
        7 => W::Dbl(gen_f64(rng)),
        8 => {
            let n = *rng.pick(&[0usize, 1, 2, 5, 15, 16, 17, 40, 127, 128]);
            let n = if *budget < 0 { n % 4 } else { n };
            W::Bin(rng.bytes(n))
        }
        9 | 10 => {
            let n = if *budget <= 0 { rng.below(2) as usize } else { *rng.pick(&[0usize, 1, 2, 3, 14, 15, 16, 17]) };
            let e = gen_wt(rng, depth.saturating_sub(1));
            let e = if e == 2 && rng.p(128) { 1 } else { e };
            let n = if e >= 9 { n.min(3) } else { n };
            W::List(e, (0..n).map(|_| gen_wire(rng, e, true, depth - 1, budget)).collect())
        }
        11 => {
            let n = if *budget <= 0 { 0 } else { *rng.pick(&[0usize, 0, 1, 2, 3, 15, 16]) };
            let k = gen_wt(rng, depth.saturating_sub(1));
            let v = gen_wt(rng, depth.saturating_sub(1));
            let n = if k >= 9 || v >= 9 { n.min(2) } else { n };
            W::Map(
                k,
                v,
                (0..n)
                    .map(|_| (gen_wire(rng, k, true, depth - 1, budget), gen_wire(rng, v, true, depth - 1, budget)))
                    .collect(),
            )
        }
        12 => {
            let n = if *budget <= 0 { 0 } else { rng.below(5) };
            let mut id = 0i16;
            W::Struct(
                (0..n)
                    .map(|_| {
                        let wt = gen_wt_field(rng, depth.saturating_sub(1));
                        id = match rng.below(4) {
                            0 => rng.int(16) as i16,
                            1 => id.saturating_add(rng.range(1, 20) as i16),
                            _ => id.saturating_add(1),
                        };
                        WF { id, wt, w: gen_wire(rng, wt, false, depth - 1, budget) }
                    })
                    .collect(),
            )
        }
        _ => unreachable!(),
    }
}

/// wire type for a collection element
pub fn gen_wt(rng: &mut Rng, depth: u32) -> u8 {
    if depth == 0 { *rng.pick(&[2, 3, 4, 5, 6, 7, 8]) } else { *rng.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12]) }
}
/// wire type for a field
pub fn gen_wt_field(rng: &mut Rng, depth: u32) -> u8 {
    if rng.p(20) { 1 } else { gen_wt(rng, depth) }
}

/// A chain of exactly `depth` nested containers of random kinds around a scalar.
pub fn gen_chain(rng: &mut Rng, depth: u32) -> (u8, W) {
    let mut wt = *rng.pick(&[2u8, 3, 4, 5, 6, 7, 8]);
    let mut in_coll_form = gen_wire(rng, wt, true, 1, &mut 0);
    // field form differs only for booleans
    for _ in 0..depth {
        let kind = *rng.pick(&[9u8, 10, 11, 12]);
        let inner = in_coll_form;
        in_coll_form = match kind {
            9 | 10 => {
                let mut es = vec![];
                if wt < 9 && rng.p(128) {
                    es.push(inner.clone());
                }
                es.push(inner);
                W::List(wt, es)
            }
            11 => {
                let sk = *rng.pick(&[2u8, 3, 5, 8]);
                let sv = gen_wire(rng, sk, true, 1, &mut 0);
                if rng.p(128) { W::Map(wt, sk, vec![(inner, sv)]) } else { W::Map(sk, wt, vec![(sv, inner)]) }
            }
            _ => {
                let w = if wt == 2 || wt == 1 { W::Hdr } else { inner };
                let f = WF { id: rng.range(1, 40) as i16, wt, w };
                let mut fs = vec![f];
                if rng.p(80) {
                    fs.push(WF { id: rng.range(41, 50) as i16, wt: 5, w: W::Var(rng.u64() >> 33) });
                }
                if rng.p(80) {
                    fs.insert(0, WF { id: -3, wt: 8, w: W::Bin(rng.bytes(3)) });
                }
                W::Struct(fs)
            }
        };
        wt = kind;
    }
    (wt, in_coll_form)
}

/// Walk (type, wire) trees in parallel and call `f` on each struct/union node. Returns the count.
pub fn visit_structs<'t>(ty: &'t Ty, w: &mut W, f: &mut dyn FnMut(&'t Ty, &mut Vec<WF>)) {
    match (ty, w) {
        (Ty::List(e), W::List(_, es)) => {
            for x in es {
                visit_structs(e, x, f);
            }
        }
        (Ty::Struct(s), W::Struct(fs)) => {
            for x in fs.iter_mut() {
                if let Some(ft) = s.field(x.id) {
                    visit_structs(&ft.ty, &mut x.w, f);
                }
            }
            f(ty, fs);
        }
        (Ty::Union(s), W::Struct(fs)) => {
            for x in fs.iter_mut() {
                if let Some(ft) = s.field(x.id) {
                    visit_structs(&ft.ty, &mut x.w, f);
                }
            }
            f(ty, fs);
        }
        _ => {}
    }
}

pub fn unused_id(rng: &mut Rng, s: &StructTy) -> i16 {
    loop {
        let id = match rng.below(5) {
            0 => rng.int(16) as i16,
            1 => rng.range(-40, 40) as i16,
            _ => {
                // near declared ids, so that neighbouring short headers are affected
                let base = if s.fields.is_empty() { 0 } else { rng.pick(&s.fields).id };
                base.saturating_add(rng.range(-17, 17) as i16)
            }
        };
        if s.field(id).is_none() {
            return id;
        }
    }
}

/// Insert unknown fields into structs of the tree (not directly into unions). Returns how many.
pub fn add_unknown(rng: &mut Rng, ty: &Ty, w: &mut W, p: u32, depth: u32) -> usize {
    let mut n = 0;
    let mut r = Rng::new(rng.u64());
    visit_structs(ty, w, &mut |t, fs| {
        if let Ty::Struct(s) = t {
            while r.p(p) && fs.len() < 60 {
                let id = unused_id(&mut r, s);
                let (wt, wv) = if r.p(12) {
                    let d = r.range(1, depth.max(1) as i64) as u32;
                    gen_chain(&mut r, d)
                } else {
                    let wt = gen_wt_field(&mut r, depth.min(4));
                    let mut budget = 20;
                    let x = gen_wire(&mut r, wt, false, depth.min(4), &mut budget);
                    (wt, x)
                };
                let at = r.idx(fs.len() + 1);
                fs.insert(at, WF { id, wt, w: wv });
                n += 1;
            }
        }
    });
    n
}

pub fn shuffle_fields(rng: &mut Rng, ty: &Ty, w: &mut W) {
    let mut r = Rng::new(rng.u64());
    visit_structs(ty, w, &mut |t, fs| {
        if let Ty::Struct(_) = t {
            if r.p(128) {
                r.shuffle(fs);
            }
        }
    });
}

/// random byte-level mutations
pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>) {
    let n = rng.range(1, 4);
    for _ in 0..n {
        let len = b.len();
        match rng.below(9) {
            0 if len > 0 => {
                let i = rng.idx(len);
                b[i] ^= 1 << rng.below(8);
            }
            1 if len > 0 => {
                let i = rng.idx(len);
                b[i] = *rng.pick(&[0u8, 1, 2, 0x0f, 0x10, 0x15, 0x18, 0x19, 0x1b, 0x1c, 0x7f, 0x80, 0x81, 0xf0, 0xf5, 0xf9, 0xfc, 0xff]);
            }
            2 if len > 0 => {
                let i = rng.idx(len);
                b[i] = rng.u64() as u8;
            }
            3 => {
                let i = rng.idx(len + 1);
                let x = rng.u64() as u8;
                b.insert(i, x);
            }
            4 if len > 0 => {
                let i = rng.idx(len);
                b.remove(i);
            }
            5 if len > 0 => {
                let i = rng.idx(len);
                b.truncate(i);
            }
            6 if len > 1 => {
                let i = rng.idx(len);
                let j = i + rng.idx((len - i).min(20));
                let part = b[i..j].to_vec();
                let at = rng.idx(len);
                b.splice(at..at, part);
            }
            7 if rng.p(30) => {
                // data the code knows
                if let Some(x) = rng.known_bytes() {
                    let i = rng.idx(len + 1);
                    b.splice(i..i, x.iter().copied());
                }
            }
            7 if rng.p(60) => {
                // a number the code knows
                if let Some(mut x) = rng.known(u64::MAX) {
                    let i = rng.idx(len + 1);
                    let mut v = vec![];
                    if rng.p(60) {
                        v.extend(&x.to_le_bytes()[..4]);
                    } else {
                        x = if rng.p(128) { x } else { x << 1 };
                        while x > 0x7f {
                            v.push(x as u8 | 0x80);
                            x >>= 7;
                        }
                        v.push(x as u8);
                    }
                    let end = if rng.p(128) { i } else { (i + v.len()).min(len) };
                    b.splice(i..end, v);
                }
            }
            7 => {
                // a varint, possibly huge or overlong
                let i = rng.idx(len + 1);
                let k = rng.idx(22);
                let mut v = vec![0x80 | rng.u64() as u8; k];
                v.push(rng.u64() as u8 & 0x7f);
                b.splice(i..i, v);
            }
            _ if len > 0 => {
                // nibbles of a header
                let i = rng.idx(len);
                if rng.p(128) {
                    b[i] = (b[i] & 0xf0) | rng.below(16) as u8;
                } else {
                    b[i] = (b[i] & 0x0f) | (rng.below(16) as u8) << 4;
                }
            }
            _ => {}
        }
    }
}

/// bytes that look like headers and small values
pub fn headerish(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| match rng.below(6) {
            0 => 0,
            1 => rng.u64() as u8,
            2 => (rng.below(4) * 16 + rng.below(13)) as u8,
            3 => (16 + rng.below(13)) as u8,
            4 => rng.below(16) as u8,
            _ => *rng.pick(&[0x80u8, 0xff, 0xf9, 0x19, 0x1c, 0x2c, 0x1b, 0x18, 0x15]),
        })
        .collect()
}

/// block sizes code likes to work in
pub const BLOCKS: &[usize] = &[16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16384, 32768, 65536, 100_000];

/// sizes up to `cap`, mostly at powers of two and multiples of block sizes
pub fn edge_len(rng: &mut Rng, cap: usize) -> usize {
    if rng.p(40) {
        if let Some(n) = rng.known(cap as u64) {
            return n as usize;
        }
    }
    let n = match rng.below(8) {
        0..=2 => {
            let top = usize::BITS - cap.max(16).leading_zeros();
            let k = rng.range(4, top as i64 - 1) as u32;
            (1usize << k).wrapping_add_signed(rng.range(-2, 2) as isize)
        }
        3..=5 => {
            let b = *rng.pick(BLOCKS);
            let most = (cap / b).max(1) as u64;
            let m = if rng.p(128) { rng.below(most.min(8)) } else { rng.below(most) } as usize + 1;
            (b * m).wrapping_add_signed(rng.range(-2, 2) as isize)
        }
        _ => {
            let k = 64 - (cap as u64).leading_zeros() as i64;
            (rng.u64() >> (64 - rng.range(5, k))) as usize
        }
    };
    n.min(cap)
}

/// `k` offsets into `n` bytes, at multiples of block sizes from either end, and anywhere
pub fn edge_offsets(rng: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    let mut v = vec![];
    if n == 0 {
        return v;
    }
    while v.len() < k {
        let o = match rng.below(8) {
            0 => rng.idx(n),
            1 => rng.known(n as u64 + 4).unwrap_or(0) as usize,
            _ => {
                let b = *rng.pick(BLOCKS);
                let m = (n / b).max(1);
                let o = b * (1 + if rng.p(128) { rng.idx(m.min(6)) } else { rng.idx(m) });
                // heads of one to ten bytes in front
                let top = *rng.pick(&[2, 12]);
                let o = o.wrapping_add_signed(rng.range(-2, top) as isize);
                if rng.p(128) { o } else { n.wrapping_sub(o) }
            }
        };
        if o < n {
            v.push(o);
        } else {
            v.push(rng.idx(n));
        }
    }
    v
}

/// a string, binary or list of `n` bytes or elements
pub fn sized(rng: &mut Rng, ty: &Ty, n: usize) -> Val {
    match ty {
        Ty::Bin => Val::Bin(rng.bytes(n)),
        Ty::Str => Val::Str(gen_string(rng, n)),
        Ty::List(e) => {
            let n = match **e {
                Ty::Struct(_) | Ty::Union(_) | Ty::List(_) => n.min(9000),
                Ty::Str | Ty::Bin => n.min(40_000),
                _ => n,
            };
            Val::List(
                (0..n)
                    .map(|_| match **e {
                        Ty::Str => Val::Str(gen_string(rng, 1)),
                        Ty::Bin => Val::Bin(vec![7]),
                        _ => gen_val(rng, e, &mut GenCfg { budget: 2, present: 20, big: false }),
                    })
                    .collect(),
            )
        }
        _ => {
            let mut cfg = GenCfg::small(rng);
            gen_val(rng, ty, &mut cfg)
        }
    }
}
