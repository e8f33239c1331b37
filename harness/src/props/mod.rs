//! One monitor per property: deterministic sweeps and seeded random workloads with their oracles.
pub mod codec;
#[cfg(not(miri))]
pub mod cost;
pub mod decl;
pub mod decode;
pub mod hostile;
pub mod limits;
#[cfg(feature = "pq")]
pub mod parquet;
#[cfg(all(feature = "pq", not(miri)))]
pub mod schema;
pub mod state;

use crate::io::*;
use crate::model::*;
use crate::rng::*;
use crate::run::*;
use crate::targets::*;

pub fn stages(prop: &str, thorough: bool, variant: &str) -> Vec<Stage> {
    let t = thorough;
    match prop {
        "C01" => hostile::c01(t),
        "C02" => hostile::c02(t, variant),
        "C03" => codec::c03(t),
        "C04" => codec::c04(t),
        "C05" => codec::c05(t),
        "C06" => decode::c06(t),
        "C07" => decode::c07(t),
        "C08" => decode::c08(t),
        "C09" => decode::c09(t),
        "C10" => decode::c10(t),
        "C11" => decode::c11(t),
        "C12" => limits::c12(t),
        "C13" => limits::c13(t),
        "C14" => limits::c14(t),
        #[cfg(feature = "pq")]
        "C15" => parquet::c15(t),
        #[cfg(feature = "pq")]
        "C16" => parquet::c16(t),
        #[cfg(feature = "pq")]
        "C17" => parquet::c17(t),
        #[cfg(feature = "pq")]
        "C18" => parquet::c18(t),
        #[cfg(all(feature = "pq", not(miri)))]
        "C19" => schema::c19(t),
        "C20" => state::c20(t, variant),
        "C21" => state::c21(t),
        "C23" => decl::c23(t),
        #[cfg(not(miri))]
        "C24" => cost::c24(t),
        _ => panic!("harness: no such property {prop}"),
    }
}

/// entry for helper processes
pub fn child(args: &[String]) {
    hostile::child(args)
}

/// quick or thorough count
pub fn raw(thorough: bool, quick: u64, deep: u64) -> u64 {
    if thorough { deep } else { quick }
}
/// the same for native builds, where a case costs microseconds
pub fn q(thorough: bool, quick: u64, deep: u64) -> u64 {
    raw(thorough, quick * 3, deep * 3)
}

pub fn vh(t: &Target, b: &[u8]) -> u64 {
    hash_bytes(hash_bytes(3, t.name.as_bytes()), b)
}

/// a stream over `b` with the plainest behaviour; result and number of bytes pulled
pub fn via_read(t: &Target, b: &[u8]) -> (Outcome, usize) {
    let mut r = TestReader::new(b);
    let o = (t.dec_read)(&mut r);
    (o, r.pos)
}

pub fn via_chunks(t: &Target, b: &[u8], rng: &mut Rng) -> (Outcome, usize) {
    let mut r = TestReader::random(b, rng);
    let o = (t.dec_read)(&mut r);
    (o, r.pos)
}

pub fn show(v: &Val) -> String {
    let s = format!("{v:?}");
    s.chars().take(700).collect()
}

/// the decode of `b` (which starts with exactly one message of `n` bytes) must give `v`
pub fn expect_value(t: &Target, b: &[u8], n: usize, v: &Val, rng: &mut Rng) -> R {
    let (o, used) = (t.dec_slice)(b);
    match &o {
        Ok(x) if x == v => {}
        Ok(x) => return Err(format!("{}: slice decode of {} gives {} instead of {}", t.name, hex(b), show(x), show(v))),
        Err(e) => return Err(format!("{}: slice decode of {} fails with {e:?} instead of {}", t.name, hex(b), show(v))),
    }
    ensure!(used == n, "{}: slice decode of {} consumed {used} bytes instead of {n}", t.name, hex(b));
    let mut r = TestReader::random(b, rng);
    match (t.dec_read)(&mut r) {
        Ok(x) if x == *v => {}
        Ok(x) => return Err(format!("{}: stream decode of {} gives {} instead of {}", t.name, hex(b), show(&x), show(v))),
        Err(e) => return Err(format!("{}: stream decode of {} fails with {e:?} instead of {}", t.name, hex(b), show(v))),
    }
    ensure!(r.pos == n, "{}: stream decode of {} pulled {} bytes instead of {n}", t.name, hex(b), r.pos);
    Ok(())
}

/// a wire tree whose leaves are small, for use in sweeps over many targets
pub fn small_val(rng: &mut Rng, ty: &Ty) -> Val {
    let mut cfg = crate::gen::GenCfg::small(rng);
    crate::gen::gen_val(rng, ty, &mut cfg)
}
pub fn any_val(rng: &mut Rng, ty: &Ty) -> Val {
    let mut cfg = crate::gen::GenCfg::new(rng);
    crate::gen::gen_val(rng, ty, &mut cfg)
}

/// a type with something long in it, up to `cap` elements or bytes
pub fn long_case(rng: &mut Rng, cap: usize) -> (&'static Target, Val) {
    use crate::gen::*;
    let n = edge_len(rng, cap);
    loop {
        let tg = pick(rng);
        let long = |t: &Ty| matches!(t, Ty::List(_) | Ty::Str | Ty::Bin);
        match &tg.ty {
            t if long(t) => return (tg, sized(rng, t, n)),
            Ty::Struct(s) => {
                let fs: Vec<_> = s.fields.iter().filter(|f| long(&f.ty)).collect();
                if fs.is_empty() {
                    continue;
                }
                let id = rng.pick(&fs).id;
                let present = *rng.pick(&[0, 100, 256]);
                let mut out = vec![];
                for f in &s.fields {
                    if f.id == id {
                        out.push((f.id, sized(rng, &f.ty, n)));
                    } else if f.required || rng.p(present) {
                        out.push((f.id, gen_val(rng, &f.ty, &mut GenCfg { budget: 4, present, big: false })));
                    }
                }
                return (tg, Val::Struct(out));
            }
            Ty::Union(s) => {
                let fs: Vec<_> = s.fields.iter().filter(|f| long(&f.ty)).collect();
                if fs.is_empty() {
                    continue;
                }
                let f = rng.pick(&fs);
                return (tg, Val::Union(f.id, Box::new(sized(rng, &f.ty, n))));
            }
            _ => {}
        }
    }
}

/// something long of any wire type
pub fn long_wire(rng: &mut Rng, cap: usize) -> (u8, W) {
    use crate::gen::*;
    let n = edge_len(rng, cap);
    let m = n.min(9000);
    let (wt, w) = match rng.below(12) {
        0..=2 => (8, W::Bin(rng.bytes(n))),
        3..=6 => {
            let e = 1 + rng.below(7) as u8;
            (9 + rng.below(2) as u8, W::List(e, (0..n).map(|_| gen_wire(rng, e, true, 1, &mut -1)).collect()))
        }
        7 => (9, W::List(8, (0..m).map(|i| W::Bin(vec![1; i % 3])).collect())),
        8 => (10, W::List(12, (0..m).map(|_| W::Struct(vec![])).collect())),
        9 => (11, W::Map(8, 5, (0..m).map(|i| (W::Bin(vec![1; i % 3]), W::Var(i as u64))).collect())),
        10 => (11, W::Map(3, 8, (0..3).map(|i| (W::Byte(i), W::Bin(rng.bytes(n)))).collect())),
        _ => (11, W::Map(2, 7, (0..m).map(|_| (W::Byte(1), W::Dbl(5))).collect())),
    };
    match rng.below(4) {
        0 => (12, W::Struct(vec![WF { id: 5, wt, w }, WF { id: 6, wt: 3, w: W::Byte(9) }])),
        1 => (9, W::List(wt, vec![w])),
        _ => (wt, w),
    }
}
