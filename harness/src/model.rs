//! Reference model of the Thrift compact protocol, written from the protocol specification and
//! independent of the code under test: dynamic types and values, wire trees, a serializer with all
//! freedoms of the format, and a strict three-valued decoder.
use crate::rng::Rng;
use std::sync::Arc;

pub const MAX_BIN: u64 = 16 * 1024 * 1024;
pub const MAX_COLL: u64 = 10_000_000;
pub const MAX_SKIP_DEPTH: u32 = 64;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    F64,
    Bin,
    Str,
    /// list<Encoding> kept as a set
    EncSet,
    List(Arc<Ty>),
    Struct(Arc<StructTy>),
    Union(Arc<StructTy>),
}

#[derive(Debug, PartialEq)]
pub struct StructTy {
    pub name: &'static str,
    pub fields: Vec<FieldTy>,
}

#[derive(Debug, PartialEq)]
pub struct FieldTy {
    pub id: i16,
    pub name: &'static str,
    pub required: bool,
    pub ty: Ty,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F64(u64),
    Bin(Vec<u8>),
    Str(String),
    EncSet(u32),
    List(Vec<Val>),
    /// present fields in declaration order
    Struct(Vec<(i16, Val)>),
    Union(i16, Box<Val>),
}

impl StructTy {
    pub fn field(&self, id: i16) -> Option<&FieldTy> {
        self.fields.iter().find(|f| f.id == id)
    }
}

impl Ty {
    /// wire type in list headers and (except for booleans) in field headers
    pub fn wt(&self) -> u8 {
        match self {
            Ty::Bool => 2,
            Ty::I8 => 3,
            Ty::I16 => 4,
            Ty::I32 => 5,
            Ty::I64 => 6,
            Ty::F64 => 7,
            Ty::Bin | Ty::Str => 8,
            Ty::EncSet | Ty::List(_) => 9,
            Ty::Struct(_) | Ty::Union(_) => 12,
        }
    }
}

/// Wire tree.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    /// boolean field, value carried by the header's wire type
    Hdr,
    Byte(u8),
    Var(u64),
    Dbl(u64),
    Bin(Vec<u8>),
    List(u8, Vec<W>),
    Map(u8, u8, Vec<(W, W)>),
    Struct(Vec<WF>),
    /// verbatim bytes
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct WF {
    pub id: i16,
    pub wt: u8,
    pub w: W,
}

pub fn zz(i: i64) -> u64 {
    if i >= 0 { (i as u64) * 2 } else { (-(i + 1)) as u64 * 2 + 1 }
}

pub fn unzz(u: u64) -> i64 {
    if u % 2 == 0 { (u / 2) as i64 } else { -((u / 2) as i64) - 1 }
}

pub fn to_wire(ty: &Ty, v: &Val) -> W {
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => W::Byte(if *b { 1 } else { 2 }),
        (Ty::I8, Val::I8(i)) => W::Byte(*i as u8),
        (Ty::I16, Val::I16(i)) => W::Var(zz(*i as i64)),
        (Ty::I32, Val::I32(i)) => W::Var(zz(*i as i64)),
        (Ty::I64, Val::I64(i)) => W::Var(zz(*i)),
        (Ty::F64, Val::F64(b)) => W::Dbl(*b),
        (Ty::Bin, Val::Bin(b)) => W::Bin(b.clone()),
        (Ty::Str, Val::Str(s)) => W::Bin(s.as_bytes().to_vec()),
        (Ty::EncSet, Val::EncSet(m)) => {
            W::List(5, (0..32).filter(|i| m >> i & 1 == 1).map(|i| W::Var(zz(i))).collect())
        }
        (Ty::List(e), Val::List(vs)) => W::List(e.wt(), vs.iter().map(|x| to_wire(e, x)).collect()),
        (Ty::Struct(s), Val::Struct(fs)) => W::Struct(
            fs.iter().map(|(id, x)| field_to_wire(*id, &s.field(*id).expect("field").ty, x)).collect(),
        ),
        (Ty::Union(s), Val::Union(id, x)) => {
            W::Struct(vec![field_to_wire(*id, &s.field(*id).expect("member").ty, x)])
        }
        _ => panic!("model: value does not fit type {ty:?}: {v:?}"),
    }
}

pub fn field_to_wire(id: i16, ty: &Ty, v: &Val) -> WF {
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => WF { id, wt: if *b { 1 } else { 2 }, w: W::Hdr },
        _ => WF { id, wt: ty.wt(), w: to_wire(ty, v) },
    }
}

/// Freedoms of the serializer; all probabilities in 1/256. `canon()` uses none.
#[derive(Clone)]
pub struct Ser {
    pub rng: Option<Rng>,
    pub long_hdr: u32,
    pub long_list: u32,
    pub pad: u32,
    pub bool_alt: u32,
}

impl Ser {
    pub fn canon() -> Self {
        Ser { rng: None, long_hdr: 0, long_list: 0, pad: 0, bool_alt: 0 }
    }
    pub fn alt(rng: &mut Rng) -> Self {
        let p = |r: &mut Rng| *r.pick(&[0u32, 0, 30, 128, 256]);
        Ser { long_hdr: p(rng), long_list: p(rng), pad: p(rng), bool_alt: p(rng), rng: Some(Rng::new(rng.u64())) }
    }
    fn chance(&mut self, p: u32) -> bool {
        p > 0 && self.rng.as_mut().map_or(false, |r| r.p(p))
    }
    pub fn varint(&mut self, out: &mut Vec<u8>, mut v: u64) {
        let start = out.len();
        while v > 127 {
            out.push(128 + (v % 128) as u8);
            v /= 128;
        }
        out.push(v as u8);
        let p = self.pad;
        if self.chance(p) {
            let used = out.len() - start;
            let extra = self.rng.as_mut().unwrap().idx(11 - used);
            if extra > 0 {
                *out.last_mut().unwrap() |= 128;
                for _ in 1..extra {
                    out.push(128);
                }
                out.push(0);
            }
        }
    }
    pub fn header(&mut self, out: &mut Vec<u8>, last: &mut i16, id: i16, wt: u8) {
        let delta = id as i32 - *last as i32;
        let p = self.long_hdr;
        if (1..=15).contains(&delta) && !self.chance(p) {
            out.push((delta as u8) * 16 + wt);
        } else {
            out.push(wt);
            self.varint(out, zz(id as i64));
        }
        *last = id;
    }
    pub fn list_header(&mut self, out: &mut Vec<u8>, n: usize, wt: u8) {
        let p = self.long_list;
        if n < 15 && !self.chance(p) {
            out.push((n as u8) * 16 + wt);
        } else {
            out.push(0xF0 + wt);
            self.varint(out, n as u64);
        }
    }
    pub fn ser(&mut self, out: &mut Vec<u8>, w: &W) {
        match w {
            W::Hdr => {}
            W::Byte(b) => out.push(*b),
            W::Var(v) => self.varint(out, *v),
            W::Dbl(b) => out.extend_from_slice(&b.to_le_bytes()),
            W::Bin(b) => {
                self.varint(out, b.len() as u64);
                out.extend_from_slice(b);
            }
            W::List(wt, es) => {
                let mut t = *wt;
                let p = self.bool_alt;
                let is_bool = t == 1 || t == 2;
                if is_bool && self.chance(p) {
                    t = 1;
                }
                self.list_header(out, es.len(), t);
                for e in es {
                    if is_bool && *e == W::Byte(2) && self.chance(p) {
                        out.push(0);
                    } else {
                        self.ser(out, e);
                    }
                }
            }
            W::Map(k, v, es) => {
                self.varint(out, es.len() as u64);
                if !es.is_empty() {
                    out.push(k * 16 + v);
                }
                for (a, b) in es {
                    self.ser(out, a);
                    self.ser(out, b);
                }
            }
            W::Struct(fs) => {
                let mut last = 0i16;
                for f in fs {
                    self.header(out, &mut last, f.id, f.wt);
                    self.ser(out, &f.w);
                }
                out.push(0);
            }
            W::Raw(b) => out.extend_from_slice(b),
        }
    }
    pub fn bytes(&mut self, w: &W) -> Vec<u8> {
        let mut out = vec![];
        self.ser(&mut out, w);
        out
    }
}

pub fn canon(ty: &Ty, v: &Val) -> Vec<u8> {
    Ser::canon().bytes(&to_wire(ty, v))
}

/// Fills in the fields of a struct value in declaration order (used after shuffles).
#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Eof,
    Type,
    Utf8,
    Limit,
    Range,
    Missing(String),
    Dup,
    UnionEmpty,
    UnionUnknown(String),
    UnionStop,
    /// invalid or valid depending on choices the specification leaves open
    Gray,
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

type R<T> = Result<T, Bad>;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, pos: 0 }
    }
    fn byte(&mut self) -> R<u8> {
        let r = *self.b.get(self.pos).ok_or(Bad::Eof)?;
        self.pos += 1;
        Ok(r)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.pos < n {
            return Err(Bad::Eof);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    /// 64-bit varint; longer than ten bytes or overflowing: unspecified
    fn var(&mut self) -> R<u64> {
        let mut v: u128 = 0;
        let mut n = 0;
        loop {
            let x = self.byte()?;
            n += 1;
            if n <= 10 {
                v += ((x & 127) as u128) << (7 * (n - 1));
            }
            if x < 128 {
                break;
            }
        }
        if n > 10 || v > u64::MAX as u128 { Err(Bad::Gray) } else { Ok(v as u64) }
    }
    fn skip_var(&mut self) -> R<()> {
        while self.byte()? >= 128 {}
        Ok(())
    }
    fn int(&mut self, bits: u32) -> R<i64> {
        let u = self.var()?;
        if bits < 64 && u >> bits != 0 {
            return Err(Bad::Gray);
        }
        Ok(unzz(u))
    }
    /// (0, _) is stop
    pub fn header(&mut self, last: &mut i16) -> R<u8> {
        let h = self.byte()?;
        if h == 0 {
            return Ok(0);
        }
        let d = h >> 4;
        if d == 0 {
            *last = self.int(16)? as i16;
        } else {
            let n = *last as i32 + d as i32;
            if h & 15 == 0 {
                return Err(Bad::Gray);
            }
            if n > 32767 {
                return Err(Bad::Range);
            }
            *last = n as i16;
        }
        Ok(h & 15)
    }
    fn list_header(&mut self) -> R<(u64, u8)> {
        let h = self.byte()?;
        let n = if h >> 4 == 15 { self.var()? } else { (h >> 4) as u64 };
        if n > MAX_COLL {
            return Err(Bad::Limit);
        }
        Ok((n, h & 15))
    }
    pub fn bin(&mut self) -> R<&'a [u8]> {
        let n = self.var()?;
        if n > MAX_BIN {
            return Err(Bad::Limit);
        }
        self.take(n as usize)
    }
    pub fn dec(&mut self, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Bool => match self.byte()? {
                1 => Val::Bool(true),
                0 | 2 => Val::Bool(false),
                _ => return Err(Bad::Gray),
            },
            Ty::I8 => Val::I8(self.byte()? as i8),
            Ty::I16 => Val::I16(self.int(16)? as i16),
            Ty::I32 => Val::I32(self.int(32)? as i32),
            Ty::I64 => Val::I64(self.int(64)?),
            Ty::F64 => Val::F64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            Ty::Bin => Val::Bin(self.bin()?.to_vec()),
            Ty::Str => Val::Str(std::str::from_utf8(self.bin()?).map_err(|_| Bad::Utf8)?.to_string()),
            Ty::EncSet => {
                let (n, t) = self.list_header()?;
                if t != 5 {
                    return Err(if n == 0 { Bad::Gray } else { Bad::Type });
                }
                let mut m = 0u32;
                for _ in 0..n {
                    let i = self.int(32)?;
                    if !(0..=30).contains(&i) {
                        return Err(Bad::Range);
                    }
                    m |= 1 << i;
                }
                Val::EncSet(m)
            }
            Ty::List(e) => {
                let (n, t) = self.list_header()?;
                if t != e.wt() && !(**e == Ty::Bool && t == 1) {
                    return Err(if n == 0 { Bad::Gray } else { Bad::Type });
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.dec(e)?);
                }
                Val::List(v)
            }
            Ty::Struct(s) => {
                let mut last = 0i16;
                let mut got: Vec<Option<Val>> = s.fields.iter().map(|_| None).collect();
                loop {
                    let wt = self.header(&mut last)?;
                    if wt == 0 {
                        break;
                    }
                    match s.fields.iter().position(|f| f.id == last) {
                        None => self.skip(wt, false, MAX_SKIP_DEPTH)?,
                        Some(i) => {
                            if got[i].is_some() {
                                return Err(if s.fields[i].required { Bad::Gray } else { Bad::Dup });
                            }
                            got[i] = Some(self.field(&s.fields[i].ty, wt)?);
                        }
                    }
                }
                let mut out = vec![];
                for (f, g) in s.fields.iter().zip(got) {
                    match g {
                        Some(v) => out.push((f.id, v)),
                        None if f.required => return Err(Bad::Missing(format!("{}::{}", s.name, f.name))),
                        None => {}
                    }
                }
                Val::Struct(out)
            }
            Ty::Union(s) => {
                let mut last = 0i16;
                let wt = self.header(&mut last)?;
                if wt == 0 {
                    return Err(Bad::UnionEmpty);
                }
                let f = s.field(last).ok_or_else(|| Bad::UnionUnknown(s.name.to_string()))?;
                let v = self.field(&f.ty, wt)?;
                if self.byte()? != 0 {
                    return Err(Bad::UnionStop);
                }
                Val::Union(last, Box::new(v))
            }
        })
    }
    fn field(&mut self, ty: &Ty, wt: u8) -> R<Val> {
        if *ty == Ty::Bool {
            return match wt {
                1 => Ok(Val::Bool(true)),
                2 => Ok(Val::Bool(false)),
                _ => Err(Bad::Type),
            };
        }
        if wt != ty.wt() {
            return Err(Bad::Type);
        }
        self.dec(ty)
    }
    pub fn skip(&mut self, wt: u8, in_coll: bool, depth: u32) -> R<()> {
        match wt {
            1 | 2 => {
                if in_coll {
                    self.byte()?;
                }
            }
            3 => {
                self.byte()?;
            }
            4..=6 => self.skip_var()?,
            7 => {
                self.take(8)?;
            }
            8 => {
                self.bin()?;
            }
            9..=12 if depth == 0 => return Err(Bad::Gray),
            9 | 10 => {
                let (n, t) = self.list_header()?;
                if n == 0 && !(1..=12).contains(&t) {
                    return Err(Bad::Gray);
                }
                for _ in 0..n {
                    self.skip(t, true, depth - 1)?;
                }
            }
            11 => {
                let n = self.var()?;
                if n > 0 {
                    // the size limit and the type byte may be examined in either order
                    if n > MAX_COLL {
                        return Err(if self.pos < self.b.len() { Bad::Limit } else { Bad::Gray });
                    }
                    let t = self.byte()?;
                    for _ in 0..n {
                        self.skip(t >> 4, true, depth - 1)?;
                        self.skip(t & 15, true, depth - 1)?;
                    }
                }
            }
            12 => {
                let mut last = 0i16;
                loop {
                    let t = self.header(&mut last)?;
                    if t == 0 {
                        break;
                    }
                    self.skip(t, false, depth - 1)?;
                }
            }
            13 => return Err(Bad::Gray), // uuid in newer protocol versions
            _ => return Err(Bad::Type),
        }
        Ok(())
    }
}

pub fn ref_decode(ty: &Ty, b: &[u8]) -> Result<(Val, usize), Bad> {
    let mut d = Dec::new(b);
    let v = d.dec(ty)?;
    Ok((v, d.pos))
}

pub fn ref_skip(wt: u8, b: &[u8]) -> Result<usize, Bad> {
    let mut d = Dec::new(b);
    d.skip(wt, false, MAX_SKIP_DEPTH)?;
    Ok(d.pos)
}
