//! The table of types under test, type-erased.
use crate::er::{er, Er};
use crate::model::*;
use crate::traits::*;
use compact_thrift_runtime::*;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

pub type Outcome = Result<Val, Er>;

pub struct Target {
    pub name: &'static str,
    pub ty: Ty,
    pub pq: bool,
    /// result and number of bytes consumed (of the given slice)
    pub dec_slice: fn(&[u8]) -> (Outcome, usize),
    pub dec_read: fn(&mut dyn Read) -> Outcome,
    /// decode and drop, without conversion
    pub run_slice: fn(&[u8]) -> Result<(), ThriftError>,
    pub run_read: fn(&mut dyn Read) -> Result<(), ThriftError>,
    pub enc: fn(&Val, &mut dyn Write) -> Result<(), Er>,
    /// to a Vec, without dynamic dispatch
    pub enc_vec: fn(&Val) -> Result<Vec<u8>, Er>,
    pub enc_field: fn(&Val, i16, &mut i16, &mut dyn Write) -> Result<(), Er>,
    pub dec_field: fn(&[u8], u8) -> (Outcome, usize),
    /// fill a value populated with the first argument; result and the value afterwards
    pub refill: fn(&Val, &[u8]) -> (Result<(), Er>, Val, usize),
    /// fill with the second argument whatever the outcome, then with the third
    pub refill2: fn(&Val, &[u8], &[u8]) -> (Result<(), Er>, Val),
    /// outcome through a counting input; number of calls made to it
    pub counting: fn(&[u8]) -> (Result<(), Er>, u64),
    /// through an input and an output that implement nothing but what the traits require
    pub dec_min: fn(&[u8], bool) -> (Outcome, usize),
    pub enc_min: fn(&Val) -> Result<Vec<u8>, Er>,
    /// Rust to model and back without the code under test
    pub rebuild: fn(&Val) -> Val,
    /// decode twice, clone, compare, format: returns Debug text
    pub debug: fn(&[u8]) -> Result<String, Er>,
}

pub trait P: for<'i> CompactThriftProtocol<'i> + Default + ToVal + FromVal + 'static {}
impl<T: for<'i> CompactThriftProtocol<'i> + Default + ToVal + FromVal + 'static> P for T {}

fn dec_slice<T: P>(b: &[u8]) -> (Outcome, usize) {
    let mut i = CompactThriftInputSlice::new(b);
    let r = T::read_thrift(&mut i);
    let used = b.len() - i.as_slice().len();
    (r.map(|x| x.to_val()).map_err(er), used)
}
fn dec_read<T: P>(mut r: &mut dyn Read) -> Outcome {
    T::read_thrift(&mut r).map(|x| x.to_val()).map_err(er)
}
fn run_slice<T: P>(b: &[u8]) -> Result<(), ThriftError> {
    T::read_thrift(&mut CompactThriftInputSlice::new(b)).map(|_| ())
}
fn run_read<T: P>(mut r: &mut dyn Read) -> Result<(), ThriftError> {
    T::read_thrift(&mut r).map(|_| ())
}
fn enc<T: P>(v: &Val, mut w: &mut dyn Write) -> Result<(), Er> {
    T::from_val(v).write_thrift(&mut w).map_err(er)
}
fn enc_vec<T: P>(v: &Val) -> Result<Vec<u8>, Er> {
    let mut out = vec![];
    T::from_val(v).write_thrift(&mut out).map_err(er)?;
    Ok(out)
}
fn enc_field<T: P>(v: &Val, id: i16, last: &mut i16, mut w: &mut dyn Write) -> Result<(), Er> {
    T::from_val(v).write_thrift_field(&mut w, id, last).map_err(er)
}
fn dec_field<T: P>(b: &[u8], wt: u8) -> (Outcome, usize) {
    let mut i = CompactThriftInputSlice::new(b);
    let mut x = T::default();
    let r = x.fill_thrift_field(&mut i, wt);
    let used = b.len() - i.as_slice().len();
    (r.map(|_| x.to_val()).map_err(er), used)
}
fn refill<T: P>(v: &Val, b: &[u8]) -> (Result<(), Er>, Val, usize) {
    let mut i = CompactThriftInputSlice::new(b);
    let mut x = T::from_val(v);
    let r = x.fill_thrift(&mut i).map_err(er);
    let used = b.len() - i.as_slice().len();
    (r, x.to_val(), used)
}
fn refill2<T: P>(v: &Val, a: &[u8], b: &[u8]) -> (Result<(), Er>, Val) {
    let mut x = T::from_val(v);
    let _ = x.fill_thrift(&mut CompactThriftInputSlice::new(a));
    let r = x.fill_thrift(&mut CompactThriftInputSlice::new(b)).map_err(er);
    (r, x.to_val())
}
fn counting<T: P>(b: &[u8]) -> (Result<(), Er>, u64) {
    let mut i = CountingInput::new(b);
    let r = T::read_thrift(&mut i).map(|_| ()).map_err(er);
    (r, i.calls)
}
fn dec_min<T: P>(b: &[u8], owned: bool) -> (Outcome, usize) {
    let mut i = MinInput { data: b, pos: 0, owned };
    let r = T::read_thrift(&mut i).map(|x| x.to_val()).map_err(er);
    (r, i.pos)
}
fn enc_min<T: P>(v: &Val) -> Result<Vec<u8>, Er> {
    let mut o = MinOutput { got: vec![] };
    T::from_val(v).write_thrift(&mut o).map_err(er)?;
    Ok(o.got)
}
fn rebuild<T: P>(v: &Val) -> Val {
    T::from_val(v).to_val()
}
fn debug<T: P + std::fmt::Debug + Clone>(b: &[u8]) -> Result<String, Er> {
    let a = T::read_thrift(&mut CompactThriftInputSlice::new(b)).map_err(er)?;
    let c = a.clone();
    let s = format!("{a:?}");
    drop(a);
    let t = format!("{c:?}");
    if s != t { Err(Er::Other("a clone prints differently".into())) } else { Ok(s) }
}

fn mk<T: P + std::fmt::Debug + Clone>(name: &'static str, ty: Ty, pq: bool) -> Target {
    Target {
        name,
        ty,
        pq,
        dec_slice: dec_slice::<T>,
        dec_read: dec_read::<T>,
        run_slice: run_slice::<T>,
        run_read: run_read::<T>,
        enc: enc::<T>,
        enc_vec: enc_vec::<T>,
        enc_field: enc_field::<T>,
        dec_field: dec_field::<T>,
        refill: refill::<T>,
        refill2: refill2::<T>,
        counting: counting::<T>,
        dec_min: dec_min::<T>,
        enc_min: enc_min::<T>,
        rebuild: rebuild::<T>,
        debug: debug::<T>,
    }
}

macro_rules! table {
    ($v:ident, $pq:expr; $($t:ident)*) => { $( $v.push(mk::<$t>(stringify!($t), <$t as HasTy>::ty(), $pq)); )* }
}

pub fn list(t: Ty) -> Ty {
    Ty::List(Arc::new(t))
}

fn build() -> Vec<Target> {
    use crate::zoo::*;
    let mut v = vec![];
    // declared types
    table!(v, false; Color Empty Small Pair U V UnitOnly AllReq AllOpt Flags Gaps Unordered Lists Lists2 Boxed Strs Inner3 Inner2 Outer OneReq Manyreq Wide1 Wide2 Wide3 Many ManyU Large QuarterlyReportOfTheNorthOfficeReportOfTheSouthOfficeReportOfTheEastOfficeReportOfTheWestOfficeReportOfTheCentralOfficeReportOfTheOverseasOfficeReportOfTheTemporaryOffice AlternativesOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElse);
    #[cfg(feature = "byte")]
    table!(v, false; Bytes);
    // types usable directly
    macro_rules! direct { ($($n:literal $t:ty, $ty:expr;)*) => { $( v.push(mk::<$t>($n, $ty, false)); )* } }
    direct! {
        "bool" bool, Ty::Bool;
        "i8" i8, Ty::I8;
        "i16" i16, Ty::I16;
        "i32" i32, Ty::I32;
        "i64" i64, Ty::I64;
        "f64" f64, Ty::F64;
        "Vec<u8>" Vec<u8>, Ty::Bin;
        "String" String, Ty::Str;
        "Box<str>" Box<str>, Ty::Str;
        "Rc<str>" Rc<str>, Ty::Str;
        "Arc<str>" Arc<str>, Ty::Str;
        "Vec<bool>" Vec<bool>, list(Ty::Bool);
        "Vec<i64>" Vec<i64>, list(Ty::I64);
        "Vec<f64>" Vec<f64>, list(Ty::F64);
        "Vec<String>" Vec<String>, list(Ty::Str);
        "Vec<Vec<u8>>" Vec<Vec<u8>>, list(Ty::Bin);
        "Vec<Vec<i32>>" Vec<Vec<i32>>, list(list(Ty::I32));
        "Vec<Vec<Vec<bool>>>" Vec<Vec<Vec<bool>>>, list(list(list(Ty::Bool)));
        "Vec<Small>" Vec<Small>, list(Small::ty());
        "Vec<U>" Vec<U>, list(U::ty());
        "Vec<Vec<Inner3>>" Vec<Vec<Inner3>>, list(list(Inner3::ty()));
        "Vec<Box<bool>>" Vec<Box<bool>>, list(Ty::Bool);
        "Vec<Option<i32>>" Vec<Option<i32>>, list(Ty::I32);
        "Vec<Option<bool>>" Vec<Option<bool>>, list(Ty::Bool);
        "Vec<Rc<str>>" Vec<Rc<str>>, list(Ty::Str);
        "Vec<Arc<Small>>" Vec<Arc<Small>>, list(Small::ty());
        "Box<Vec<Option<Box<U>>>>" Box<Vec<Option<Box<U>>>>, list(U::ty());
        "Option<bool>" Option<bool>, Ty::Bool;
        "Option<Box<bool>>" Option<Box<bool>>, Ty::Bool;
        "Box<Option<Rc<bool>>>" Box<Option<Rc<bool>>>, Ty::Bool;
        "Arc<bool>" Arc<bool>, Ty::Bool;
        "Option<Small>" Option<Small>, Small::ty();
        "Box<Outer>" Box<Outer>, Outer::ty();
        "Option<Arc<Vec<i16>>>" Option<Arc<Vec<i16>>>, list(Ty::I16);
    }
    #[cfg(feature = "pq")]
    {
        use compact_thrift_parquet::format::*;
        use compact_thrift_parquet::EncodingSet;
        v.push(mk::<EncodingSet>("EncodingSet", Ty::EncSet, true));
        table!(v, true;
            Type ConvertedType FieldRepetitionType EdgeInterpolationAlgorithm Encoding CompressionCodec PageType BoundaryOrder
            SizeStatistics BoundingBox GeospatialStatistics VariantType GeometryType GeographyType Statistics
            StringType UUIDType MapType ListType EnumType DateType Float16Type NullType DecimalType
            MilliSeconds MicroSeconds NanoSeconds TimeUnit TimestampType TimeType IntType JsonType BsonType
            LogicalType SchemaElement DataPageHeader IndexPageHeader DictionaryPageHeader DataPageHeaderV2
            SplitBlockAlgorithm BloomFilterAlgorithm XxHash BloomFilterHash Uncompressed BloomFilterCompression BloomFilterHeader
            PageHeader KeyValue SortingColumn PageEncodingStats ColumnMetaData EncryptionWithFooterKey EncryptionWithColumnKey
            ColumnCryptoMetaData ColumnChunk RowGroup TypeDefinedOrder ColumnOrder PageLocation OffsetIndex ColumnIndex
            AesGcmV1 AesGcmCtrV1 EncryptionAlgorithm FileMetaData FileCryptoMetaData);
    }
    v
}

pub fn targets() -> &'static [Target] {
    static T: OnceLock<Vec<Target>> = OnceLock::new();
    T.get_or_init(build)
}

pub fn target(name: &str) -> &'static Target {
    targets().iter().find(|t| t.name == name).unwrap_or_else(|| panic!("harness: no target {name}"))
}

/// index list that gives weight to rich types
pub fn pick(rng: &mut crate::rng::Rng) -> &'static Target {
    static W: OnceLock<Vec<usize>> = OnceLock::new();
    let w = W.get_or_init(|| {
        let mut w = vec![];
        for (i, t) in targets().iter().enumerate() {
            let n = match &t.ty {
                Ty::Struct(s) if s.fields.is_empty() => 1,
                Ty::Struct(s) => 4 + s.fields.len().min(12),
                Ty::Union(s) => 3 + s.fields.len().min(12),
                Ty::List(_) => 5,
                _ => 2,
            };
            w.extend(std::iter::repeat(i).take(n));
        }
        w
    });
    &targets()[*rng.pick(w)]
}

pub fn struct_targets() -> Vec<&'static Target> {
    targets().iter().filter(|t| matches!(&t.ty, Ty::Struct(s) | Ty::Union(s) if !s.fields.is_empty())).collect()
}

/// The least a user has to write to decode from a source of their own.
pub struct MinInput<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub owned: bool,
}
impl<'a> MinInput<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], ThriftError> {
        if self.data.len() - self.pos < n {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        self.pos += n;
        Ok(&self.data[self.pos - n..self.pos])
    }
}
impl<'a> CompactThriftInput<'a> for MinInput<'a> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        Ok(self.take(1)?[0])
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        let b = self.take(8)?;
        Ok(f64::from_bits((0..8).fold(0, |x, i| x | (b[i] as u64) << (8 * i))))
    }
    fn read_binary(&mut self) -> Result<std::borrow::Cow<'a, [u8]>, ThriftError> {
        let n = self.read_len()?;
        if n > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(n));
        }
        let b = self.take(n)?;
        Ok(if self.owned { b.to_vec().into() } else { b.into() })
    }
}

/// The least a user has to write to encode into a sink of their own.
pub struct MinOutput {
    pub got: Vec<u8>,
}
impl MinOutput {
    fn varint(&mut self, mut v: u64) {
        while v >= 0x80 {
            self.got.push(v as u8 | 0x80);
            v >>= 7;
        }
        self.got.push(v as u8);
    }
}
impl CompactThriftOutput for MinOutput {
    fn write_byte(&mut self, value: u8) -> Result<(), ThriftError> {
        self.got.push(value);
        Ok(())
    }
    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {
        self.varint(value as u64);
        Ok(())
    }
    fn write_i16(&mut self, value: i16) -> Result<(), ThriftError> {
        self.varint(crate::model::zz(value as i64));
        Ok(())
    }
    fn write_i32(&mut self, value: i32) -> Result<(), ThriftError> {
        self.varint(crate::model::zz(value as i64));
        Ok(())
    }
    fn write_i64(&mut self, value: i64) -> Result<(), ThriftError> {
        self.varint(crate::model::zz(value));
        Ok(())
    }
    fn write_double(&mut self, value: f64) -> Result<(), ThriftError> {
        self.got.extend(value.to_bits().to_le_bytes());
        Ok(())
    }
    fn write_binary(&mut self, value: &[u8]) -> Result<(), ThriftError> {
        self.varint(value.len() as u64);
        self.got.extend(value);
        Ok(())
    }
}

/// A slice input that counts the calls made to it and the calls made after it reported its end.
pub struct CountingInput<'a> {
    pub inner: CompactThriftInputSlice<'a>,
    pub calls: u64,
    pub after_end: u64,
    ended: bool,
}
impl<'a> CountingInput<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        CountingInput { inner: CompactThriftInputSlice::new(b), calls: 0, after_end: 0, ended: false }
    }
    fn on<T>(&mut self, f: impl FnOnce(&mut CompactThriftInputSlice<'a>) -> Result<T, ThriftError>) -> Result<T, ThriftError> {
        self.calls += 1;
        if self.ended {
            self.after_end += 1;
            if self.after_end > 10_000 {
                panic!("ORACLE: keeps reading after the end of the input");
            }
        }
        let r = f(&mut self.inner);
        if let Err(ThriftError::IO(std::io::ErrorKind::UnexpectedEof)) = r {
            self.ended = true;
        }
        r
    }
}
impl<'a> CompactThriftInput<'a> for CountingInput<'a> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        self.on(|i| i.read_byte())
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        self.on(|i| i.read_double())
    }
    fn read_binary(&mut self) -> Result<std::borrow::Cow<'a, [u8]>, ThriftError> {
        self.on(|i| i.read_binary())
    }
    fn skip_integer(&mut self) -> Result<(), ThriftError> {
        self.on(|i| i.skip_integer())
    }
    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        self.on(|i| i.skip_binary())
    }
}
