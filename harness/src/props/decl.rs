//! C23: generated types follow their declaration.
use super::*;
use crate::traits::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

struct Decl {
    name: &'static str,
    ty: Ty,
    default: fn() -> Val,
    make: fn(&Val) -> Option<Val>,
    /// both directions of ==, both of !=
    eq: fn(&Val, &Val) -> [bool; 4],
    /// the original and the clone after the other one was replaced and dropped
    cloned: fn(&Val, &Val) -> [Val; 3],
    debug: fn(&Val) -> (String, String),
}

trait D: P + Make + Clone + PartialEq + Debug {}
impl<T: P + Make + Clone + PartialEq + Debug> D for T {}

fn default<T: D>() -> Val {
    T::default().to_val()
}
fn make<T: D>(v: &Val) -> Option<Val> {
    T::make(v).map(|x| x.to_val())
}
fn eq<T: D>(a: &Val, b: &Val) -> [bool; 4] {
    let (a, b) = (T::from_val(a), T::from_val(b));
    [a == b, b == a, !(a != b), !(b != a)]
}
fn cloned<T: D>(a: &Val, b: &Val) -> [Val; 3] {
    let mut x = T::from_val(a);
    let c = x.clone();
    let before = c.to_val();
    x = T::from_val(b);
    let other = x.to_val();
    drop(x);
    [before, other, c.to_val()]
}
fn debug<T: D>(a: &Val) -> (String, String) {
    let x = T::from_val(a);
    (format!("{x:?}"), format!("{:?}", x.clone()))
}

fn decls() -> &'static [Decl] {
    static T: OnceLock<Vec<Decl>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        macro_rules! add {
            ($($t:ident)*) => { $( v.push(Decl {
                name: stringify!($t), ty: <$t as HasTy>::ty(), default: default::<$t>, make: make::<$t>, eq: eq::<$t>, cloned: cloned::<$t>, debug: debug::<$t> }); )* }
        }
        use crate::zoo::*;
        add!(Color Empty Small Pair U V UnitOnly AllReq AllOpt Flags Gaps Unordered Lists Lists2 Boxed Strs Inner3 Inner2 Outer OneReq Manyreq Wide1 Wide2 Wide3 Many ManyU Large QuarterlyReportOfTheNorthOfficeReportOfTheSouthOfficeReportOfTheEastOfficeReportOfTheWestOfficeReportOfTheCentralOfficeReportOfTheOverseasOfficeReportOfTheTemporaryOffice AlternativesOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElse);
        #[cfg(feature = "byte")]
        add!(Bytes);
        #[cfg(feature = "pq")]
        {
            use compact_thrift_parquet::format::*;
            add!(Type ConvertedType FieldRepetitionType EdgeInterpolationAlgorithm Encoding CompressionCodec PageType BoundaryOrder
                SizeStatistics BoundingBox GeospatialStatistics VariantType GeometryType GeographyType Statistics
                StringType UUIDType MapType ListType EnumType DateType Float16Type NullType DecimalType
                MilliSeconds MicroSeconds NanoSeconds TimeUnit TimestampType TimeType IntType JsonType BsonType
                LogicalType SchemaElement DataPageHeader IndexPageHeader DictionaryPageHeader DataPageHeaderV2
                SplitBlockAlgorithm BloomFilterAlgorithm XxHash BloomFilterHash Uncompressed BloomFilterCompression BloomFilterHeader
                PageHeader KeyValue SortingColumn PageEncodingStats ColumnMetaData EncryptionWithFooterKey EncryptionWithColumnKey
                ColumnCryptoMetaData ColumnChunk RowGroup TypeDefinedOrder ColumnOrder PageLocation OffsetIndex ColumnIndex
                AesGcmV1 AesGcmCtrV1 EncryptionAlgorithm FileMetaData FileCryptoMetaData);
        }
        v
    })
}

/// what Default must give
pub fn default_of(ty: &Ty) -> Val {
    match ty {
        Ty::Bool => Val::Bool(false),
        Ty::I8 => Val::I8(0),
        Ty::I16 => Val::I16(0),
        Ty::I32 => Val::I32(0),
        Ty::I64 => Val::I64(0),
        Ty::F64 => Val::F64(0),
        Ty::Bin => Val::Bin(vec![]),
        Ty::Str => Val::Str(String::new()),
        Ty::EncSet => Val::EncSet(0),
        Ty::List(_) => Val::List(vec![]),
        Ty::Struct(s) => Val::Struct(s.fields.iter().filter(|f| f.required).map(|f| (f.id, default_of(&f.ty))).collect()),
        Ty::Union(s) => Val::Union(s.fields[0].id, Box::new(default_of(&s.fields[0].ty))),
    }
}

/// what == must give: equal contents, doubles compared as numbers
pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F64(x), Val::F64(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Val::Struct(x), Val::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.0 == y.0 && same(&x.1, &y.1)),
        (Val::Union(i, x), Val::Union(j, y)) => i == j && same(x, y),
        _ => a == b,
    }
}

/// a small change somewhere in `v`
pub fn tweak(rng: &mut Rng, ty: &Ty, v: &mut Val) {
    match (ty, v) {
        (Ty::List(e), Val::List(l)) => {
            if !l.is_empty() && rng.p(70) {
                let k = rng.idx(l.len());
                match rng.below(8) {
                    0 => {
                        l.remove(k);
                    }
                    1 => {
                        let j = rng.idx(l.len());
                        l.swap(j, k);
                    }
                    _ => tweak(rng, e, &mut l[k]),
                }
            } else {
                l.push(small_val(rng, e));
            }
        }
        (Ty::Struct(s), Val::Struct(fs)) => {
            if s.fields.is_empty() {
                return;
            }
            let k = rng.idx(s.fields.len());
            let f = &s.fields[k];
            match fs.iter().position(|(i, _)| *i == f.id) {
                Some(p) if !f.required && rng.p(30) => {
                    fs.remove(p);
                }
                Some(p) => tweak(rng, &f.ty, &mut fs[p].1),
                None => {
                    let at = fs.iter().filter(|(i, _)| s.fields.iter().position(|g| g.id == *i).unwrap() < k).count();
                    fs.insert(at, (f.id, if rng.p(50) { default_of(&f.ty) } else { small_val(rng, &f.ty) }));
                }
            }
        }
        (Ty::Union(s), Val::Union(id, x)) => {
            if rng.p(60) {
                tweak(rng, &s.field(*id).unwrap().ty, x)
            } else {
                let f = rng.pick(&s.fields);
                *id = f.id;
                **x = small_val(rng, &f.ty);
            }
        }
        (_, Val::Bool(b)) => *b = !*b,
        (_, Val::I8(i)) => *i ^= 1 << rng.below(8),
        (_, Val::I16(i)) => *i ^= 1 << rng.below(16),
        (_, Val::I32(i)) => *i ^= 1 << rng.below(32),
        (_, Val::I64(i)) => *i ^= 1 << rng.below(64),
        (_, Val::F64(b)) => match rng.below(4) {
            0 => *b ^= 1 << 63,
            1 => *b = f64::NAN.to_bits(),
            _ => *b ^= 1 << rng.below(64),
        },
        (_, Val::Bin(b)) => match b.is_empty() || rng.p(30) {
            true => b.push(rng.u64() as u8),
            // the same bytes in another order, or with the same sum
            false if rng.p(60) => {
                let (k, j) = (rng.idx(b.len()), rng.idx(b.len()));
                b.swap(k, j);
            }
            false if rng.p(60) => {
                let (k, j) = (rng.idx(b.len()), rng.idx(b.len()));
                b[k] = b[k].wrapping_add(1);
                b[j] = b[j].wrapping_sub(1);
            }
            false => {
                let k = rng.idx(b.len());
                b[k] ^= 1 << rng.below(8)
            }
        },
        (_, Val::Str(s)) => match s.is_empty() || rng.p(50) {
            true => s.push('\0'),
            false if rng.p(60) => {
                s.pop();
            }
            // the same characters in another order
            false if rng.p(80) => {
                let mut l: Vec<char> = s.chars().collect();
                let (k, j) = (rng.idx(l.len()), rng.idx(l.len()));
                match rng.below(3) {
                    0 => l.reverse(),
                    1 => l.rotate_left(k),
                    _ => l.swap(k, j),
                }
                *s = l.into_iter().collect();
            }
            false => {
                // another character of the same size
                let k = rng.idx(s.chars().count());
                *s = s.chars().enumerate().map(|(i, c)| if i == k { char::from_u32(c as u32 ^ 1).filter(|d| d.len_utf8() == c.len_utf8()).unwrap_or('~') } else { c }).collect();
            }
        },
        (_, Val::EncSet(m)) => *m ^= 1 << rng.below(31),
        _ => {}
    }
}

fn vhash(name: &str, v: &Val) -> u64 {
    hash_bytes(hash_bytes(17, name.as_bytes()), format!("{v:?}").as_bytes())
}

/// every name the declaration gives to what is present must occur in the Debug text, in order
fn names(ty: &Ty, v: &Val, out: &mut Vec<&'static str>) {
    match (ty, v) {
        (Ty::Struct(s), Val::Struct(fs)) => {
            out.push(s.name);
            for f in &s.fields {
                out.push(f.name);
                if let Some((_, x)) = fs.iter().find(|(i, _)| *i == f.id) {
                    names(&f.ty, x, out);
                }
            }
        }
        (Ty::Union(s), Val::Union(id, x)) => {
            let f = s.field(*id).unwrap();
            out.push(f.name);
            names(&f.ty, x, out);
        }
        (Ty::List(e), Val::List(l)) => l.iter().for_each(|x| names(e, x, out)),
        _ => {}
    }
}

pub fn c23(t: bool) -> Vec<Stage> {
    let n = decls().len() as u64;
    vec![
        stage("defaults", n, |c| {
            let d = &decls()[c.idx as usize];
            let (got, want) = ((d.default)(), default_of(&d.ty));
            ensure!(got == want, "{}::default() is {} instead of {}", d.name, show(&got), show(&want));
            c.eval(hash_bytes(1, d.name.as_bytes()));
            c.sample(|| format!("{}::default() is {}", d.name, show(&got)));
            Ok(())
        }),
        // each argument of `new` alone, and all that are distinguishable together
        stage("construct", q(t, 40_000, 2_000_000), |c| {
            let d = &decls()[c.rng.idx(decls().len())];
            let Ty::Struct(s) = &d.ty else {
                c.eval_trivial();
                return Ok(());
            };
            let v = match c.rng.below(3) {
                0 if !s.fields.is_empty() => {
                    // the default everywhere but in one field
                    let k = c.rng.idx(s.fields.len());
                    Val::Struct(
                        s.fields
                            .iter()
                            .enumerate()
                            .filter(|(i, f)| f.required || *i == k)
                            .map(|(i, f)| (f.id, if i == k { small_val(&mut c.rng, &f.ty) } else { default_of(&f.ty) }))
                            .collect(),
                    )
                }
                1 => any_val(&mut c.rng, &d.ty),
                _ => small_val(&mut c.rng, &d.ty),
            };
            let got = (d.make)(&v).ok_or("harness: no constructor")?;
            ensure!(got == v, "{}::new with the fields of {} gives {}", d.name, show(&v), show(&got));
            c.count("constructors called", 1);
            c.eval(vhash(d.name, &v));
            Ok(())
        }),
        stage("equality", q(t, 80_000, 3_000_000), |c| {
            let d = &decls()[c.rng.idx(decls().len())];
            let a = small_val(&mut c.rng, &d.ty);
            let mut b = a.clone();
            for _ in 0..c.rng.below(3) {
                tweak(&mut c.rng, &d.ty, &mut b);
            }
            let want = same(&a, &b);
            let got = (d.eq)(&a, &b);
            ensure!(got == [want; 4], "{}: == between {} and {} gives {got:?} instead of {want}", d.name, show(&a), show(&b));
            c.count(if want { "equal pairs" } else { "unequal pairs" }, 1);
            let [x, y, z] = (d.cloned)(&a, &b);
            ensure!(x == a, "{}: the clone of {} is {}", d.name, show(&a), show(&x));
            ensure!(y == b, "{}: assigning {} gives {}", d.name, show(&b), show(&y));
            ensure!(z == a, "{}: replacing the original of {} changed its clone to {}", d.name, show(&a), show(&z));
            c.eval(mix(vhash(d.name, &a), vhash(d.name, &b)));
            Ok(())
        }),
        stage("debug-text", q(t, 20_000, 500_000), |c| {
            let d = &decls()[c.rng.idx(decls().len())];
            let a = small_val(&mut c.rng, &d.ty);
            let (x, y) = (d.debug)(&a);
            ensure!(x == y, "{}: a clone prints differently: {x} and {y}", d.name);
            let mut ns = vec![];
            names(&d.ty, &a, &mut ns);
            let mut rest = x.as_str();
            for n in &ns {
                match rest.find(n) {
                    Some(p) => rest = &rest[p + n.len()..],
                    None => return Err(format!("{}: the Debug text {x} of {} lacks {n}", d.name, show(&a))),
                }
            }
            c.eval(mix(5, vhash(d.name, &a)));
            Ok(())
        }),
        stage("enums", q(t, 2_000, 200_000), |c| {
            fn each<T>(c: &mut Ctx, name: &str, num: fn(&T) -> i32) -> R
            where
                T: From<i32> + Consts + Copy + Eq + Ord + Hash + Default + Debug + ToVal,
            {
                for (n, code, decl) in T::CONSTS {
                    ensure!(code == decl, "{name}::{n} is {code} instead of {decl}");
                    c.eval(hash_bytes(hash_bytes(9, name.as_bytes()), n.as_bytes()));
                }
                ensure!(num(&T::default()) == 0, "{name}::default() is {:?}", T::default());
                let pick = |c: &mut Ctx| match c.rng.below(4) {
                    0 => c.rng.int(32) as i32,
                    1 => T::CONSTS[c.rng.idx(T::CONSTS.len())].2,
                    2 => *c.rng.pick(&[i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX - 1, i32::MAX]),
                    _ => c.rng.range(-40, 40) as i32,
                };
                let (i, j) = (pick(c), pick(c));
                let (a, b) = (T::from(i), T::from(j));
                ensure!(num(&a) == i && num(&b) == j, "{name}::from({i}) is {a:?}, from({j}) is {b:?}");
                let copy = a;
                ensure!(copy == a && num(&a.clone()) == i, "{name}: a copy of {a:?} differs");
                ensure!((a == b) == (i == j) && (a != b) == (i != j), "{name}: equality of {a:?} and {b:?}");
                ensure!(a.cmp(&b) == i.cmp(&j) && a.partial_cmp(&b) == i.partial_cmp(&j), "{name}: order of {a:?} and {b:?}");
                ensure!(a.max(b) == T::from(i.max(j)) && (a < b) == (i < j) && (a >= b) == (i >= j), "{name}: comparison of {a:?} and {b:?}");
                let h = |x: &T| {
                    let mut h = DefaultHasher::new();
                    x.hash(&mut h);
                    h.finish()
                };
                ensure!(h(&a) == h(&T::from(i)) && (i == j || h(&a) != h(&b)), "{name}: hashes of {a:?} and {b:?}");
                ensure!(format!("{a:?}").contains(&i.to_string()), "{name}: the Debug text of number {i} is {a:?}");
                c.eval(mix(mix(hash_bytes(11, name.as_bytes()), i as u64), j as u64));
                Ok(())
            }
            macro_rules! all { ($($t:ident)*) => { $( each::<$t>(c, stringify!($t), |x| x.0)?; )* } }
            use crate::zoo::*;
            all!(Color);
            #[cfg(feature = "pq")]
            {
                use compact_thrift_parquet::format::*;
                all!(Type ConvertedType FieldRepetitionType EdgeInterpolationAlgorithm Encoding CompressionCodec PageType BoundaryOrder);
            }
            Ok(())
        }),
    ]
}
