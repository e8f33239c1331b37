//! Conversion between the Rust types under test and the model. The *type* of a field in the model
//! comes from the schema tokens (`mty!`), never from the Rust type, so that a field whose Rust type
//! deviates shows up as a differing value.
use crate::model::*;
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

pub trait HasTy {
    fn ty() -> Ty;
}

pub trait ToVal {
    fn to_val(&self) -> Val;
    /// as the content of a field; None when an optional is absent
    fn to_opt(&self) -> Option<Val> {
        Some(self.to_val())
    }
}

pub trait FromVal: Sized {
    fn from_val(v: &Val) -> Self;
    fn from_opt(v: Option<&Val>) -> Self;
}

fn as_int(v: &Val) -> i64 {
    match v {
        Val::I8(i) => *i as i64,
        Val::I16(i) => *i as i64,
        Val::I32(i) => *i as i64,
        Val::I64(i) => *i,
        Val::Bool(b) => *b as i64,
        _ => 0,
    }
}

macro_rules! scalar {
    ($($t:ty, $to:expr, $from:expr;)*) => { $(
        impl ToVal for $t { fn to_val(&self) -> Val { ($to)(self) } }
        impl FromVal for $t {
            fn from_val(v: &Val) -> Self { ($from)(v) }
            fn from_opt(v: Option<&Val>) -> Self { v.map(Self::from_val).unwrap_or_default() }
        }
    )* }
}

fn as_str(v: &Val) -> &str {
    if let Val::Str(s) = v { s } else { "" }
}

scalar! {
    bool, |x: &bool| Val::Bool(*x), |v: &Val| as_int(v) != 0;
    i8, |x: &i8| Val::I8(*x), |v| as_int(v) as i8;
    i16, |x: &i16| Val::I16(*x), |v| as_int(v) as i16;
    i32, |x: &i32| Val::I32(*x), |v| as_int(v) as i32;
    i64, |x: &i64| Val::I64(*x), as_int;
    f64, |x: &f64| Val::F64(x.to_bits()), |v: &Val| if let Val::F64(b) = v { f64::from_bits(*b) } else { 0.0 };
    String, |x: &String| Val::Str(x.clone()), |v| as_str(v).to_string();
    Box<str>, |x: &Box<str>| Val::Str(x.to_string()), |v| Box::from(as_str(v));
    Rc<str>, |x: &Rc<str>| Val::Str(x.to_string()), |v| Rc::from(as_str(v));
    Arc<str>, |x: &Arc<str>| Val::Str(x.to_string()), |v| Arc::from(as_str(v));
    Cow<'_, str>, |x: &Cow<str>| Val::Str(x.to_string()), |v| Cow::Owned(as_str(v).to_string());
    Cow<'_, [u8]>, |x: &Cow<[u8]>| Val::Bin(x.to_vec()), |v: &Val| if let Val::Bin(b) = v { Cow::Owned(b.clone()) } else { Cow::Borrowed(&[][..]) };
}

/// `new` of a declared struct, called with the values of the fields in the order of declaration
pub trait Make: Sized {
    fn make(v: &Val) -> Option<Self>;
}
/// pins the type of an argument of `new` to that of the field
pub fn like<T>(_: &T, v: T) -> T {
    v
}

/// enum constants: name, value in the code, value in the definition
pub trait Consts {
    const CONSTS: &'static [(&'static str, i32, i32)];
}

/// `Vec<u8>` is binary, every other `Vec` a list.
pub trait Elem: Sized {
    fn vec_val(v: &[Self]) -> Val;
    fn vec_from(v: &Val) -> Vec<Self>;
}
impl Elem for u8 {
    fn vec_val(v: &[u8]) -> Val {
        Val::Bin(v.to_vec())
    }
    fn vec_from(v: &Val) -> Vec<u8> {
        match v {
            Val::Bin(b) => b.clone(),
            Val::List(l) => l.iter().map(|x| as_int(x) as u8).collect(),
            _ => vec![],
        }
    }
}
impl<T: ToVal + FromVal> Elem for T {
    fn vec_val(v: &[T]) -> Val {
        Val::List(v.iter().map(|x| x.to_val()).collect())
    }
    fn vec_from(v: &Val) -> Vec<T> {
        if let Val::List(l) = v { l.iter().map(T::from_val).collect() } else { vec![] }
    }
}
impl<T: Elem> ToVal for Vec<T> {
    fn to_val(&self) -> Val {
        T::vec_val(self)
    }
}
impl<T: Elem> FromVal for Vec<T> {
    fn from_val(v: &Val) -> Self {
        T::vec_from(v)
    }
    fn from_opt(v: Option<&Val>) -> Self {
        v.map(Self::from_val).unwrap_or_default()
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(&self) -> Val {
        match self {
            Some(x) => x.to_val(),
            None => Val::Str("absent".into()),
        }
    }
    fn to_opt(&self) -> Option<Val> {
        self.as_ref().map(|x| x.to_val())
    }
}
impl<T: FromVal> FromVal for Option<T> {
    fn from_val(v: &Val) -> Self {
        Some(T::from_val(v))
    }
    fn from_opt(v: Option<&Val>) -> Self {
        v.map(T::from_val)
    }
}
macro_rules! boxed {
    ($($b:ident)*) => { $(
        impl<T: ToVal> ToVal for $b<T> { fn to_val(&self) -> Val { (**self).to_val() } }
        impl<T: FromVal> FromVal for $b<T> {
            fn from_val(v: &Val) -> Self { $b::new(T::from_val(v)) }
            fn from_opt(v: Option<&Val>) -> Self { $b::new(T::from_opt(v)) }
        }
    )* }
}
boxed!(Box Rc Arc);

pub fn lookup(fs: &Val, id: i16) -> Option<&Val> {
    match fs {
        Val::Struct(v) => v.iter().find(|(i, _)| *i == id).map(|(_, x)| x),
        _ => None,
    }
}

#[macro_export]
macro_rules! mty {
    (bool) => { $crate::model::Ty::Bool };
    (byte) => { $crate::model::Ty::I8 };
    (i8) => { $crate::model::Ty::I8 };
    (i16) => { $crate::model::Ty::I16 };
    (i32) => { $crate::model::Ty::I32 };
    (i64) => { $crate::model::Ty::I64 };
    (double) => { $crate::model::Ty::F64 };
    (binary) => { $crate::model::Ty::Bin };
    (string) => { $crate::model::Ty::Str };
    (String) => { $crate::model::Ty::Str };
    (str) => { $crate::model::Ty::Str };
    (EncodingSet) => { $crate::model::Ty::EncSet };
    (list $e:ident) => { $crate::model::Ty::List(std::sync::Arc::new($crate::mty!($e))) };
    (Box $e:ident) => { $crate::mty!($e) };
    (Rc $e:ident) => { $crate::mty!($e) };
    (Arc $e:ident) => { $crate::mty!($e) };
    ($o:ident) => { <$o as $crate::traits::HasTy>::ty() };
}

#[macro_export]
macro_rules! mreq {
    (required) => { true };
    (optional) => { false };
}

/// Descriptor and conversions for types that exist already.
#[macro_export]
macro_rules! model {
    () => {};
    (struct $n:ident { $($id:literal : $req:ident $ft:ident $(< $et:ident >)? $f:ident;)* } $($rest:tt)*) => {
        impl $crate::traits::HasTy for $n {
            fn ty() -> $crate::model::Ty {
                static T: std::sync::OnceLock<$crate::model::Ty> = std::sync::OnceLock::new();
                T.get_or_init(|| $crate::model::Ty::Struct(std::sync::Arc::new($crate::model::StructTy {
                    name: stringify!($n),
                    fields: vec![$($crate::model::FieldTy {
                        id: $id, name: stringify!($f), required: $crate::mreq!($req), ty: $crate::mty!($ft $($et)?) }),*],
                }))).clone()
            }
        }
        impl $crate::traits::Make for $n {
            #[allow(unused_variables)]
            fn make(v: &$crate::model::Val) -> Option<Self> {
                let d = Self::default();
                Some(Self::new($($crate::traits::like(&d.$f, $crate::traits::FromVal::from_opt($crate::traits::lookup(v, $id)))),*))
            }
        }
        impl $crate::traits::ToVal for $n {
            fn to_val(&self) -> $crate::model::Val {
                #[allow(unused_mut)]
                let mut v: Vec<(i16, $crate::model::Val)> = vec![];
                $(if let Some(x) = $crate::traits::ToVal::to_opt(&self.$f) { v.push(($id, x)); })*
                $crate::model::Val::Struct(v)
            }
        }
        impl $crate::traits::FromVal for $n {
            #[allow(unused_variables, unused_mut)]
            fn from_val(v: &$crate::model::Val) -> Self {
                let mut s = Self::default();
                $(s.$f = $crate::traits::FromVal::from_opt($crate::traits::lookup(v, $id));)*
                s
            }
            fn from_opt(v: Option<&$crate::model::Val>) -> Self {
                v.map(Self::from_val).unwrap_or_default()
            }
        }
        $crate::model! { $($rest)* }
    };
    (union $n:ident { $($id:literal : $ft:ident $(< $et:ident >)? $f:ident;)* } $($rest:tt)*) => {
        impl $crate::traits::HasTy for $n {
            fn ty() -> $crate::model::Ty {
                static T: std::sync::OnceLock<$crate::model::Ty> = std::sync::OnceLock::new();
                T.get_or_init(|| $crate::model::Ty::Union(std::sync::Arc::new($crate::model::StructTy {
                    name: stringify!($n),
                    fields: vec![$($crate::model::FieldTy {
                        id: $id, name: stringify!($f), required: false, ty: $crate::mty!($ft $($et)?) }),*],
                }))).clone()
            }
        }
        impl $crate::traits::Make for $n {
            fn make(_: &$crate::model::Val) -> Option<Self> { None }
        }
        impl $crate::traits::ToVal for $n {
            fn to_val(&self) -> $crate::model::Val {
                match self {
                    $(Self::$f(x) => $crate::model::Val::Union($id, Box::new($crate::traits::ToVal::to_val(x))),)*
                }
            }
        }
        impl $crate::traits::FromVal for $n {
            fn from_val(v: &$crate::model::Val) -> Self {
                match v {
                    $($crate::model::Val::Union($id, x) => Self::$f($crate::traits::FromVal::from_val(x)),)*
                    _ => Self::default(),
                }
            }
            fn from_opt(v: Option<&$crate::model::Val>) -> Self {
                v.map(Self::from_val).unwrap_or_default()
            }
        }
        $crate::model! { $($rest)* }
    };
    (enum $n:ident { $($c:ident = $v:literal;)* } $($rest:tt)*) => {
        impl $crate::traits::HasTy for $n {
            fn ty() -> $crate::model::Ty { $crate::model::Ty::I32 }
        }
        impl $crate::traits::Consts for $n {
            const CONSTS: &'static [(&'static str, i32, i32)] = &[$((stringify!($c), $n::$c.0, $v)),*];
        }
        impl $crate::traits::Make for $n {
            fn make(_: &$crate::model::Val) -> Option<Self> { None }
        }
        impl $crate::traits::ToVal for $n {
            fn to_val(&self) -> $crate::model::Val { $crate::model::Val::I32(self.0 as i32) }
        }
        impl $crate::traits::FromVal for $n {
            fn from_val(v: &$crate::model::Val) -> Self { $n($crate::traits::FromVal::from_val(v)) }
            fn from_opt(v: Option<&$crate::model::Val>) -> Self { v.map(Self::from_val).unwrap_or_default() }
        }
        $crate::model! { $($rest)* }
    };
}

/// Declare with the macro under test and describe for the model from the same tokens.
#[macro_export]
macro_rules! zoo {
    ($($t:tt)*) => {
        compact_thrift_runtime::thrift! { $($t)* }
        $crate::model! { $($t)* }
    };
}
