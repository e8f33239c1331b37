use compact_thrift_runtime::ThriftError;
use std::io::ErrorKind;

#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    Number,
    Str,
    BinLen(usize),
    CollLen,
    MissingField(String),
    MissingValue,
    MissingStop,
    Dup,
    Type,
    Reserve,
    Io(ErrorKind),
    Other(String),
}

#[allow(unreachable_patterns)]
pub fn er(e: ThriftError) -> Er {
    match e {
        ThriftError::InvalidNumber => Er::Number,
        ThriftError::InvalidString => Er::Str,
        ThriftError::InvalidBinaryLen(n) => Er::BinLen(n),
        ThriftError::InvalidCollectionLen => Er::CollLen,
        ThriftError::MissingField(f) => Er::MissingField(f.to_string()),
        ThriftError::MissingValue => Er::MissingValue,
        ThriftError::MissingStop => Er::MissingStop,
        ThriftError::DuplicateField => Er::Dup,
        ThriftError::InvalidType => Er::Type,
        ThriftError::ReserveError => Er::Reserve,
        ThriftError::IO(k) => Er::Io(k),
        e => Er::Other(format!("{e:?}")),
    }
}

pub const EOF: Er = Er::Io(ErrorKind::UnexpectedEof);
