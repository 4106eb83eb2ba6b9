use std::borrow::Cow;
use std::fmt::{Debug, Display, Formatter};
use std::str::from_utf8;
use std::vec::IntoIter;

use bounded_static::{IntoBoundedStatic, ToBoundedStatic, ToStatic};

use crate::error::{ValidationError, ValidationErrorKind};
use crate::utils::indicators::*;

/// String newtype with validation, as the original types: conversions from all string and byte
/// types, `validate`, `unvalidated`, `inner`, `into_inner`, `AsRef<str>`.
macro_rules! str_type {
    ($(#[$m:meta])* $name:ident, $validate:expr) => {
        $(#[$m])*
        #[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
        pub struct $name<'a>(pub(crate) Cow<'a, str>);
        impl Debug for $name<'_> {
            fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { write!(f, "{}({:?})", stringify!($name), self.0) }
        }
        impl<'a> $name<'a> {
            pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
                let v: fn(&[u8]) -> Result<(), ValidationError> = $validate;
                v(value.as_ref())
            }
            pub fn inner(&self) -> &str { self.0.as_ref() }
            pub fn into_inner(self) -> Cow<'a, str> { self.0 }
            pub fn as_str(&self) -> &str { self.0.as_ref() }
            pub fn unvalidated<C>(inner: C) -> Self where C: Into<Cow<'a, str>> {
                let inner = inner.into();
                #[cfg(debug_assertions)]
                Self::validate(inner.as_bytes()).unwrap();
                Self(inner)
            }
        }
        impl<'a> TryFrom<&'a [u8]> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                Ok(Self(Cow::Borrowed(std::str::from_utf8(value).map_err(|_| ValidationError::new(ValidationErrorKind::Invalid))?)))
            }
        }
        impl<'a, const N: usize> TryFrom<&'a [u8; N]> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a [u8; N]) -> Result<Self, Self::Error> { Self::try_from(&value[..]) }
        }
        impl TryFrom<Vec<u8>> for $name<'_> {
            type Error = ValidationError;
            fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                Ok(Self(Cow::Owned(String::from_utf8(value).map_err(|_| ValidationError::new(ValidationErrorKind::Invalid))?)))
            }
        }
        impl<'a> TryFrom<&'a str> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a str) -> Result<Self, Self::Error> { Self::validate(value)?; Ok(Self(Cow::Borrowed(value))) }
        }
        impl TryFrom<String> for $name<'_> {
            type Error = ValidationError;
            fn try_from(value: String) -> Result<Self, Self::Error> { Self::validate(&value)?; Ok(Self(Cow::Owned(value))) }
        }
        impl<'a> TryFrom<Cow<'a, str>> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: Cow<'a, str>) -> Result<Self, Self::Error> { Self::validate(value.as_bytes())?; Ok(Self(value)) }
        }
        impl AsRef<str> for $name<'_> { fn as_ref(&self) -> &str { self.0.as_ref() } }
    };
}
pub(crate) use str_type;

fn all(value: &[u8], allow_empty: bool, f: fn(u8) -> bool) -> Result<(), ValidationError> {
    if value.is_empty() && !allow_empty { return Err(ValidationError::new(ValidationErrorKind::Empty)); }
    match value.iter().position(|b| !f(*b)) {
        Some(at) => Err(ValidationError::new(ValidationErrorKind::InvalidByteAt { byte: value[at], at })),
        None => Ok(()),
    }
}

str_type!(/// A command tag.
    Tag, |v| all(v, false, |b| is_astring_char(b) && b != b'+'));
str_type!(/// Human-readable text.
    Text, |v| all(v, false, is_text_char));
str_type!(Atom, |v| all(v, false, is_atom_char));
str_type!(AtomExt, |v| all(v, false, is_astring_char));
str_type!(Quoted, |v| all(v, true, is_text_char));

impl Display for Tag<'_> { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl Display for Text<'_> { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl Display for Atom<'_> { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { f.write_str(&self.0) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct QuotedChar(char);
impl QuotedChar {
    pub fn validate(input: char) -> Result<(), ValidationError> {
        if input.is_ascii() && is_text_char(input as u8) { Ok(()) } else { Err(ValidationError::new(ValidationErrorKind::Invalid)) }
    }
    pub fn inner(&self) -> char { self.0 }
    pub fn unvalidated(inner: char) -> Self { Self(inner) }
}
impl TryFrom<char> for QuotedChar {
    type Error = ValidationError;
    fn try_from(value: char) -> Result<Self, Self::Error> { Self::validate(value)?; Ok(Self(value)) }
}

/// Literal mode, i.e., sync or non-sync.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum LiteralMode { Sync, NonSync }

#[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Literal<'a> { data: Cow<'a, [u8]>, mode: LiteralMode }
impl Debug for Literal<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "Literal {{ data: b\"{}\", mode: {:?} }}", crate::utils::escape_byte_string(&self.data), self.mode)
    }
}
impl<'a> Literal<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        match value.as_ref().iter().position(|b| *b == 0) {
            Some(at) => Err(ValidationError::new(ValidationErrorKind::InvalidByteAt { byte: 0, at })),
            None => Ok(()),
        }
    }
    pub fn data(&self) -> &[u8] { &self.data }
    pub fn mode(&self) -> LiteralMode { self.mode }
    pub fn set_mode(&mut self, mode: LiteralMode) { self.mode = mode }
    pub fn into_sync(mut self) -> Self { self.mode = LiteralMode::Sync; self }
    pub fn into_non_sync(mut self) -> Self { self.mode = LiteralMode::NonSync; self }
    pub fn into_inner(self) -> Cow<'a, [u8]> { self.data }
    pub fn unvalidated<D>(data: D) -> Self where D: Into<Cow<'a, [u8]>> { Self { data: data.into(), mode: LiteralMode::Sync } }
    pub fn unvalidated_non_sync<D>(data: D) -> Self where D: Into<Cow<'a, [u8]>> { Self { data: data.into(), mode: LiteralMode::NonSync } }
}
impl<'a> TryFrom<&'a [u8]> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a [u8]) -> Result<Self, Self::Error> { Self::validate(v)?; Ok(Self::unvalidated(v)) }
}
impl TryFrom<Vec<u8>> for Literal<'_> {
    type Error = ValidationError;
    fn try_from(v: Vec<u8>) -> Result<Self, Self::Error> { Self::validate(&v)?; Ok(Self::unvalidated(v)) }
}
impl<'a> TryFrom<&'a str> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, Self::Error> { Self::validate(v)?; Ok(Self::unvalidated(v.as_bytes())) }
}
impl TryFrom<String> for Literal<'_> {
    type Error = ValidationError;
    fn try_from(v: String) -> Result<Self, Self::Error> { Self::validate(&v)?; Ok(Self::unvalidated(v.into_bytes())) }
}
impl AsRef<[u8]> for Literal<'_> { fn as_ref(&self) -> &[u8] { &self.data } }

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum IString<'a> { Literal(Literal<'a>), Quoted(Quoted<'a>) }
impl<'a> IString<'a> {
    pub fn into_inner(self) -> Cow<'a, [u8]> {
        match self {
            Self::Literal(l) => l.into_inner(),
            Self::Quoted(q) => match q.0 { Cow::Borrowed(s) => Cow::Borrowed(s.as_bytes()), Cow::Owned(s) => Cow::Owned(s.into_bytes()) },
        }
    }
}
impl<'a> TryFrom<&'a str> for IString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, Self::Error> { if let Ok(q) = Quoted::try_from(v) { return Ok(Self::Quoted(q)); } Ok(Self::Literal(Literal::try_from(v)?)) }
}
impl TryFrom<String> for IString<'_> {
    type Error = ValidationError;
    fn try_from(v: String) -> Result<Self, Self::Error> { if Quoted::validate(&v).is_ok() { return Ok(Self::Quoted(Quoted(Cow::Owned(v)))); } Ok(Self::Literal(Literal::try_from(v)?)) }
}
impl<'a> TryFrom<&'a [u8]> for IString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a [u8]) -> Result<Self, Self::Error> { if let Ok(q) = Quoted::try_from(v) { return Ok(Self::Quoted(q)); } Ok(Self::Literal(Literal::try_from(v)?)) }
}
impl TryFrom<Vec<u8>> for IString<'_> {
    type Error = ValidationError;
    fn try_from(v: Vec<u8>) -> Result<Self, Self::Error> { if Quoted::validate(&v).is_ok() { return Ok(Self::Quoted(Quoted::try_from(v)?)); } Ok(Self::Literal(Literal::try_from(v)?)) }
}
impl<'a> From<Literal<'a>> for IString<'a> { fn from(v: Literal<'a>) -> Self { Self::Literal(v) } }
impl<'a> From<Quoted<'a>> for IString<'a> { fn from(v: Quoted<'a>) -> Self { Self::Quoted(v) } }
impl AsRef<[u8]> for IString<'_> { fn as_ref(&self) -> &[u8] { match self { Self::Literal(l) => l.data(), Self::Quoted(q) => q.0.as_bytes() } } }

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct NString<'a>(pub Option<IString<'a>>);
impl NString<'_> { pub const NIL: Self = Self(None); }

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum AString<'a> { Atom(AtomExt<'a>), String(IString<'a>) }
impl<'a> TryFrom<&'a str> for AString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, Self::Error> { if let Ok(a) = AtomExt::try_from(v) { return Ok(Self::Atom(a)); } Ok(Self::String(IString::try_from(v)?)) }
}
impl TryFrom<String> for AString<'_> {
    type Error = ValidationError;
    fn try_from(v: String) -> Result<Self, Self::Error> { if AtomExt::validate(&v).is_ok() { return Ok(Self::Atom(AtomExt(Cow::Owned(v)))); } Ok(Self::String(IString::try_from(v)?)) }
}
impl<'a> TryFrom<&'a [u8]> for AString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a [u8]) -> Result<Self, Self::Error> { if let Ok(a) = AtomExt::try_from(v) { return Ok(Self::Atom(a)); } Ok(Self::String(IString::try_from(v)?)) }
}
impl TryFrom<Vec<u8>> for AString<'_> {
    type Error = ValidationError;
    fn try_from(v: Vec<u8>) -> Result<Self, Self::Error> { if AtomExt::validate(&v).is_ok() { return Ok(Self::Atom(AtomExt::try_from(v)?)); } Ok(Self::String(IString::try_from(v)?)) }
}
impl<'a> From<AtomExt<'a>> for AString<'a> { fn from(v: AtomExt<'a>) -> Self { Self::Atom(v) } }
impl<'a> From<IString<'a>> for AString<'a> { fn from(v: IString<'a>) -> Self { Self::String(v) } }
impl<'a> From<Literal<'a>> for AString<'a> { fn from(v: Literal<'a>) -> Self { Self::String(IString::Literal(v)) } }
impl<'a> From<Quoted<'a>> for AString<'a> { fn from(v: Quoted<'a>) -> Self { Self::String(IString::Quoted(v)) } }
impl AsRef<[u8]> for AString<'_> { fn as_ref(&self) -> &[u8] { match self { Self::Atom(a) => a.0.as_bytes(), Self::String(s) => s.as_ref() } } }

/// A literal or literal8 (RFC 3516), used by APPEND.
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum LiteralOrLiteral8<'a> { Literal(Literal<'a>), Literal8(crate::extensions::binary::Literal8<'a>) }

/// A [`Vec`] containing >= 1 elements.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Vec1<T>(pub(crate) Vec<T>);
impl<T> Vec1<T> {
    pub fn validate(value: &[T]) -> Result<(), ValidationError> {
        if value.is_empty() { Err(ValidationError::new(ValidationErrorKind::NotEnough)) } else { Ok(()) }
    }
    pub fn unvalidated(inner: Vec<T>) -> Self { Self(inner) }
    pub fn into_inner(self) -> Vec<T> { self.0 }
    pub fn inner(&self) -> &[T] { &self.0 }
    pub fn iter(&self) -> std::slice::Iter<'_, T> { self.0.iter() }
    pub fn len(&self) -> usize { self.0.len() }
    #[allow(clippy::len_without_is_empty)]
    pub fn first(&self) -> &T { &self.0[0] }
}
impl<T: Debug> Debug for Vec1<T> { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { self.0.fmt(f)?; write!(f, "+") } }
impl<T> From<T> for Vec1<T> { fn from(value: T) -> Self { Self(vec![value]) } }
impl<T> TryFrom<Vec<T>> for Vec1<T> {
    type Error = ValidationError;
    fn try_from(inner: Vec<T>) -> Result<Self, Self::Error> { Self::validate(&inner)?; Ok(Self(inner)) }
}
impl<T> IntoIterator for Vec1<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T> IntoIterator for &'a Vec1<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<T> AsRef<[T]> for Vec1<T> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T: ToBoundedStatic> ToBoundedStatic for Vec1<T> { type Static = Vec1<T::Static>; fn to_static(&self) -> Self::Static { Vec1(self.0.to_static()) } }
impl<T: IntoBoundedStatic> IntoBoundedStatic for Vec1<T> { type Static = Vec1<T::Static>; fn into_static(self) -> Self::Static { Vec1(self.0.into_static()) } }

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Charset<'a> { Atom(Atom<'a>), Quoted(Quoted<'a>) }
