use std::fmt::{Display, Formatter};
use std::num::NonZeroU32;

use bounded_static::ToStatic;

use crate::core::Vec1;
use crate::error::{ValidationError, ValidationErrorKind};

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct SequenceSet(pub Vec1<Sequence>);
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Sequence { Single(SeqOrUid), Range(SeqOrUid, SeqOrUid) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum SeqOrUid { Value(NonZeroU32), Asterisk }

impl Display for SeqOrUid { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { match self { Self::Value(n) => write!(f, "{n}"), Self::Asterisk => f.write_str("*") } } }
impl Display for Sequence { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { match self { Self::Single(a) => write!(f, "{a}"), Self::Range(a, b) => write!(f, "{a}:{b}") } } }
impl Display for SequenceSet {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        for (i, s) in self.0.iter().enumerate() { if i > 0 { f.write_str(",")?; } write!(f, "{s}")?; }
        Ok(())
    }
}
fn bad() -> ValidationError { ValidationError::new(ValidationErrorKind::Invalid) }
impl TryFrom<&str> for SeqOrUid {
    type Error = ValidationError;
    fn try_from(v: &str) -> Result<Self, Self::Error> {
        if v == "*" { return Ok(Self::Asterisk); }
        if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) { return Err(bad()); }
        v.parse().map(Self::Value).map_err(|_| bad())
    }
}
impl TryFrom<u32> for SeqOrUid { type Error = ValidationError; fn try_from(v: u32) -> Result<Self, Self::Error> { NonZeroU32::new(v).map(Self::Value).ok_or_else(bad) } }
impl TryFrom<&str> for Sequence {
    type Error = ValidationError;
    fn try_from(v: &str) -> Result<Self, Self::Error> {
        Ok(match v.split_once(':') { Some((a, b)) => Self::Range(a.try_into()?, b.try_into()?), None => Self::Single(v.try_into()?) })
    }
}
impl TryFrom<&str> for SequenceSet {
    type Error = ValidationError;
    fn try_from(v: &str) -> Result<Self, Self::Error> { Ok(Self(Vec1::try_from(v.split(',').map(Sequence::try_from).collect::<Result<Vec<_>, _>>()?)?)) }
}
impl TryFrom<u32> for SequenceSet { type Error = ValidationError; fn try_from(v: u32) -> Result<Self, Self::Error> { Ok(Self(Vec1::from(Sequence::Single(v.try_into()?)))) } }
impl From<Sequence> for SequenceSet { fn from(v: Sequence) -> Self { Self(Vec1::from(v)) } }
impl From<NonZeroU32> for SequenceSet { fn from(v: NonZeroU32) -> Self { Self(Vec1::from(Sequence::Single(SeqOrUid::Value(v)))) } }
