use std::fmt::{Debug, Display, Formatter};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ValidationError { pub(crate) kind: ValidationErrorKind }
impl ValidationError { pub(crate) fn new(kind: ValidationErrorKind) -> Self { Self { kind } } }
impl Display for ValidationError {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { write!(f, "Validation failed: {:?}", self.kind) }
}
impl std::error::Error for ValidationError {}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub(crate) enum ValidationErrorKind { Empty, NotEnough, Invalid, InvalidByteAt { byte: u8, at: usize } }

/// Conversion of `std::convert::Infallible`-like conversions is not needed by the stand-in: every
/// conversion reports `ValidationError`.
impl From<std::convert::Infallible> for ValidationError { fn from(x: std::convert::Infallible) -> Self { match x {} } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ContinueError<T> { Ambiguity, Text(T) }
impl<T: Debug> Display for ContinueError<T> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { write!(f, "{self:?}") }
}
impl<T: Debug> std::error::Error for ContinueError<T> {}
