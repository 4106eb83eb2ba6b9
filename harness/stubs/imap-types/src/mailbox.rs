use crate::core::{str_type, AString, IString, Literal};
use crate::error::{ValidationError, ValidationErrorKind};
use crate::utils::indicators::is_list_char;
use bounded_static::ToStatic;
use std::borrow::Cow;
use std::fmt::{Debug, Formatter};

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Mailbox<'a> { Inbox, Other(MailboxOther<'a>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct MailboxOther<'a>(AString<'a>);
impl<'a> MailboxOther<'a> { pub fn inner(&self) -> &AString<'a> { &self.0 } }
impl AsRef<[u8]> for MailboxOther<'_> { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
impl<'a> From<AString<'a>> for Mailbox<'a> {
    fn from(value: AString<'a>) -> Self {
        if value.as_ref().eq_ignore_ascii_case(b"inbox") { Self::Inbox } else { Self::Other(MailboxOther(value)) }
    }
}
impl<'a> From<Literal<'a>> for Mailbox<'a> { fn from(v: Literal<'a>) -> Self { Self::from(AString::from(v)) } }
impl<'a> TryFrom<&'a str> for Mailbox<'a> { type Error = ValidationError; fn try_from(v: &'a str) -> Result<Self, Self::Error> { Ok(AString::try_from(v)?.into()) } }
impl TryFrom<String> for Mailbox<'_> { type Error = ValidationError; fn try_from(v: String) -> Result<Self, Self::Error> { Ok(AString::try_from(v)?.into()) } }

str_type!(ListCharString, |v| if !v.is_empty() && v.iter().all(|b| is_list_char(*b)) { Ok(()) } else { Err(ValidationError::new(ValidationErrorKind::Invalid)) });

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum ListMailbox<'a> { Token(ListCharString<'a>), String(IString<'a>) }
impl<'a> TryFrom<&'a str> for ListMailbox<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, Self::Error> {
        if let Ok(t) = ListCharString::try_from(v) { return Ok(Self::Token(t)); }
        Ok(Self::String(IString::try_from(v)?))
    }
}
#[allow(unused)] type _C<'a> = Cow<'a, str>;
