use crate::core::{NString, Vec1};
use crate::datetime::DateTime;
use crate::flag::FlagFetch;
use bounded_static::ToStatic;
use std::num::NonZeroU32;

/// Subset of the message data items of a FETCH response.
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum MessageDataItem<'a> {
    Flags(Vec<FlagFetch<'a>>),
    Rfc822(NString<'a>),
    Rfc822Header(NString<'a>),
    Rfc822Text(NString<'a>),
    Rfc822Size(u32),
    Uid(NonZeroU32),
    InternalDate(DateTime),
    BodyExt { section: Option<Section<'a>>, origin: Option<u32>, data: NString<'a> },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Macro { All, Fast, Full }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum MacroOrMessageDataItemNames<'a> { Macro(Macro), MessageDataItemNames(Vec<MessageDataItemName<'a>>) }
impl<'a> From<Macro> for MacroOrMessageDataItemNames<'a> { fn from(m: Macro) -> Self { Self::Macro(m) } }
impl<'a> From<Vec<MessageDataItemName<'a>>> for MacroOrMessageDataItemNames<'a> { fn from(v: Vec<MessageDataItemName<'a>>) -> Self { Self::MessageDataItemNames(v) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum MessageDataItemName<'a> {
    Body,
    BodyExt { section: Option<Section<'a>>, partial: Option<(u32, NonZeroU32)>, peek: bool },
    BodyStructure,
    Envelope,
    Flags,
    InternalDate,
    Rfc822,
    Rfc822Header,
    Rfc822Size,
    Rfc822Text,
    Uid,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct Part(pub Vec1<NonZeroU32>);
/// Subset of the sections.
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Section<'a> { Part(Part), Header(Option<Part>), Text(Option<Part>), Mime(Part), HeaderFields(Option<Part>, Vec1<crate::core::AString<'a>>) }
