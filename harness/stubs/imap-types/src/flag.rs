use crate::core::Atom;
use bounded_static::ToStatic;
use std::fmt::{Display, Formatter};

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Flag<'a> { Answered, Deleted, Draft, Flagged, Seen, Extension(FlagExtension<'a>), Keyword(Atom<'a>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct FlagExtension<'a>(Atom<'a>);
impl<'a> Flag<'a> {
    pub fn system(atom: Atom<'a>) -> Self {
        match atom.as_ref().to_ascii_lowercase().as_ref() {
            "answered" => Flag::Answered, "deleted" => Flag::Deleted, "draft" => Flag::Draft, "flagged" => Flag::Flagged, "seen" => Flag::Seen,
            _ => Flag::Extension(FlagExtension(atom)),
        }
    }
    pub fn keyword(atom: Atom<'a>) -> Self { Flag::Keyword(atom) }
}
impl Display for Flag<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            Flag::Answered => f.write_str("\\Answered"), Flag::Deleted => f.write_str("\\Deleted"), Flag::Draft => f.write_str("\\Draft"),
            Flag::Flagged => f.write_str("\\Flagged"), Flag::Seen => f.write_str("\\Seen"),
            Flag::Extension(o) => write!(f, "\\{}", o.0), Flag::Keyword(a) => write!(f, "{a}"),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum StoreType { Replace, Add, Remove }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum StoreResponse { Answer, Silent }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagFetch<'a> { Flag(Flag<'a>), Recent }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagPerm<'a> { Flag(Flag<'a>), Asterisk }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagNameAttribute<'a> { Noinferiors, Noselect, Marked, Unmarked, Extension(FlagNameAttributeExtension<'a>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct FlagNameAttributeExtension<'a>(Atom<'a>);
impl<'a> From<Atom<'a>> for FlagNameAttribute<'a> {
    fn from(atom: Atom<'a>) -> Self {
        match atom.as_ref().to_ascii_lowercase().as_ref() {
            "noinferiors" => Self::Noinferiors, "noselect" => Self::Noselect, "marked" => Self::Marked, "unmarked" => Self::Unmarked,
            _ => Self::Extension(FlagNameAttributeExtension(atom)),
        }
    }
}
impl Display for FlagNameAttribute<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            Self::Noinferiors => f.write_str("\\Noinferiors"), Self::Noselect => f.write_str("\\Noselect"),
            Self::Marked => f.write_str("\\Marked"), Self::Unmarked => f.write_str("\\Unmarked"),
            Self::Extension(e) => write!(f, "\\{}", e.0),
        }
    }
}
