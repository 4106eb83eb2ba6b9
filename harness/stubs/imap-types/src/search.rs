use crate::core::{AString, Atom, Vec1};
use crate::sequence::SequenceSet;
use bounded_static::ToStatic;

/// Subset of the search keys.
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum SearchKey<'a> {
    And(Vec1<SearchKey<'a>>),
    SequenceSet(SequenceSet),
    All,
    Answered,
    Bcc(AString<'a>),
    Body(AString<'a>),
    Cc(AString<'a>),
    Deleted,
    Draft,
    Flagged,
    From(AString<'a>),
    Header(AString<'a>, AString<'a>),
    Keyword(Atom<'a>),
    Larger(u32),
    New,
    Not(Box<SearchKey<'a>>),
    Old,
    Or(Box<SearchKey<'a>>, Box<SearchKey<'a>>),
    Recent,
    Seen,
    Smaller(u32),
    Subject(AString<'a>),
    Text(AString<'a>),
    To(AString<'a>),
    Uid(SequenceSet),
    Unanswered,
    Undeleted,
    Undraft,
    Unflagged,
    Unkeyword(Atom<'a>),
    Unseen,
}
