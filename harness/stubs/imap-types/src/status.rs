use bounded_static::ToStatic;
use std::num::NonZeroU32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum StatusDataItemName { Messages, Recent, UidNext, UidValidity, Unseen, Deleted, DeletedStorage }
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum StatusDataItem { Messages(u32), Recent(u32), UidNext(NonZeroU32), UidValidity(NonZeroU32), Unseen(u32), Deleted(u32), DeletedStorage(u64) }
