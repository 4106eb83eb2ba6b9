use std::borrow::Cow;

use bounded_static::ToStatic;

use crate::auth::AuthMechanism;
use crate::core::{AString, Charset, IString, LiteralOrLiteral8, NString, Tag, Vec1};
use crate::datetime::DateTime;
use crate::error::ValidationError;
use crate::extensions::compress::CompressionAlgorithm;
use crate::extensions::enable::CapabilityEnable;
use crate::extensions::quota::QuotaSet;
use crate::fetch::MacroOrMessageDataItemNames;
use crate::flag::{Flag, StoreResponse, StoreType};
use crate::mailbox::{ListMailbox, Mailbox};
use crate::search::SearchKey;
use crate::sequence::SequenceSet;
use crate::status::StatusDataItemName;
use crate::secret::Secret;

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct Command<'a> { pub tag: Tag<'a>, pub body: CommandBody<'a> }

impl<'a> Command<'a> {
    pub fn new<T>(tag: T, body: CommandBody<'a>) -> Result<Self, ValidationError>
    where T: TryInto<Tag<'a>>, T::Error: Into<ValidationError> {
        Ok(Self { tag: tag.try_into().map_err(Into::into)?, body })
    }
    pub fn name(&self) -> &'static str { self.body.name() }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum CommandBody<'a> {
    Capability,
    Noop,
    Logout,
    StartTLS,
    Authenticate { mechanism: AuthMechanism<'a>, initial_response: Option<Secret<Cow<'a, [u8]>>> },
    Login { username: AString<'a>, password: Secret<AString<'a>> },
    Select { mailbox: Mailbox<'a> },
    Examine { mailbox: Mailbox<'a> },
    Create { mailbox: Mailbox<'a> },
    Delete { mailbox: Mailbox<'a> },
    Rename { from: Mailbox<'a>, to: Mailbox<'a> },
    Subscribe { mailbox: Mailbox<'a> },
    Unsubscribe { mailbox: Mailbox<'a> },
    List { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Lsub { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Status { mailbox: Mailbox<'a>, item_names: Cow<'a, [StatusDataItemName]> },
    Append { mailbox: Mailbox<'a>, flags: Vec<Flag<'a>>, date: Option<DateTime>, message: LiteralOrLiteral8<'a> },
    Check,
    Close,
    Expunge,
    ExpungeUid { sequence_set: SequenceSet },
    Search { charset: Option<Charset<'a>>, criteria: Vec1<SearchKey<'a>>, uid: bool },
    Fetch { sequence_set: SequenceSet, macro_or_item_names: MacroOrMessageDataItemNames<'a>, uid: bool },
    Store { sequence_set: SequenceSet, kind: StoreType, response: StoreResponse, flags: Vec<Flag<'a>>, uid: bool },
    Copy { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Move { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Unselect,
    Idle,
    Enable { capabilities: Vec1<CapabilityEnable<'a>> },
    Compress { algorithm: CompressionAlgorithm },
    GetQuota { root: AString<'a> },
    GetQuotaRoot { mailbox: Mailbox<'a> },
    SetQuota { root: AString<'a>, quotas: Vec<QuotaSet<'a>> },
    Namespace,
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}

impl<'a> CommandBody<'a> {
    pub fn tag<T>(self, tag: T) -> Result<Command<'a>, ValidationError>
    where T: TryInto<Tag<'a>>, T::Error: Into<ValidationError> { Command::new(tag, self) }
    pub fn authenticate(mechanism: AuthMechanism<'a>) -> Self { Self::Authenticate { mechanism, initial_response: None } }
    pub fn authenticate_with_ir<I>(mechanism: AuthMechanism<'a>, initial_response: I) -> Self where I: Into<Cow<'a, [u8]>> {
        Self::Authenticate { mechanism, initial_response: Some(Secret::new(initial_response.into())) }
    }
    pub fn login<U, P>(username: U, password: P) -> Result<Self, ValidationError>
    where U: TryInto<AString<'a>>, U::Error: Into<ValidationError>, P: TryInto<AString<'a>>, P::Error: Into<ValidationError> {
        Ok(Self::Login { username: username.try_into().map_err(Into::into)?, password: Secret::new(password.try_into().map_err(Into::into)?) })
    }
    pub fn select<M>(mailbox: M) -> Result<Self, ValidationError> where M: TryInto<Mailbox<'a>>, M::Error: Into<ValidationError> {
        Ok(Self::Select { mailbox: mailbox.try_into().map_err(Into::into)? })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Self::Capability => "CAPABILITY", Self::Noop => "NOOP", Self::Logout => "LOGOUT", Self::StartTLS => "STARTTLS",
            Self::Authenticate { .. } => "AUTHENTICATE", Self::Login { .. } => "LOGIN", Self::Select { .. } => "SELECT",
            Self::Examine { .. } => "EXAMINE", Self::Create { .. } => "CREATE", Self::Delete { .. } => "DELETE",
            Self::Rename { .. } => "RENAME", Self::Subscribe { .. } => "SUBSCRIBE", Self::Unsubscribe { .. } => "UNSUBSCRIBE",
            Self::List { .. } => "LIST", Self::Lsub { .. } => "LSUB", Self::Append { .. } => "APPEND", Self::Check => "CHECK",
            Self::Close => "CLOSE", Self::Expunge => "EXPUNGE", Self::Unselect => "UNSELECT", Self::Idle => "IDLE", Self::Id { .. } => "ID",
            Self::Status { .. } => "STATUS", Self::ExpungeUid { .. } => "EXPUNGE", Self::Search { .. } => "SEARCH", Self::Fetch { .. } => "FETCH",
            Self::Store { .. } => "STORE", Self::Copy { .. } => "COPY", Self::Move { .. } => "MOVE", Self::Enable { .. } => "ENABLE",
            Self::Compress { .. } => "COMPRESS", Self::GetQuota { .. } => "GETQUOTA", Self::GetQuotaRoot { .. } => "GETQUOTAROOT",
            Self::SetQuota { .. } => "SETQUOTA", Self::Namespace => "NAMESPACE",
        }
    }
}
