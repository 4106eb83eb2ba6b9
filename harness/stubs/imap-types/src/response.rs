use std::borrow::Cow;
use std::fmt::{Debug, Display, Formatter};
use std::num::NonZeroU32;

use base64::{engine::general_purpose::STANDARD as B64, Engine};
use bounded_static::ToStatic;

use crate::auth::AuthMechanism;
use crate::core::{AString, Atom, Charset, IString, NString, QuotedChar, Tag, Text, Vec1};
use crate::error::{ContinueError, ValidationError};
use crate::extensions::compress::CompressionAlgorithm;
use crate::extensions::enable::CapabilityEnable;
use crate::extensions::quota::{QuotaGet, Resource};
use crate::extensions::sort::SortAlgorithm;
use crate::extensions::thread::ThreadingAlgorithm;
use crate::fetch::MessageDataItem;
use crate::flag::{Flag, FlagNameAttribute, FlagPerm};
use crate::mailbox::Mailbox;
use crate::status::StatusDataItem;

/// Greeting.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct Greeting<'a> { pub kind: GreetingKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
impl<'a> Greeting<'a> {
    pub fn new<T>(kind: GreetingKind, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Ok(Greeting { kind, code, text: text.try_into()? }) }
    pub fn ok<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(GreetingKind::Ok, code, text) }
    pub fn preauth<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(GreetingKind::PreAuth, code, text) }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(GreetingKind::Bye, code, text) }
}
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum GreetingKind { Ok, PreAuth, Bye }

/// Response.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum Response<'a> {
    CommandContinuationRequest(CommandContinuationRequest<'a>),
    Data(Data<'a>),
    Status(Status<'a>),
}

/// Status response.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum Status<'a> { Untagged(StatusBody<'a>), Tagged(Tagged<'a>), Bye(Bye<'a>) }
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct StatusBody<'a> { pub kind: StatusKind, pub code: Option<Code<'a>>, pub text: Text<'a> }
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum StatusKind { Ok, No, Bad }
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct Tagged<'a> { pub tag: Tag<'a>, pub body: StatusBody<'a> }
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct Bye<'a> { pub code: Option<Code<'a>>, pub text: Text<'a> }

impl<'a> Status<'a> {
    pub fn new<T>(tag: Option<Tag<'a>>, kind: StatusKind, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> {
        let body = StatusBody { kind, code, text: text.try_into()? };
        Ok(match tag { Some(tag) => Self::Tagged(Tagged { tag, body }), None => Self::Untagged(body) })
    }
    pub fn ok<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(tag, StatusKind::Ok, code, text) }
    pub fn no<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(tag, StatusKind::No, code, text) }
    pub fn bad<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Self::new(tag, StatusKind::Bad, code, text) }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> where T: TryInto<Text<'a>> { Ok(Self::Bye(Bye { code, text: text.try_into()? })) }
    pub fn tag(&self) -> Option<&Tag> { match self { Self::Tagged(t) => Some(&t.tag), _ => None } }
    pub fn code(&self) -> Option<&Code> {
        match self { Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => b.code.as_ref(), Self::Bye(b) => b.code.as_ref() }
    }
    pub fn text(&self) -> &Text { match self { Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => &b.text, Self::Bye(b) => &b.text } }
    pub fn kind(&self) -> Option<StatusKind> { match self { Self::Untagged(b) | Self::Tagged(Tagged { body: b, .. }) => Some(b.kind), Self::Bye(_) => None } }
}

/// Server data (subset).
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum Data<'a> {
    Capability(Vec1<Capability<'a>>),
    List { items: Vec<FlagNameAttribute<'a>>, delimiter: Option<QuotedChar>, mailbox: Mailbox<'a> },
    Lsub { items: Vec<FlagNameAttribute<'a>>, delimiter: Option<QuotedChar>, mailbox: Mailbox<'a> },
    Status { mailbox: Mailbox<'a>, items: Cow<'a, [StatusDataItem]> },
    Search(Vec<NonZeroU32>),
    Flags(Vec<Flag<'a>>),
    Exists(u32),
    Recent(u32),
    Expunge(NonZeroU32),
    Fetch { seq: NonZeroU32, items: Vec1<MessageDataItem<'a>> },
    Enabled { capabilities: Vec<CapabilityEnable<'a>> },
    Quota { root: AString<'a>, quotas: Vec1<QuotaGet<'a>> },
    QuotaRoot { mailbox: Mailbox<'a>, roots: Vec<AString<'a>> },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}
impl<'a> Data<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error> where C: TryInto<Vec1<Capability<'a>>> { Ok(Self::Capability(caps.try_into()?)) }
    pub fn expunge(seq: u32) -> Result<Self, std::num::TryFromIntError> { Ok(Self::Expunge(NonZeroU32::try_from(seq)?)) }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum CommandContinuationRequest<'a> {
    Basic(CommandContinuationRequestBasic<'a>),
    Base64(Cow<'a, [u8]>),
}
impl<'a> CommandContinuationRequest<'a> {
    pub fn basic<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>> where T: TryInto<Text<'a>> {
        Ok(Self::Basic(CommandContinuationRequestBasic::new(code, text)?))
    }
    pub fn base64<D>(data: D) -> Self where D: Into<Cow<'a, [u8]>> { Self::Base64(data.into()) }
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct CommandContinuationRequestBasic<'a> { code: Option<Code<'a>>, text: Text<'a> }
impl<'a> CommandContinuationRequestBasic<'a> {
    pub fn new<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>> where T: TryInto<Text<'a>> {
        let text = text.try_into().map_err(ContinueError::Text)?;
        // Ambiguity #1
        if text.as_ref().starts_with('[') { return Err(ContinueError::Ambiguity); }
        // Ambiguity #2
        if code.is_none() && B64.decode(text.inner()).is_ok() { return Err(ContinueError::Ambiguity); }
        Ok(Self { code, text })
    }
    pub fn code(&self) -> Option<&Code<'a>> { self.code.as_ref() }
    pub fn text(&self) -> &Text<'a> { &self.text }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
#[non_exhaustive]
pub enum Code<'a> {
    Alert,
    BadCharset { allowed: Vec<Charset<'a>> },
    Capability(Vec1<Capability<'a>>),
    Parse,
    PermanentFlags(Vec<FlagPerm<'a>>),
    ReadOnly,
    ReadWrite,
    TryCreate,
    UidNext(NonZeroU32),
    UidValidity(NonZeroU32),
    Unseen(NonZeroU32),
    OverQuota,
    TooBig,
    CompressionActive,
    UidNotSticky,
    Other(CodeOther<'a>),
}
impl<'a> Code<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error> where C: TryInto<Vec1<Capability<'a>>> { Ok(Self::Capability(caps.try_into()?)) }
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct CodeOther<'a>(Cow<'a, [u8]>);
impl<'a> CodeOther<'a> {
    pub fn unvalidated<D>(data: D) -> Self where D: Into<Cow<'a, [u8]>> { Self(data.into()) }
    pub fn inner(&self) -> &[u8] { &self.0 }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
#[non_exhaustive]
pub enum Capability<'a> {
    Imap4Rev1,
    Auth(AuthMechanism<'a>),
    LoginDisabled,
    StartTls,
    Idle,
    MailboxReferrals,
    LoginReferrals,
    SaslIr,
    Enable,
    Compress { algorithm: CompressionAlgorithm },
    Quota,
    QuotaRes(Resource<'a>),
    QuotaSet,
    LiteralPlus,
    LiteralMinus,
    Move,
    Id,
    Unselect,
    Sort(Option<SortAlgorithm<'a>>),
    Thread(ThreadingAlgorithm<'a>),
    Metadata,
    MetadataServer,
    Binary,
    UidPlus,
    CondStore,
    QResync,
    Namespace,
    Other(CapabilityOther<'a>),
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct CapabilityOther<'a>(Atom<'a>);
impl<'a> CapabilityOther<'a> { pub fn inner(&self) -> &Atom<'a> { &self.0 } }

impl Display for Capability<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            Self::Imap4Rev1 => f.write_str("IMAP4REV1"),
            Self::Auth(m) => write!(f, "AUTH={m}"),
            Self::LoginDisabled => f.write_str("LOGINDISABLED"),
            Self::StartTls => f.write_str("STARTTLS"),
            Self::Idle => f.write_str("IDLE"),
            Self::MailboxReferrals => f.write_str("MAILBOX-REFERRALS"),
            Self::LoginReferrals => f.write_str("LOGIN-REFERRALS"),
            Self::SaslIr => f.write_str("SASL-IR"),
            Self::Enable => f.write_str("ENABLE"),
            Self::Compress { .. } => f.write_str("COMPRESS=DEFLATE"),
            Self::Quota => f.write_str("QUOTA"),
            Self::QuotaRes(r) => match r {
                Resource::Storage => f.write_str("QUOTA=RES-STORAGE"), Resource::Message => f.write_str("QUOTA=RES-MESSAGE"),
                Resource::Mailbox => f.write_str("QUOTA=RES-MAILBOX"), Resource::AnnotationStorage => f.write_str("QUOTA=RES-ANNOTATION-STORAGE"),
                Resource::Other(o) => write!(f, "QUOTA=RES-{}", o.inner()),
            },
            Self::QuotaSet => f.write_str("QUOTASET"),
            Self::LiteralPlus => f.write_str("LITERAL+"),
            Self::LiteralMinus => f.write_str("LITERAL-"),
            Self::Move => f.write_str("MOVE"),
            Self::Id => f.write_str("ID"),
            Self::Unselect => f.write_str("UNSELECT"),
            Self::Sort(None) => f.write_str("SORT"),
            Self::Sort(Some(SortAlgorithm::Display)) => f.write_str("SORT=DISPLAY"),
            Self::Sort(Some(SortAlgorithm::Other(a))) => write!(f, "SORT={a}"),
            Self::Thread(ThreadingAlgorithm::OrderedSubject) => f.write_str("THREAD=ORDEREDSUBJECT"),
            Self::Thread(ThreadingAlgorithm::References) => f.write_str("THREAD=REFERENCES"),
            Self::Thread(ThreadingAlgorithm::Other(o)) => write!(f, "THREAD={}", o.0),
            Self::Metadata => f.write_str("METADATA"),
            Self::MetadataServer => f.write_str("METADATA-SERVER"),
            Self::Binary => f.write_str("BINARY"),
            Self::UidPlus => f.write_str("UIDPLUS"),
            Self::CondStore => f.write_str("CONDSTORE"),
            Self::QResync => f.write_str("QRESYNC"),
            Self::Namespace => f.write_str("NAMESPACE"),
            Self::Other(o) => f.write_str(o.0.as_ref()),
        }
    }
}
fn ext_atom(s: &str) -> Atom<'static> { Atom::unvalidated(s.to_string()) }
impl<'a> From<Atom<'a>> for Capability<'a> {
    fn from(atom: Atom<'a>) -> Self {
        let orig = atom.as_ref().to_owned();
        let up = orig.to_ascii_uppercase();
        match up.as_str() {
            "IMAP4REV1" => return Self::Imap4Rev1, "LOGINDISABLED" => return Self::LoginDisabled, "STARTTLS" => return Self::StartTls,
            "IDLE" => return Self::Idle, "MAILBOX-REFERRALS" => return Self::MailboxReferrals, "LOGIN-REFERRALS" => return Self::LoginReferrals,
            "SASL-IR" => return Self::SaslIr, "ENABLE" => return Self::Enable, "QUOTA" => return Self::Quota, "QUOTASET" => return Self::QuotaSet,
            "LITERAL+" => return Self::LiteralPlus, "LITERAL-" => return Self::LiteralMinus, "MOVE" => return Self::Move, "ID" => return Self::Id,
            "UNSELECT" => return Self::Unselect, "SORT" => return Self::Sort(None), "METADATA" => return Self::Metadata,
            "METADATA-SERVER" => return Self::MetadataServer, "BINARY" => return Self::Binary, "UIDPLUS" => return Self::UidPlus,
            "CONDSTORE" => return Self::CondStore, "QRESYNC" => return Self::QResync, "NAMESPACE" => return Self::Namespace,
            _ => {}
        }
        if let Some((l, _)) = up.split_once('=') {
            let r = &orig[l.len() + 1..];
            if !r.is_empty() {
                match l {
                    "AUTH" => return Self::Auth(AuthMechanism::from(ext_atom(r))),
                    "COMPRESS" if r.eq_ignore_ascii_case("deflate") => return Self::Compress { algorithm: CompressionAlgorithm::Deflate },
                    "QUOTA" if r.to_ascii_uppercase().starts_with("RES-") && r.len() > 4 => return Self::QuotaRes(Resource::from(ext_atom(&r[4..]))),
                    "SORT" => return Self::Sort(Some(if r.eq_ignore_ascii_case("display") { SortAlgorithm::Display } else { SortAlgorithm::Other(ext_atom(r)) })),
                    "THREAD" => return Self::Thread(match r.to_ascii_uppercase().as_str() {
                        "ORDEREDSUBJECT" => ThreadingAlgorithm::OrderedSubject, "REFERENCES" => ThreadingAlgorithm::References,
                        _ => ThreadingAlgorithm::Other(crate::extensions::thread::ThreadingAlgorithmOther(ext_atom(r))) }),
                    _ => {}
                }
            }
        }
        Self::Other(CapabilityOther(atom))
    }
}
impl<'a> TryFrom<&'a str> for Capability<'a> { type Error = ValidationError; fn try_from(v: &'a str) -> Result<Self, Self::Error> { Ok(Self::from(Atom::try_from(v)?)) } }
