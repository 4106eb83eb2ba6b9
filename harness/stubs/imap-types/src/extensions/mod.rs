pub mod idle {
    use bounded_static::ToStatic;
    /// Denotes the continuation data message "DONE\r\n" to end the IDLE command.
    #[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
    pub struct IdleDone;
}
pub mod binary {
    use crate::core::LiteralMode;
    use bounded_static::ToStatic;
    use std::borrow::Cow;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub struct Literal8<'a> { pub data: Cow<'a, [u8]>, pub mode: LiteralMode }
}
pub mod quota {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    /// A resource type for use in IMAP's QUOTA extension.
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub enum Resource<'a> { Storage, Message, Mailbox, AnnotationStorage, Other(ResourceOther<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub struct ResourceOther<'a>(pub(crate) Atom<'a>);
    impl<'a> ResourceOther<'a> { pub fn inner(&self) -> &Atom<'a> { &self.0 } }
    impl<'a> From<Atom<'a>> for Resource<'a> {
        fn from(value: Atom<'a>) -> Self {
            match value.as_ref().to_ascii_lowercase().as_ref() {
                "storage" => Resource::Storage,
                "message" => Resource::Message,
                "mailbox" => Resource::Mailbox,
                "annotation-storage" => Resource::AnnotationStorage,
                _ => Resource::Other(ResourceOther(value)),
            }
        }
    }
    impl std::fmt::Display for Resource<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            match self { Self::Storage => f.write_str("STORAGE"), Self::Message => f.write_str("MESSAGE"), Self::Mailbox => f.write_str("MAILBOX"), Self::AnnotationStorage => f.write_str("ANNOTATION-STORAGE"), Self::Other(o) => write!(f, "{}", o.0) }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub struct QuotaGet<'a> { pub resource: Resource<'a>, pub usage: u64, pub limit: u64 }
    impl<'a> QuotaGet<'a> { pub fn new(resource: Resource<'a>, usage: u64, limit: u64) -> Self { Self { resource, usage, limit } } }
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub struct QuotaSet<'a> { pub resource: Resource<'a>, pub limit: u64 }
    impl<'a> QuotaSet<'a> { pub fn new(resource: Resource<'a>, limit: u64) -> Self { Self { resource, limit } } }
}
pub mod compress {
    use bounded_static::ToStatic;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub enum CompressionAlgorithm { Deflate }
}
pub mod enable {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    #[non_exhaustive]
    pub enum CapabilityEnable<'a> { Utf8(Utf8Kind), Metadata, CondStore, QResync, Other(CapabilityEnableOther<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub enum Utf8Kind { Accept, Only }
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub struct CapabilityEnableOther<'a>(Atom<'a>);
    impl<'a> From<Atom<'a>> for CapabilityEnable<'a> {
        fn from(a: Atom<'a>) -> Self {
            match a.as_ref().to_ascii_lowercase().as_str() {
                "utf8=accept" => Self::Utf8(Utf8Kind::Accept), "utf8=only" => Self::Utf8(Utf8Kind::Only), "metadata" => Self::Metadata,
                "condstore" => Self::CondStore, "qresync" => Self::QResync, _ => Self::Other(CapabilityEnableOther(a)),
            }
        }
    }
    impl<'a> TryFrom<&'a str> for CapabilityEnable<'a> { type Error = crate::error::ValidationError; fn try_from(v: &'a str) -> Result<Self, Self::Error> { Ok(Self::from(Atom::try_from(v)?)) } }
    impl std::fmt::Display for CapabilityEnable<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            match self { Self::Utf8(Utf8Kind::Accept) => f.write_str("UTF8=ACCEPT"), Self::Utf8(Utf8Kind::Only) => f.write_str("UTF8=ONLY"), Self::Metadata => f.write_str("METADATA"), Self::CondStore => f.write_str("CONDSTORE"), Self::QResync => f.write_str("QRESYNC"), Self::Other(o) => write!(f, "{}", o.0) }
        }
    }
}
pub mod sort {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub enum SortAlgorithm<'a> { Display, Other(Atom<'a>) }
}
pub mod thread {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub enum ThreadingAlgorithm<'a> { OrderedSubject, References, Other(ThreadingAlgorithmOther<'a>) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
    pub struct ThreadingAlgorithmOther<'a>(pub Atom<'a>);
}
