//! Stand-in for `imap-codec` 2.0.0-alpha.1 (with `quirk_crlf_relaxed`): a real encoder and decoder for
//! a subset of IMAP with the original's trait interfaces and error conditions.
pub mod decode;
pub mod encode;
mod parse;

pub use imap_types;

macro_rules! codec { ($($name:ident),*) => { $(
    #[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
    #[non_exhaustive]
    pub struct $name;
    impl $name { pub fn new() -> Self { Self } }
)* } }
codec!(GreetingCodec, CommandCodec, AuthenticateDataCodec, ResponseCodec, IdleDoneCodec);
