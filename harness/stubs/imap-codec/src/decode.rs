use bounded_static::{IntoBoundedStatic, ToStatic};
use imap_types::auth::AuthenticateData;
use imap_types::command::Command;
use imap_types::core::{LiteralMode, Tag};
use imap_types::extensions::idle::IdleDone;
use imap_types::response::{Greeting, Response};

use crate::parse::{self, Fail};
use crate::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};

pub trait Decoder {
    type Message<'a>: Sized;
    type Error<'a>;

    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;

    #[allow(clippy::type_complexity)]
    fn decode_static<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'static>), Self::Error<'static>>
    where
        Self::Message<'a>: IntoBoundedStatic<Static = Self::Message<'static>>,
        Self::Error<'a>: IntoBoundedStatic<Static = Self::Error<'static>>,
    {
        match self.decode(input) {
            Ok((rem, m)) => Ok((rem, m.into_static())),
            Err(e) => Err(e.into_static()),
        }
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum GreetingDecodeError { Incomplete, Failed }
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum CommandDecodeError<'a> { Incomplete, LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode }, Failed }
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum AuthenticateDataDecodeError { Incomplete, Failed }
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum ResponseDecodeError { Incomplete, LiteralFound { length: u32 }, Failed }
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum IdleDoneDecodeError { Incomplete, Failed }

impl Decoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    type Error<'a> = GreetingDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Greeting<'a>), GreetingDecodeError> {
        parse::greeting(input).map_err(|e| match e { Fail::Incomplete => GreetingDecodeError::Incomplete, _ => GreetingDecodeError::Failed })
    }
}
impl Decoder for CommandCodec {
    type Message<'a> = Command<'a>;
    type Error<'a> = CommandDecodeError<'a>;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Command<'a>), CommandDecodeError<'a>> {
        parse::command(input).map_err(|e| match e {
            Fail::Incomplete => CommandDecodeError::Incomplete,
            Fail::Failed => CommandDecodeError::Failed,
            Fail::Literal { length, mode } => {
                // As the original: the tag is parsed once more; unwrap is fine because it was already parsed
                let tag = parse::tag_of(input).unwrap();
                CommandDecodeError::LiteralFound { tag, length, mode }
            }
        })
    }
}
impl Decoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    type Error<'a> = ResponseDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Response<'a>), ResponseDecodeError> {
        parse::response(input).map_err(|e| match e {
            Fail::Incomplete => ResponseDecodeError::Incomplete,
            Fail::Failed => ResponseDecodeError::Failed,
            Fail::Literal { length, .. } => ResponseDecodeError::LiteralFound { length },
        })
    }
}
impl Decoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    type Error<'a> = AuthenticateDataDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], AuthenticateData<'a>), AuthenticateDataDecodeError> {
        parse::authenticate_data(input).map_err(|e| match e { Fail::Incomplete => AuthenticateDataDecodeError::Incomplete, _ => AuthenticateDataDecodeError::Failed })
    }
}
impl Decoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    type Error<'a> = IdleDoneDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], IdleDone), IdleDoneDecodeError> {
        parse::idle_done(input).map_err(|e| match e { Fail::Incomplete => IdleDoneDecodeError::Incomplete, _ => IdleDoneDecodeError::Failed })
    }
}
