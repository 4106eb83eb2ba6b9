use std::borrow::Cow;
use std::fmt::{Display, Formatter};

use bounded_static::ToStatic;

use crate::core::Atom;
use crate::error::ValidationError;
use crate::secret::Secret;

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum AuthMechanism<'a> {
    Plain, Login, OAuthBearer, XOAuth2,
    ScramSha1, ScramSha1Plus, ScramSha256, ScramSha256Plus, ScramSha3_512, ScramSha3_512Plus,
    Other(AuthMechanismOther<'a>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct AuthMechanismOther<'a>(Atom<'a>);
impl<'a> AuthMechanismOther<'a> { pub fn inner(&self) -> &Atom<'a> { &self.0 } }

impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
    fn from(atom: Atom<'a>) -> Self {
        match atom.as_ref().to_ascii_uppercase().as_str() {
            "PLAIN" => Self::Plain,
            "LOGIN" => Self::Login,
            "OAUTHBEARER" => Self::OAuthBearer,
            "XOAUTH2" => Self::XOAuth2,
            "SCRAM-SHA-1" => Self::ScramSha1,
            "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
            "SCRAM-SHA-256" => Self::ScramSha256,
            "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
            "SCRAM-SHA3-512" => Self::ScramSha3_512,
            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
            _ => Self::Other(AuthMechanismOther(atom)),
        }
    }
}
impl<'a> TryFrom<&'a str> for AuthMechanism<'a> { type Error = ValidationError; fn try_from(v: &'a str) -> Result<Self, Self::Error> { Ok(Self::from(Atom::try_from(v)?)) } }
impl TryFrom<String> for AuthMechanism<'_> { type Error = ValidationError; fn try_from(v: String) -> Result<Self, Self::Error> { Ok(Self::from(Atom::try_from(v)?)) } }
impl<'a> TryFrom<&'a [u8]> for AuthMechanism<'a> { type Error = ValidationError; fn try_from(v: &'a [u8]) -> Result<Self, Self::Error> { Ok(Self::from(Atom::try_from(v)?)) } }
impl AsRef<str> for AuthMechanism<'_> {
    fn as_ref(&self) -> &str {
        match self {
            Self::Plain => "PLAIN", Self::Login => "LOGIN", Self::OAuthBearer => "OAUTHBEARER", Self::XOAuth2 => "XOAUTH2",
            Self::ScramSha1 => "SCRAM-SHA-1", Self::ScramSha1Plus => "SCRAM-SHA-1-PLUS",
            Self::ScramSha256 => "SCRAM-SHA-256", Self::ScramSha256Plus => "SCRAM-SHA-256-PLUS",
            Self::ScramSha3_512 => "SCRAM-SHA3-512", Self::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
            Self::Other(o) => o.0.as_ref(),
        }
    }
}
impl Display for AuthMechanism<'_> { fn fmt(&self, f: &mut Formatter) -> std::fmt::Result { f.write_str(self.as_ref()) } }

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum AuthenticateData<'a> {
    /// Continue SASL authentication.
    Continue(Secret<Cow<'a, [u8]>>),
    /// Cancel SASL authentication.
    Cancel,
}
impl<'a> AuthenticateData<'a> {
    pub fn r#continue<D>(data: D) -> Self where D: Into<Cow<'a, [u8]>> { Self::Continue(Secret::new(data.into())) }
}
