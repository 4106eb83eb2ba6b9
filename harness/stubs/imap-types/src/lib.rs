//! Stand-in for `imap-types` 2.0.0-alpha.1: the part of its API that imap-next, the proxy, the tag
//! generator and their tests and examples use, with the validation rules of the original.
pub mod auth;
pub mod command;
pub mod core;
pub mod datetime;
pub mod error;
pub mod extensions;
pub mod fetch;
pub mod flag;
pub mod mailbox;
pub mod response;
pub mod search;
pub mod secret;
pub mod sequence;
pub mod state;
pub mod status;
pub mod utils;

pub use bounded_static;
pub use bounded_static::{IntoBoundedStatic, ToBoundedStatic, ToStatic};
