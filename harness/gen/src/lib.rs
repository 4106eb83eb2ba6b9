//! Generators of IMAP messages. Every message carries a number unique in its case, so that a message
//! that is lost, repeated or reordered is always distinguishable.
pub mod secret;
pub mod spy;

use std::borrow::Cow;
use std::num::NonZeroU32;

use imap_codec::encode::{Encoder, Fragment};
use imap_codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};
use imap_types::auth::{AuthMechanism, AuthenticateData};
use imap_types::command::{Command, CommandBody};
use imap_types::core::*;
use imap_types::extensions::binary::Literal8;
use imap_types::extensions::idle::IdleDone;
use imap_types::datetime::DateTime;
use imap_types::extensions::compress::CompressionAlgorithm;
use imap_types::extensions::enable::CapabilityEnable;
use imap_types::extensions::quota::{QuotaGet, QuotaSet, Resource};
use imap_types::fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName, Part, Section};
use imap_types::flag::*;
use imap_types::mailbox::{ListMailbox, Mailbox};
use imap_types::response::*;
use imap_types::search::SearchKey;
use imap_types::secret::Secret;
use imap_types::sequence::SequenceSet;
use imap_types::status::{StatusDataItem, StatusDataItemName};
use pbt::Src;

/// Which literals a generated command may contain.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lits { None, Sync, NonSync, Any }

/// How large things are: a few cases with very long histories, or very long messages.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scale { Usual, Long, Bulk, Far }
thread_local! { pub static SCALE: std::cell::Cell<Scale> = const { std::cell::Cell::new(Scale::Usual) }; }
pub fn scaled<R>(scale: Scale, f: impl FnOnce() -> R) -> R {
    struct Back;
    impl Drop for Back { fn drop(&mut self) { SCALE.set(Scale::Usual); } }
    let _back = Back;
    SCALE.set(scale);
    f()
}
/// The number of steps of a history.
pub fn steps(s: &mut Src, usual: usize) -> usize { if SCALE.get() == Scale::Long { 100 + s.size(2500) } else { s.size(usual) } }

pub struct G<'a> {
    pub s: &'a mut Src,
    pub n: u64,
    pub lits: Lits,
    pub max_lit: usize,
    /// One in how many strings is a literal.
    pub lit_rate: u64,
    /// Passwords and data of exchanges carry markers.
    pub secret: bool,
    pub bulk: bool,
    /// Some messages are the same as one before.
    pub repeats: bool,
    /// Also commands, so that tags are not unique.
    pub same_tags: bool,
    /// All tags so far, to make others that nearly are the same.
    tags: Vec<String>,
    commands: Vec<Command<'static>>,
    responses: Vec<Response<'static>>,
}

const ATOM: &str = "abcXYZ019._-";
/// Whatever else an atom may contain.
const ATOM_WIDE: &str = "azAZ09!#$&',-./:;<=>?@[^_`|~}";
const QUOTED: &str = "ab 0{}()*%+\\\"]";
const QUOTED_WIDE: &str = "azAZ09 !#$&',-./:;<=>?@[]^_`|~{}()*%+\\\"\t\u{1}\u{7f}";
/// What servers say.
const WORDS: &[&str] = &["Literal", "literal", "too", "large", "long", "big", "IDLE", "idle", "idling", "terminated", "accepted", "rejected", "completed", "BYE", "Logging", "out", "timeout", "Autologout;", "Authentication", "failed", "failed.",
    "AUTHENTICATIONFAILED", "[ALERT]", "[CAPABILITY", "CAPABILITY", "Invalid", "credentials", "DONE", "OK", "NO", "BAD", "Quota", "exceeded", "mailbox", "doesn't", "exist", "TRYCREATE]", "SELECT", "LOGIN", "command", "Command", "unknown", "Unknown",
    "syntax", "error", "Error", "limit", "size", "maximum", "try", "again", "later", "Server", "shutting", "down", "unavailable", "proxy:", "Proxy", "by", "proxy", "ready", "Trying", "throttled", "internal", "Internal", "LITERAL+", "STARTTLS", "TLS",
    "must", "be", "not", "allowed", "forbidden", "until", "noon", "{3}", "{3+}", "+", "*", "SASL", "continue", "Continue", "cancelled", "AUTHENTICATE", "connection", "Connection", "closed", "closing", "UTF-8", "IMAP4rev1", "Dovecot", "ready.", "waiting", "for"];
/// Lines of other protocols and slips that servers and clients are known for.
const STRANGE: &[&[u8]] = &[b"\x16\x03\x01\x02", b"\x16\x03 what", b"\x15\x03\x03", b"\x80\x2e\x01", b"GET / HTTP/1.1", b"POST / HTTP/1.0", b"HTTP/1.1 400 Bad Request", b"SSH-2.0-x", b"EHLO example.org", b"HELO x", b"220 mx ESMTP", b"+OK POP3 ready", b"-ERR no", b"USER x", b"PASS y", b"QUIT",
    b"NOOP", b"LOGIN a b", b"LOGOUT", b"\0", b"\0\0\0\0", b"\xef\xbb\xbfa1 NOOP", b"\xff\xf4\xff\xfd\x06", b"\x1b[A", b"\x04", b"\x03", b"\t", b"-", b"~", b"#", b"\r", b"\r\ra1 NOOP", b"a1\tNOOP", b"a1 NOOP\0", b"a1 a1 NOOP", b"PROXY TCP4 10.0.0.1 10.0.0.2 1 2", b"\x0d\x0a\x0d\x0a\x00\x0d\x0aQUIT", b"*", b"**", b"++", b"+ +", b"* *", b"* +", b"*1 EXISTS", b"* BYE", b"* OK", b"BYE", b"DONE DONE", b"DONE*", b"{0}", b"}", b")", b"(", b"\"", b"\\"];
const LITERAL: &[u8] = b"ab\r\n {}+0*DONE\"\\\xff\x80.";

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src) -> Self { Self { s, n: 0, lits: Lits::Any, max_lit: if SCALE.get() == Scale::Bulk { 400_000 } else { 24 }, lit_rate: 3, secret: secret::MODE.get(), bulk: SCALE.get() == Scale::Bulk, repeats: true, same_tags: false, tags: vec![], commands: vec![], responses: vec![] } }
    /// In bulk, sometimes, a size up to about `max`, often near a power of two.
    fn huge(&mut self, of: u64, max: usize) -> Option<usize> {
        if !self.bulk || !self.s.chance(1, of) { return None; }
        Some(match self.s.below(3) { 0 => self.s.idx(max + 1), 1 => { let k = 1usize << self.s.range(7, 18); (k + self.s.idx(5)).saturating_sub(2).min(max) } _ => self.s.idx(max / 16 + 1) })
    }
    pub fn uniq(&mut self) -> u64 { self.n += 1; self.n }
    pub fn tag(&mut self) -> Tag<'static> {
        if !self.secret && !self.tags.is_empty() && self.s.chance(1, 6) {
            let i = self.tags.len() - 1 - self.s.idx(self.tags.len().min(8));
            let old = &self.tags[i];
            let x = *self.s.pick(&['1', 'a', 'B', '.', '0']);
            let new = match self.s.below(5) {
                0 => format!("{old}{x}"),
                1 => format!("{x}{old}"),
                2 => old[..old.len() - 1].to_owned(),
                3 => old.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
                _ => { let k = self.s.idx(old.len()); format!("{}{x}{}", &old[..k], &old[k + 1..]) }
            };
            if !new.is_empty() && !self.tags.contains(&new) { self.tags.push(new.clone()); return Tag::try_from(new).unwrap(); }
        }
        loop { let t = self.new_tag(); if !self.tags.iter().any(|x| x == t.as_ref()) { self.tags.push(t.as_ref().to_owned()); return t; } }
    }
    fn new_tag(&mut self) -> Tag<'static> {
        let n = self.uniq();
        let extra = match self.s.below(4) { 0 | 1 => String::new(), 2 => if self.s.bool() { self.s.string(2, "aZ9.-") } else { self.s.string(3, ATOM_WIDE) }, _ => { let k = self.s.range(1, 12); self.s.string(k, "aZ9.-]") } };
        let pre = *self.s.pick(&["A", "a", "x.", "7", "T-"]);
        if !self.secret && self.s.chance(1, 20) {
            // a long one, with its number at either end; not where limits are low and a cut one would leave its rest
            let k = match self.s.below(3) { 0 => self.s.range(13, 80), 1 => (1usize << self.s.range(4, 10)) - self.s.idx(6), _ => self.s.range(80, 600) };
            let fill = *self.s.pick(&["b", "T.", "0", "aB-", "x/"]);
            let fill: String = fill.chars().cycle().take(k).collect();
            return Tag::try_from(if self.s.bool() { format!("{pre}{n}{extra}{fill}") } else { format!("{pre}{fill}{n}{extra}") }).unwrap();
        }
        Tag::try_from(format!("{pre}{n}{extra}")).unwrap()
    }
    pub fn atom(&mut self) -> Atom<'static> { Atom::try_from(self.atom_text()).unwrap() }
    fn atom_text(&mut self) -> String {
        // (an atom that starts like a code is not one in an atom's place, but is left to the texts)
        match self.s.below(8) { 0 => { let k = self.s.range(1, 12); let mut t = self.s.string(k, ATOM_WIDE); t.insert(0, 'q'); t.retain(|c| c != '[' && c != '}'); t } 1 => { let k = self.s.range(20, 300); self.s.string(k, ATOM) } _ => { let k = self.s.range(1, 6); self.s.string(k, ATOM) } }
    }
    /// Text that is never mistaken for base64 (it contains a space).
    pub fn text(&mut self) -> Text<'static> {
        let n = self.uniq();
        if let Some(k) = self.huge(8, 40_000) { return Text::try_from(format!("m {n} {}", "x y".repeat(1 + k / 3))).unwrap(); }
        if self.s.chance(1, 4) {
            let k = self.s.range(1, 5);
            let mut t: Vec<String> = (0..k).map(|_| self.s.pick(WORDS).to_string()).collect();
            let at = self.s.range(0, k);
            t.insert(at, n.to_string());
            if t[0].starts_with('[') { t.insert(0, "x".into()); }
            return Text::try_from(t.join(" ")).unwrap();
        }
        let tail = match self.s.below(4) { 0 | 1 => String::new(), 2 => { let k = self.s.size(12); self.s.string(k, "abc 0{}[]\"+*DONE.") }, _ => { let k = self.s.size(80); self.s.string(k, "ab c") } };
        Text::try_from(format!("m {n}{}{tail}", if tail.is_empty() { "" } else { " " })).unwrap()
    }
    fn literal_data(&mut self) -> Vec<u8> {
        if let Some(k) = self.huge(3, self.max_lit) { let n = self.s.u64(); return (0..k as u64).map(|i| match pbt::mix(n ^ i) % 40 { 0 => b'\r', 1 => b'\n', 2 => b'{', 3 => 0xff, x => b'a' + (x % 26) as u8 }).collect(); }
        let k = if self.s.chance(1, 6) { self.max_lit.saturating_sub(self.s.idx(2)) } else { self.s.size(self.max_lit.min(500)) };
        match self.s.below(6) {
            // contents that look like protocol
            0 => { let v: &[u8] = *self.s.pick(&[&b"a1 NOOP\r\n"[..], b"{3}\r\nabc", b"{3+}\r\nabc", b"\r\n", b"\n", b"DONE\r\n", b"*\r\n", b"+ ok\r\n", b"* BYE x\r\n", b"\r\n\r\n"]); v[..v.len().min(self.max_lit)].to_vec() }
            _ => self.s.bytes(k, LITERAL),
        }
    }
    pub fn literal(&mut self) -> Literal<'static> {
        let d = self.literal_data();
        let sync = match self.lits { Lits::NonSync => false, Lits::Sync => true, _ => !self.s.bool() };
        let l = Literal::try_from(d).unwrap();
        if sync { l } else { l.into_non_sync() }
    }
    fn want_literal(&mut self) -> bool { self.lits != Lits::None && self.s.chance(1, self.lit_rate) }
    pub fn quoted(&mut self) -> Quoted<'static> { if let Some(k) = self.huge(8, 40_000) { return Quoted::try_from("ab c\\".repeat(k / 5)).unwrap(); } let k = self.s.size(12); let set = if self.s.chance(1, 4) { QUOTED_WIDE } else { QUOTED }; Quoted::try_from(self.s.string(k, set)).unwrap() }
    pub fn istring(&mut self) -> IString<'static> { if self.want_literal() { IString::Literal(self.literal()) } else { IString::Quoted(self.quoted()) } }
    pub fn nstring(&mut self) -> NString<'static> { NString(if self.s.chance(1, 4) { None } else { Some(self.istring()) }) }
    pub fn astring(&mut self) -> AString<'static> {
        if self.want_literal() { return AString::String(IString::Literal(self.literal())); }
        if self.s.chance(1, 3) { AString::String(IString::Quoted(self.quoted())) } else { AString::Atom(AtomExt::try_from(self.atom_text()).unwrap()) }
    }
    pub fn mailbox(&mut self) -> Mailbox<'static> { if self.s.chance(1, 4) { Mailbox::Inbox } else { Mailbox::from(self.astring()) } }
    pub fn flag(&mut self) -> Flag<'static> {
        match self.s.below(7) { 0 => Flag::Seen, 1 => Flag::Answered, 2 => Flag::Deleted, 3 => Flag::Draft, 4 => Flag::Flagged, 5 => Flag::keyword(self.atom()), _ => Flag::system(Atom::try_from(format!("X{}", self.atom().as_ref())).unwrap()) }
    }
    pub fn mechanism(&mut self) -> AuthMechanism<'static> { AuthMechanism::try_from(*self.s.pick(&["PLAIN", "LOGIN", "XOAUTH2", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA3-512-PLUS", "X-MECH"])).unwrap() }
    fn password(&mut self) -> AString<'static> {
        if !self.secret { return self.astring(); }
        let n = self.uniq();
        let m = secret::marker(n);
        if self.want_literal() { let sync = match self.lits { Lits::NonSync => false, Lits::Sync => true, _ => !self.s.bool() }; let v = self.wrap(m.into_bytes()); let l = Literal::try_from(v).unwrap(); return AString::String(IString::Literal(if sync { l } else { l.into_non_sync() })); }
        let (a, b) = (self.s.string(2, "ab\"\\"), self.s.string(2, "ab ("));
        if self.s.bool() { AString::String(IString::Quoted(Quoted::try_from(format!("{a}{m}{b}")).unwrap())) } else { AString::Atom(AtomExt::try_from(m).unwrap()) }
    }
    fn wrap(&mut self, m: Vec<u8>) -> Vec<u8> { let (a, b) = (self.s.size(5), self.s.size(5)); let mut v = self.s.bytes(a, b"ab\xff"); v.extend(m); v.extend(self.s.bytes(b, b"ab\xff")); v }
    pub fn blob(&mut self) -> Vec<u8> {
        if self.secret { let n = self.uniq(); return self.wrap(secret::marker(n).into_bytes()); }
        if let Some(k) = self.huge(3, 100_000) { let n = self.s.u64(); return (0..k as u64).map(|i| pbt::mix(n ^ i) as u8).collect(); }
        let k = self.s.size(24); self.s.bytes(k, b"ab\0\r\n\xffDONE*")
    }

    pub fn regular_body(&mut self) -> CommandBody<'static> {
        match self.s.below(26) {
            20.. => self.more_body(),
            0 => CommandBody::Noop, 1 => CommandBody::Capability, 2 => CommandBody::Logout, 3 => CommandBody::Check, 4 => CommandBody::Expunge,
            5 => CommandBody::StartTLS, 6 => CommandBody::Close, 7 => CommandBody::Unselect,
            8 | 9 => CommandBody::Login { username: self.astring(), password: Secret::new(self.password()) },
            10 => CommandBody::Select { mailbox: self.mailbox() },
            11 => CommandBody::Examine { mailbox: self.mailbox() },
            12 => CommandBody::Create { mailbox: self.mailbox() },
            13 => CommandBody::Rename { from: self.mailbox(), to: self.mailbox() },
            14 => CommandBody::Subscribe { mailbox: self.mailbox() },
            15 => CommandBody::List { reference: self.mailbox(), mailbox_wildcard: if self.want_literal() { ListMailbox::String(IString::Literal(self.literal())) } else { ListMailbox::try_from(*self.s.pick(&["*", "%", "a/%"])).unwrap() } },
            16 | 17 if self.lits != Lits::None => {
                let mailbox = self.mailbox();
                let k = self.s.idx(3);
                let flags = (0..k).map(|_| self.flag()).collect();
                let l = self.literal();
                let message = if self.s.chance(1, 4) { LiteralOrLiteral8::Literal8(Literal8 { mode: l.mode(), data: l.into_inner() }) } else { LiteralOrLiteral8::Literal(l) };
                let date = if self.s.chance(1, 4) { Some(self.date_time()) } else { None };
                CommandBody::Append { mailbox, flags, date, message }
            }
            18 => { let k = self.s.idx(4); CommandBody::Id { parameters: if k == 0 { None } else { Some((0..k).map(|_| (self.istring(), self.nstring())).collect()) } } }
            _ => CommandBody::Delete { mailbox: self.mailbox() },
        }
    }
    pub fn date_time(&mut self) -> DateTime { DateTime::try_from(*self.s.pick(&[" 1-Feb-2024 10:00:00 +0000", "28-Dec-1999 23:59:59 -1130", "01-jan-0001 00:00:00 +0000", "17-JUL-9999 02:44:25 -0700"])).unwrap_or_else(|_| DateTime::try_from("17-Jul-1996 02:44:25 -0700").unwrap()) }
    pub fn sequence_set(&mut self) -> SequenceSet {
        let k = 1 + self.s.size(6);
        let t: Vec<String> = (0..k).map(|_| { let mut one = |g: &mut Self| if g.s.chance(1, 5) { "*".to_owned() } else { g.nz().to_string() }; let a = one(self); if self.s.bool() { a } else { let b = one(self); format!("{a}:{b}") } }).collect();
        SequenceSet::try_from(t.join(",").as_str()).unwrap()
    }
    fn part(&mut self) -> Part { let k = 1 + self.s.idx(3); Part(Vec1::try_from((0..k).map(|_| self.nz()).collect::<Vec<_>>()).unwrap()) }
    fn section(&mut self) -> Option<Section<'static>> {
        let part = if self.s.bool() { Some(self.part()) } else { None };
        Some(match self.s.below(6) {
            0 => return None, 1 => Section::Part(self.part()), 2 => Section::Header(part), 3 => Section::Text(part), 4 => Section::Mime(self.part()),
            _ => { let k = 1 + self.s.idx(3); Section::HeaderFields(part, Vec1::try_from((0..k).map(|_| self.astring()).collect::<Vec<_>>()).unwrap()) }
        })
    }
    fn resource(&mut self) -> Resource<'static> { let a = match self.s.below(4) { 0 => self.atom(), _ => Atom::try_from(*self.s.pick(&["STORAGE", "message", "MAILBOX", "ANNOTATION-STORAGE"])).unwrap() }; Resource::from(a) }
    fn n64(&mut self) -> u64 { match self.s.below(4) { 0 => u64::MAX - self.s.below(3), 1 => 1u64 << self.s.below(64), _ => self.s.below(10_000) } }
    fn search_key(&mut self, depth: usize) -> SearchKey<'static> {
        use SearchKey as K;
        match self.s.below(if depth < 2 { 24 } else { 21 }) {
            0 => K::All, 1 => K::Answered, 2 => K::Deleted, 3 => K::Draft, 4 => K::Flagged, 5 => K::New, 6 => K::Old, 7 => K::Recent, 8 => K::Seen, 9 => K::Unseen, 10 => K::Undeleted,
            11 => K::Larger(self.s.u64() as u32), 12 => K::Smaller(self.s.below(5000) as u32), 13 => K::Keyword(self.atom()), 14 => K::Unkeyword(self.atom()), 15 => K::SequenceSet(self.sequence_set()), 16 => K::Uid(self.sequence_set()),
            17 => K::Header(self.astring(), self.astring()), 18 => K::Subject(self.astring()), 19 => K::From(self.astring()), 20 => K::Text(self.astring()),
            21 => K::Not(Box::new(self.search_key(depth + 1))), 22 => K::Or(Box::new(self.search_key(depth + 1)), Box::new(self.search_key(depth + 1))),
            _ => { let k = 1 + self.s.idx(3); K::And(Vec1::try_from((0..k).map(|_| self.search_key(depth + 1)).collect::<Vec<_>>()).unwrap()) }
        }
    }
    fn item_name(&mut self) -> MessageDataItemName<'static> {
        use MessageDataItemName as N;
        match self.s.below(12) {
            0 => N::Body, 1 => N::BodyStructure, 2 => N::Envelope, 3 => N::Flags, 4 => N::InternalDate, 5 => N::Rfc822, 6 => N::Rfc822Header, 7 => N::Rfc822Size, 8 => N::Rfc822Text, 9 => N::Uid,
            _ => { let section = self.section(); let partial = if self.s.chance(1, 3) { Some((self.s.below(5000) as u32, self.nz())) } else { None }; N::BodyExt { section, partial, peek: self.s.bool() } }
        }
    }
    fn enable(&mut self) -> Vec<CapabilityEnable<'static>> { let k = 1 + self.s.idx(3); (0..k).map(|_| match self.s.below(3) { 0 => CapabilityEnable::from(self.atom()), _ => CapabilityEnable::try_from(*self.s.pick(&["CONDSTORE", "UTF8=ACCEPT", "UTF8=ONLY", "METADATA", "QRESYNC"])).unwrap() }).collect() }
    fn more_body(&mut self) -> CommandBody<'static> {
        let uid = self.s.bool();
        match self.s.below(14) {
            0 | 1 => {
                let mailbox = self.mailbox();
                let k = 1 + self.s.idx(4);
                use StatusDataItemName as N;
                CommandBody::Status { mailbox, item_names: Cow::Owned((0..k).map(|_| *self.s.pick(&[N::Messages, N::Recent, N::UidNext, N::UidValidity, N::Unseen, N::Deleted, N::DeletedStorage])).collect()) }
            }
            2 | 3 => {
                let charset = if self.s.chance(1, 4) { Some(if self.s.bool() { Charset::Atom(Atom::try_from("UTF-8").unwrap()) } else { Charset::Quoted(self.quoted()) }) } else { None };
                let k = 1 + self.s.idx(3);
                CommandBody::Search { charset, criteria: Vec1::try_from((0..k).map(|_| self.search_key(0)).collect::<Vec<_>>()).unwrap(), uid }
            }
            4 | 5 => {
                let sequence_set = self.sequence_set();
                let macro_or_item_names = if self.s.chance(1, 4) { MacroOrMessageDataItemNames::Macro(*self.s.pick(&[Macro::All, Macro::Fast, Macro::Full])) } else { let k = 1 + self.s.idx(4); MacroOrMessageDataItemNames::MessageDataItemNames((0..k).map(|_| self.item_name()).collect()) };
                CommandBody::Fetch { sequence_set, macro_or_item_names, uid }
            }
            6 => {
                let k = self.s.idx(3);
                CommandBody::Store { sequence_set: self.sequence_set(), kind: *self.s.pick(&[StoreType::Add, StoreType::Remove, StoreType::Replace]), response: *self.s.pick(&[StoreResponse::Answer, StoreResponse::Silent]), flags: (0..k).map(|_| self.flag()).collect(), uid }
            }
            7 => CommandBody::Copy { sequence_set: self.sequence_set(), mailbox: self.mailbox(), uid },
            8 => CommandBody::Move { sequence_set: self.sequence_set(), mailbox: self.mailbox(), uid },
            9 => CommandBody::Enable { capabilities: Vec1::try_from(self.enable()).unwrap() },
            10 => if self.s.bool() { CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate } } else { CommandBody::Namespace },
            11 => if self.s.bool() { CommandBody::GetQuota { root: self.astring() } } else { CommandBody::GetQuotaRoot { mailbox: self.mailbox() } },
            12 => { let root = self.astring(); let k = self.s.idx(3); CommandBody::SetQuota { root, quotas: (0..k).map(|_| { let r = self.resource(); QuotaSet::new(r, self.n64()) }).collect() } }
            _ => CommandBody::ExpungeUid { sequence_set: self.sequence_set() },
        }
    }
    pub fn regular(&mut self) -> Command<'static> {
        if self.same_tags && !self.commands.is_empty() && self.s.chance(1, 12) { let i = self.commands.len() - 1 - self.s.idx(self.commands.len()); return self.commands[i].clone(); }
        let tag = self.tag();
        let c = Command { tag, body: self.regular_body() };
        remember(&mut self.commands, &c);
        c
    }
    pub fn authenticate(&mut self) -> Command<'static> {
        let tag = self.tag();
        let mechanism = self.mechanism();
        let initial_response = if self.s.bool() { Some(Secret::new(Cow::Owned(self.blob()))) } else { None };
        Command { tag, body: CommandBody::Authenticate { mechanism, initial_response } }
    }
    pub fn idle(&mut self) -> Command<'static> { let tag = self.tag(); Command { tag, body: CommandBody::Idle } }
    pub fn authenticate_data(&mut self) -> AuthenticateData<'static> { if self.s.chance(1, 5) { AuthenticateData::Cancel } else { AuthenticateData::Continue(Secret::new(Cow::Owned(self.blob()))) } }

    pub fn capability(&mut self) -> Capability<'static> {
        let names = ["IMAP4rev1", "IDLE", "LITERAL+", "LITERAL-", "MOVE", "ID", "UNSELECT", "QUOTA", "QUOTASET", "QUOTA=RES-STORAGE", "QUOTA=RES-X", "SASL-IR", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2",
            "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-256", "AUTH=SCRAM-SHA-1-PLUS", "AUTH=SCRAM-SHA-256-PLUS", "AUTH=SCRAM-SHA3-512", "AUTH=SCRAM-SHA3-512-PLUS", "AUTH=OAUTHBEARER", "AUTH=X-NEW", "STARTTLS", "LOGINDISABLED",
            "COMPRESS=DEFLATE", "CONDSTORE", "QRESYNC", "UIDPLUS", "NAMESPACE", "ENABLE", "SORT", "SORT=DISPLAY", "THREAD=REFERENCES", "METADATA", "METADATA-SERVER", "BINARY", "X-GM-EXT-1", "IMAP4rev2", "MAILBOX-REFERRALS", "LOGIN-REFERRALS"];
        Capability::try_from(*self.s.pick(&names)).unwrap()
    }
    pub fn capabilities(&mut self) -> Vec1<Capability<'static>> { let k = 1 + self.s.size(8); Vec1::try_from((0..k).map(|_| self.capability()).collect::<Vec<_>>()).unwrap() }
    pub fn nz(&mut self) -> NonZeroU32 { NonZeroU32::new(match self.s.below(12) { 0 => u32::MAX - self.s.below(3) as u32, 1 => 1u32 << self.s.below(32), _ => 1 + self.s.below(5000) as u32 }).unwrap() }
    pub fn code(&mut self) -> Option<Code<'static>> {
        if self.s.bool() { return None; }
        Some(match self.s.below(12) {
            0 => Code::Alert, 1 => Code::ReadWrite, 2 => Code::TryCreate, 3 => Code::UidNext(self.nz()), 4 => Code::UidValidity(self.nz()), 5 | 6 => Code::Capability(self.capabilities()),
            7 => { let k = self.s.idx(3); let mut v: Vec<FlagPerm> = (0..k).map(|_| FlagPerm::Flag(self.flag())).collect(); if self.s.bool() { v.push(FlagPerm::Asterisk) } Code::PermanentFlags(v) }
            8 => Code::Unseen(self.nz()), 9 => Code::ReadOnly, 10 => Code::Other(CodeOther::unvalidated(format!("X-{} a{{1}}", self.atom().as_ref()).into_bytes())), _ => Code::Parse,
        })
    }
    pub fn kind(&mut self) -> StatusKind { *self.s.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad]) }
    pub fn status(&mut self, tag: Option<Tag<'static>>) -> Status<'static> { let kind = self.kind(); self.status_of(tag, kind) }
    pub fn status_of(&mut self, tag: Option<Tag<'static>>, kind: StatusKind) -> Status<'static> { let code = self.code(); let text = self.text(); Status::new(tag, kind, code, text).unwrap() }
    /// One of the last responses again, sometimes.
    fn again<T>(&mut self, f: impl Fn(&Response<'static>) -> Option<T>) -> Option<T> {
        if !self.repeats || self.responses.is_empty() || !self.s.chance(1, 12) { return None; }
        let i = self.s.idx(self.responses.len());
        let i = self.responses.len() - 1 - i;
        f(&self.responses[i])
    }
    pub fn any_status(&mut self) -> Status<'static> {
        if let Some(x) = self.again(|r| if let Response::Status(x) = r { Some(x.clone()) } else { None }) { return x; }
        let x = self.new_status();
        remember(&mut self.responses, &Response::Status(x.clone()));
        x
    }
    fn new_status(&mut self) -> Status<'static> {
        match self.s.below(4) { 0 => self.status(None), 1 => { let code = self.code(); let text = self.text(); Status::bye(code, text).unwrap() } _ => { let t = self.tag(); self.status(Some(t)) } }
    }
    pub fn data(&mut self) -> Data<'static> {
        if let Some(x) = self.again(|r| if let Response::Data(x) = r { Some(x.clone()) } else { None }) { return x; }
        let x = self.new_data();
        remember(&mut self.responses, &Response::Data(x.clone()));
        x
    }
    fn new_data(&mut self) -> Data<'static> {
        match self.s.below(13) {
            10 => {
                let mailbox = self.mailbox();
                let k = self.s.idx(4);
                let mut items: Vec<StatusDataItem> = (0..k).map(|_| match self.s.below(6) { 0 => StatusDataItem::Recent(self.s.u64() as u32), 1 => StatusDataItem::UidNext(self.nz()), 2 => StatusDataItem::UidValidity(self.nz()), 3 => StatusDataItem::Unseen(0), 4 => StatusDataItem::Deleted(self.s.below(100) as u32), _ => StatusDataItem::DeletedStorage(self.n64()) }).collect();
                items.push(StatusDataItem::Messages(self.uniq() as u32));
                Data::Status { mailbox, items: Cow::Owned(items) }
            }
            11 => { let mut capabilities = if self.s.chance(1, 4) { vec![] } else { self.enable() }; if self.s.chance(3, 4) { capabilities.push(CapabilityEnable::from(Atom::try_from(format!("X-{}", self.uniq())).unwrap())); } Data::Enabled { capabilities } }
            12 => if self.s.bool() { let root = self.astring(); let k = self.s.idx(3); let n = self.uniq(); let mut v = vec![QuotaGet::new(Resource::from(Atom::try_from("STORAGE").unwrap()), n, 1000)]; for _ in 0..k { let r = self.resource(); v.push(QuotaGet::new(r, self.n64(), self.n64())); } Data::Quota { root, quotas: Vec1::try_from(v).unwrap() } }
                  else { let mailbox = self.mailbox(); let k = self.s.idx(3); Data::QuotaRoot { mailbox, roots: (0..k).map(|_| self.astring()).collect() } },
            0 => Data::Exists(self.uniq() as u32), 1 => Data::Recent(self.uniq() as u32), 2 => Data::Expunge(NonZeroU32::new(self.uniq() as u32).unwrap()),
            3 => { let n = self.uniq() as u32; let k = self.s.size(10); let mut v: Vec<NonZeroU32> = (0..k).map(|_| self.nz()).collect(); v.push(NonZeroU32::new(n).unwrap()); if self.s.chance(1, 6) { v.clear(); } Data::Search(v) }
            4 => Data::Capability(self.capabilities()),
            5 => { let k = self.s.size(4); let mut v: Vec<Flag> = (0..k).map(|_| self.flag()).collect(); v.push(Flag::keyword(Atom::try_from(format!("k{}", self.uniq())).unwrap())); Data::Flags(v) }
            6 => { let mailbox = self.mailbox(); let delimiter = if self.s.bool() { Some(QuotedChar::try_from(*self.s.pick(&['/', '.', '"', '\\'])).unwrap()) } else { None };
                   let k = self.s.idx(3); let items = (0..k).map(|_| FlagNameAttribute::from(Atom::try_from(*self.s.pick(&["Noselect", "Marked", "Xfoo"])).unwrap())).collect(); if self.s.bool() { Data::List { items, delimiter, mailbox } } else { Data::Lsub { items, delimiter, mailbox } } }
            7 => { let k = self.s.idx(3); Data::Id { parameters: if k == 0 { None } else { Some((0..k).map(|_| (self.istring(), self.nstring())).collect()) } } }
            _ => {
                let seq = NonZeroU32::new(self.uniq() as u32).unwrap();
                let k = self.s.range(1, 3);
                let items = (0..k).map(|_| match self.s.below(9) {
                    6 => MessageDataItem::InternalDate(self.date_time()),
                    7 | 8 => { let section = self.section(); MessageDataItem::BodyExt { section, origin: if self.s.chance(1, 3) { Some(self.s.below(5000) as u32) } else { None }, data: self.nstring() } }
                    0 => MessageDataItem::Uid(self.nz()), 1 => MessageDataItem::Rfc822Size(if self.s.chance(1, 8) { u32::MAX - self.s.below(3) as u32 } else { self.s.below(100000) as u32 }), 2 => MessageDataItem::Rfc822Header(self.nstring()), 3 => MessageDataItem::Rfc822Text(self.nstring()),
                    4 => { let k = self.s.idx(3); let mut v: Vec<FlagFetch> = (0..k).map(|_| FlagFetch::Flag(self.flag())).collect(); if self.s.bool() { v.push(FlagFetch::Recent); } MessageDataItem::Flags(v) }
                    _ => MessageDataItem::Rfc822(self.nstring()),
                }).collect::<Vec<_>>();
                Data::Fetch { seq, items: Vec1::try_from(items).unwrap() }
            }
        }
    }
    pub fn ccr(&mut self) -> CommandContinuationRequest<'static> {
        if self.s.chance(1, 3) { let n = self.uniq(); let k = std::mem::replace(&mut self.secret, false); let mut b = self.blob(); self.secret = k; b.extend(n.to_string().bytes()); CommandContinuationRequest::base64(b) }
        else { let code = self.code(); let text = self.text(); CommandContinuationRequest::basic(code, text).unwrap() }
    }
    /// A continuation request that carries no data.
    pub fn ccr_plain(&mut self) -> CommandContinuationRequest<'static> { let code = self.code(); let text = self.text(); CommandContinuationRequest::basic(code, text).unwrap() }
    pub fn greeting(&mut self) -> Greeting<'static> {
        let kind = *self.s.pick(&[GreetingKind::Ok, GreetingKind::PreAuth, GreetingKind::Bye]);
        let code = self.code();
        let text = self.text();
        Greeting { kind, code, text }
    }
    pub fn response(&mut self) -> Response<'static> {
        match self.s.below(5) { 0 | 1 => Response::Data(self.data()), 2 => Response::CommandContinuationRequest(self.ccr()), _ => Response::Status(self.any_status()) }
    }

    /// Broken variants of a message.
    pub fn mutate(&mut self, m: &mut Vec<u8>) {
        let k = self.s.range(1, 3);
        for _ in 0..k {
            if m.is_empty() { return; }
            let at = self.s.idx(m.len());
            match self.s.below(6) {
                0 => { m.remove(at); }
                1 => { let b = *self.s.pick(b" \r\n{}*+\"\\a0\xff"); m.insert(at, b); }
                2 => { let b = *self.s.pick(b" \r\n{}*+\"\\a0\xff"); m[at] = b; }
                3 => { m.truncate(at); m.extend(b"\r\n"); }
                4 => { m[at] ^= 0x20; }
                _ => { let at2 = self.s.idx(m.len()); m.swap(at, at2); }
            }
        }
        limit_literals(m);
    }
    /// A line, without its end, that is none of IMAP.
    pub fn strange(&mut self) -> &'static [u8] { *self.s.pick(STRANGE) }
    /// Bytes without structure, with and without a line end.
    pub fn junk(&mut self) -> Vec<u8> {
        if let Some(k) = self.huge(3, 100_000) { let b = *self.s.pick(&b"ax 0*\xff\"\r"[..]); let mut v = vec![b; k]; if self.s.chance(3, 4) { v.extend(b"\r\n"); } return v; }
        let k = self.s.size(40);
        let mut v = match self.s.below(4) { 3 => self.strange().to_vec(), 0 => self.s.bytes(k, b"ab 1\r\n{}+*"), 1 => (0..k).map(|_| self.s.below(256) as u8).collect(), _ => self.s.bytes(k, b"ab {}\"") };
        if self.s.chance(3, 4) { v.extend(b"\r\n"); }
        limit_literals(&mut v);
        v
    }
    /// A line with a marker in it that is no message of a client, whatever it waits for, and none of a server.
    pub fn secret_junk(&mut self, lf: bool) -> Vec<u8> {
        let n = self.uniq();
        let m = secret::marker(n);
        for _ in 0..10 {
            let mut v = match self.s.below(5 + lf as u64) {
                0 => format!("{} LOGIN {m}\r\n", self.tag().as_ref()).into_bytes(),
                1 => format!("{} LOGIN a \"{m}\r\n", self.tag().as_ref()).into_bytes(),
                2 => { let x = self.regular(); let mut v = enc_command(&x); self.mutate(&mut v); let at = self.s.idx(v.len() + 1); v.splice(at..at, m.bytes()); v }
                3 => { let x = self.response(); let mut v = enc_response(&x); self.mutate(&mut v); let at = self.s.idx(v.len() + 1); v.splice(at..at, m.bytes()); v }
                4 => { let mut v = self.junk(); let at = self.s.idx(v.len() + 1); v.splice(at..at, m.bytes()); v }
                // a bare line feed, where the rest is fine
                _ => { let t = self.tag(); return if self.s.bool() { format!("{} LOGIN a {m}\n", t.as_ref()) } else { format!("* OK {m}\n") }.into_bytes(); }
            };
            v.retain(|b| *b != b'{');
            if v.iter().filter(|b| **b == b'\n').count() != 1 || !v.ends_with(b"\r\n") { continue; }
            // a line that is too long may lose its beginning and be read from anywhere in it
            let tail = v.windows(6).rposition(|w| w == b"vB4nGy").unwrap_or(0);
            if no_message(&v) && (v.len() < 90 || (1..=tail).all(|i| no_message(&v[i..]))) { return v; }
        }
        format!("?? {m}\r\n").into_bytes()
    }
    /// Replaces line ends: all, or some, CRLF become LF (outside and inside literals alike is fine because
    /// the expectation is always computed from the bytes).
    pub fn relax(&mut self, m: &mut Vec<u8>) {
        let all = self.s.bool();
        let mut o = Vec::new();
        let mut i = 0;
        while i < m.len() {
            if m[i] == b'\r' && m.get(i + 1) == Some(&b'\n') && (all || self.s.bool()) { i += 1; continue; }
            o.push(m[i]);
            i += 1;
        }
        *m = o;
    }
    pub fn split(&mut self, b: &[u8]) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let mut i = 0;
        let mode = self.s.below(4);
        let unit = 1 + b.len() / 2000;
        while i < b.len() {
            let k = match mode { 0 => b.len(), 1 => unit, 2 => unit * self.s.range(1, 4), _ => unit + self.s.size(60) * unit }.min(b.len() - i);
            v.push(b[i..i + k].to_vec());
            i += k;
        }
        v
    }
}

fn remember<T: Clone>(v: &mut Vec<T>, x: &T) {
    if v.len() == 3 { v.remove(0); }
    v.push(x.clone());
}

/// Announced literal sizes are kept below a million: the client reserves memory for what it is told.
pub fn limit_literals(m: &mut Vec<u8>) {
    let mut i = 0;
    while i < m.len() {
        if m[i] == b'{' {
            let n = m[i + 1..].iter().take_while(|b| b.is_ascii_digit()).count();
            if n > 5 { m.drain(i + 6..i + 1 + n); }
        }
        i += 1;
    }
}

/// Not one of the messages that a client or a server may send, ever.
pub fn no_message(v: &[u8]) -> bool {
    use imap_codec::decode::*;
    matches!(CommandCodec::default().decode(v), Err(CommandDecodeError::Failed)) && matches!(AuthenticateDataCodec::default().decode(v), Err(AuthenticateDataDecodeError::Failed))
        && matches!(IdleDoneCodec::default().decode(v), Err(IdleDoneDecodeError::Failed)) && matches!(ResponseCodec::default().decode(v), Err(ResponseDecodeError::Failed)) && matches!(GreetingCodec::default().decode(v), Err(GreetingDecodeError::Failed))
}

pub fn enc_command(c: &Command) -> Vec<u8> { CommandCodec::default().encode(c).dump() }
pub fn enc_response(c: &Response) -> Vec<u8> { ResponseCodec::default().encode(c).dump() }
pub fn enc_greeting(c: &Greeting) -> Vec<u8> { GreetingCodec::default().encode(c).dump() }
pub fn enc_auth_data(c: &AuthenticateData) -> Vec<u8> { AuthenticateDataCodec::default().encode(c).dump() }
pub fn enc_done() -> Vec<u8> { IdleDoneCodec::default().encode(&IdleDone).dump() }
/// The command's bytes cut where the client has to wait for the server to accept a literal.
pub fn segments(c: &Command) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for f in CommandCodec::default().encode(c) {
        match f {
            Fragment::Line { data } | Fragment::Literal { data, mode: LiteralMode::NonSync } => v.last_mut().unwrap().extend(data),
            Fragment::Literal { data, mode: LiteralMode::Sync } => v.push(data),
        }
    }
    v
}

pub fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).chars().flat_map(|c| c.escape_debug()).collect() }
