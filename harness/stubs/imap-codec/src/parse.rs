//! Cursor parser. `Incomplete` if the input ends too early, `Literal` if the input ends right after
//! a literal announcement, `Failed` otherwise.
use std::borrow::Cow;
use std::num::NonZeroU32;

use base64::{engine::general_purpose::STANDARD as B64, Engine};
use imap_types::auth::{AuthMechanism, AuthenticateData};
use imap_types::command::{Command, CommandBody};
use imap_types::core::*;
use imap_types::datetime::DateTime;
use imap_types::extensions::binary::Literal8;
use imap_types::extensions::compress::CompressionAlgorithm;
use imap_types::extensions::enable::CapabilityEnable;
use imap_types::extensions::quota::{QuotaGet, QuotaSet, Resource};
use imap_types::extensions::idle::IdleDone;
use imap_types::fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName, Part, Section};
use imap_types::flag::*;
use imap_types::mailbox::{ListCharString, ListMailbox, Mailbox};
use imap_types::response::*;
use imap_types::search::SearchKey;
use imap_types::secret::Secret;
use imap_types::sequence::SequenceSet;
use imap_types::status::{StatusDataItem, StatusDataItemName};
use imap_types::utils::indicators::*;
use imap_types::utils::unescape_quoted;

#[derive(Debug)]
pub enum Fail { Incomplete, Failed, Literal { length: u32, mode: LiteralMode } }
pub type R<T> = Result<T, Fail>;

#[derive(Clone, Copy)]
struct P<'a> { i: &'a [u8] }

fn failed<T, E>(r: Result<T, E>) -> R<T> { r.map_err(|_| Fail::Failed) }

impl<'a> P<'a> {
    fn peek(&self) -> R<u8> { self.i.first().copied().ok_or(Fail::Incomplete) }
    fn lit(&mut self, s: &str) -> R<()> {
        for c in s.bytes() {
            if !self.peek()?.eq_ignore_ascii_case(&c) { return Err(Fail::Failed); }
            self.i = &self.i[1..];
        }
        Ok(())
    }
    fn opt(&mut self, c: u8) -> R<bool> { Ok(if self.peek()? == c { self.i = &self.i[1..]; true } else { false }) }
    fn sp(&mut self) -> R<()> { self.lit(" ") }
    /// Relaxed: CRLF or LF (the strictness is decided by the caller, see `crlf_relaxed`).
    fn crlf(&mut self) -> R<()> {
        if self.opt(b'\r')? { self.lit("\n") } else { self.lit("\n") }
    }
    fn take_while(&mut self, f: fn(u8) -> bool) -> R<&'a [u8]> {
        let n = self.i.iter().position(|b| !f(*b)).ok_or(Fail::Incomplete)?;
        let (a, b) = self.i.split_at(n);
        self.i = b;
        Ok(a)
    }
    fn take_while1(&mut self, f: fn(u8) -> bool) -> R<&'a [u8]> {
        let r = self.take_while(f)?;
        if r.is_empty() { Err(Fail::Failed) } else { Ok(r) }
    }
    fn number(&mut self) -> R<u32> {
        let d = self.take_while1(|b| b.is_ascii_digit())?;
        failed(std::str::from_utf8(d).unwrap().parse::<u32>())
    }
    fn number64(&mut self) -> R<u64> {
        let d = self.take_while1(|b| b.is_ascii_digit())?;
        failed(std::str::from_utf8(d).unwrap().parse::<u64>())
    }
    fn nz(&mut self) -> R<NonZeroU32> { let n = self.number()?; NonZeroU32::new(n).ok_or(Fail::Failed) }
    fn tag(&mut self) -> R<Tag<'a>> {
        let t = self.take_while1(|b| is_astring_char(b) && b != b'+')?;
        failed(Tag::try_from(t))
    }
    fn atom(&mut self) -> R<Atom<'a>> { let t = self.take_while1(is_atom_char)?; failed(Atom::try_from(t)) }
    fn text(&mut self) -> R<Text<'a>> { let t = self.take_while1(is_text_char)?; failed(Text::try_from(t)) }
    fn quoted(&mut self) -> R<Quoted<'a>> {
        self.lit("\"")?;
        let mut n = 0;
        loop {
            match self.i.get(n) {
                None => return Err(Fail::Incomplete),
                Some(b'"') => break,
                Some(b'\\') => match self.i.get(n + 1) {
                    None => return Err(Fail::Incomplete),
                    Some(b) if is_quoted_specials(*b) => n += 2,
                    Some(_) => return Err(Fail::Failed),
                },
                Some(b) if is_text_char(*b) => n += 1,
                Some(_) => return Err(Fail::Failed),
            }
        }
        let raw = failed(std::str::from_utf8(&self.i[..n]))?;
        self.i = &self.i[n + 1..];
        // Single pass so that an escaped backslash before a quote is handled right.
        if raw.contains('\\') {
            let mut s = String::new();
            let mut it = raw.chars();
            while let Some(c) = it.next() { if c == '\\' { s.extend(it.next()) } else { s.push(c) } }
            return failed(Quoted::try_from(s));
        }
        failed(Quoted::try_from(unescape_quoted(raw)))
    }
    fn literal_raw(&mut self) -> R<(&'a [u8], LiteralMode)> {
        self.lit("{")?;
        let length = self.number()?;
        let mode = if self.opt(b'+')? { LiteralMode::NonSync } else { LiteralMode::Sync };
        self.lit("}")?;
        self.crlf()?;
        if self.i.is_empty() { return Err(Fail::Literal { length, mode }); }
        if self.i.len() < length as usize { return Err(Fail::Incomplete); }
        let (a, b) = self.i.split_at(length as usize);
        self.i = b;
        Ok((a, mode))
    }
    fn literal(&mut self) -> R<Literal<'a>> {
        let (data, mode) = self.literal_raw()?;
        let mut l = failed(Literal::try_from(data))?;
        l.set_mode(mode);
        Ok(l)
    }
    fn string(&mut self) -> R<IString<'a>> {
        match self.peek()? { b'{' => Ok(IString::Literal(self.literal()?)), b'"' => Ok(IString::Quoted(self.quoted()?)), _ => Err(Fail::Failed) }
    }
    fn nstring(&mut self) -> R<NString<'a>> {
        if matches!(self.peek()?, b'{' | b'"') { Ok(NString(Some(self.string()?))) } else { self.lit("NIL")?; Ok(NString(None)) }
    }
    fn astring(&mut self) -> R<AString<'a>> {
        if matches!(self.peek()?, b'{' | b'"') { Ok(AString::String(self.string()?)) }
        else { let t = self.take_while1(is_astring_char)?; Ok(AString::Atom(failed(AtomExt::try_from(t))?)) }
    }
    fn mailbox(&mut self) -> R<Mailbox<'a>> { Ok(Mailbox::from(self.astring()?)) }
    fn list_mailbox(&mut self) -> R<ListMailbox<'a>> {
        if matches!(self.peek()?, b'{' | b'"') { Ok(ListMailbox::String(self.string()?)) }
        else { let t = self.take_while1(is_list_char)?; Ok(ListMailbox::Token(failed(ListCharString::try_from(t))?)) }
    }
    fn base64(&mut self) -> R<Vec<u8>> {
        let d = self.take_while(|b| b.is_ascii_alphanumeric() || matches!(b, b'+' | b'/' | b'='))?;
        failed(B64.decode(d))
    }
    fn id_params(&mut self) -> R<Option<Vec<(IString<'a>, NString<'a>)>>> {
        if self.peek()? != b'(' { self.lit("NIL")?; return Ok(None); }
        self.lit("(")?;
        let mut v = vec![];
        while !self.opt(b')')? {
            if !v.is_empty() { self.sp()?; }
            let k = self.string()?;
            self.sp()?;
            let val = self.nstring()?;
            v.push((k, val));
        }
        Ok(Some(v))
    }
    fn flag(&mut self) -> R<Flag<'a>> {
        if self.opt(b'\\')? { Ok(Flag::system(self.atom()?)) } else { Ok(Flag::keyword(self.atom()?)) }
    }
    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.lit("(")?;
        let mut v = vec![];
        while !self.opt(b')')? {
            if !v.is_empty() { self.sp()?; }
            v.push(f(self)?);
        }
        Ok(v)
    }
    fn capabilities(&mut self) -> R<Vec1<Capability<'a>>> {
        let mut v = vec![Capability::from(self.atom()?)];
        while self.opt(b' ')? { v.push(Capability::from(self.atom()?)); }
        failed(Vec1::try_from(v))
    }
    fn code(&mut self) -> R<Option<Code<'a>>> {
        if self.peek()? != b'[' { return Ok(None); }
        let mut q = *self;
        match q.code_inner() {
            Ok(c) => { *self = q; Ok(Some(c)) }
            Err(Fail::Failed) => {
                // Unknown or malformed code: keep the raw bytes up to `]`
                self.lit("[")?;
                let raw = self.take_while1(|b| is_text_char(b) && b != b']')?;
                self.lit("]")?;
                self.sp()?;
                Ok(Some(Code::Other(CodeOther::unvalidated(raw))))
            }
            Err(e) => Err(e),
        }
    }
    fn code_inner(&mut self) -> R<Code<'a>> {
        self.lit("[")?;
        let name = self.atom()?;
        let code = match name.as_ref().to_ascii_uppercase().as_str() {
            "ALERT" => Code::Alert, "PARSE" => Code::Parse, "READ-ONLY" => Code::ReadOnly, "READ-WRITE" => Code::ReadWrite,
            "TRYCREATE" => Code::TryCreate, "OVERQUOTA" => Code::OverQuota, "TOOBIG" => Code::TooBig,
            "COMPRESSIONACTIVE" => Code::CompressionActive, "UIDNOTSTICKY" => Code::UidNotSticky,
            "UIDNEXT" => { self.sp()?; Code::UidNext(self.nz()?) }
            "UIDVALIDITY" => { self.sp()?; Code::UidValidity(self.nz()?) }
            "UNSEEN" => { self.sp()?; Code::Unseen(self.nz()?) }
            "CAPABILITY" => { self.sp()?; Code::Capability(self.capabilities()?) }
            "PERMANENTFLAGS" => {
                self.sp()?;
                Code::PermanentFlags(self.list(|p| {
                    if p.i.starts_with(b"\\*") { p.i = &p.i[2..]; Ok(FlagPerm::Asterisk) } else { Ok(FlagPerm::Flag(p.flag()?)) }
                })?)
            }
            _ => return Err(Fail::Failed),
        };
        self.lit("]")?;
        self.sp()?;
        Ok(code)
    }
    fn status_body(&mut self, kind: StatusKind) -> R<StatusBody<'a>> {
        self.sp()?;
        let code = self.code()?;
        let text = self.text()?;
        Ok(StatusBody { kind, code, text })
    }
    fn sequence_set(&mut self) -> R<SequenceSet> {
        let t = self.take_while1(|b| b.is_ascii_digit() || matches!(b, b',' | b':' | b'*'))?;
        failed(SequenceSet::try_from(std::str::from_utf8(t).unwrap()))
    }
    fn date_time(&mut self) -> R<DateTime> { let q = self.quoted()?; failed(DateTime::try_from(q.inner())) }
    /// The name of a data item.
    fn item(&mut self) -> R<String> { Ok(String::from_utf8_lossy(self.take_while1(|b| b.is_ascii_alphanumeric() || matches!(b, b'.' | b'-'))?).to_ascii_uppercase()) }
    /// `[...]`
    fn section(&mut self) -> R<Option<Section<'a>>> {
        self.lit("[")?;
        if self.opt(b']')? { return Ok(None); }
        let mut part = vec![];
        let mut more = true;
        while more && self.peek()?.is_ascii_digit() { part.push(self.nz()?); more = self.opt(b'.')?; }
        let part = if part.is_empty() { None } else { Some(Part(failed(Vec1::try_from(part))?)) };
        let s = if !more { Section::Part(part.ok_or(Fail::Failed)?) } else {
            match self.item()?.as_str() {
                "HEADER" => Section::Header(part), "TEXT" => Section::Text(part), "MIME" => Section::Mime(part.ok_or(Fail::Failed)?),
                "HEADER.FIELDS" => { self.sp()?; let v = self.list(|p| p.astring())?; Section::HeaderFields(part, failed(Vec1::try_from(v))?) }
                _ => return Err(Fail::Failed),
            }
        };
        self.lit("]")?;
        Ok(Some(s))
    }
    fn item_name(&mut self) -> R<Result<MessageDataItemName<'a>, String>> {
        use MessageDataItemName as N;
        Ok(Ok(match self.item()?.as_str() {
            x @ ("BODY" | "BODY.PEEK") if self.peek()? == b'[' => {
                let section = self.section()?;
                let partial = if self.opt(b'<')? { let a = self.number()?; self.lit(".")?; let b = self.nz()?; self.lit(">")?; Some((a, b)) } else { None };
                N::BodyExt { section, partial, peek: x == "BODY.PEEK" }
            }
            "BODY" => N::Body, "BODYSTRUCTURE" => N::BodyStructure, "ENVELOPE" => N::Envelope, "FLAGS" => N::Flags, "INTERNALDATE" => N::InternalDate,
            "RFC822" => N::Rfc822, "RFC822.HEADER" => N::Rfc822Header, "RFC822.SIZE" => N::Rfc822Size, "RFC822.TEXT" => N::Rfc822Text, "UID" => N::Uid,
            x => return Ok(Err(x.to_owned())),
        }))
    }
    fn search_key(&mut self, depth: usize) -> R<SearchKey<'a>> {
        use SearchKey as K;
        if depth > 8 { return Err(Fail::Failed); }
        let c = self.peek()?;
        if c == b'(' { let v = self.list(|p| p.search_key(depth + 1))?; return Ok(K::And(failed(Vec1::try_from(v))?)); }
        if c.is_ascii_digit() || c == b'*' { return Ok(K::SequenceSet(self.sequence_set()?)); }
        let w = self.word()?;
        Ok(match w.as_str() {
            "ALL" => K::All, "ANSWERED" => K::Answered, "DELETED" => K::Deleted, "DRAFT" => K::Draft, "FLAGGED" => K::Flagged, "NEW" => K::New, "OLD" => K::Old, "RECENT" => K::Recent, "SEEN" => K::Seen,
            "UNANSWERED" => K::Unanswered, "UNDELETED" => K::Undeleted, "UNDRAFT" => K::Undraft, "UNFLAGGED" => K::Unflagged, "UNSEEN" => K::Unseen,
            w => {
                self.sp()?;
                match w {
                    "BCC" => K::Bcc(self.astring()?), "BODY" => K::Body(self.astring()?), "CC" => K::Cc(self.astring()?), "FROM" => K::From(self.astring()?), "SUBJECT" => K::Subject(self.astring()?), "TEXT" => K::Text(self.astring()?), "TO" => K::To(self.astring()?),
                    "HEADER" => { let a = self.astring()?; self.sp()?; K::Header(a, self.astring()?) }
                    "KEYWORD" => K::Keyword(self.atom()?), "UNKEYWORD" => K::Unkeyword(self.atom()?), "LARGER" => K::Larger(self.number()?), "SMALLER" => K::Smaller(self.number()?),
                    "NOT" => K::Not(Box::new(self.search_key(depth + 1)?)),
                    "OR" => { let a = self.search_key(depth + 1)?; self.sp()?; K::Or(Box::new(a), Box::new(self.search_key(depth + 1)?)) }
                    "UID" => K::Uid(self.sequence_set()?),
                    _ => return Err(Fail::Failed),
                }
            }
        })
    }
    fn capabilities_enable(&mut self) -> R<Vec<CapabilityEnable<'a>>> {
        let mut v = vec![CapabilityEnable::from(self.atom()?)];
        while self.opt(b' ')? { v.push(CapabilityEnable::from(self.atom()?)); }
        Ok(v)
    }
    fn word(&mut self) -> R<String> { Ok(self.atom()?.as_ref().to_ascii_uppercase()) }
}

pub fn tag_of(input: &[u8]) -> R<Tag<'_>> { P { i: input }.tag() }

pub fn greeting(input: &[u8]) -> R<(&[u8], Greeting<'_>)> {
    let mut p = P { i: input };
    p.lit("* ")?;
    let kind = match p.word()?.as_str() { "OK" => GreetingKind::Ok, "PREAUTH" => GreetingKind::PreAuth, "BYE" => GreetingKind::Bye, _ => return Err(Fail::Failed) };
    p.sp()?;
    let code = p.code()?;
    let text = p.text()?;
    p.crlf()?;
    Ok((p.i, Greeting { kind, code, text }))
}

pub fn authenticate_data(input: &[u8]) -> R<(&[u8], AuthenticateData<'_>)> {
    let mut p = P { i: input };
    if p.opt(b'*')? { p.crlf()?; return Ok((p.i, AuthenticateData::Cancel)); }
    let d = p.base64()?;
    p.crlf()?;
    Ok((p.i, AuthenticateData::Continue(Secret::new(Cow::Owned(d)))))
}

pub fn idle_done(input: &[u8]) -> R<(&[u8], IdleDone)> {
    let mut p = P { i: input };
    p.lit("DONE")?;
    p.crlf()?;
    Ok((p.i, IdleDone))
}

pub fn command(input: &[u8]) -> R<(&[u8], Command<'_>)> {
    let mut p = P { i: input };
    let tag = p.tag()?;
    p.sp()?;
    let mut name = p.word()?;
    let uid = name == "UID";
    if uid {
        p.sp()?;
        name = p.word()?;
        if !matches!(name.as_str(), "SEARCH" | "FETCH" | "STORE" | "COPY" | "MOVE" | "EXPUNGE") { return Err(Fail::Failed); }
    }
    let body = match name.as_str() {
        "CAPABILITY" => CommandBody::Capability, "NOOP" => CommandBody::Noop, "LOGOUT" => CommandBody::Logout, "STARTTLS" => CommandBody::StartTLS,
        "CHECK" => CommandBody::Check, "CLOSE" => CommandBody::Close, "EXPUNGE" if uid => { p.sp()?; CommandBody::ExpungeUid { sequence_set: p.sequence_set()? } } "EXPUNGE" => CommandBody::Expunge, "NAMESPACE" => CommandBody::Namespace, "UNSELECT" => CommandBody::Unselect, "IDLE" => CommandBody::Idle,
        "AUTHENTICATE" => {
            p.sp()?;
            let mechanism = AuthMechanism::from(p.atom()?);
            let initial_response = if p.opt(b' ')? {
                if p.peek()? == b'=' { p.lit("=")?; Some(Secret::new(Cow::Borrowed(&b""[..]))) }
                else { let d = p.base64()?; if d.is_empty() { return Err(Fail::Failed); } Some(Secret::new(Cow::Owned(d))) }
            } else { None };
            CommandBody::Authenticate { mechanism, initial_response }
        }
        "LOGIN" => { p.sp()?; let username = p.astring()?; p.sp()?; let password = Secret::new(p.astring()?); CommandBody::Login { username, password } }
        "SELECT" => { p.sp()?; CommandBody::Select { mailbox: p.mailbox()? } }
        "EXAMINE" => { p.sp()?; CommandBody::Examine { mailbox: p.mailbox()? } }
        "CREATE" => { p.sp()?; CommandBody::Create { mailbox: p.mailbox()? } }
        "DELETE" => { p.sp()?; CommandBody::Delete { mailbox: p.mailbox()? } }
        "RENAME" => { p.sp()?; let from = p.mailbox()?; p.sp()?; CommandBody::Rename { from, to: p.mailbox()? } }
        "SUBSCRIBE" => { p.sp()?; CommandBody::Subscribe { mailbox: p.mailbox()? } }
        "UNSUBSCRIBE" => { p.sp()?; CommandBody::Unsubscribe { mailbox: p.mailbox()? } }
        "LIST" | "LSUB" => {
            p.sp()?; let reference = p.mailbox()?; p.sp()?; let mailbox_wildcard = p.list_mailbox()?;
            if name == "LIST" { CommandBody::List { reference, mailbox_wildcard } } else { CommandBody::Lsub { reference, mailbox_wildcard } }
        }
        "APPEND" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            p.sp()?;
            let flags = if p.peek()? == b'(' { let f = p.list(|p| p.flag())?; p.sp()?; f } else { vec![] };
            let date = if p.peek()? == b'"' { let d = p.date_time()?; p.sp()?; Some(d) } else { None };
            let message = if p.opt(b'~')? {
                let (d, mode) = p.literal_raw()?;
                LiteralOrLiteral8::Literal8(Literal8 { data: Cow::Borrowed(d), mode })
            } else { LiteralOrLiteral8::Literal(p.literal()?) };
            CommandBody::Append { mailbox, flags, date, message }
        }
        "ID" => { p.sp()?; CommandBody::Id { parameters: p.id_params()? } }
        "STATUS" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            p.sp()?;
            let item_names = p.list(|p| { use StatusDataItemName as N; Ok(match p.word()?.as_str() { "MESSAGES" => N::Messages, "RECENT" => N::Recent, "UIDNEXT" => N::UidNext, "UIDVALIDITY" => N::UidValidity, "UNSEEN" => N::Unseen, "DELETED" => N::Deleted, "DELETED-STORAGE" => N::DeletedStorage, _ => return Err(Fail::Failed) }) })?;
            CommandBody::Status { mailbox, item_names: Cow::Owned(item_names) }
        }
        "SEARCH" => {
            p.sp()?;
            let charset = if p.i.len() < 7 && b"CHARSET".starts_with(&p.i.to_ascii_uppercase()) { return Err(Fail::Incomplete) } else if p.i.len() >= 7 && p.i[..7].eq_ignore_ascii_case(b"CHARSET") {
                p.i = &p.i[7..];
                p.sp()?;
                let c = if p.peek()? == b'"' { Charset::Quoted(p.quoted()?) } else { Charset::Atom(p.atom()?) };
                p.sp()?;
                Some(c)
            } else { None };
            let mut v = vec![p.search_key(0)?];
            while p.opt(b' ')? { v.push(p.search_key(0)?); }
            CommandBody::Search { charset, criteria: failed(Vec1::try_from(v))?, uid }
        }
        "FETCH" => {
            p.sp()?;
            let sequence_set = p.sequence_set()?;
            p.sp()?;
            let macro_or_item_names = if p.peek()? == b'(' { let v = p.list(|p| p.item_name()?.map_err(|_| Fail::Failed))?; MacroOrMessageDataItemNames::MessageDataItemNames(v) } else {
                match p.item_name()? { Ok(n) => MacroOrMessageDataItemNames::MessageDataItemNames(vec![n]), Err(m) => MacroOrMessageDataItemNames::Macro(match m.as_str() { "ALL" => Macro::All, "FAST" => Macro::Fast, "FULL" => Macro::Full, _ => return Err(Fail::Failed) }) }
            };
            CommandBody::Fetch { sequence_set, macro_or_item_names, uid }
        }
        "STORE" => {
            p.sp()?;
            let sequence_set = p.sequence_set()?;
            p.sp()?;
            let w = p.word()?;
            let (kind, w) = match w.as_bytes()[0] { b'+' => (StoreType::Add, &w[1..]), b'-' => (StoreType::Remove, &w[1..]), _ => (StoreType::Replace, &w[..]) };
            let response = match w { "FLAGS" => StoreResponse::Answer, "FLAGS.SILENT" => StoreResponse::Silent, _ => return Err(Fail::Failed) };
            p.sp()?;
            CommandBody::Store { sequence_set, kind, response, flags: p.list(|p| p.flag())?, uid }
        }
        "COPY" | "MOVE" => {
            p.sp()?;
            let sequence_set = p.sequence_set()?;
            p.sp()?;
            let mailbox = p.mailbox()?;
            if name == "COPY" { CommandBody::Copy { sequence_set, mailbox, uid } } else { CommandBody::Move { sequence_set, mailbox, uid } }
        }
        "ENABLE" => { p.sp()?; let v = p.capabilities_enable()?; CommandBody::Enable { capabilities: failed(Vec1::try_from(v))? } }
        "COMPRESS" => { p.sp()?; if p.word()? != "DEFLATE" { return Err(Fail::Failed); } CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate } }
        "GETQUOTA" => { p.sp()?; CommandBody::GetQuota { root: p.astring()? } }
        "GETQUOTAROOT" => { p.sp()?; CommandBody::GetQuotaRoot { mailbox: p.mailbox()? } }
        "SETQUOTA" => { p.sp()?; let root = p.astring()?; p.sp()?; let quotas = p.list(|p| { let resource = Resource::from(p.atom()?); p.sp()?; Ok(QuotaSet { resource, limit: p.number64()? }) })?; CommandBody::SetQuota { root, quotas } }
        _ => return Err(Fail::Failed),
    };
    p.crlf()?;
    Ok((p.i, Command { tag, body }))
}

pub fn response(input: &[u8]) -> R<(&[u8], Response<'_>)> {
    let mut p = P { i: input };
    let r = match p.peek()? {
        b'+' => {
            p.lit("+ ")?;
            // Try Base64 first (as the original's grammar for `resp-text / base64`)
            let mut q = p;
            let b64 = match q.base64() { Ok(d) => match q.crlf() { Ok(()) => Some(d), Err(_) => None }, Err(_) => None };
            if let Some(d) = b64 { return Ok((q.i, Response::CommandContinuationRequest(CommandContinuationRequest::Base64(Cow::Owned(d))))); }
            let code = p.code()?;
            let text = p.text()?;
            let c = failed(CommandContinuationRequest::basic(code, text))?;
            Response::CommandContinuationRequest(c)
        }
        b'*' => {
            p.lit("* ")?;
            if p.peek()?.is_ascii_digit() {
                let n = p.number()?;
                p.sp()?;
                let nz = NonZeroU32::new(n);
                Response::Data(match p.word()?.as_str() {
                    "EXISTS" => Data::Exists(n),
                    "RECENT" => Data::Recent(n),
                    "EXPUNGE" => Data::Expunge(nz.ok_or(Fail::Failed)?),
                    "FETCH" => {
                        p.sp()?;
                        let items = p.list(|p| Ok(match p.item()?.as_str() {
                            "FLAGS" => { p.sp()?; MessageDataItem::Flags(p.list(|p| {
                                Ok(match p.flag()? { Flag::Extension(e) if format!("{}", Flag::Extension(e.clone())).eq_ignore_ascii_case("\\recent") => FlagFetch::Recent, f => FlagFetch::Flag(f) })
                            })?) }
                            "RFC822" => { p.sp()?; MessageDataItem::Rfc822(p.nstring()?) }
                            "RFC822.HEADER" => { p.sp()?; MessageDataItem::Rfc822Header(p.nstring()?) }
                            "RFC822.TEXT" => { p.sp()?; MessageDataItem::Rfc822Text(p.nstring()?) }
                            "RFC822.SIZE" => { p.sp()?; MessageDataItem::Rfc822Size(p.number()?) }
                            "UID" => { p.sp()?; MessageDataItem::Uid(p.nz()?) }
                            "INTERNALDATE" => { p.sp()?; MessageDataItem::InternalDate(p.date_time()?) }
                            "BODY" => {
                                let section = p.section()?;
                                let origin = if p.opt(b'<')? { let n = p.number()?; p.lit(">")?; Some(n) } else { None };
                                p.sp()?;
                                MessageDataItem::BodyExt { section, origin, data: p.nstring()? }
                            }
                            _ => return Err(Fail::Failed),
                        }))?;
                        Data::Fetch { seq: nz.ok_or(Fail::Failed)?, items: failed(Vec1::try_from(items))? }
                    }
                    _ => return Err(Fail::Failed),
                })
            } else {
                match p.word()?.as_str() {
                    "OK" => Response::Status(Status::Untagged(p.status_body(StatusKind::Ok)?)),
                    "NO" => Response::Status(Status::Untagged(p.status_body(StatusKind::No)?)),
                    "BAD" => Response::Status(Status::Untagged(p.status_body(StatusKind::Bad)?)),
                    "BYE" => { let b = p.status_body(StatusKind::Ok)?; Response::Status(Status::Bye(Bye { code: b.code, text: b.text })) }
                    "CAPABILITY" => { p.sp()?; Response::Data(Data::Capability(p.capabilities()?)) }
                    w @ ("LIST" | "LSUB") => {
                        let w = w.to_owned();
                        p.sp()?;
                        let items = p.list(|p| { p.lit("\\")?; Ok(FlagNameAttribute::from(p.atom()?)) })?;
                        p.sp()?;
                        let delimiter = if p.peek()? == b'"' {
                            let q = p.quoted()?;
                            let mut cs = q.inner().chars();
                            match (cs.next(), cs.next()) { (Some(c), None) => Some(failed(QuotedChar::try_from(c))?), _ => return Err(Fail::Failed) }
                        } else { p.lit("NIL")?; None };
                        p.sp()?;
                        let mailbox = p.mailbox()?;
                        Response::Data(if w == "LIST" { Data::List { items, delimiter, mailbox } } else { Data::Lsub { items, delimiter, mailbox } })
                    }
                    "SEARCH" => { let mut v = vec![]; while p.opt(b' ')? { v.push(p.nz()?); } Response::Data(Data::Search(v)) }
                    "STATUS" => {
                        p.sp()?;
                        let mailbox = p.mailbox()?;
                        p.sp()?;
                        let items = p.list(|p| {
                            use StatusDataItem as I;
                            let w = p.word()?;
                            p.sp()?;
                            Ok(match w.as_str() { "MESSAGES" => I::Messages(p.number()?), "RECENT" => I::Recent(p.number()?), "UIDNEXT" => I::UidNext(p.nz()?), "UIDVALIDITY" => I::UidValidity(p.nz()?), "UNSEEN" => I::Unseen(p.number()?), "DELETED" => I::Deleted(p.number()?), "DELETED-STORAGE" => I::DeletedStorage(p.number64()?), _ => return Err(Fail::Failed) })
                        })?;
                        Response::Data(Data::Status { mailbox, items: Cow::Owned(items) })
                    }
                    "ENABLED" => { let capabilities = if p.opt(b' ')? { p.capabilities_enable()? } else { vec![] }; Response::Data(Data::Enabled { capabilities }) }
                    "QUOTA" => { p.sp()?; let root = p.astring()?; p.sp()?; let v = p.list(|p| { let resource = Resource::from(p.atom()?); p.sp()?; let usage = p.number64()?; p.sp()?; Ok(QuotaGet { resource, usage, limit: p.number64()? }) })?; Response::Data(Data::Quota { root, quotas: failed(Vec1::try_from(v))? }) }
                    "QUOTAROOT" => { p.sp()?; let mailbox = p.mailbox()?; let mut roots = vec![]; while p.opt(b' ')? { roots.push(p.astring()?); } Response::Data(Data::QuotaRoot { mailbox, roots }) }
                    "FLAGS" => { p.sp()?; Response::Data(Data::Flags(p.list(|p| p.flag())?)) }
                    "ID" => { p.sp()?; Response::Data(Data::Id { parameters: p.id_params()? }) }
                    _ => return Err(Fail::Failed),
                }
            }
        }
        _ => {
            let tag = p.tag()?;
            p.sp()?;
            let kind = match p.word()?.as_str() { "OK" => StatusKind::Ok, "NO" => StatusKind::No, "BAD" => StatusKind::Bad, _ => return Err(Fail::Failed) };
            let body = p.status_body(kind)?;
            Response::Status(Status::Tagged(Tagged { tag, body }))
        }
    };
    p.crlf()?;
    Ok((p.i, r))
}
