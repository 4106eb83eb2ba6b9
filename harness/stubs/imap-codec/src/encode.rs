use std::collections::VecDeque;

use base64::{engine::general_purpose::STANDARD as B64, Engine};
use imap_types::auth::AuthenticateData;
use imap_types::command::{Command, CommandBody};
use imap_types::core::*;
use imap_types::extensions::idle::IdleDone;
use imap_types::fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName, Part, Section};
use imap_types::flag::*;
use imap_types::mailbox::{ListMailbox, Mailbox};
use imap_types::response::*;
use imap_types::search::SearchKey;
use imap_types::status::{StatusDataItem, StatusDataItemName};
use imap_types::utils::escape_quoted;

use crate::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};

pub trait Encoder {
    type Message<'a>;
    fn encode(&self, message: &Self::Message<'_>) -> Encoded;
}

/// Encoded message: an iterator over its fragments.
#[derive(Clone, Debug)]
pub struct Encoded { items: VecDeque<Fragment> }
impl Encoded {
    /// Dump the (remaining) encoded data without being guided by [`Fragment`]s.
    pub fn dump(self) -> Vec<u8> {
        let mut out = Vec::new();
        for fragment in self.items { match fragment { Fragment::Line { mut data } => out.append(&mut data), Fragment::Literal { mut data, .. } => out.append(&mut data) } }
        out
    }
}
impl Iterator for Encoded { type Item = Fragment; fn next(&mut self) -> Option<Fragment> { self.items.pop_front() } }

/// The intended action of a client or server.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Fragment {
    /// A line that is ready to be sent.
    Line { data: Vec<u8> },
    /// A literal that may require an action before it should be sent.
    Literal { data: Vec<u8>, mode: LiteralMode },
}

#[derive(Default)]
struct Ctx { acc: Vec<u8>, items: VecDeque<Fragment> }
impl Ctx {
    fn s(&mut self, s: impl AsRef<[u8]>) -> &mut Self { self.acc.extend_from_slice(s.as_ref()); self }
    fn literal(&mut self, prefix: &str, data: &[u8], mode: LiteralMode) {
        self.s(prefix).s(match mode { LiteralMode::Sync => format!("{{{}}}\r\n", data.len()), LiteralMode::NonSync => format!("{{{}+}}\r\n", data.len()) });
        self.items.push_back(Fragment::Line { data: std::mem::take(&mut self.acc) });
        self.items.push_back(Fragment::Literal { data: data.to_vec(), mode });
    }
    fn finish(mut self) -> Encoded {
        if !self.acc.is_empty() { self.items.push_back(Fragment::Line { data: self.acc }); }
        Encoded { items: self.items }
    }
    fn istring(&mut self, s: &IString) { match s { IString::Literal(l) => self.literal("", l.data(), l.mode()), IString::Quoted(q) => { self.s("\"").s(escape_quoted(q.inner()).as_bytes()).s("\""); } } }
    fn nstring(&mut self, s: &NString) { match &s.0 { Some(s) => self.istring(s), None => { self.s("NIL"); } } }
    fn astring(&mut self, s: &AString) { match s { AString::Atom(a) => { self.s(a.inner()); } AString::String(s) => self.istring(s) } }
    fn mailbox(&mut self, m: &Mailbox) { match m { Mailbox::Inbox => { self.s("INBOX"); } Mailbox::Other(o) => self.astring(o.inner()) } }
    fn list_mailbox(&mut self, m: &ListMailbox) { match m { ListMailbox::Token(t) => { self.s(t.inner()); } ListMailbox::String(s) => self.istring(s) } }
    fn joined<T>(&mut self, v: &[T], mut f: impl FnMut(&mut Self, &T)) { for (i, x) in v.iter().enumerate() { if i > 0 { self.s(" "); } f(self, x); } }
    fn id(&mut self, p: &Option<Vec<(IString, NString)>>) {
        match p { None => { self.s("NIL"); } Some(v) => { self.s("("); self.joined(v, |c, (k, v)| { c.istring(k); c.s(" "); c.nstring(v); }); self.s(")"); } }
    }
    fn section(&mut self, s: &Option<Section>) {
        self.s("[");
        let part = |c: &mut Self, p: &Part| { let v: Vec<String> = p.0.iter().map(|n| n.to_string()).collect(); c.s(v.join(".")); };
        let dotted = |c: &mut Self, p: &Option<Part>| if let Some(p) = p { part(c, p); c.s("."); };
        match s {
            None => {}
            Some(Section::Part(p)) => part(self, p),
            Some(Section::Header(p)) => { dotted(self, p); self.s("HEADER"); }
            Some(Section::Text(p)) => { dotted(self, p); self.s("TEXT"); }
            Some(Section::Mime(p)) => { part(self, p); self.s(".MIME"); }
            Some(Section::HeaderFields(p, v)) => { dotted(self, p); self.s("HEADER.FIELDS ("); self.joined(v.as_ref(), |c, x| c.astring(x)); self.s(")"); }
        }
        self.s("]");
    }
    fn item_name(&mut self, n: &MessageDataItemName) {
        use MessageDataItemName as N;
        let t = match n {
            N::BodyExt { section, partial, peek } => {
                self.s(if *peek { "BODY.PEEK" } else { "BODY" });
                self.section(section);
                if let Some((a, b)) = partial { self.s(format!("<{a}.{b}>")); }
                return;
            }
            N::Body => "BODY", N::BodyStructure => "BODYSTRUCTURE", N::Envelope => "ENVELOPE", N::Flags => "FLAGS", N::InternalDate => "INTERNALDATE",
            N::Rfc822 => "RFC822", N::Rfc822Header => "RFC822.HEADER", N::Rfc822Size => "RFC822.SIZE", N::Rfc822Text => "RFC822.TEXT", N::Uid => "UID",
        };
        self.s(t);
    }
    fn search_key(&mut self, k: &SearchKey) {
        use SearchKey as K;
        let t = match k {
            K::And(v) => { self.s("("); self.joined(v.as_ref(), |c, x| c.search_key(x)); ")" }
            K::SequenceSet(x) => { self.s(x.to_string()); "" }
            K::All => "ALL", K::Answered => "ANSWERED", K::Deleted => "DELETED", K::Draft => "DRAFT", K::Flagged => "FLAGGED", K::New => "NEW", K::Old => "OLD", K::Recent => "RECENT", K::Seen => "SEEN",
            K::Unanswered => "UNANSWERED", K::Undeleted => "UNDELETED", K::Undraft => "UNDRAFT", K::Unflagged => "UNFLAGGED", K::Unseen => "UNSEEN",
            K::Bcc(x) => { self.s("BCC "); self.astring(x); "" } K::Body(x) => { self.s("BODY "); self.astring(x); "" } K::Cc(x) => { self.s("CC "); self.astring(x); "" }
            K::From(x) => { self.s("FROM "); self.astring(x); "" } K::Subject(x) => { self.s("SUBJECT "); self.astring(x); "" } K::Text(x) => { self.s("TEXT "); self.astring(x); "" } K::To(x) => { self.s("TO "); self.astring(x); "" }
            K::Header(a, b) => { self.s("HEADER "); self.astring(a); self.s(" "); self.astring(b); "" }
            K::Keyword(a) => { self.s(format!("KEYWORD {a}")); "" } K::Unkeyword(a) => { self.s(format!("UNKEYWORD {a}")); "" }
            K::Larger(n) => { self.s(format!("LARGER {n}")); "" } K::Smaller(n) => { self.s(format!("SMALLER {n}")); "" }
            K::Not(x) => { self.s("NOT "); self.search_key(x); "" }
            K::Or(a, b) => { self.s("OR "); self.search_key(a); self.s(" "); self.search_key(b); "" }
            K::Uid(x) => { self.s(format!("UID {x}")); "" }
        };
        self.s(t);
    }
    fn flags(&mut self, v: &[Flag]) { self.s("("); self.joined(v, |c, f| { c.s(f.to_string()); }); self.s(")"); }
    fn code(&mut self, c: &Option<Code>) {
        let Some(c) = c else { return };
        self.s("[");
        match c {
            Code::Alert => { self.s("ALERT"); } Code::Parse => { self.s("PARSE"); } Code::ReadOnly => { self.s("READ-ONLY"); }
            Code::ReadWrite => { self.s("READ-WRITE"); } Code::TryCreate => { self.s("TRYCREATE"); } Code::OverQuota => { self.s("OVERQUOTA"); }
            Code::TooBig => { self.s("TOOBIG"); } Code::CompressionActive => { self.s("COMPRESSIONACTIVE"); } Code::UidNotSticky => { self.s("UIDNOTSTICKY"); }
            Code::UidNext(n) => { self.s(format!("UIDNEXT {n}")); } Code::UidValidity(n) => { self.s(format!("UIDVALIDITY {n}")); } Code::Unseen(n) => { self.s(format!("UNSEEN {n}")); }
            Code::Capability(v) => { self.s("CAPABILITY "); self.joined(v.as_ref(), |c, x| { c.s(x.to_string()); }); }
            Code::PermanentFlags(v) => { self.s("PERMANENTFLAGS ("); self.joined(v, |c, x| { match x { FlagPerm::Flag(f) => c.s(f.to_string()), FlagPerm::Asterisk => c.s("\\*") }; }); self.s(")"); }
            Code::Other(o) => { self.s(o.inner()); }
            _ => { self.s("BADCHARSET"); }
        }
        self.s("] ");
    }
}

impl Encoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    fn encode(&self, g: &Greeting<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s("* ").s(match g.kind { GreetingKind::Ok => "OK ", GreetingKind::PreAuth => "PREAUTH ", GreetingKind::Bye => "BYE " });
        c.code(&g.code);
        c.s(g.text.inner()).s("\r\n");
        c.finish()
    }
}
impl Encoder for CommandCodec {
    type Message<'a> = Command<'a>;
    fn encode(&self, m: &Command<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s(m.tag.inner()).s(" ");
        if let CommandBody::Search { uid: true, .. } | CommandBody::Fetch { uid: true, .. } | CommandBody::Store { uid: true, .. } | CommandBody::Copy { uid: true, .. } | CommandBody::Move { uid: true, .. } | CommandBody::ExpungeUid { .. } = &m.body { c.s("UID "); }
        c.s(m.body.name());
        match &m.body {
            CommandBody::Authenticate { mechanism, initial_response } => {
                c.s(" ").s(mechanism.as_ref());
                if let Some(ir) = initial_response {
                    c.s(" ");
                    if ir.declassify().is_empty() { c.s("="); } else { c.s(B64.encode(ir.declassify())); }
                }
            }
            CommandBody::Login { username, password } => { c.s(" "); c.astring(username); c.s(" "); c.astring(password.declassify()); }
            CommandBody::Select { mailbox } | CommandBody::Examine { mailbox } | CommandBody::Create { mailbox } | CommandBody::Delete { mailbox }
            | CommandBody::Subscribe { mailbox } | CommandBody::Unsubscribe { mailbox } => { c.s(" "); c.mailbox(mailbox); }
            CommandBody::Rename { from, to } => { c.s(" "); c.mailbox(from); c.s(" "); c.mailbox(to); }
            CommandBody::List { reference, mailbox_wildcard } | CommandBody::Lsub { reference, mailbox_wildcard } => { c.s(" "); c.mailbox(reference); c.s(" "); c.list_mailbox(mailbox_wildcard); }
            CommandBody::Append { mailbox, flags, date, message } => {
                c.s(" ");
                c.mailbox(mailbox);
                if !flags.is_empty() { c.s(" ("); c.joined(flags, |c, f| { c.s(f.to_string()); }); c.s(")"); }
                if let Some(d) = date { c.s(format!(" \"{}\"", d.inner())); }
                c.s(" ");
                match message { LiteralOrLiteral8::Literal(l) => c.literal("", l.data(), l.mode()), LiteralOrLiteral8::Literal8(l) => c.literal("~", &l.data, l.mode) }
            }
            CommandBody::Id { parameters } => { c.s(" "); c.id(parameters); }
            CommandBody::Status { mailbox, item_names } => {
                c.s(" ");
                c.mailbox(mailbox);
                c.s(" (");
                c.joined(item_names, |c, n| { use StatusDataItemName as N; c.s(match n { N::Messages => "MESSAGES", N::Recent => "RECENT", N::UidNext => "UIDNEXT", N::UidValidity => "UIDVALIDITY", N::Unseen => "UNSEEN", N::Deleted => "DELETED", N::DeletedStorage => "DELETED-STORAGE" }); });
                c.s(")");
            }
            CommandBody::Search { charset, criteria, .. } => {
                match charset { Some(Charset::Atom(a)) => { c.s(format!(" CHARSET {a}")); } Some(Charset::Quoted(q)) => { c.s(" CHARSET \"").s(escape_quoted(q.inner()).as_bytes()).s("\""); } None => {} }
                c.s(" ");
                c.joined(criteria.as_ref(), |c, k| c.search_key(k));
            }
            CommandBody::Fetch { sequence_set, macro_or_item_names, .. } => {
                c.s(format!(" {sequence_set} "));
                match macro_or_item_names {
                    MacroOrMessageDataItemNames::Macro(m) => { c.s(match m { Macro::All => "ALL", Macro::Fast => "FAST", Macro::Full => "FULL" }); }
                    MacroOrMessageDataItemNames::MessageDataItemNames(v) if v.len() == 1 => c.item_name(&v[0]),
                    MacroOrMessageDataItemNames::MessageDataItemNames(v) => { c.s("("); c.joined(v, |c, n| c.item_name(n)); c.s(")"); }
                }
            }
            CommandBody::Store { sequence_set, kind, response, flags, .. } => {
                c.s(format!(" {sequence_set} ")).s(match kind { StoreType::Add => "+", StoreType::Remove => "-", StoreType::Replace => "" }).s(match response { StoreResponse::Answer => "FLAGS ", StoreResponse::Silent => "FLAGS.SILENT " });
                c.flags(flags);
            }
            CommandBody::Copy { sequence_set, mailbox, .. } | CommandBody::Move { sequence_set, mailbox, .. } => { c.s(format!(" {sequence_set} ")); c.mailbox(mailbox); }
            CommandBody::ExpungeUid { sequence_set } => { c.s(format!(" {sequence_set}")); }
            CommandBody::Enable { capabilities } => { for x in capabilities { c.s(format!(" {x}")); } }
            CommandBody::Compress { .. } => { c.s(" DEFLATE"); }
            CommandBody::GetQuota { root } => { c.s(" "); c.astring(root); }
            CommandBody::GetQuotaRoot { mailbox } => { c.s(" "); c.mailbox(mailbox); }
            CommandBody::SetQuota { root, quotas } => { c.s(" "); c.astring(root); c.s(" ("); c.joined(quotas, |c, q| { c.s(format!("{} {}", q.resource, q.limit)); }); c.s(")"); }
            CommandBody::Capability | CommandBody::Noop | CommandBody::Logout | CommandBody::StartTLS | CommandBody::Check | CommandBody::Close | CommandBody::Expunge | CommandBody::Unselect | CommandBody::Idle | CommandBody::Namespace => {}
        }
        c.s("\r\n");
        c.finish()
    }
}
impl Encoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    fn encode(&self, m: &AuthenticateData<'_>) -> Encoded {
        let mut c = Ctx::default();
        match m { AuthenticateData::Continue(d) => { c.s(B64.encode(d.declassify())); } AuthenticateData::Cancel => { c.s("*"); } }
        c.s("\r\n");
        c.finish()
    }
}
impl Encoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    fn encode(&self, _: &IdleDone) -> Encoded { let mut c = Ctx::default(); c.s("DONE\r\n"); c.finish() }
}
impl Encoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    fn encode(&self, m: &Response<'_>) -> Encoded {
        let mut c = Ctx::default();
        match m {
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => { c.s("+ "); c.code(&b.code().cloned()); c.s(b.text().inner()); }
            Response::CommandContinuationRequest(CommandContinuationRequest::Base64(d)) => { c.s("+ ").s(B64.encode(d)); }
            Response::Status(s) => {
                match s { Status::Tagged(t) => { c.s(t.tag.inner()).s(" "); } _ => { c.s("* "); } }
                c.s(match s.kind() { Some(StatusKind::Ok) => "OK ", Some(StatusKind::No) => "NO ", Some(StatusKind::Bad) => "BAD ", None => "BYE " });
                c.code(&s.code().cloned());
                c.s(s.text().inner());
            }
            Response::Data(d) => {
                c.s("* ");
                match d {
                    Data::Capability(v) => { c.s("CAPABILITY "); c.joined(v.as_ref(), |c, x| { c.s(x.to_string()); }); }
                    Data::List { items, delimiter, mailbox } | Data::Lsub { items, delimiter, mailbox } => {
                        c.s(if matches!(d, Data::List { .. }) { "LIST (" } else { "LSUB (" });
                        c.joined(items, |c, x| { c.s(x.to_string()); });
                        c.s(") ");
                        match delimiter { Some(q) => { c.s("\"").s(escape_quoted(&q.inner().to_string()).as_bytes()).s("\""); } None => { c.s("NIL"); } }
                        c.s(" ");
                        c.mailbox(mailbox);
                    }
                    Data::Status { mailbox, items } => {
                        c.s("STATUS ");
                        c.mailbox(mailbox);
                        c.s(" (");
                        c.joined(items, |c, i| { use StatusDataItem as I; c.s(match i { I::Messages(n) => format!("MESSAGES {n}"), I::Recent(n) => format!("RECENT {n}"), I::UidNext(n) => format!("UIDNEXT {n}"), I::UidValidity(n) => format!("UIDVALIDITY {n}"), I::Unseen(n) => format!("UNSEEN {n}"), I::Deleted(n) => format!("DELETED {n}"), I::DeletedStorage(n) => format!("DELETED-STORAGE {n}") }); });
                        c.s(")");
                    }
                    Data::Enabled { capabilities } => { c.s("ENABLED"); for x in capabilities { c.s(format!(" {x}")); } }
                    Data::Quota { root, quotas } => { c.s("QUOTA "); c.astring(root); c.s(" ("); c.joined(quotas.as_ref(), |c, q| { c.s(format!("{} {} {}", q.resource, q.usage, q.limit)); }); c.s(")"); }
                    Data::QuotaRoot { mailbox, roots } => { c.s("QUOTAROOT "); c.mailbox(mailbox); for r in roots { c.s(" "); c.astring(r); } }
                    Data::Search(v) => { c.s("SEARCH"); for n in v { c.s(format!(" {n}")); } }
                    Data::Flags(v) => { c.s("FLAGS ("); c.joined(v, |c, f| { c.s(f.to_string()); }); c.s(")"); }
                    Data::Exists(n) => { c.s(format!("{n} EXISTS")); }
                    Data::Recent(n) => { c.s(format!("{n} RECENT")); }
                    Data::Expunge(n) => { c.s(format!("{n} EXPUNGE")); }
                    Data::Fetch { seq, items } => {
                        c.s(format!("{seq} FETCH ("));
                        c.joined(items.as_ref(), |c, i| match i {
                            MessageDataItem::Flags(v) => { c.s("FLAGS ("); c.joined(v, |c, f| { match f { FlagFetch::Flag(f) => c.s(f.to_string()), FlagFetch::Recent => c.s("\\Recent") }; }); c.s(")"); }
                            MessageDataItem::Rfc822(n) => { c.s("RFC822 "); c.nstring(n); }
                            MessageDataItem::Rfc822Header(n) => { c.s("RFC822.HEADER "); c.nstring(n); }
                            MessageDataItem::Rfc822Text(n) => { c.s("RFC822.TEXT "); c.nstring(n); }
                            MessageDataItem::Rfc822Size(n) => { c.s(format!("RFC822.SIZE {n}")); }
                            MessageDataItem::Uid(n) => { c.s(format!("UID {n}")); }
                            MessageDataItem::InternalDate(d) => { c.s(format!("INTERNALDATE \"{}\"", d.inner())); }
                            MessageDataItem::BodyExt { section, origin, data } => {
                                c.s("BODY");
                                c.section(section);
                                if let Some(n) = origin { c.s(format!("<{n}>")); }
                                c.s(" ");
                                c.nstring(data);
                            }
                        });
                        c.s(")");
                    }
                    Data::Id { parameters } => { c.s("ID "); c.id(parameters); }
                }
            }
        }
        c.s("\r\n");
        c.finish()
    }
}
