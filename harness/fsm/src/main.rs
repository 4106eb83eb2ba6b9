//! Properties of the sans-I/O client and server: generated histories against the reference models.
mod alone;
mod client;
mod duo;
mod effort;
mod fair;
mod far;
mod instances;
mod leaks;
mod memory;
mod options;
mod script;
mod server;
mod texts;

use pbt::{Property, Section};

/// Keeps the kinds of mismatch that speak about the property at hand (a panic or hang always counts).
pub fn only(kinds: &[&str], r: Result<(), String>) -> Result<(), String> {
    match r {
        Err(m) if kinds.iter().any(|k| m.starts_with(&format!("[{k}]"))) || m.starts_with("[HANG]") || !m.starts_with('[') => Err(m),
        _ => Ok(()),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == alone::CHILD { alone::child(&a[2..]); }
    if a.len() > 2 && a[1] == instances::FIRST { instances::first(&a[2..]); }
    let s = |name, rule, quick: u64, thorough: u64, run| Section { name, rule, quick: quick * 12, thorough: thorough * 4, run };
    macro_rules! long { ($n:literal, $rule:literal, $q:literal, $f:path) => { s($n, $rule, $q, $q * 300, |s, c| gen::scaled(gen::Scale::Long, || $f(s, c))) } }
    macro_rules! bulk { ($n:literal, $rule:literal, $q:literal, $f:path) => { s($n, $rule, $q, $q * 300, |s, c| gen::scaled(gen::Scale::Bulk, || $f(s, c))) } }
    macro_rules! far { ($n:literal, $side:ident, $focus:ident, $kinds:expr, $q:literal) => { s($n, "at least 1000 rounds and 1000 messages", $q, $q * 300, |s, c| far::$side(s, c, far::Focus::$focus, $kinds)) } }
    let mut props: Vec<Property> = vec![];
    let mut p = |id, sections| props.push(Property { id, sections });
    p("P01", vec![
        s("server", "the same script under two or more different cuttings, at least two of them cutting inside a message, and at least 2 events", 7_000, 3_000_000, server::p01),
        s("client", "the same script under two or more different cuttings, at least two of them cutting inside a message, and at least 2 events", 7_000, 3_000_000, client::p01),
        long!("server-long", "the same script under two or more different cuttings, at least two of them cutting inside a message, and at least 2 events", 60, server::p01),
        bulk!("server-bulk", "the same script under two or more different cuttings, at least two of them cutting inside a message, and at least 2 events", 100, server::p01),
        long!("client-long", "the same script under two or more different cuttings, at least two of them cutting inside a message, and at least 2 events", 60, client::p01),
        bulk!("client-bulk", "the same script under two or more different cuttings, at least two of them cutting inside a message, and at least 2 events", 100, client::p01),
    ]);
    p("P02", vec![
        s("server", "at least 3 messages, one of them an error or taken while later input was already buffered", 25_000, 6_000_000, server::p02),
        s("client", "at least 3 messages, one of them an error or one with a literal", 20_000, 5_000_000, client::p02),
        long!("server-long", "at least 3 messages, one of them an error or taken while later input was already buffered", 60, server::p02),
        bulk!("server-bulk", "at least 3 messages, one of them an error or taken while later input was already buffered", 100, server::p02),
        long!("client-long", "at least 3 messages, one of them an error or one with a literal", 60, client::p02),
        bulk!("client-bulk", "at least 3 messages, one of them an error or one with a literal", 100, client::p02),
        far!("server-far", on_server, Messages, &["RECV", "STALLR"], 8),
        far!("client-far", on_client, Messages, &["RECV", "STALLR"], 8),
        s("many-literals", "at least 100 literals", 8, 3_000, far::either),
    ]);
    p("P03", vec![
        s("server", "a bare LF refused (strict) or accepted (relaxed) next to at least one proper message", 25_000, 5_000_000, server::p03),
        s("client", "a bare LF refused (strict) or accepted (relaxed) next to at least one proper message", 20_000, 5_000_000, client::p03),
        s("every-line-end", "a message with a literal whose lines end in every combination of LF and CRLF", 12_000, 2_000_000, server::p03_combos),
        long!("server-long", "a bare LF refused (strict) or accepted (relaxed) next to at least one proper message", 60, server::p03),
        bulk!("server-bulk", "a bare LF refused (strict) or accepted (relaxed) next to at least one proper message", 100, server::p03),
        long!("client-long", "a bare LF refused (strict) or accepted (relaxed) next to at least one proper message", 60, client::p03),
        bulk!("client-bulk", "a bare LF refused (strict) or accepted (relaxed) next to at least one proper message", 100, client::p03),
    ]);
    p("P04", vec![
        s("history", "a command at or over the limit was reported, or one within 2 bytes of it went through", 25_000, 5_000_000, server::p04),
        s("boundary", "one command of exactly limit-1, limit or limit+1 bytes (or with its literal ending there), in any state", 15_000, 3_000_000, server::p04_boundary),
        long!("long", "a command at or over the limit was reported, or one within 2 bytes of it went through", 60, server::p04),
        bulk!("bulk", "a command at or over the limit was reported, or one within 2 bytes of it went through", 100, server::p04),
        far!("far", on_server, Errors, &["RECV", "STALLR"], 8),
    ]);
    p("P05", vec![
        s("history", "a synchronizing literal was accepted or refused, or a command with a literal went through", 30_000, 6_000_000, server::p05),
        s("boundary", "an announced size within one of the limit", 12_000, 2_000_000, server::p05_boundary),
        long!("long", "a synchronizing literal was accepted or refused, or a command with a literal went through", 60, server::p05),
        bulk!("bulk", "a synchronizing literal was accepted or refused, or a command with a literal went through", 100, server::p05),
        far!("far", on_server, Literals, &["RECV", "OUT", "STALLR", "STALLO"], 8),
        s("many-literals", "at least 100 literals", 8, 3_000, far::to_server),
    ]);
    p("P06", vec![
        s("history", "at least 3 responses sent with input arriving in between", 30_000, 6_000_000, server::p06),
        long!("long", "at least 3 responses sent with input arriving in between", 60, server::p06),
        bulk!("bulk", "at least 3 responses sent with input arriving in between", 100, server::p06),
        far!("far", on_server, Messages, &["OUT", "SENT", "STALLO", "API", "HANDLE"], 8),
    ]);
    p("P07", vec![
        s("history", "an AUTHENTICATE exchange with at least one line of data", 30_000, 6_000_000, server::p07),
        long!("long", "an AUTHENTICATE exchange with at least one line of data", 60, server::p07),
        bulk!("bulk", "an AUTHENTICATE exchange with at least one line of data", 100, server::p07),
        far!("far", on_server, Auth, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], 8),
    ]);
    p("P08", vec![
        s("history", "an IDLE exchange that was ended by DONE, or an IDLE with input waiting behind it", 30_000, 6_000_000, server::p08),
        long!("long", "an IDLE exchange that was ended by DONE, or an IDLE with input waiting behind it", 60, server::p08),
        bulk!("bulk", "an IDLE exchange that was ended by DONE, or an IDLE with input waiting behind it", 100, server::p08),
        far!("far", on_server, Idle, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], 8),
    ]);
    p("P09", vec![
        s("history", "at least 2 commands of which one was enqueued before the greeting", 30_000, 6_000_000, client::p09),
        long!("long", "at least 2 commands of which one was enqueued before the greeting", 60, client::p09),
        bulk!("bulk", "at least 2 commands of which one was enqueued before the greeting", 100, client::p09),
        far!("far", on_client, Messages, &["OUT", "SENT", "STALLO", "HANDLE"], 8),
    ]);
    p("P10", vec![
        s("history", "a synchronizing literal was accepted or refused", 30_000, 6_000_000, client::p10),
        long!("long", "a synchronizing literal was accepted or refused", 60, client::p10),
        bulk!("bulk", "a synchronizing literal was accepted or refused", 100, client::p10),
        far!("far", on_client, Literals, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], 8),
        s("many-literals", "at least 100 literals", 8, 3_000, far::to_client),
    ]);
    p("P11", vec![
        s("history", "an AUTHENTICATE exchange with at least one request for data", 30_000, 6_000_000, client::p11),
        long!("long", "an AUTHENTICATE exchange with at least one request for data", 60, client::p11),
        bulk!("bulk", "an AUTHENTICATE exchange with at least one request for data", 100, client::p11),
        far!("far", on_client, Auth, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], 8),
    ]);
    p("P12", vec![
        s("history", "an IDLE accepted and ended, or refused", 30_000, 6_000_000, client::p12),
        long!("long", "an IDLE accepted and ended, or refused", 60, client::p12),
        bulk!("bulk", "an IDLE accepted and ended, or refused", 100, client::p12),
        far!("far", on_client, Idle, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], 8),
    ]);
    p("P13", vec![
        s("history", "at least 3 responses, one of them while a command was under way", 30_000, 6_000_000, client::p13),
        long!("long", "at least 3 responses, one of them while a command was under way", 60, client::p13),
        bulk!("bulk", "at least 3 responses, one of them while a command was under way", 100, client::p13),
        far!("far", on_client, Messages, &["RECV", "STALLR"], 8),
    ]);
    p("P14", vec![
        s("server", "at least 3 responses or replies sent", 25_000, 5_000_000, server::p14),
        s("client", "at least 2 commands sent or refused", 20_000, 5_000_000, client::p14),
        long!("server-long", "at least 3 responses or replies sent", 60, server::p14),
        bulk!("server-bulk", "at least 3 responses or replies sent", 100, server::p14),
        long!("client-long", "at least 2 commands sent or refused", 60, client::p14),
        bulk!("client-bulk", "at least 2 commands sent or refused", 100, client::p14),
        far!("server-far", on_server, Any, &["STALLR", "STALLO"], 8),
        far!("client-far", on_client, Any, &["STALLR", "STALLO"], 8),
    ]);
    p("P15", vec![
        s("instances", "at least 2 clients or servers and 4 handles", 4_000, 800_000, instances::p15),
        s("long-lived", "more than 65536 handles of one client and one server", 1, 20, instances::p15_long),
    ]);
    p("P32", vec![
        s("instances", "2 to 8 threads create clients and servers at once", 150, 20_000, instances::p32),
        s("first", "2 to 8 threads create the first clients and servers of a process at once", 60, 10_000, instances::p32_first),
    ]);
    p("P16", vec![
        s("server", "at least 2 errors and 1 message after them", 25_000, 6_000_000, server::p16),
        s("client", "at least 2 errors and 1 message after them", 20_000, 5_000_000, client::p16),
        s("resync", "a valid message after arbitrary bytes and a line end is delivered", 12_000, 3_000_000, server::p16_resync),
        s("announced", "a literal was announced", 6_000, 1_000_000, client::p16_announced),
        long!("server-long", "at least 2 errors and 1 message after them", 60, server::p16),
        bulk!("server-bulk", "at least 2 errors and 1 message after them", 100, server::p16),
        long!("client-long", "at least 2 errors and 1 message after them", 60, client::p16),
        bulk!("client-bulk", "at least 2 errors and 1 message after them", 100, client::p16),
        far!("server-far", on_server, Errors, &["RECV", "STALLR", "STALLO", "OUT"], 8),
        far!("client-far", on_client, Errors, &["RECV", "OUT", "SENT", "API", "STALLR", "STALLO", "HANDLE"], 8),
    ]);
    p("P17", vec![
        s("server", "at least 2 secrets were received and 1 discarded", 8_000, 2_000_000, leaks::server),
        s("client", "at least 2 secrets were sent and 1 discarded", 8_000, 2_000_000, leaks::client),
    ]);
    p("P18", vec![
        s("dialogue", "at least 3 commands and 3 responses were exchanged, including a literal, AUTHENTICATE or IDLE", 20_000, 4_000_000, duo::p18),
        long!("long", "at least 3 commands and 3 responses were exchanged, including a literal, AUTHENTICATE or IDLE", 150, duo::p18),
        bulk!("bulk", "at least 3 commands and 3 responses were exchanged, including a literal, AUTHENTICATE or IDLE", 150, duo::p18),
        s("far", "at least 3 commands and 3 responses were exchanged, including a literal, AUTHENTICATE or IDLE", 4, 1_200, |s, c| gen::scaled(gen::Scale::Far, || duo::p18(s, c))),
    ]);
    p("P35", vec![
        s("instances", "at least 2 instances with 3 observations each", 6_000, 2_000_000, alone::p35),
        long!("long", "at least 2 instances with 3 observations each", 30, alone::p35),
        s("processes", "at least 2 instances with 3 observations each", 150, 60_000, alone::processes),
    ]);
    p("P36", vec![
        s("history", "the same events came again at least 100 times with nothing left waiting in between", 100, 20_000, memory::p36),
        bulk!("bulk", "the same events came again at least 100 times with nothing left waiting in between", 8, memory::p36),
        s("instances", "every case", 30, 10_000, memory::instances),
        s("announced", "every case", 1_000, 200_000, memory::announced),
    ]);
    p("P39", vec![
        s("history", "at least 32 observations", 100, 20_000, effort::history),
        s("message", "every case", 80, 12_000, effort::message),
        s("literals", "every case", 40, 8_000, effort::literals),
    ]);
    p("P40", vec![s("endless", "at least 3 messages were sent and 3 received", 4_000, 1_000_000, fair::endless)]);
    p("P41", vec![
        s("options", "at least one message or error", 8_000, 2_000_000, options::p41),
        s("largest", "every case", 8, 400, options::largest),
    ]);
    p("P30", vec![
        s("setters", "at least one text accepted and one refused", 40_000, 4_000_000, texts::setters),
        s("replies", "both texts seen on the wire", 12_000, 2_000_000, texts::replies),
    ]);
    pbt::main(props);
}
