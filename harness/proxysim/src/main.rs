//! P17, P23, P24, P25 and P34: the proxy program between simulated mail clients and servers.
mod effort;
mod fair;
mod encryption;
mod ends;
mod faults;
mod identity;
mod memory;
mod sessions;
mod session;
mod start;
mod world;

use pbt::{Property, Section};

fn main() {
    // the proxy trusts these
    std::env::set_var("SSL_CERT_FILE", format!("{}/root.pem", ends::certs_dir()));
    pbt::at_exit(|| { let _ = std::fs::remove_dir_all(world::scratch()); });
    let s = |name, rule, quick, thorough, run| Section { name, rule, quick, thorough, run };
    pbt::main(vec![
        Property { id: "P17", sections: vec![s("proxy", "commands got through", 12_000, 500_000, faults::p17 as pbt::CaseFn)] },
        Property { id: "P23", sections: vec![
            s("sessions", "messages went both ways", 100_000, 3_000_000, sessions::p23 as pbt::CaseFn),
            s("long", "messages went both ways", 4_000, 300_000, sessions::p23_long),
            s("bulk", "messages went both ways", 8_000, 300_000, sessions::p23_bulk),
            s("far", "all rounds were made", 100, 5_000, memory::p23_far),
            s("last-words", "the side that closed had said something just before", 40_000, 1_000_000, sessions::p23_last),
        ] },
        Property { id: "P24", sections: vec![
            s("capabilities", "a list with a capability that is not allowed was sent", 100_000, 3_000_000, sessions::p24),
            s("long", "a list with a capability that is not allowed was sent", 4_000, 300_000, sessions::p24_long),
            s("bulk", "a list with a capability that is not allowed was sent", 8_000, 300_000, sessions::p24_bulk),
        ] },
        Property { id: "P25", sections: vec![
            s("faults", "there was a malformed or misplaced message, an ending side or a stranger", 60_000, 1_500_000, faults::p25),
            s("many-clients", "more than thirty servers were reached", 600, 30_000, faults::p25_many),
            s("far", "all sessions were made", 40, 3_000, memory::p25_far),
            s("too-long", "the command was too long", 24, 300, faults::p25_long),
        ] },
        Property { id: "P31", sections: vec![s("presented", "every case", 12_000, 400_000, identity::presented)] },
        Property { id: "P36", sections: vec![
            s("session", "all rounds were made", 80, 4_000, memory::history_of_one),
            s("sessions", "all sessions were made", 160, 8_000, memory::sessions_go),
        ] },
        Property { id: "P39", sections: vec![s("proxy", "everything came through", 600, 20_000, effort::sessions)] },
        Property { id: "P40", sections: vec![s("floods", "everything came through", 2_000, 80_000, fair::floods)] },
        Property { id: "P37", sections: vec![
            s("services", "at least one service could not be started, or two", 40_000, 1_000_000, start::services_start),
            s("nothing", "every case", 4_000, 100_000, start::nothing),
        ] },
        Property { id: "P34", sections: vec![
            s("sessions", "a side is configured with TLS", 24_000, 500_000, encryption::sessions),
            s("refused", "there was a peer that must not be accepted", 24_000, 500_000, encryption::refused),
        ] },
    ]);
}
