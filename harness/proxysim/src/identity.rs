//! P31, seen from outside: what the proxy presents and whom it serves, for generated identity files.
#[path = "../../identities/src/pemgen.rs"]
#[allow(dead_code)]
mod pemgen;

use gen::*;
use pbt::{Case, Src};
use pemgen::*;

use crate::ends::*;
use crate::session::*;
use crate::sessions::*;
use crate::world::*;

fn small(s: &mut Src) -> Vec<u8> { let n = 1 + s.idx(300); let k = s.below(1 << 20); (0..n as u64).map(|i| pbt::mix(k << 20 ^ i) as u8).collect() }
fn key_der(name: &str) -> Vec<u8> { rustls_pemfile::pkcs8_private_keys(&mut &std::fs::read(format!("{}/{name}.key", certs_dir())).unwrap()[..]).next().unwrap().unwrap().secret_pkcs8_der().to_vec() }
fn others(s: &mut Src, v: &mut Vec<(Kind, Vec<u8>)>, n: usize) { for _ in 0..n { let at = s.idx(v.len() + 1); let d = small(s); v.insert(at, (Kind::Other(*s.pick(&OTHERS)), d)); } }

pub fn presented(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let seed = s.u64();
    let mut svcs = services(s, 2, 3);
    // the leaf and its key
    let leaf = *s.pick(&["deep", "imap", "localhost", "other"]);
    let mut chain: Vec<(Kind, Vec<u8>)> = vec![(Kind::Cert, pem_certs(&format!("{}/{leaf}.pem", certs_dir()))[0].to_vec())];
    for _ in 0..if s.chance(1, 12) { 6 + s.size(30) } else { s.size(6) } { let d = match s.below(3) { 0 => pem_certs(&format!("{}/middle.pem", certs_dir()))[0].to_vec(), _ => small(s) }; chain.push((Kind::Cert, d)); }
    let want: Vec<Vec<u8>> = chain.iter().map(|x| x.1.clone()).collect();
    let k = s.size(4);
    others(s, &mut chain, k);
    // keys do not belong there, and do not matter
    if s.chance(1, 4) { let at = s.idx(chain.len() + 1); let d = small(s); chain.insert(at, (Kind::Pkcs8, d)); }
    let keys = *s.pick(&[1usize, 1, 1, 1, 0, 2, 3]);
    let mut kv: Vec<(Kind, Vec<u8>)> = (0..keys).map(|i| (Kind::Pkcs8, if i == 0 || s.bool() { key_der(leaf) } else { small(s) })).collect();
    if keys > 1 && s.bool() { kv.reverse(); }
    let k = s.size(4);
    others(s, &mut kv, k);
    if s.chance(1, 4) { let at = s.idx(kv.len() + 1); let d = small(s); kv.insert(at, (Kind::Cert, d)); }
    let (cf, kf) = (file(s, chain), file(s, kv));
    let (mut cb, mut kb) = (cf.bytes.clone(), kf.bytes.clone());
    let mut bad = (keys != 1).then_some(("the number of keys", false));
    if keys == 1 && s.chance(1, 3) {
        let of_chain = s.bool();
        let (f, b) = if of_chain { (&cf, &mut cb) } else { (&kf, &mut kb) };
        let kind = if of_chain { Kind::Cert } else { Kind::Pkcs8 };
        let xs: Vec<&Section> = f.sections.iter().filter(|x| x.kind == kind).collect();
        let x = xs[s.idx(xs.len())];
        match s.below(3) {
            0 => { let i = loop { let i = x.body.0 + s.idx(x.body.1 - x.body.0); if !b"\r\n".contains(&b[i]) { break i; } }; b[i] = *s.pick(b"!*.,\xff"); bad = Some(("a character that is no base64", of_chain)); }
            1 => { b.truncate(x.body.0 + s.idx(x.body.1 - x.body.0)); bad = Some(("a file that ends in a section", of_chain)); }
            _ => { b.clear(); bad = Some(("no file", of_chain)); }
        }
    }
    let (cp, kp) = (write_scratch(&format!("chain {:x}.pem", seed % 8), &cb), write_scratch(&format!("key {:x}.pem", seed % 8), &kb));
    if let Some(("no file", of_chain)) = bad { std::fs::remove_file(if of_chain { &cp } else { &kp }).unwrap(); }
    svcs[1].bind_tls = Some((cp.clone(), kp.clone()));
    let text = config_text(&svcs);
    let keep = c.want_sample || c.verbose;
    spy::start();
    let r = run(seed, &text, async {
        let mut ls = vec![];
        for v in &svcs { ls.push(listen(&v.connect_addr()).await); }
        settle().await;
        let prof = Prof { caps: 0, junk: 0, special: 2 };
        let mut n = 0;
        let mut xs = vec![open(s, &svcs, &ls, 0, 0, prof, false, keep).await?];
        c.nontrivial = true;
        match bad {
            None => {
                c.count("served", 1);
                xs.push(open(s, &svcs, &ls, 1, 1, prof, false, keep).await?);
                let got: Vec<Vec<u8>> = xs[1].c.tls.as_ref().and_then(|t| t.peer_certificates()).map(|v| v.iter().map(|c| c.to_vec()).collect()).unwrap_or_default();
                if got != want { return Err(format!("presents {} certificates of {:?} bytes, the file has {} of {:?}", got.len(), got.iter().map(|g| g.len()).collect::<Vec<_>>(), want.len(), want.iter().map(|g| g.len()).collect::<Vec<_>>())); }
            }
            Some((what, of_chain)) => {
                c.count(what, 1);
                let tls = client_end_tls(s, &svcs[1]);
                // it may as well not listen at all
                if let Ok(mut e) = dial(&svcs[1], tls).await {
                    for _ in 0..6 { settle().await; e.pump(); }
                    if e.ready() { return Err(format!("{what} ({}): a client is served all the same", if of_chain { &cp } else { &kp })); }
                    if !e.ended { return Err(format!("{what}: the client is not closed")); }
                }
                let log = spy::take();
                let p = if of_chain { &cp } else { &kp };
                if !log.contains(p.as_str()) { return Err(format!("{what}: nothing that is reported names {p}: {log}")); }
            }
        }
        let len = s.size(4);
        let r = history(s, &mut n, &mut xs, len).await;
        let r = match r { Ok(()) => finish(s, &mut n, &mut xs).await, e => e };
        c.sample(|| format!("{bad:?}\n{}\n{}", String::from_utf8_lossy(&cb), String::from_utf8_lossy(&kb)));
        r
    });
    spy::stop();
    r
}
