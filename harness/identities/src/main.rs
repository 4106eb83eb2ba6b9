//! P31: what the functions that load certificates and keys make of generated files.
mod pemgen;

use std::path::{Path, PathBuf};

use identities::direct::{load_certificate_chain_pem, load_leaf_key_pem};
use pbt::{Case, Property, Section, Src};
use pemgen::*;
use rustls::pki_types::PrivateKeyDer;

fn scratch() -> PathBuf { std::env::temp_dir().join(format!("identities-{}", std::process::id())) }
/// A place for a file whose name may be odd.
fn place(s: &mut Src) -> PathBuf {
    thread_local! { static DIR: PathBuf = { let p = scratch().join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-")); std::fs::create_dir_all(&p).unwrap(); p }; }
    let name = *s.pick(&["chain.pem", "key.pem", "a b.pem", "\"quoted\".pem", "schlüssel.pem", "%s{}.pem", "-----BEGIN CERTIFICATE-----", "no extension", ".hidden", "a\\b.pem"]);
    DIR.with(|d| d.join(name))
}
fn load(key: bool, p: &Path) -> Result<Result<Vec<Vec<u8>>, String>, String> {
    pbt::no_panic(|| if key {
        load_leaf_key_pem(p).map(|k| match k { PrivateKeyDer::Pkcs8(k) => vec![k.secret_pkcs8_der().to_vec()], k => vec![b"not PKCS#8:".to_vec(), k.secret_der().to_vec()] }).map_err(|e| e.to_string())
    } else {
        load_certificate_chain_pem(p).map(|v| v.iter().map(|c| c.to_vec()).collect()).map_err(|e| e.to_string())
    }).map_err(|e| format!("loading panics: {e}"))
}
fn len(v: &[Vec<u8>]) -> String { format!("{} of {:?} bytes", v.len(), v.iter().map(|v| v.len()).collect::<Vec<_>>()) }
fn is(key: bool, got: &Result<Vec<Vec<u8>>, String>, want: &[Vec<u8>], p: &Path) -> Result<(), String> {
    if key && want.len() != 1 { return fails(got, p).map_err(|e| format!("a file with {} keys: {e}", want.len())); }
    match got {
        Ok(v) if v == want => Ok(()),
        Ok(v) => Err(format!("loaded {}, there are {}{}", len(v), len(want), if v.len() == want.len() { " that differ" } else { "" })),
        Err(e) => Err(format!("loading a proper file fails: {e}")),
    }
}
fn fails(got: &Result<Vec<Vec<u8>>, String>, p: &Path) -> Result<(), String> {
    match got {
        Ok(v) => Err(format!("loads as {}", len(v))),
        Err(e) if e.contains(&p.display().to_string()) => Ok(()),
        Err(e) => Err(format!("the error does not name {}: {e}", p.display())),
    }
}
fn sections(s: &mut Src) -> Vec<(Kind, Vec<u8>)> { let n = if s.chance(1, 8) { 9 + s.size(60) } else { s.size(9) }; (0..n).map(|_| { let k = some_kind(s); (k, der(s)) }).collect() }

fn whole(s: &mut Src, c: &mut Case, key: bool) -> Result<(), String> {
    let mut v = sections(s);
    // one key, mostly
    if key && s.chance(3, 4) { v.retain(|x| x.0 != Kind::Pkcs8); let at = s.idx(v.len() + 1); let d = der(s); v.insert(at, (Kind::Pkcs8, d)); }
    let f = file(s, v);
    let p = place(s);
    std::fs::write(&p, &f.bytes).unwrap();
    let want = f.ders(if key { Kind::Pkcs8 } else { Kind::Cert });
    c.nontrivial = !want.is_empty() && f.sections.len() > want.len();
    c.count(match want.len() { 0 => "none", 1 => "one", _ => "more" }, 1);
    c.sample(|| String::from_utf8_lossy(&f.bytes).into_owned());
    is(key, &load(key, &p)?, &want, &p)
}
fn chains(s: &mut Src, c: &mut Case) -> Result<(), String> { whole(s, c, false) }
fn keys(s: &mut Src, c: &mut Case) -> Result<(), String> { whole(s, c, true) }

fn corrupt(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let key = s.bool();
    let kind = if key { Kind::Pkcs8 } else { Kind::Cert };
    let mut v = sections(s);
    if key { v.retain(|x| x.0 != kind); }
    let at = s.idx(v.len() + 1);
    let d = der(s);
    v.insert(at, (kind, d));
    let f = file(s, v);
    let p = place(s);
    let mut b = f.bytes.clone();
    let x = &f.sections[at];
    let what = s.below(8);
    let name;
    let mut judge: Box<dyn Fn(&Result<Vec<Vec<u8>>, String>) -> Result<(), String>> = Box::new(|g| fails(g, &p));
    match what {
        0 => { name = "no such file"; let _ = std::fs::remove_file(&p); c.nontrivial = true; c.count(name, 1); return fails(&load(key, &p)?, &p).map_err(|e| format!("{name}: {e}")); }
        1 => { name = "a directory"; let d = p.with_extension("dir"); std::fs::create_dir_all(&d).unwrap(); c.nontrivial = true; c.count(name, 1); return fails(&load(key, &d)?, &d).map_err(|e| format!("{name}: {e}")); }
        2 | 3 => {
            name = "a character that is no base64";
            let i = loop { let i = x.body.0 + s.idx(x.body.1 - x.body.0); if !b"\r\n".contains(&b[i]) { break i; } };
            // not at the start of a line, where it might look like a marker
            let ch = *s.pick(b"!*.,_#\x00\xff?:");
            if s.bool() { b[i] = ch } else { b.insert(i, ch) }
        }
        4 => { name = "a character missing"; if x.der.len() % 3 != 1 { return Ok(()); } let i = loop { let i = x.body.0 + s.idx(x.body.1 - x.body.0); if b[i].is_ascii_alphanumeric() || b[i] == b'/' || b[i] == b'+' { break i; } }; b.remove(i); }
        5 => { name = "padding in the middle"; if x.der.len() < 6 { return Ok(()); } b.insert(x.body.0 + 1, b'='); }
        6 => {
            name = "cut in its contents";
            b.truncate(x.body.0 + s.idx(x.body.1 - x.body.0));
        }
        _ => {
            name = "cut anywhere";
            let at = s.idx(b.len() + 1);
            b.truncate(at);
            // sections that are still whole; nothing is said about a file that ends in a first line
            let inside = f.sections.iter().find(|x| x.from < at && at < x.to);
            let want: Vec<Vec<u8>> = f.sections.iter().filter(|x| x.kind == kind && x.to <= at).map(|x| x.der.clone()).collect();
            match inside {
                Some(x) if x.kind == kind && at >= x.body.0 => {}
                Some(_) => { let p = p.clone(); judge = Box::new(move |g| if g.is_err() { fails(g, &p) } else { is(key, g, &want, &p) }); }
                None => { let p = p.clone(); judge = Box::new(move |g| is(key, g, &want, &p)); }
            }
        }
    }
    std::fs::write(&p, &b).unwrap();
    c.nontrivial = true;
    c.count(name, 1);
    c.sample(|| format!("{name}\n{}", String::from_utf8_lossy(&b)));
    judge(&load(key, &p)?).map_err(|e| format!("a {} with {name}: {e}", if key { "key" } else { "certificate" }))
}

/// Arbitrary damage: nothing but an error that names the file, or a result.
fn mutated(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let v = sections(s);
    let f = file(s, v);
    let mut b = f.bytes;
    for _ in 0..1 + s.size(8) {
        if b.is_empty() { break; }
        let i = s.idx(b.len());
        match s.below(6) { 0 => { b.remove(i); } 1 => b[i] = s.below(256) as u8, 2 => b.insert(i, s.below(256) as u8), 3 => { let j = s.idx(b.len()); b.swap(i, j); } 4 => { let j = (i + s.size(200)).min(b.len()); b.drain(i..j); } _ => { let t = b[i..(i + s.size(100)).min(b.len())].to_vec(); b.splice(i..i, t); } }
    }
    let p = place(s);
    std::fs::write(&p, &b).unwrap();
    c.nontrivial = true;
    for key in [false, true] {
        let g = load(key, &p)?;
        c.count(if g.is_ok() { "loaded" } else { "refused" }, 1);
        if g.is_err() { fails(&g, &p)?; }
    }
    Ok(())
}

fn main() {
    pbt::at_exit(|| { let _ = std::fs::remove_dir_all(scratch()); });
    let s = |name, rule, quick, thorough, run| Section { name, rule, quick, thorough, run };
    pbt::main(vec![Property { id: "P31", sections: vec![
        s("chains", "there are certificates and something else", 40_000, 1_000_000, chains as pbt::CaseFn),
        s("keys", "there is a key and something else", 40_000, 1_000_000, keys),
        s("corrupt", "every case", 40_000, 1_000_000, corrupt),
        s("mutated", "every case", 20_000, 1_000_000, mutated),
    ] }]);
}
