//! P26, P27, P28: the proxy's configuration, compiled from its source.
#[path = "/repo/proxy/src/config.rs"]
mod config;
mod reference;
mod write;

use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::path::{Path, PathBuf};

use config::{Bind, Config, Connect, Error, Identity, Service};
use pbt::{hash_of, Case, Property, Section, Src};
use write::*;

// ---- generated configurations

fn text(s: &mut Src) -> String {
    const ODD: &[&str] = &["", " ", " x ", "\t", "a\nb", "\r\n", "\\", "\"", "'", "'''", "\"\"\"", "#", "# no", "=", "[x]", "${HOME}", "$HOME", "~/x", "%20", "../x", "./x", "/", "\u{0}", "\u{1b}", "\u{7f}", "\u{feff}", "\u{2028}", "ä", "日本", "🦀", "e\u{301}", "true", "1", "1979-05-27", "nan", "{}", "\\u0041", "localhost", "LOCALHOST", "Example.COM", "example.com.", "127.0.0.1", "0.0.0.0", "::1", "[::1]", "fe80::1%eth0", "host:993", "a:b:c", "imap.example.org", "\n", "\n\n", "\n;", "\n; x", "\n#", "\n# x", "\n//", "\n[[services]]\n", "\nport = 1\n", "\n  ", "\t\n", " \n", ";", "//", "/* x */", "<!--", "--", "!", "@", "&amp;", "*", "?", "|", ",", "a,b", ".", "..", ":", "::", "0.0.0.0:143", "%s", "%d", "{host}", "{{x}}", "$(x)", "`x`", "~", "~root", "\\n", "\\\\", "\\\"", "null", "None", "default", "yes", "0", "-1", "+1", "0x1f", "1_000", "1.5", "inf", "143", "993", "\u{85}", "\u{a0}", "\u{200b}", "\u{fffd}", "\u{e000}", "\u{10ffff}", "\u{202e}", "ß", "İ", "ﬀ", "C:\\x\\y", "file:///x", "unix:/x", "imap://h", "imaps://h:1", "name", "host", "port", "identity", "Starttls", "CertificateChainAndLeafKey", "Tls", "Insecure", "Best Email Provider", "config.toml", "localhost.pem", "localhost-key.pem", "./localhost.pem", "certs/localhost.pem", "near.pem", "certs/near.pem", "far.pem", "./near.pem", "/etc/hosts", "/etc/ssl/../hosts", "/tmp", "imap", "imaps", "any", "all", "none", "broadcasthost", "ip6-localhost", "1.2.3", "127.1", "0x7f.1", "2130706433", "xn--bcher-kva.example", "bücher.example", "a\\b", "a//b", "a/", "a/./b", "a/../b"];
    match s.weighted(&[4, 4, 2, 1]) {
        0 => s.pick(ODD).to_string(),
        1 => { let n = s.size(12); s.string(n, "abcXYZ019.-_:/ \\\"'#") }
        2 => { let k = s.range(1, 3); (0..k).map(|_| s.pick(ODD).to_string()).collect() }
        _ => { let n = *s.pick(&[63usize, 64, 127, 128, 255, 256, 257, 1024, 5000]); let c = *s.pick(&["a", "é", "x.", "Z"]); c.repeat(n) }
    }
}
fn port(s: &mut Src) -> u16 {
    match s.below(3) { 0 => *s.pick(&[143u16, 993, 0, 1, 65535, 1143, 1993, 25, 110, 255, 256, 32767, 32768, 1430, 9930]), 1 => s.range(0, 65535) as u16, _ => *s.pick(&[143u16, 993]) }
}
fn bind(s: &mut Src) -> Bind {
    let (host, port) = (text(s), port(s));
    if s.bool() { Bind::Tls { host, port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: text(s), leaf_key_path: text(s) } } } else { Bind::Insecure { host, port } }
}
fn connect(s: &mut Src) -> Connect {
    let (host, port) = (text(s), port(s));
    if s.bool() { Connect::Tls { host, port } } else { Connect::Insecure { host, port } }
}
fn config(s: &mut Src) -> Config {
    let n = match s.below(12) { 0 => 0, 1 => s.range(6, 80), _ => s.range(1, 5) };
    let mut services: Vec<Service> = (0..n).map(|_| Service { name: text(s), bind: bind(s), connect: connect(s) }).collect();
    // services that share names, sides or everything
    if n > 1 && s.chance(1, 3) {
        let (i, j) = (s.idx(n), s.idx(n));
        match s.below(4) { 0 => services[i].name = services[j].name.clone(), 1 => services[i].bind = services[j].bind.clone(), 2 => services[i].connect = services[j].connect.clone(), _ => services[i] = services[j].clone() }
    }
    Config { services }
}
fn default_port(tls: bool) -> u16 { if tls { 993 } else { 143 } }
fn bind_parts(b: &Bind) -> (bool, &str, u16) { match b { Bind::Tls { host, port, .. } => (true, host, *port), Bind::Insecure { host, port } => (false, host, *port) } }
fn connect_parts(b: &Connect) -> (bool, &str, u16) { match b { Connect::Tls { host, port } => (true, host, *port), Connect::Insecure { host, port } => (false, host, *port) } }

/// The configuration as a tree; `omit` says whether a port that equals the default is left out.
fn tree(c: &Config, mut omit: impl FnMut() -> bool) -> V {
    let mut side = |tls: bool, host: &str, port: u16| -> Vec<(String, V)> {
        let mut t = vec![("encryption".to_owned(), V::S(if tls { "Tls" } else { "Insecure" }.into())), ("host".to_owned(), V::S(host.into()))];
        if !(port == default_port(tls) && omit()) { t.push(("port".to_owned(), V::I(port as i64))); }
        t
    };
    V::T(vec![("services".to_owned(), V::A(c.services.iter().map(|x| {
        let (tls, host, port) = bind_parts(&x.bind);
        let mut b = side(tls, host, port);
        if let Bind::Tls { identity: Identity::CertificateChainAndLeafKey { certificate_chain_path, leaf_key_path }, .. } = &x.bind {
            b.push(("identity".into(), V::T(vec![("type".into(), V::S("CertificateChainAndLeafKey".into())), ("certificate_chain_path".into(), V::S(certificate_chain_path.clone())), ("leaf_key_path".into(), V::S(leaf_key_path.clone()))])));
        }
        let (tls, host, port) = connect_parts(&x.connect);
        V::T(vec![("name".into(), V::S(x.name.clone())), ("bind".into(), V::T(b)), ("connect".into(), V::T(side(tls, host, port)))])
    }).collect()))])
}

// ---- files

thread_local! { static OWN: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }
fn dir() -> PathBuf { std::env::temp_dir().join(format!("verif-config-{}", std::process::id())) }
/// The process's own directory, with files that nothing may fall back to.
fn prepare() {
    let d = dir();
    let decoy = "[[services]]\nname = \"decoy\"\nbind = { encryption = \"Insecure\", host = \"decoy\" }\nconnect = { encryption = \"Insecure\", host = \"decoy\" }\n";
    for p in [d.clone(), d.join("proxy"), d.join("home/.config/proxy")] {
        fs::create_dir_all(&p).unwrap();
        for n in ["config.toml", "config", "config.local.toml", "config.default.toml", "config.example.toml", "config.toml.bak", "default.toml", "proxy.toml", "imap-proxy.toml", ".config.toml"] { fs::write(p.join(n), decoy).unwrap(); }
    }
    identity_decoys(&d);
    fs::write(d.join("far.pem"), "").unwrap();
    std::env::set_current_dir(&d).unwrap();
    std::env::set_var("HOME", d.join("home"));
}
/// Files a path in a configuration could be taken to mean.
fn identity_decoys(d: &Path) {
    fs::create_dir_all(d.join("certs")).unwrap();
    fs::create_dir_all(d.join("a/b")).unwrap();
    for n in ["localhost.pem", "localhost-key.pem", "certs/localhost.pem", "x", "name", "identity", "Tls"] { fs::write(d.join(n), "").unwrap(); }
}
/// This thread's own directory.
fn own() -> PathBuf {
    OWN.with(|f| f.borrow_mut().get_or_insert_with(|| {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let d = dir().join(format!("{} own", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        fs::create_dir_all(&d).unwrap();
        identity_decoys(&d);
        fs::write(d.join("near.pem"), "").unwrap();
        fs::write(d.join("certs/near.pem"), "").unwrap();
        d
    }).clone())
}
/// Writes a file of its own for this thread and gives its path.
fn file(bytes: &[u8]) -> PathBuf { let p = own().join("config.toml"); fs::write(&p, bytes).unwrap(); p }
extern "C" { fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32; fn setfsuid(uid: u32) -> i32; }
/// Loads the text from a file of some name, reached in some way.
fn load(s: &mut Src, t: &[u8]) -> Result<Config, Error> {
    use std::os::unix::ffi::OsStrExt;
    if s.chance(3, 4) {
        let p = file(t);
        return match s.below(4) { 0 => Config::load(&p), 1 => Config::load(p.to_str().unwrap()), 2 => Config::load(p.to_str().unwrap().to_owned()), _ => Config::load(p.as_path()) };
    }
    let d = own();
    let name: &[u8] = *s.pick(&[&b"config.toml"[..], b"c", b"config.json", b"config.yaml", b"config.yml", b"config.TOML", b"config.conf", b".hidden", b" ", b"a b", b"a%20b", b"~", b"$HOME", b"-", b"*", b"config.toml~", b"config.toml.local", b"config.d", "ä.toml".as_bytes(), b"\xff\xfe.toml", b"n\nl", b"...", b"'q'", b"proxy.ini"]);
    let p = d.join(std::ffi::OsStr::from_bytes(name));
    let clean = |p: &Path| { let _ = fs::remove_file(p); };
    clean(&p);
    let r = match s.below(6) {
        0 => { fs::write(&p, t).unwrap(); Config::load(&p) }
        1 => { fs::write(&p, t).unwrap(); let l = d.join("link"); clean(&l); std::os::unix::fs::symlink(&p, &l).unwrap(); let r = Config::load(&l); clean(&l); r }
        2 => { fs::write(&p, t).unwrap(); let l = d.join("hard"); clean(&l); fs::hard_link(&p, &l).unwrap(); let r = Config::load(&l); clean(&l); r }
        // relative to the working directory
        3 => { fs::write(&p, t).unwrap(); Config::load(p.strip_prefix(dir()).unwrap()) }
        4 => { fs::write(&p, t).unwrap(); Config::load(d.join("..").join(d.file_name().unwrap()).join(".").join(p.file_name().unwrap())) }
        // a pipe: no length is known before it is read
        _ => {
            let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            if !s.chance(1, 6) || unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 { fs::write(&p, t).unwrap(); Config::load(&p) } else {
                let at = s.idx(t.len() + 1);
                std::thread::scope(|sc| {
                    let q = &p;
                    sc.spawn(move || { use std::io::Write; if let Ok(mut f) = fs::OpenOptions::new().write(true).open(q) { let _ = f.write_all(&t[..at]); std::thread::yield_now(); let _ = f.write_all(&t[at..]); } });
                    let r = Config::load(q);
                    // if it never was opened, the writer still waits
                    if let Ok(f) = { use std::os::unix::fs::OpenOptionsExt; fs::OpenOptions::new().read(true).custom_flags(0o4000).open(q) } { drop(f); }
                    r
                })
            }
        }
    };
    clean(&p);
    r
}
/// Much text: many services, long strings, long comments.
fn big(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut cfg = config(s);
    let k = 1usize << s.range(12, 21);
    let cap = 1 << 18;
    let n = (k + s.idx(5)).saturating_sub(2);
    let mut front = String::new();
    match s.below(4) {
        0 => { let one: Vec<Service> = (0..s.range(1, 7)).map(|_| Service { name: text(s), bind: bind(s), connect: connect(s) }).collect(); for i in 0..s.range(81, 1200) { let mut x = one[i % one.len()].clone(); x.name.push_str(&i.to_string()); if i % 3 == 0 { match &mut x.connect { Connect::Tls { port, .. } | Connect::Insecure { port, .. } => *port = i as u16 } } cfg.services.push(x); } }
        1 => { let t = s.pick(&["x", "é", "ab ", "\u{1f980}"]).repeat(n.min(cap) / 4); let what = s.idx(3); if let Some(x) = cfg.services.last_mut() { match what { 0 => x.name = t, 1 => match &mut x.bind { Bind::Insecure { host, .. } => *host = t, Bind::Tls { identity: Identity::CertificateChainAndLeafKey { leaf_key_path, .. }, .. } => *leaf_key_path = t }, _ => match &mut x.connect { Connect::Tls { host, .. } | Connect::Insecure { host, .. } => *host = t } } } }
        2 => front = format!("#{}\n", "x".repeat(n)),
        _ => front = "# x = 1\n\n".repeat(n / 9),
    }
    let omit = s.bool();
    let mut t = front;
    t.push_str(&Writer::new(s).document(&tree(&cfg, || omit)));
    c.nontrivial = t.len() > 65536;
    c.key = Some(hash_of(&t));
    c.count("bytes", t.len() as u64);
    c.sample(|| format!("{} services, {} bytes", cfg.services.len(), t.len()));
    let short = |m: String| m.chars().take(400).collect::<String>();
    match load(s, t.as_bytes()) { Ok(got) => same(&got, &cfg).map_err(|m| short(format!("{m} in a document of {} bytes", t.len()))), Err(e) => Err(short(format!("a document of {} bytes with {} services is not loaded: {e}", t.len(), cfg.services.len()))) }
}
fn kind(r: &Result<Config, Error>) -> &'static str { match r { Ok(_) => "a configuration", Err(Error::Io(_)) => "an I/O error", Err(Error::Parse(_)) => "a parse error", Err(Error::Serialize(_)) => "a serialization error" } }
/// Field by field, not with the type's own equality.
fn same(a: &Config, b: &Config) -> Result<(), String> {
    if a.services.len() != b.services.len() { return Err(format!("{} services instead of {}", a.services.len(), b.services.len())); }
    for (i, (x, y)) in a.services.iter().zip(&b.services).enumerate() {
        let id = |b: &Bind| match b { Bind::Tls { identity: Identity::CertificateChainAndLeafKey { certificate_chain_path, leaf_key_path }, .. } => Some((certificate_chain_path.clone(), leaf_key_path.clone())), _ => None };
        if x.name != y.name { return Err(format!("service {i} has the name {:?} instead of {:?}", x.name, y.name)); }
        if bind_parts(&x.bind) != bind_parts(&y.bind) || id(&x.bind) != id(&y.bind) { return Err(format!("service {i} has the bind side {:?} instead of {:?}", x.bind, y.bind)); }
        if connect_parts(&x.connect) != connect_parts(&y.connect) { return Err(format!("service {i} has the connect side {:?} instead of {:?}", x.connect, y.connect)); }
    }
    if a != b { return Err("equality says the configurations differ although every field is the same".into()); }
    Ok(())
}

// ---- P26

fn p26_load(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let cfg = config(s);
    let mut omit = vec![];
    for _ in 0..2 * cfg.services.len() { omit.push(s.bool()); }
    let mut it = omit.into_iter();
    let t = Writer::new(s).document(&tree(&cfg, || it.next().unwrap_or(false)));
    c.nontrivial = cfg.services.len() >= 1;
    c.key = Some(hash_of(&t));
    c.count("services", cfg.services.len() as u64);
    c.sample(|| t.clone());
    match load(s, t.as_bytes()) { Ok(got) => same(&got, &cfg).map_err(|m| format!("{m} after loading:\n{t}")), Err(e) => Err(format!("not loaded ({e}):\n{t}")) }
}
fn p26_roundtrip(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let cfg = config(s);
    let pretty = s.bool();
    let t = if pretty { toml::to_string_pretty(&cfg) } else { toml::to_string(&cfg) }.map_err(|e| format!("not serialized ({e}): {cfg:?}"))?;
    c.nontrivial = !cfg.services.is_empty();
    c.key = Some(hash_of(&t));
    c.sample(|| t.clone());
    let got = load(s, t.as_bytes()).map_err(|e| format!("the serialized configuration was not loaded ({e}):\n{t}"))?;
    same(&got, &cfg).map_err(|m| format!("{m} after serializing and loading:\n{t}"))?;
    let v = toml::Value::try_from(&cfg).map_err(|e| format!("not serialized ({e}): {cfg:?}"))?;
    same(&v.try_into().map_err(|e: toml::de::Error| format!("not read back ({e})"))?, &cfg)?;
    // serialized again: the same text
    let again = if pretty { toml::to_string_pretty(&got) } else { toml::to_string(&got) }.unwrap();
    if again != t { return Err(format!("serializing the loaded configuration gives another text:\n{t}\n---\n{again}")); }
    Ok(())
}
/// Changing one field of the file changes that field of the result and nothing else.
fn p26_field(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut cfg = config(s);
    if cfg.services.is_empty() { return Ok(()); }
    let i = s.idx(cfg.services.len());
    let before = cfg.clone();
    let x = &mut cfg.services[i];
    let what = match s.below(5) {
        0 => { x.name = text(s); "name" }
        1 => { x.bind = bind(s); "bind" }
        2 => { x.connect = connect(s); "connect" }
        3 => { let p = port(s); match &mut x.bind { Bind::Tls { port, .. } | Bind::Insecure { port, .. } => *port = p } "bind port" }
        _ => { let p = port(s); match &mut x.connect { Connect::Tls { port, .. } | Connect::Insecure { port, .. } => *port = p } "connect port" }
    };
    c.nontrivial = cfg != before;
    for k in [&before, &cfg] {
        let omit = s.bool();
        let t = Writer::new(s).document(&tree(k, || omit));
        c.sample(|| format!("{what} of service {i}:\n{t}"));
        match load(s, t.as_bytes()) { Ok(got) => same(&got, k).map_err(|m| format!("{m} after loading:\n{t}"))?, Err(e) => return Err(format!("not loaded ({e}):\n{t}")) }
    }
    Ok(())
}

// ---- P27

fn p27(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut cfg = config(s);
    // what each side says: a port, or nothing
    let mut given: Vec<[Option<u16>; 2]> = vec![];
    for x in &mut cfg.services {
        let mut g = [None, None];
        for v in &mut g { if s.bool() { *v = Some(port(s)); } }
        let set = |p: &mut u16, tls: bool, g: Option<u16>| *p = g.unwrap_or(default_port(tls));
        match &mut x.bind { Bind::Tls { port, .. } => set(port, true, g[0]), Bind::Insecure { port, .. } => set(port, false, g[0]) }
        match &mut x.connect { Connect::Tls { port, .. } => set(port, true, g[1]), Connect::Insecure { port, .. } => set(port, false, g[1]) }
        given.push(g);
    }
    let mut flags = given.iter().flat_map(|g| [(g[0].is_none()), g[1].is_none()]).zip(cfg.services.iter().flat_map(|x| { let (b, c) = (bind_parts(&x.bind), connect_parts(&x.connect)); [b.2 == default_port(b.0), c.2 == default_port(c.0)] })).filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>().into_iter();
    let t = Writer::new(s).document(&tree(&cfg, || flags.next().unwrap()));
    c.nontrivial = given.iter().flatten().any(|g| g.is_none()) && given.iter().flatten().any(|g| g.is_some());
    c.key = Some(hash_of(&t));
    c.count("omitted", given.iter().flatten().filter(|g| g.is_none()).count() as u64);
    c.count("explicit", given.iter().flatten().filter(|g| g.is_some()).count() as u64);
    c.sample(|| t.clone());
    let got = load(s, t.as_bytes()).map_err(|e| format!("not loaded ({e}):\n{t}"))?;
    if got.services.len() != cfg.services.len() { return Err(format!("{} services instead of {}", got.services.len(), cfg.services.len())); }
    for (i, (x, want)) in got.services.iter().zip(&cfg.services).enumerate() {
        endpoint(&format!("bind side of service {i}"), bind_parts(&x.bind), bind_parts(&want.bind), x.bind.addr_port(), x.bind.to_string())?;
        endpoint(&format!("connect side of service {i}"), connect_parts(&x.connect), connect_parts(&want.connect), x.connect.addr_port(), x.connect.to_string())?;
    }
    Ok(())
}
fn endpoint(what: &str, got: (bool, &str, u16), want: (bool, &str, u16), addr: String, shown: String) -> Result<(), String> {
    if got != want { return Err(format!("the {what} is {got:?} (TLS, host, port) instead of {want:?}")); }
    let (tls, host, port) = want;
    let a = format!("{host}:{port}");
    if addr != a { return Err(format!("the {what} has the address {addr:?} instead of {a:?}")); }
    let d = if tls { format!("imaps://{a} (TLS)") } else { format!("imap://{a} (insecure)") };
    if shown != d { return Err(format!("the {what} is displayed as {shown:?} instead of {d:?}")); }
    Ok(())
}
/// Endpoints made by hand: every port.
fn p27_direct(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (b, k) = (bind(s), connect(s));
    c.nontrivial = true;
    c.sample(|| format!("{b:?} {k:?}"));
    endpoint("bind side", bind_parts(&b), bind_parts(&b), b.addr_port(), b.to_string())?;
    endpoint("connect side", connect_parts(&k), connect_parts(&k), k.addr_port(), k.to_string())?;
    let p0 = s.idx(1 << 16);
    for d in 0..64 {
        let (host, port) = ("h".to_owned(), (p0 + d) as u16);
        for tls in [false, true] {
            let b = if tls { Bind::Tls { host: host.clone(), port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: "c".into(), leaf_key_path: "k".into() } } } else { Bind::Insecure { host: host.clone(), port } };
            let k = if tls { Connect::Tls { host: host.clone(), port } } else { Connect::Insecure { host: host.clone(), port } };
            endpoint("bind side", (tls, &host, port), (tls, &host, port), b.addr_port(), b.to_string())?;
            endpoint("connect side", (tls, &host, port), (tls, &host, port), k.addr_port(), k.to_string())?;
        }
    }
    Ok(())
}

// ---- P28

/// One defect in an otherwise valid configuration.
fn p28_defect(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut cfg = config(s);
    if cfg.services.is_empty() { cfg.services.push(Service { name: "x".into(), bind: bind(s), connect: connect(s) }); }
    let omit = s.bool();
    let mut t = tree(&cfg, || omit);
    let i = s.idx(cfg.services.len());
    // the table that gets the defect, and the field
    let (path, field) = s.pick(&[(&[][..], "name"), (&[][..], "bind"), (&[][..], "connect"), (&["bind"][..], "host"), (&["bind"][..], "encryption"), (&["bind"][..], "identity"), (&["bind"][..], "port"), (&["connect"][..], "host"), (&["connect"][..], "encryption"), (&["connect"][..], "port"), (&["bind", "identity"][..], "type"), (&["bind", "identity"][..], "certificate_chain_path"), (&["bind", "identity"][..], "leaf_key_path")]).clone();
    if path.len() == 2 || field == "identity" {
        if let Bind::Insecure { host, port } = &cfg.services[i].bind { cfg.services[i].bind = Bind::Tls { host: host.clone(), port: *port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: text(s), leaf_key_path: text(s) } }; t = tree(&cfg, || omit); }
    }
    let service = &mut t.get_mut("services").items_mut()[i];
    let mut table = service;
    for p in path { table = table.get_mut(p); }
    let stringy = !matches!(field, "port" | "bind" | "connect" | "identity");
    let what = match s.below(6) {
        0 | 1 if field != "port" => { table.remove(field); "missing" }
        2 if field != "port" => {
            // the field sits somewhere else
            let v = table.remove(field);
            match s.below(8) {
                0 => table.put(&format!("{field}_"), v),
                1 => table.put(&field.to_uppercase(), v),
                2 => t.put(field, v),
                3 => table.put(&other_case(s, field), v),
                4 => { let x = &mut t.get_mut("services").items_mut()[i]; if path.is_empty() || matches!(x, V::T(f) if f.iter().any(|k| k.0 == field)) { return Ok(()); } x.put(field, v) }
                5 if field == "encryption" => { let k = *s.pick(&["tls", "ssl", "secure", "insecure", "starttls"]); let v = match s.below(3) { 0 => V::B(true), 1 => V::B(false), _ => v }; table.put(k, v) }
                _ => { let k = *s.pick(synonyms(field)); table.put(k, v) }
            }
            "misplaced"
        }
        3 if field == "encryption" || field == "type" => {
            let good = match table.get(field) { V::S(x) => x.clone(), _ => unreachable!() };
            let bad = match s.below(12) { 9 | 10 | 11 => s.pick(&["None", "none", "No", "Off", "Plain", "Plaintext", "PlainText", "Clear", "Cleartext", "Unencrypted", "insecure", "INSECURE", "Secure", "SSL", "Ssl", "ssl", "TLS", "tls", "STARTTLS", "Starttls", "starttls", "StartTLS", "Imap", "imap", "IMAP", "Imaps", "imaps", "IMAPS", "Implicit", "Explicit", "ImplicitTls", "Auto", "Default", "Tls12", "Tls1.3", "TlsV1", "Optional", "Required", "true", "false", "0", "1", "Pem", "PEM", "Pkcs12", "Pkcs8", "Chain", "CertificateChain", "CertificateAndKey", "CertificateChainAndKey", "certificate_chain_and_leaf_key", "certificate-chain-and-leaf-key", "SelfSigned", "File", "Files"]).to_string(), 0 => good.to_lowercase(), 1 => good.to_uppercase(), 2 => format!("{good} "), 3 => format!(" {good}"), 4 => String::new(), 5 => "StartTls".into(), 6 => good[..good.len() - 1].to_owned(), 7 => if field == "type" { "Tls".into() } else { "CertificateChainAndLeafKey".into() }, _ => text(s) };
            if ["Tls", "Insecure"].contains(&bad.as_str()) && field == "encryption" || bad == good { return Ok(()); }
            table.put(field, V::S(bad));
            "unknown kind"
        }
        _ if field == "port" => {
            let v = match s.below(10) {
                0 => V::I(*s.pick(&[-1i64, 65536, 65537, -143, 66529, 1 << 16 | 993, 1 << 32 | 143, i64::MAX, i64::MIN, 70000])),
                1 => V::S(s.pick(&["143", "993", "", "imap", "imaps", "default", "any", "*", "0", " 143", "+143", "0x8f"]).to_string()),
                2 => V::F(*s.pick(&["143.0", "993.5", "1e3", "nan", "inf"])),
                3 => V::B(s.bool()),
                4 => V::A(vec![V::I(143)]),
                5 => V::T(vec![("port".into(), V::I(143))]),
                6 => V::I(65536 + s.range(0, 100_000) as i64),
                7 => V::I(-(1 + s.range(0, 100_000) as i64)),
                8 => V::A(vec![]),
                _ => V::S(s.range(0, 65535).to_string()),
            };
            table.put("port", v);
            "bad port"
        }
        _ if !stringy && s.chance(1, 3) => {
            // everything in one string
            let (b, k) = (&cfg.services[i].bind, &cfg.services[i].connect);
            let v = match s.below(8) { 0 => b.to_string(), 1 => k.to_string(), 2 => b.addr_port(), 3 => k.addr_port(), 4 => format!("imap://{}", k.addr_port()), 5 => format!("imaps://{}", b.addr_port()), 6 => "localhost.pem".to_owned(), _ => s.pick(&["imap://localhost", "imaps://localhost", "localhost", "localhost:143", "tls://localhost:993", "tcp://localhost:143", "Tls", "Insecure"]).to_string() };
            table.put(field, V::S(v));
            "wrong type"
        }
        _ => {
            let v = match (s.below(6), stringy) {
                (0, _) => V::I(s.range(0, 3) as i64), (1, _) => V::B(s.bool()), (2, _) => V::F("1.5"), (3, true) => V::A(vec![V::S("x".into())]), (4, true) => V::T(vec![("x".into(), V::S("y".into()))]), (3 | 4, false) => V::S("x".into()),
                (_, true) => V::A(vec![]), (_, false) => V::T(vec![]),
            };
            table.put(field, v);
            "wrong type"
        }
    };
    let text = Writer::new(s).document(&t);
    c.nontrivial = true;
    c.key = Some(hash_of(&text));
    c.count(match what { "missing" => "missing", "misplaced" => "misplaced", "unknown kind" => "unknown kind", "bad port" => "bad port", _ => "wrong type" }, 1);
    c.sample(|| format!("{what} {field}:\n{text}"));
    let r = load(s, text.as_bytes());
    match r { Err(Error::Parse(_)) => Ok(()), r => Err(format!("{} where a parse error was due, {what} {} {field} of service {i}:\n{text}", kind(&r), path.join("."))) }
}
fn synonyms(field: &str) -> &'static [&'static str] {
    match field {
        "name" => &["title", "label", "id", "service", "description", "names"],
        "bind" => &["listen", "listener", "client", "from", "local", "server", "accept", "in", "source", "bind_to", "frontend"],
        "connect" => &["upstream", "remote", "server", "to", "target", "backend", "forward", "out", "destination", "connect_to"],
        "host" => &["hostname", "host_name", "address", "addr", "ip", "server", "domain", "hosts", "interface", "url"],
        "encryption" => &["security", "tls", "ssl", "mode", "protocol", "type", "kind", "scheme", "encrypt", "crypto"],
        "identity" => &["identities", "certificate", "cert", "credentials", "tls", "id", "pem", "key"],
        "type" => &["kind", "format", "encryption", "identity_type", "ty"],
        "certificate_chain_path" => &["certificate_chain", "chain_path", "certificate_path", "cert_path", "chain", "certificate", "cert", "certs", "path", "certificates", "fullchain", "certificate_chain_file", "ca"],
        "leaf_key_path" => &["leaf_key", "key_path", "key", "private_key", "private_key_path", "path", "leaf_key_file", "keyfile"],
        _ => &["x"],
    }
}
/// The name as it is written elsewhere.
fn other_case(s: &mut Src, f: &str) -> String {
    let parts: Vec<&str> = f.split('_').collect();
    let cap = |p: &str| format!("{}{}", p[..1].to_uppercase(), &p[1..]);
    let r = match s.below(4) { 0 => parts.join("-"), 1 => parts.concat(), 2 => parts.iter().map(|p| cap(p)).collect(), _ => parts.iter().enumerate().map(|(i, p)| if i == 0 { p.to_string() } else { cap(p) }).collect::<String>() };
    if r == f { cap(f) } else { r }
}
/// The whole document is wrong.
fn p28_document(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let cfg = config(s);
    let omit = s.bool();
    let mut good = Writer::new(s).document(&tree(&cfg, || omit));
    if !good.ends_with('\n') { good.push('\n'); }
    c.nontrivial = true;
    let (what, bytes): (&str, Vec<u8>) = match s.below(8) {
        0 => ("services missing", s.pick(&["", "\n", "# nothing\n", "service = []\n", "[service]\n", "Services = []\n", "[other]\nservices = []\n", "{\"services\": []}", "{\"services\": [{\"name\": \"x\", \"bind\": {\"encryption\": \"Insecure\", \"host\": \"h\"}, \"connect\": {\"encryption\": \"Insecure\", \"host\": \"h\"}}]}", "services:\n- name: x\n", "---\nservices: []\n", "services = \n", "name = \"x\"\nbind = { encryption = \"Insecure\", host = \"h\" }\nconnect = { encryption = \"Insecure\", host = \"h\" }\n", "[proxy]\nservices = []\n", "[[service]]\nname = \"x\"\nbind = { encryption = \"Insecure\", host = \"h\" }\nconnect = { encryption = \"Insecure\", host = \"h\" }\n", "[config]\nservices = []\n", "include = \"config.toml\"\n", "include = [\"../config.toml\"]\n", "\"Services\" = []\n", "SERVICES = []\n"]).as_bytes().to_vec()),
        1 => ("services of another type", s.pick(&["services = 1\n", "services = \"x\"\n", "services = true\n", "[services]\nname = \"x\"\n", "services = {}\n", "services = [1]\n", "services = [\"x\"]\n", "services = [[]]\n", "services = [{}]\n", "[[services]]\n"]).as_bytes().to_vec()),
        2 => ("not TOML", format!("{good}{}", s.pick(&["[[services]\n", "x\n", "= 1\n", "x = \n", "x = \"\n", "[[services]]\nname = unquoted\n", "}\n", "x = 1 y = 2\n", "\"\n", "x = 0x\n", "x = '''\n", "[a]\n[a]\n", "x = 1979-13-45\n", "x = \"\\q\"\n", "x = +-1\n"])).into_bytes()),
        3 => ("not TOML", format!("{}{good}", s.pick(&["[[services]\n", "services\n", "services = [\n", "<xml/>\n", "{\"services\": []}\n", "services: []\n", "services = 1\nservices = 2\n", "\u{0}\n"])).into_bytes()),
        4 => ("a key twice", "[[services]]\nname = \"x\"\nname = \"y\"\nbind = { encryption = \"Insecure\", host = \"h\" }\nconnect = { encryption = \"Insecure\", host = \"h\" }\n".into()),
        _ => {
            // not UTF-8 anywhere: in a string, a comment, a key, at the end
            let bad: &[u8] = s.pick(&[&[0xffu8][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0xe2, 0x82], &[0xf5, 0x80, 0x80, 0x80], &[0xc0, 0x80], &[0xfe, 0xff]]);
            let mut b = good.into_bytes();
            if s.bool() { b.extend(b"# "); b.extend(bad); b.push(b'\n'); } else { let mut at = s.idx(b.len() + 1); while at < b.len() && b[at] & 0xc0 == 0x80 { at += 1; } b.splice(at..at, bad.iter().copied()); }
            let r = load(s, &b);
            c.key = Some(hash_of(&b));
            c.count("not UTF-8", 1);
            return match r { Err(Error::Io(e)) => { let _ = e.to_string(); Ok(()) } r => Err(format!("{} where an I/O error was due: the file is not UTF-8: {}", kind(&r), String::from_utf8_lossy(&b))) };
        }
    };
    c.key = Some(hash_of(&bytes));
    c.sample(|| format!("{what}: {}", String::from_utf8_lossy(&bytes)));
    match load(s, &bytes) { Err(Error::Parse(e)) => { let _ = e.to_string(); Ok(()) } r => Err(format!("{} where a parse error was due, {what}:\n{}", kind(&r), String::from_utf8_lossy(&bytes))) }
}
/// No file to read.
fn p28_file(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let d = dir();
    c.nontrivial = true;
    let n = s.u64();
    // (readable for no one but the owner, who this is not)
    if s.chance(1, 7) {
        let p = file(b"services = []\n");
        fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o600)).unwrap();
        unsafe { setfsuid(65534) };
        let (r, real) = (Config::load(&p), fs::read(&p).is_err());
        unsafe { setfsuid(0) };
        c.count("permission denied", real as u64);
        return match r { Err(Error::Io(_)) => Ok(()), _ if !real => Ok(()), r => Err(format!("{} where an I/O error was due for a file that must not be read", kind(&r))) };
    }
    let p = match s.below(6) {
        0 => d.join(format!("missing-{n}.toml")),
        1 => d.join(format!("missing-{n}/config.toml")),
        2 => d.clone(),
        3 => file(b"services = []\n").join("config.toml"),
        4 => PathBuf::from(""),
        _ => { let l = d.join(format!("loop-{n}")); let _ = std::os::unix::fs::symlink(&l, &l); l }
    };
    let r = Config::load(&p);
    if p.starts_with(&d) && p.is_symlink() { let _ = fs::remove_file(&p); }
    c.sample(|| format!("{p:?}"));
    match r { Err(Error::Io(_)) => Ok(()), r => Err(format!("{} where an I/O error was due for {p:?}", kind(&r))) }
}
/// Any text: the outcome is what reading the document by the rules gives.
fn p28_any(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let cfg = config(s);
    let omit = s.bool();
    let mut t: Vec<char> = Writer::new(s).document(&tree(&cfg, || omit)).chars().collect();
    if t.len() > 3000 { t.truncate(3000); }
    let k = 1 + s.idx(2) * s.idx(3);
    for _ in 0..k {
        if t.is_empty() { break; }
        let at = s.idx(t.len());
        match s.weighted(&[1, 1, 1, 1, 4, 6, 1]) {
            0 => { t.remove(at); }
            1 => { let ch = *s.pick(&['"', '\'', '[', ']', '{', '}', '=', ',', '\n', '.', '#', '\\', '0', '-', 'T', ' ', '_', '\u{0}']); t.insert(at, ch); }
            2 => { let n = (1 + s.size(40)).min(t.len() - at); t.drain(at..at + n); }
            3 => { let n = (1 + s.size(60)).min(t.len() - at); let part: Vec<char> = t[at..at + n].to_vec(); let to = s.idx(t.len() + 1); t.splice(to..to, part); }
            4 => {
                // a line away, or twice, or elsewhere
                let mut lines: Vec<String> = t.iter().collect::<String>().split('\n').map(str::to_owned).collect();
                let i = s.idx(lines.len());
                let l = lines.remove(i);
                match s.below(3) { 0 => {} 1 => { lines.insert(i, l.clone()); lines.insert(i, l); } _ => { let j = s.idx(lines.len() + 1); lines.insert(j, l); } }
                t = lines.join("\n").chars().collect();
            }
            5 => {
                let words = ["encryption", "host", "port", "identity", "type", "bind", "connect", "services", "name", "Tls", "Insecure", "143", "993", "CertificateChainAndLeafKey", "certificate_chain_path", "leaf_key_path"];
                let txt: String = t.iter().collect();
                let (a, b) = (*s.pick(&words), *s.pick(&words));
                let hits: Vec<usize> = txt.match_indices(a).map(|m| m.0).collect();
                if !hits.is_empty() { let h = *s.pick(&hits); t = format!("{}{b}{}", &txt[..h], &txt[h + a.len()..]).chars().collect(); }
            }
            _ => { t[at] = *s.pick(&['a', '1', '"', '\n', '=', ' ', 'é']); }
        }
    }
    let text: String = t.iter().collect();
    c.key = Some(hash_of(&text));
    let r = load(s, text.as_bytes());
    let _ = r.as_ref().map_err(|e| e.to_string());
    let due = reference::read(&text);
    c.count(match &due { reference::Due::Ok(_) => "still valid", reference::Due::Bad(_) => "not valid", reference::Due::Unsaid => "unsaid" }, 1);
    c.sample(|| format!("{}: {text}", match &due { reference::Due::Ok(_) => "valid", reference::Due::Bad(w) => w, reference::Due::Unsaid => "unsaid" }));
    match (due, r) {
        (reference::Due::Ok(want), Ok(got)) => { c.nontrivial = true; same(&got, &want).map_err(|m| format!("{m} after loading:\n{text}")) }
        (reference::Due::Ok(_), r) => Err(format!("{} for a valid configuration ({:?}):\n{text}", kind(&r), r.err())),
        (reference::Due::Bad(w), Err(Error::Parse(_))) => { c.nontrivial = w != "not TOML"; Ok(()) }
        (reference::Due::Bad(w), r) => Err(format!("{} where a parse error was due ({w}):\n{text}", kind(&r))),
        (reference::Due::Unsaid, Ok(_) | Err(Error::Parse(_))) => Ok(()),
        (reference::Due::Unsaid, r) => Err(format!("{} for text that is UTF-8:\n{text}", kind(&r))),
    }
}

/// Removes the directories of runs that have ended, also of this one when started again.
fn sweep() {
    let mut gone = HashSet::new();
    if let Ok(d) = fs::read_dir(std::env::temp_dir()) {
        for e in d.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = n.strip_prefix("verif-config-") { if !Path::new("/proc").join(pid).exists() { gone.insert(e.path()); } }
        }
    }
    for p in gone { let _ = fs::remove_dir_all(p); }
}

fn main() {
    sweep();
    prepare();
    pbt::at_exit(|| { let _ = fs::remove_dir_all(dir()); });
    let s = |name, rule, quick, thorough, run| Section { name, rule, quick, thorough, run };
    pbt::main(vec![
        Property { id: "P26", sections: vec![
            s("any-notation", "at least one service, written in a random TOML notation", 60_000, 6_000_000, p26_load),
            s("round-trip", "at least one service", 30_000, 3_000_000, p26_roundtrip),
            s("big", "the document has more than 64 KiB", 80, 20_000, big),
            s("one-field", "a changed field", 20_000, 2_000_000, p26_field),
        ] },
        Property { id: "P27", sections: vec![
            s("loaded", "at least one omitted and one explicit port", 60_000, 6_000_000, p27),
            s("direct", "endpoints with any host and port", 40_000, 400_000, p27_direct),
        ] },
        Property { id: "P28", sections: vec![
            s("defect", "exactly one defect in one field", 80_000, 6_000_000, p28_defect),
            s("document", "the document or its encoding is wrong", 30_000, 2_000_000, p28_document),
            s("file", "there is no file to read", 20_000, 200_000, p28_file),
            s("any-text", "mutated text that is still TOML", 80_000, 8_000_000, p28_any),
        ] },
    ]);
}
