//! Generated PEM files and what is in them.
use pbt::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Cert, Pkcs8, Other(&'static str) }
impl Kind { pub fn label(self) -> &'static str { match self { Kind::Cert => "CERTIFICATE", Kind::Pkcs8 => "PRIVATE KEY", Kind::Other(l) => l } } }
pub const OTHERS: [&str; 12] = ["X509 CRL", "CERTIFICATE REQUEST", "PUBLIC KEY", "RSA PRIVATE KEY", "EC PRIVATE KEY", "DH PARAMETERS", "EC PARAMETERS", "ENCRYPTED PRIVATE KEY", "OPENSSH PRIVATE KEY", "TRUSTED CERTIFICATE", "X509 CERTIFICATE", "PKCS7"];

pub struct Section { pub kind: Kind, pub der: Vec<u8>, /** Bytes of the file: from its first line to the end of its last. */ pub from: usize, pub to: usize, /** Where its contents are. */ pub body: (usize, usize) }
#[derive(Default)]
pub struct File { pub bytes: Vec<u8>, pub sections: Vec<Section> }
impl File {
    pub fn ders(&self, kind: Kind) -> Vec<Vec<u8>> { self.sections.iter().filter(|s| s.kind == kind).map(|s| s.der.clone()).collect() }
}

pub fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { o.push(if i > c.len() { '=' } else { A[(n >> (18 - 6 * i)) as usize & 63] as char }); }
    }
    o
}
pub fn der(s: &mut Src) -> Vec<u8> {
    let n = match s.below(8) { 0 => 1 + s.idx(3), 1 => 3000 + s.idx(12_000), 2 => 48 * s.range(1, 4), _ => 1 + s.idx(600) };
    let k = s.below(1 << 20);
    (0..n as u64).map(|i| pbt::mix(k << 20 ^ i) as u8).collect()
}
/// Text around sections, as tools put it there.
fn text(s: &mut Src, o: &mut Vec<u8>, nl: &str) {
    for _ in 0..s.idx(4) {
        match s.below(9) {
            0 => {}
            1 => o.extend(b"subject=CN = imap.test, O = \"Someone\""),
            2 => o.extend(b"Bag Attributes\n    localKeyID: 01 02 03"),
            3 => o.extend(b"# -----a comment-----"),
            4 => o.extend(b"-----"),
            5 => o.extend("Zertifikat für den Server \u{1F512}".as_bytes()),
            6 => { let n = s.size(40); o.extend((0..n).map(|_| match s.below(256) as u8 { b'-' | b'\n' | b'\r' => b'x', b => b })); }
            7 => { let n = 8000 + s.idx(1000); o.extend(std::iter::repeat_n(b'=', n)); }
            _ => o.extend(b"MIIBszCCAVmgAwIBAgIUX=="),
        }
        o.extend(nl.as_bytes());
    }
}
pub fn file(s: &mut Src, sections: Vec<(Kind, Vec<u8>)>) -> File {
    let mut f = File::default();
    let nl = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let n = sections.len();
    for (i, (kind, der)) in sections.into_iter().enumerate() {
        text(s, &mut f.bytes, nl);
        let from = f.bytes.len();
        let o = &mut f.bytes;
        o.extend(format!("-----BEGIN {}-----{nl}", kind.label()).bytes());
        let b = base64(&der);
        let width = match s.below(6) { 0 => 76, 1 => 1 + s.idx(100), 2 => b.len(), 3 => 48, _ => 64 };
        let start = o.len();
        for l in b.as_bytes().chunks(width) { o.extend(l); o.extend(nl.as_bytes()); }
        let body = (start, o.len());
        o.extend(format!("-----END {}-----", kind.label()).bytes());
        let to = o.len();
        if i + 1 < n || !s.chance(1, 4) { o.extend(nl.as_bytes()); }
        f.sections.push(Section { kind, der, from, to, body });
    }
    if f.bytes.ends_with(b"\n") || f.bytes.is_empty() { text(s, &mut f.bytes, nl); }
    f
}
pub fn some_kind(s: &mut Src) -> Kind { match s.below(3) { 0 => Kind::Cert, 1 => Kind::Pkcs8, _ => Kind::Other(*s.pick(&OTHERS)) } }
