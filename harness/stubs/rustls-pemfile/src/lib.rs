//! Stand-in for `rustls-pemfile`: the functions imap-next's proxy uses, over `rustls_pki_types::pem`.
use std::io::{self, BufRead, ErrorKind};

use rustls_pki_types::pem::{self, SectionKind};
use rustls_pki_types::{CertificateDer, CertificateRevocationListDer, CertificateSigningRequestDer, PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};

fn any(rd: &mut dyn BufRead) -> Option<io::Result<(SectionKind, Vec<u8>)>> {
    struct Rd<'a>(&'a mut dyn BufRead);
    impl io::Read for Rd<'_> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
    impl BufRead for Rd<'_> {
        fn fill_buf(&mut self) -> io::Result<&[u8]> { self.0.fill_buf() }
        fn consume(&mut self, n: usize) { self.0.consume(n) }
    }
    match pem::from_buf(&mut Rd(rd)) {
        Ok(x) => Ok(x).transpose(),
        Err(pem::Error::Io(e)) => Some(Err(e)),
        Err(e) => Some(Err(io::Error::new(ErrorKind::InvalidData, format!("{e:?}")))),
    }
}
fn next(rd: &mut dyn BufRead, want: SectionKind) -> Option<io::Result<Vec<u8>>> {
    loop { match any(rd)? { Ok((kind, der)) if kind == want => return Some(Ok(der)), Ok(_) => {}, Err(e) => return Some(Err(e)) } }
}
pub fn certs(rd: &mut dyn BufRead) -> impl Iterator<Item = Result<CertificateDer<'static>, io::Error>> + '_ {
    std::iter::from_fn(move || next(rd, SectionKind::Certificate)).map(|r| r.map(CertificateDer::from))
}
pub fn pkcs8_private_keys(rd: &mut dyn BufRead) -> impl Iterator<Item = Result<PrivatePkcs8KeyDer<'static>, io::Error>> + '_ {
    std::iter::from_fn(move || next(rd, SectionKind::PrivateKey)).map(|r| r.map(PrivatePkcs8KeyDer::from))
}
pub fn rsa_private_keys(rd: &mut dyn BufRead) -> impl Iterator<Item = Result<PrivatePkcs1KeyDer<'static>, io::Error>> + '_ {
    std::iter::from_fn(move || next(rd, SectionKind::RsaPrivateKey)).map(|r| r.map(PrivatePkcs1KeyDer::from))
}
pub fn ec_private_keys(rd: &mut dyn BufRead) -> impl Iterator<Item = Result<PrivateSec1KeyDer<'static>, io::Error>> + '_ {
    std::iter::from_fn(move || next(rd, SectionKind::EcPrivateKey)).map(|r| r.map(PrivateSec1KeyDer::from))
}
/// A section of a kind that is known here.
#[non_exhaustive]
#[derive(Debug, PartialEq)]
pub enum Item { X509Certificate(CertificateDer<'static>), Pkcs1Key(PrivatePkcs1KeyDer<'static>), Pkcs8Key(PrivatePkcs8KeyDer<'static>), Sec1Key(PrivateSec1KeyDer<'static>), Crl(CertificateRevocationListDer<'static>), Csr(CertificateSigningRequestDer<'static>) }
pub fn read_one(rd: &mut dyn BufRead) -> Result<Option<Item>, io::Error> {
    match any(rd).transpose()? {
        None => Ok(None),
        Some((kind, der)) => match kind {
            SectionKind::Certificate => Ok(Some(Item::X509Certificate(der.into()))),
            SectionKind::RsaPrivateKey => Ok(Some(Item::Pkcs1Key(der.into()))),
            SectionKind::PrivateKey => Ok(Some(Item::Pkcs8Key(der.into()))),
            SectionKind::EcPrivateKey => Ok(Some(Item::Sec1Key(der.into()))),
            SectionKind::Crl => Ok(Some(Item::Crl(der.into()))),
            SectionKind::Csr => Ok(Some(Item::Csr(der.into()))),
            _ => read_one(rd),
        },
    }
}
pub fn read_all(rd: &mut dyn BufRead) -> impl Iterator<Item = Result<Item, io::Error>> + '_ { std::iter::from_fn(move || read_one(rd).transpose()) }
pub fn private_key(rd: &mut dyn BufRead) -> Result<Option<PrivateKeyDer<'static>>, io::Error> {
    for item in read_all(rd) {
        match item? { Item::Pkcs1Key(k) => return Ok(Some(k.into())), Item::Pkcs8Key(k) => return Ok(Some(k.into())), Item::Sec1Key(k) => return Ok(Some(k.into())), _ => {} }
    }
    Ok(None)
}
