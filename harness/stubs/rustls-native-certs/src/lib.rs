//! Stand-in for `rustls-native-certs`: loads the certificates of `SSL_CERT_FILE`, as the original does.
use std::{env, fs::File, io::{self, BufReader}};
use rustls_pki_types::CertificateDer;
pub fn load_native_certs() -> Result<Vec<CertificateDer<'static>>, io::Error> {
    match env::var_os("SSL_CERT_FILE") {
        Some(path) => rustls_pemfile::certs(&mut BufReader::new(File::open(path)?)).collect(),
        None => Ok(vec![]),
    }
}
