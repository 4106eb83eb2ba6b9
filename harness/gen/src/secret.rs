//! Contents that are recognised in whatever form they come to light.
use std::sync::OnceLock;

thread_local! {
    /// Whether new generators put markers into secrets.
    pub static MODE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
const HEAD: &str = "zQ7kJw";
const TAIL: &str = "vB4nGy";
pub fn marker(n: u64) -> String { format!("{HEAD}{n}{TAIL}") }

struct Forms { folded: Vec<String>, exact: Vec<String> }
fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let bits: Vec<u8> = b.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    bits.chunks(6).filter(|c| c.len() == 6).map(|c| A[c.iter().fold(0, |a, b| a * 2 + *b as usize)] as char).collect()
}
fn forms() -> &'static Forms {
    static F: OnceLock<Forms> = OnceLock::new();
    F.get_or_init(|| {
        let (mut folded, mut exact) = (vec![], vec![]);
        for part in [HEAD, TAIL] {
            let b = part.as_bytes();
            let join = |sep: &str, f: &dyn Fn(&u8) -> String| b.iter().map(f).collect::<Vec<_>>().join(sep);
            folded.push(part.to_ascii_lowercase());
            folded.push(b.iter().rev().map(|b| (*b as char).to_ascii_lowercase()).collect());
            for sep in ["", ",", ":", "-"] { folded.push(join(sep, &|b| format!("{b:02x}"))); folded.push(join(sep, &|b| format!("0x{b:02x}"))); }
            folded.push(join("", &|b| format!("\\x{b:02x}")));
            folded.push(join("", &|b| format!("%{b:02x}")));
            folded.push(join("", &|b| format!("\\u{{{b:x}}}")));
            for sep in [",", ";", ":", "-", "|"] { folded.push(join(sep, &|b| b.to_string())); folded.push(join(sep, &|b| format!("'{}'", *b as char).to_ascii_lowercase())); }
            for pre in 0..3usize {
                let mut v = vec![0; pre];
                v.extend(b);
                let e = base64(&v);
                exact.push(e[(pre * 8).div_ceil(6)..].to_owned());
            }
        }
        Forms { folded, exact }
    })
}
/// The form of a marker that the text contains.
pub fn leak(text: &str) -> Option<&'static str> {
    if text.len() < 6 { return None; }
    let t: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    if let Some(f) = forms().exact.iter().find(|f| t.contains(f.as_str())) { return Some(f); }
    let t = t.to_ascii_lowercase();
    forms().folded.iter().find(|f| t.contains(f.as_str())).map(|f| f.as_str())
}
