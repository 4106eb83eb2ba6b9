use std::borrow::Cow;

pub mod indicators {
    pub fn is_any_text_char_except_quoted_specials(i: u8) -> bool { is_text_char(i) && !is_quoted_specials(i) }
    pub fn is_char(i: u8) -> bool { (0x01..=0x7f).contains(&i) }
    pub fn is_ctl(i: u8) -> bool { matches!(i, b'\x00'..=b'\x1f' | 0x7f) }
    pub fn is_text_char(i: u8) -> bool { is_char(i) && i != b'\r' && i != b'\n' }
    pub fn is_quoted_specials(i: u8) -> bool { i == b'"' || i == b'\\' }
    pub fn is_list_wildcards(i: u8) -> bool { i == b'%' || i == b'*' }
    pub fn is_resp_specials(i: u8) -> bool { i == b']' }
    pub fn is_atom_specials(i: u8) -> bool {
        matches!(i, b'(' | b')' | b'{' | b' ') || is_ctl(i) || is_list_wildcards(i) || is_quoted_specials(i) || is_resp_specials(i)
    }
    pub fn is_atom_char(i: u8) -> bool { is_char(i) && !is_atom_specials(i) }
    pub fn is_astring_char(i: u8) -> bool { is_atom_char(i) || is_resp_specials(i) }
    pub fn is_list_char(i: u8) -> bool { is_atom_char(i) || is_list_wildcards(i) || is_resp_specials(i) }
}

/// Converts bytes into a printable, ASCII-only string.
pub fn escape_byte_string<B: AsRef<[u8]>>(bytes: B) -> String {
    bytes.as_ref().iter().map(|b| match b {
        0x00..=0x08 | 0x0b | 0x0c | 0x0e..=0x1f | 0x22 | 0x5c | 0x7f..=0xff => match b {
            0x22 => String::from("\\\""),
            0x5c => String::from("\\\\"),
            b => format!("\\x{b:02x}"),
        },
        0x09 => String::from("\\t"),
        0x0a => String::from("\\n"),
        0x0d => String::from("\\r"),
        b => format!("{}", *b as char),
    }).collect()
}

pub fn escape_quoted(unescaped: &str) -> Cow<str> {
    if unescaped.contains(['\\', '"']) { Cow::Owned(unescaped.replace('\\', "\\\\").replace('"', "\\\"")) } else { Cow::Borrowed(unescaped) }
}
pub fn unescape_quoted(escaped: &str) -> Cow<str> {
    if escaped.contains('\\') { Cow::Owned(escaped.replace("\\\\", "\\").replace("\\\"", "\"")) } else { Cow::Borrowed(escaped) }
}
