use bounded_static::ToStatic;
use crate::error::{ValidationError, ValidationErrorKind};

/// Date and time as it stands between the quotes, e.g. ` 1-Feb-2024 10:00:00 +0000` (the original wraps `chrono`'s type).
#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct DateTime(String);
impl DateTime {
    pub fn inner(&self) -> &str { &self.0 }
    fn valid(v: &str) -> bool {
        let b = v.as_bytes();
        let d = |r: std::ops::Range<usize>| b[r].iter().all(|c| c.is_ascii_digit());
        let num = |r: std::ops::Range<usize>| v[r].trim().parse::<u32>().unwrap_or(u32::MAX);
        v.is_ascii() && b.len() == 26 && (b[0] == b' ' || b[0].is_ascii_digit()) && d(1..2) && b[2] == b'-'
            && ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"].contains(&v[3..6].to_ascii_lowercase().as_str())
            && b[6] == b'-' && d(7..11) && b[11] == b' ' && d(12..14) && b[14] == b':' && d(15..17) && b[17] == b':' && d(18..20)
            && b[20] == b' ' && (b[21] == b'+' || b[21] == b'-') && d(22..26)
            && (1..=28).contains(&num(0..2)) && num(12..14) < 24 && num(15..17) < 60 && num(18..20) < 60 && num(22..24) < 24 && num(24..26) < 60
    }
}
impl TryFrom<&str> for DateTime {
    type Error = ValidationError;
    fn try_from(v: &str) -> Result<Self, Self::Error> { if Self::valid(v) { Ok(Self(v.to_owned())) } else { Err(ValidationError::new(ValidationErrorKind::Invalid)) } }
}
