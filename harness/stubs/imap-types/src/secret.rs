use std::fmt::{Debug, Formatter};
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};

/// As the original: the value is shown by `Debug` in builds with debug assertions only.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Secret<S>(S);

impl<S> Secret<S> {
    pub fn new(inner: S) -> Self { Self(inner) }
    pub fn declassify(&self) -> &S { &self.0 }
}
impl<S> From<S> for Secret<S> { fn from(value: S) -> Self { Self::new(value) } }
impl<S: Debug> Debug for Secret<S> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        #[cfg(not(debug_assertions))]
        return f.write_str("/* REDACTED */");
        #[cfg(debug_assertions)]
        return Debug::fmt(&self.0, f);
    }
}
impl<S: ToBoundedStatic> ToBoundedStatic for Secret<S> {
    type Static = Secret<S::Static>;
    fn to_static(&self) -> Self::Static { Secret(self.0.to_static()) }
}
impl<S: IntoBoundedStatic> IntoBoundedStatic for Secret<S> {
    type Static = Secret<S::Static>;
    fn into_static(self) -> Self::Static { Secret(self.0.into_static()) }
}
