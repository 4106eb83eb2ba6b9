//! Stand-in for `colored`: colours without colour.
use std::fmt::{self, Display, Formatter};
#[derive(Clone, Debug, Default)]
pub struct ColoredString(String);
impl Display for ColoredString { fn fmt(&self, f: &mut Formatter) -> fmt::Result { self.0.fmt(f) } }
macro_rules! colors { ($($c:ident),*) => {
    pub trait Colorize { $(fn $c(self) -> ColoredString where Self: Sized;)* }
    impl Colorize for &str { $(fn $c(self) -> ColoredString { ColoredString(self.to_owned()) })* }
    impl Colorize for ColoredString { $(fn $c(self) -> ColoredString { self })* }
} }
colors!(black, red, green, yellow, blue, magenta, purple, cyan, white, bold, dimmed, italic, underline, normal, clear,
    bright_black, bright_red, bright_green, bright_yellow, bright_blue, bright_magenta, bright_cyan, bright_white);
