//! Stand-in for `argh`: `#[argh(option, default = "..")]` fields, given as `--name value`.
pub use argh_derive::FromArgs;
pub trait FromArgs: Sized { fn from_map(get: &mut dyn FnMut(&str) -> Option<String>) -> Self; }
pub fn from_env<T: FromArgs>() -> T {
    let args = sim::ARGS.with(|a| a.borrow().clone()).unwrap_or_else(|| std::env::args().skip(1).collect());
    T::from_map(&mut |name| args.iter().position(|a| a == &format!("--{name}")).and_then(|i| args.get(i + 1).cloned()))
}
/// The test's side: arguments of this thread, and what the program prints.
pub mod sim {
    use std::cell::RefCell;
    thread_local! {
        pub(crate) static ARGS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
        static OUT: RefCell<String> = const { RefCell::new(String::new()) };
    }
    pub fn set_args(v: Vec<String>) { ENDED.with(|e| e.set(None)); ARGS.with(|a| *a.borrow_mut() = Some(v)); OUT.with(|o| o.borrow_mut().clear()); }
    pub fn print(s: std::fmt::Arguments<'_>) { use std::fmt::Write; OUT.with(|o| write!(o.borrow_mut(), "{s}").unwrap()) }
    /// What the program writes to its standard output by other means than the print macros.
    pub struct Stdout;
    pub fn stdout() -> Stdout { Stdout }
    impl Stdout { pub fn lock(&self) -> Stdout { Stdout } }
    impl std::io::Write for Stdout {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { OUT.with(|o| o.borrow_mut().push_str(&String::from_utf8_lossy(b))); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    /// The program ends itself.
    pub struct Exit(i32);
    pub fn exit(code: i32) -> ! { std::panic::resume_unwind(Box::new(Exit(code))) }
    /// Runs the program's main function.
    pub fn run<O: Outcome>(main: impl FnOnce() -> O) {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(main)) {
            Ok(o) => ended(o),
            Err(e) => match e.downcast::<Exit>() { Ok(x) => ENDED.with(|e| e.set(Some(x.0 == 0))), Err(e) => std::panic::resume_unwind(e) },
        }
    }
    /// How the program's main function ended, if it did.
    pub trait Outcome { fn good(&self) -> bool; }
    impl Outcome for () { fn good(&self) -> bool { true } }
    impl<T, E> Outcome for Result<T, E> { fn good(&self) -> bool { self.is_ok() } }
    impl Outcome for std::process::ExitCode { fn good(&self) -> bool { format!("{self:?}") == format!("{:?}", std::process::ExitCode::SUCCESS) } }
    thread_local! { static ENDED: std::cell::Cell<Option<bool>> = const { std::cell::Cell::new(None) }; }
    pub fn ended(o: impl Outcome) { ENDED.with(|e| e.set(Some(o.good()))) }
    pub fn outcome() -> Option<bool> { ENDED.with(|e| e.get()) }
    pub fn printed() -> String { OUT.with(|o| o.borrow().clone()) }
}
