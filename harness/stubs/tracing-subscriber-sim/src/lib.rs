pub use tracing_subscriber::*;
pub fn fmt() -> fmt::Builder { fmt::Builder }
pub mod fmt {
    pub use tracing_subscriber::fmt::*;
    pub struct Builder;
    impl Builder {
        pub fn with_env_filter(self, _: impl Into<tracing_subscriber::EnvFilter>) -> Self { self }
        pub fn with_max_level(self, _: impl Into<tracing::level_filters::LevelFilter>) -> Self { self }
        pub fn with_target(self, _: bool) -> Self { self }
        pub fn with_file(self, _: bool) -> Self { self }
        pub fn with_line_number(self, _: bool) -> Self { self }
        pub fn with_level(self, _: bool) -> Self { self }
        pub fn with_ansi(self, _: bool) -> Self { self }
        pub fn with_thread_ids(self, _: bool) -> Self { self }
        pub fn with_thread_names(self, _: bool) -> Self { self }
        pub fn with_writer<W>(self, _: W) -> Self { self }
        pub fn without_time(self) -> Self { self }
        pub fn compact(self) -> Self { self }
        pub fn pretty(self) -> Self { self }
        pub fn init(self) {}
        pub fn try_init(self) -> Result<(), Box<dyn std::error::Error + Send + Sync>> { Ok(()) }
    }
}
