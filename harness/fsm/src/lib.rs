pub mod client_model;
pub mod server_model;
