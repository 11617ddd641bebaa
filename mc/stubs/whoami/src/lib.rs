//! Offline stand-in.
pub fn username() -> String { "user".into() }
