//! Offline stand-in for the `posthog-rs` git dependency (only its error type is named).
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("posthog stub")
    }
}
impl std::error::Error for Error {}
