//! stand-in for parse-display 0.8 (see pd_derive)
pub use pd_derive::{Display, FromStr};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(());
impl ParseError {
    pub fn new() -> Self {
        ParseError(())
    }
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("parse failed.")
    }
}
impl std::error::Error for ParseError {}
