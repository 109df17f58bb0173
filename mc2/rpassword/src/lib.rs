//! nobody is there to type a password
pub fn prompt_password(_: impl ToString) -> std::io::Result<String> {
    Err(std::io::Error::other("no terminal"))
}
