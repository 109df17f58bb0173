//! a mapping whose file does not change is the bytes of the file
#[derive(Debug)]
pub struct Mmap(Vec<u8>);
impl Mmap {
    /// # Safety
    /// none is needed here
    pub unsafe fn map(f: &std::fs::File) -> std::io::Result<Mmap> {
        use std::io::{Read, Seek};
        let mut f = f.try_clone()?;
        let at = f.stream_position()?;
        f.rewind()?;
        let mut v = vec![];
        f.read_to_end(&mut v)?;
        f.seek(std::io::SeekFrom::Start(at))?;
        Ok(Mmap(v))
    }
}
impl AsRef<[u8]> for Mmap {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::Deref for Mmap {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
