//! A handle that is equal when two paths lead to the same file: device and inode, held open as the crate does.
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io;
use std::os::unix::fs::MetadataExt;
use std::path::Path;

#[derive(Debug)]
pub struct Handle {
    _file: File,
    id: (u64, u64),
}
impl Handle {
    pub fn from_path<P: AsRef<Path>>(p: P) -> io::Result<Handle> {
        let file = File::open(p)?;
        let m = file.metadata()?;
        Ok(Handle { id: (m.dev(), m.ino()), _file: file })
    }
}
impl PartialEq for Handle {
    fn eq(&self, o: &Handle) -> bool {
        self.id == o.id
    }
}
impl Eq for Handle {}
impl Hash for Handle {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
