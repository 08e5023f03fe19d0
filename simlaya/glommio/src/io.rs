//! Simulated storage behind glommio's file types.
use crate::error::{GlommioError, Result};
use crate::sim;
use std::path::{Path, PathBuf};

#[derive(Debug)]
struct Handle {
    path: PathBuf,
    size: u64,
    id: u64,
}
impl Drop for Handle {
    fn drop(&mut self) {
        sim::file_closed(self.id);
    }
}

async fn open(path: &Path, op: &'static str) -> Result<Handle, ()> {
    match sim::file_open(path).await {
        Ok((id, size)) => Ok(Handle { path: path.to_path_buf(), size, id }),
        Err(e) => Err(GlommioError::create_enhanced(e, op, Some(path), None)),
    }
}

macro_rules! readers {
    ($t:ident) => {
        impl $t {
            pub fn path(&self) -> Option<&Path> {
                Some(&self.0.path)
            }
            pub async fn close(self) -> Result<(), ()> {
                Ok(())
            }
            pub async fn read_at(&self, pos: u64, size: usize) -> Result<ReadResult, ()> {
                Ok(ReadResult(sim::file_read(self.0.id, pos, size).await?))
            }
        }
    };
}

#[derive(Debug)]
pub struct ReadResult(Vec<u8>);
impl std::ops::Deref for ReadResult {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Debug)]
pub struct ImmutableFile(Handle);
readers!(ImmutableFile);
impl ImmutableFile {
    pub fn file_size(&self) -> u64 {
        self.0.size
    }
}
#[derive(Debug)]
pub struct ImmutableFileBuilder<P> {
    path: P,
}
impl<P: AsRef<Path>> ImmutableFileBuilder<P> {
    pub fn new(fname: P) -> Self {
        ImmutableFileBuilder { path: fname }
    }
    pub fn with_sequential_concurrency(self, _: usize) -> Self {
        self
    }
    pub fn with_sync_on_close_disabled(self, _: bool) -> Self {
        self
    }
    pub fn with_buffer_size(self, _: usize) -> Self {
        self
    }
    pub fn with_pre_allocation(self, _: Option<u64>) -> Self {
        self
    }
    pub async fn build_existing(self) -> Result<ImmutableFile, ()> {
        Ok(ImmutableFile(open(self.path.as_ref(), "Opening").await?))
    }
}

#[derive(Debug)]
pub struct DmaFile(Handle);
readers!(DmaFile);
impl DmaFile {
    pub async fn open<P: AsRef<Path>>(path: P) -> Result<DmaFile, ()> {
        Ok(DmaFile(open(path.as_ref(), "Opening").await?))
    }
    pub async fn file_size(&self) -> Result<u64, ()> {
        Ok(self.0.size)
    }
}
#[derive(Debug)]
pub struct BufferedFile(Handle);
readers!(BufferedFile);
impl BufferedFile {
    pub async fn open<P: AsRef<Path>>(path: P) -> Result<BufferedFile, ()> {
        Ok(BufferedFile(open(path.as_ref(), "Opening").await?))
    }
    pub async fn file_size(&self) -> Result<u64, ()> {
        Ok(self.0.size)
    }
}
