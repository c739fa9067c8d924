//! Failures of sources: of every kind that a source may report.

use async_tiff::error::AsyncTiffError;
use std::io::{Error, ErrorKind};

pub fn io(k: u64) -> Error {
    let kinds = [
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
        ErrorKind::TimedOut,
        ErrorKind::PermissionDenied,
        ErrorKind::ConnectionReset,
        ErrorKind::InvalidData,
        ErrorKind::NotFound,
    ];
    Error::new(kinds[(k % 7) as usize], "injected failure")
}

pub fn any(k: u64) -> AsyncTiffError {
    match k % 4 {
        0 => AsyncTiffError::General("injected failure".into()),
        1 => AsyncTiffError::IOError(io(k / 4)),
        2 => AsyncTiffError::EndOfFile(1 + k, 0),
        _ => AsyncTiffError::External("injected failure".into()),
    }
}
