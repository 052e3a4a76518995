//! Independent reference implementations (written from the published formats, sharing no code with the repository).
pub mod dng;
pub mod files;
pub mod ftp;
pub mod ljpeg;
pub mod tiff;
pub mod zlib;
pub mod boxes;
pub mod png;
pub mod vendor;
pub mod rw2;
pub mod crx;
pub mod develop;
