//! Reference specifications, written from the standards and independent of /repo's code.
pub mod aes;
pub mod der;
pub mod hash;
pub mod num;
pub mod oaep;
pub mod pem;
pub mod rc;
pub mod tables;
pub mod wide;
