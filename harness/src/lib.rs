//! Harnesses: one per entry point of the crate under test. Arguments are concrete (they select the
//! size being decided); everything obtained from `sym::any*` is symbolic.
#![allow(clippy::all)]

pub type H = extern "C-unwind" fn(u64, u64, u64, u64);

#[macro_export]
macro_rules! harnesses {
    ($($name:ident($a:ident, $b:ident, $c:ident, $d:ident) $body:block)*) => {
        $(
            #[unsafe(no_mangle)]
            #[allow(unused_variables)]
            pub extern "C-unwind" fn $name($a: u64, $b: u64, $c: u64, $d: u64) $body
        )*
        pub const TABLE: &[(&str, $crate::H)] = &[$((stringify!($name), $name as $crate::H)),*];
    };
}

pub mod spec;
pub mod sym;

pub mod h_big;
pub mod h_cipher;
pub mod h_der;
pub mod h_key;
pub mod h_hash;
pub mod h_misc;
pub mod h_oaep;
pub mod h_pem;
pub mod h_rsa;

pub fn lookup(name: &str) -> Option<H> {
    [h_hash::TABLE, h_big::TABLE, h_cipher::TABLE, h_der::TABLE, h_key::TABLE, h_oaep::TABLE, h_pem::TABLE, h_rsa::TABLE, h_misc::TABLE].iter().flat_map(|t| t.iter()).find(|e| e.0 == name).map(|e| e.1)
}
