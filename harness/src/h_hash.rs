use crate::{spec, sym::*};
use cryptography as c;

// len: message length; at, n: the symbolic bytes (the rest is fixed filler)
harnesses! {
    h_sha1(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got: [u8; 20] = c::sha::sha1(&m).into();
        reach(1);
        check_eq(&got, &spec::hash::sha1(&m), 1);
    }
    h_sha224(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got: [u8; 28] = c::sha::sha224(&m).into();
        reach(1);
        check_eq(&got, &spec::hash::sha224(&m), 1);
    }
    h_sha256(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got: [u8; 32] = c::sha::sha256(&m).into();
        reach(1);
        check_eq(&got, &spec::hash::sha256(&m), 1);
    }
    h_sha384(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got: [u8; 48] = c::sha::sha384(&m).into();
        reach(1);
        check_eq(&got, &spec::hash::sha384(&m), 1);
    }
    h_sha512(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got: [u8; 64] = c::sha::sha512(&m).into();
        reach(1);
        check_eq(&got, &spec::hash::sha512(&m), 1);
    }
    h_md2(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got = c::md2(&m);
        reach(1);
        check_eq(&got, &spec::hash::md2(&m), 1);
    }
    h_md4(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got = c::md4(&m);
        reach(1);
        check_eq(&got, &spec::hash::md4(&m), 1);
    }
    h_md5(len, at, n, _d) {
        let m = message(len as usize, at as usize, n as usize);
        let got = c::md5(&m);
        reach(1);
        check_eq(&got, &spec::hash::md5(&m), 1);
    }
}
