use crate::{spec, sym::*};
use cryptography as c;
use c::BlockCipher;
use c::aes::{Aes, Key128, Key192, Key256};

fn words<const N: usize>(k: &[u8]) -> [u64; N] {
    let mut w = [0u64; N];
    for i in 0..8 * N {
        w[i / 8] = w[i / 8] << 8 | k[i] as u64;
    }
    w
}
/// the cipher under test, built from key bytes or (via = 1) from 64-bit words
fn aes(key: &[u8], via: u64) -> Aes {
    match (key.len(), via) {
        (16, 0) => Aes::with_128_bit_key(key.try_into().unwrap()),
        (24, 0) => Aes::with_192_bit_key(key.try_into().unwrap()),
        (32, 0) => Aes::with_256_bit_key(key.try_into().unwrap()),
        (16, _) => Key128::from(words::<2>(key)).into(),
        (24, _) => Key192::from(words::<3>(key)).into(),
        _ => Key256::from(words::<4>(key)).into(),
    }
}

harnesses! {
    h_aes_enc(klen, via, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 16] = any();
        let got = aes(&key, via).encrypt(block);
        reach(1);
        check_eq(&got, &spec::aes::encrypt(&key, block), 1);
    }
    h_aes_dec(klen, via, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 16] = any();
        let got = aes(&key, via).decrypt(block);
        reach(1);
        check_eq(&got, &spec::aes::decrypt(&key, block), 1);
    }
    h_aes_rt(klen, _b, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 16] = any();
        let a = aes(&key, 0);
        let got = a.decrypt(a.encrypt(block));
        reach(1);
        check_eq(&got, &block, 1);
    }
    // klen: key bytes; bits: effective key length
    h_rc2_enc(klen, bits, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 8] = any();
        let got = c::rc2::from_key(&key, bits as u16).encrypt(block);
        reach(1);
        check_eq(&got, &spec::rc::Rc2::new(&key, bits as usize).encrypt(block), 1);
    }
    h_rc2_dec(klen, bits, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 8] = any();
        let got = c::rc2::from_key(&key, bits as u16).decrypt(block);
        reach(1);
        check_eq(&got, &spec::rc::Rc2::new(&key, bits as usize).decrypt(block), 1);
    }
    h_rc2_rt(klen, bits, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 8] = any();
        let r = c::rc2::from_key(&key, bits as u16);
        let got = r.decrypt(r.encrypt(block));
        reach(1);
        check_eq(&got, &block, 1);
        let got = r.encrypt(r.decrypt(block));
        check_eq(&got, &block, 2);
    }
    h_rc5_enc(klen, rounds, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 8] = any();
        let got = c::rc5::new(&key, rounds as u8).encrypt(block);
        reach(1);
        check_eq(&got, &spec::rc::Rc5::new(&key, rounds as usize).encrypt(block), 1);
    }
    h_rc5_dec(klen, rounds, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 8] = any();
        let got = c::rc5::new(&key, rounds as u8).decrypt(block);
        reach(1);
        check_eq(&got, &spec::rc::Rc5::new(&key, rounds as usize).decrypt(block), 1);
    }
    h_rc5_rt(klen, rounds, _c, _d) {
        let key = any_vec(klen as usize);
        let block: [u8; 8] = any();
        let r = c::rc5::new(&key, rounds as u8);
        let got = r.decrypt(r.encrypt(block));
        reach(1);
        check_eq(&got, &block, 1);
    }
    // klen key bytes of which the last `nsym` are symbolic; n: stream bytes compared
    h_rc4_stream(klen, nsym, n, _d) {
        let key = message(klen as usize, (klen - nsym) as usize, nsym as usize);
        let got: Vec<u8> = c::rc4::new(&key).take(n as usize).collect();
        reach(1);
        check_eq(&got, &spec::rc::rc4(&key, n as usize), 1);
    }
    h_rc4_crypt(klen, nsym, n, _d) {
        let key = message(klen as usize, (klen - nsym) as usize, nsym as usize);
        let msg = any_vec(n as usize);
        let ct = c::rc4::new(&key).encrypt(&msg);
        let ks = spec::rc::rc4(&key, n as usize);
        let want: Vec<u8> = msg.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
        reach(1);
        check_eq(&ct, &want, 1);
        let pt = c::rc4::new(&key).decrypt(&ct);
        check_eq(&pt, &msg, 2);
    }
}
