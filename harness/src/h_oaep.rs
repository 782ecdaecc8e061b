//! OAEP
use crate::spec::oaep::*;
use crate::sym::*;
use cryptography::rsa::{PaddingScheme, RsaPadding};

crate::harnesses! {
    // encode: label of l bytes, message of m bytes, encoded length k
    h_oaep_enc(l, m, k, _d) {
        join(1);
        let (label, msg, k) = (any_vec(l as usize), any_vec(m as usize), k as usize);
        panic_ok(k < msg.len() + 2 * H + 2);
        let em = RsaPadding.encode(&label, &msg, k);
        panic_ok(false);
        check(k >= msg.len() + 2 * H + 2, 1);
        check(em.len() == k, 2);
        check(em[0] == 0, 3);
        let (_, db) = unmask(&em);
        let mut want = sha256(&label).to_vec();
        while want.len() < k - H - 1 - msg.len() - 1 {
            want.push(0);
        }
        want.push(1);
        want.extend_from_slice(&msg);
        check_eq(&db, &want, 4);
        reach(1);
    }
    // encode then decode
    h_oaep_rt(l, m, k, _d) {
        join(1);
        let (label, msg, k) = (any_vec(l as usize), any_vec(m as usize), k as usize);
        let em = RsaPadding.encode(&label, &msg, k);
        match RsaPadding.decode(&label, &em, k) {
            Ok(got) => check_eq(&got, &msg, 5),
            Err(_) => check(false, 6),
        }
        reach(1);
    }
    // decode: every first byte, seed and data block; mode 0: any label hash (the label concrete), else the right one;
    // mode 2: the data block after the hash starts with z zeroes; mode 3: so, and label, seed and first byte are fixed
    h_oaep_dec(l, k, mode, z) {
        join(1);
        let label = if mode == 0 || mode == 3 { message(l as usize, 0, 0) } else { any_vec(l as usize) };
        let k = k as usize;
        let first = if mode == 3 { 0 } else { any_u8() };
        let seed = if mode == 3 { message(H, 0, 0) } else { any_vec(H) };
        let mut db = if mode == 3 { message(k - H - 1, H + z as usize, k) } else { any_vec(k - H - 1) };
        let lhash = sha256(&label);
        if mode > 0 {
            db[..H].copy_from_slice(&lhash);
        }
        if mode >= 2 {
            for i in 0..z as usize {
                db[H + i] = 0;
            }
        }
        let em = mask(first, &seed, &db);
        // what the standard says
        let mut ok = first == 0;
        for i in 0..H {
            ok &= db[i] == lhash[i];
        }
        let got = RsaPadding.decode(&label, &em, k);
        let mut sep = H;
        let ok = split(ok as u64) == 1;
        if ok {
            while sep < db.len() && split((db[sep] == 0) as u64) == 1 {
                sep += 1;
            }
        }
        let ok = ok && sep < db.len() && split((db[sep] == 1) as u64) == 1;
        match got {
            Ok(m) => {
                check(ok, 7);
                if ok {
                    check_eq(&m, &db[sep + 1..], 8);
                    reach(1);
                }
            }
            Err(_) => {
                check(!ok, 9);
                reach(2);
            }
        }
    }
    // decode of any n bytes as an encoded message of k bytes, where that cannot be one
    h_oaep_short(n, k, l, _d) {
        join(1);
        let em = any_vec(n as usize);
        let label = any_vec(l as usize);
        check(RsaPadding.decode(&label, &em, k as usize).is_err(), 10);
        reach(1);
    }
}
