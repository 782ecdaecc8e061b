//! RFC 8017: MGF1 and EME-OAEP over the crate's SHA-256, which C08 compares with FIPS 180-4
pub fn sha256(message: &[u8]) -> [u8; H] {
    cryptography::sha::sha256(message).into()
}

pub const H: usize = 32;

pub fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut t = Vec::with_capacity(len + H);
    let mut counter = 0u32;
    while t.len() < len {
        let mut m = seed.to_vec();
        m.extend_from_slice(&counter.to_be_bytes());
        t.extend_from_slice(&sha256(&m));
        counter += 1;
    }
    t.truncate(len);
    t
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    (0..a.len()).map(|i| a[i] ^ b[i]).collect()
}
/// first byte || seed masked || data block masked
pub fn mask(first: u8, seed: &[u8], db: &[u8]) -> Vec<u8> {
    let masked_db = xor(db, &mgf1(seed, db.len()));
    let masked_seed = xor(seed, &mgf1(&masked_db, H));
    let mut em = vec![first];
    em.extend_from_slice(&masked_seed);
    em.extend_from_slice(&masked_db);
    em
}
/// (seed, data block) of an encoded message
pub fn unmask(em: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (masked_seed, masked_db) = (&em[1..1 + H], &em[1 + H..]);
    let seed = xor(masked_seed, &mgf1(masked_db, H));
    let db = xor(masked_db, &mgf1(&seed, masked_db.len()));
    (seed, db)
}
