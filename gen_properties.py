#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the text is reviewable)."""
import json
P=[]
def p(id,title,statement,text,why,files,mech,observe,over=("inputs",),state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":list(over),"text":text},
      "why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe,"hook_needed":None, **({"state":state} if state else {})}})

p("C01","AES encryption is FIPS-197 for every key and every block",
  "For every 128-, 192- and 256-bit key and every 16-byte block, encrypting one block with the AES cipher yields exactly the ciphertext FIPS-197 defines. Building the key from 64-bit words means the big-endian concatenation of those words.",
  "all 2^128/2^192/2^256 keys x all 2^128 blocks, three key sizes, both ways of supplying the key",
  "tests encrypt one plaintext block under two keys per size; a slip that shows only for some key or state bytes (one S-box entry, one round constant, one schedule position) is not sampled",
  ["src/aes/cipher.rs","src/aes/expander.rs","src/aes/field.rs","src/aes/sbox.rs","src/aes/mod.rs"],
  [("round function and key schedule","src/aes/cipher.rs Aes::encrypt, src/aes/expander.rs"),("const-evaluated S-box","src/aes/sbox.rs calculate_sbox")],
  ["ciphertext returned by BlockCipher::encrypt on an AES cipher"])
p("C02","AES decryption inverts encryption for every key and block",
  "For every key of each supported size and every 16-byte block, decrypting the encryption of the block gives the block back, and decryption computes the FIPS-197 inverse cipher of whatever block it is given.",
  "all keys of the three sizes x all blocks",
  "tests decrypt two ciphertexts per key size",
  ["src/aes/cipher.rs","src/aes/sbox.rs","src/aes/field.rs"],
  [("backward steps in reverse order","src/aes/cipher.rs Aes::decrypt"),("inverse S-box","src/aes/sbox.rs")],
  ["plaintext returned by BlockCipher::decrypt on an AES cipher"])
p("C03","RC2 encryption is RFC 2268 for every key, effective key size and block",
  "For every key of 1 to 128 bytes, every effective key length of 1 to 1024 bits and every 8-byte block, RC2 encryption of the block yields the RFC 2268 ciphertext.",
  "all keys (lengths 1..128), all effective key lengths 1..1024, all 2^64 blocks",
  "nine sampled (key, bits, block) triples; key lengths, bit lengths not divisible by 8 and table entries are mostly untouched",
  ["src/rc/rc2.rs"],
  [("key expansion with PITABLE and the effective-bits mask","src/rc/rc2.rs expand_key"),("mix/mash rounds","src/rc/rc2.rs encrypt_block")],
  ["ciphertext returned by BlockCipher::encrypt on an RC2 cipher"])
p("C04","RC2 decryption inverts encryption for every key and block",
  "For every valid RC2 key and effective key length and every 8-byte block, decrypting the encryption of the block gives the block back, and encrypting the decryption of it does too.",
  "all keys, all effective key lengths, all blocks, both orders",
  "only the nine sampled vectors are decrypted",
  ["src/rc/rc2.rs"],
  [("rmix/rmash in reverse order","src/rc/rc2.rs decrypt_block")],
  ["plaintext returned by BlockCipher::decrypt on an RC2 cipher"])
p("C05","RC5-32 is Rivest's RC5 for every key, round count and block",
  "For every key of 0 to 255 bytes, every round count 0 to 255 and every 8-byte block, encryption yields the RC5-32/r/b ciphertext of Rivest's definition, and decryption inverts it.",
  "all keys of length 0..255, r in 0..255, all 2^64 blocks",
  "five keys, all 16 bytes long, all with 12 rounds",
  ["src/rc/rc5.rs"],
  [("key mixing","src/rc/rc5.rs expand_key"),("data-dependent rotations","src/rc/rc5.rs encrypt_32/decrypt_32")],
  ["blocks returned by BlockCipher::encrypt/decrypt on an RC5 cipher"])
p("C06","RC4 produces the RC4 key stream and round-trips every message",
  "For every non-empty key, the RC4 generator yields the standard RC4 key stream (key scheduling then pseudo-random generation), byte for byte however long it is drawn. Encrypting XORs the message with that stream from its start, so decrypting with a fresh cipher of the same key restores every message.",
  "all keys of every length >= 1, all messages, all stream positions",
  "three ASCII keys of 3-6 bytes and at most 14 stream bytes",
  ["src/rc/rc4.rs","src/lib.rs"],
  [("key scheduling","src/rc/rc4.rs KeyStream::new"),("output step","src/rc/rc4.rs next_key"),("XOR with the stream","src/lib.rs StreamCipher")],
  ["bytes of the key stream iterator","encrypt/decrypt output"])
p("C07","SHA-1 of every message is the FIPS 180-4 digest",
  "For every byte string of any length, SHA-1 returns the FIPS 180-4 digest, including at every message length around block and padding boundaries.",
  "all messages of all lengths",
  "four messages, of lengths 0, 1, 43 and 10000",
  ["src/sha/sha1.rs","src/sha/pad.rs","src/sha/hash.rs"],
  [("compression","src/sha/sha1.rs process_chunk"),("padding","src/sha/pad.rs sha1_padding"),("digest serialisation","src/sha/hash.rs")],
  ["digest bytes returned by the SHA-1 function"])
p("C08","SHA-224 and SHA-256 of every message are the FIPS 180-4 digests",
  "For every byte string of any length, SHA-224 and SHA-256 return the FIPS 180-4 digests, including at every message length around block and padding boundaries.",
  "all messages of all lengths",
  "only the empty string for SHA-256; the empty string and one 43-byte string for SHA-224: no test hashes a multi-block message",
  ["src/sha/sha2.rs","src/sha/pad.rs","src/sha/hash.rs"],
  [("compression","src/sha/sha2.rs process_chunk"),("padding","src/sha/pad.rs sha1_padding")],
  ["digest bytes returned by the SHA-224 and SHA-256 functions"])
p("C09","SHA-384 and SHA-512 of every message are the FIPS 180-4 digests",
  "For every byte string of any length, SHA-384 and SHA-512 return the FIPS 180-4 digests, including at every message length around block and padding boundaries.",
  "all messages of all lengths",
  "only the empty string is hashed by the tests",
  ["src/sha/sha2.rs","src/sha/hash.rs"],
  [("compression","src/sha/sha2.rs process_big_chunk"),("padding","src/sha/sha2.rs sha2_padding_big")],
  ["digest bytes returned by the SHA-384 and SHA-512 functions"])
p("C10","MD2 of every message is the RFC 1319 digest",
  "For every byte string of any length, MD2 returns the RFC 1319 digest (padding, running checksum and 18-round mixing included).",
  "all messages of all lengths",
  "three messages, lengths 0, 43 and 43",
  ["src/md/md2.rs"],
  [("checksum and mixing","src/md/md2.rs process_chunk"),("padding","src/md/md2.rs finish")],
  ["16 digest bytes returned by the MD2 function"])
p("C11","MD4 of every message is the RFC 1320 digest",
  "For every byte string of any length, MD4 returns the RFC 1320 digest, including at every message length around block and padding boundaries.",
  "all messages of all lengths",
  "four messages, lengths 0, 1, 62 and 80",
  ["src/md/md4.rs"],
  [("compression","src/md/md4.rs Block::process"),("padding","src/md/md4.rs finish")],
  ["16 digest bytes returned by the MD4 function"])
p("C12","MD5 of every message is the RFC 1321 digest",
  "For every byte string of any length, MD5 returns the RFC 1321 digest, including at every message length around block and padding boundaries.",
  "all messages of all lengths",
  "four messages, lengths 0, 1, 62 and 80",
  ["src/md/md5.rs"],
  [("compression","src/md/md5.rs Block::process"),("padding","src/md/md5.rs finish")],
  ["16 digest bytes returned by the MD5 function"])
p("C13","Hash values convert losslessly between words, bytes and hex",
  "Every 160/224/256/384/512-bit hash value converts to big-endian words, to bytes and from hex without loss or panic: words to hash to words and words to hash to bytes preserve the value, and a hex string parses exactly when it has the right number of hex digits, to the value those digits spell.",
  "all hash values of the five sizes; all hex texts of right and wrong lengths",
  "tests only parse literals and compare hash values for equality; the conversions to words are never called",
  ["src/sha/hash.rs"],
  [("word/byte helpers","src/sha/hash.rs u32s_to_bytes .. bytes_to_u64s"),("hex parsing","src/sha/hash.rs from_hex")],
  ["results of the conversions between hash values, word arrays, byte arrays and hex"])
p("C14","PKCS padding is reversible and accepts only well-formed padding",
  "For every block size of 1 to 255 and every partial block, padding keeps the data as prefix and fills the rest with the number of fill bytes, and unpadding returns the original length. Padding a full or longer block is refused, and unpadding succeeds exactly on blocks whose last n bytes (1 <= n <= block size) all equal n.",
  "all partial blocks and all full blocks, block sizes 1..255",
  "seven blocks of size 4; no malformed padding other than a too-big count",
  ["src/pad.rs"],
  [("fill count","src/pad.rs PkcsPadding::pad"),("count check","src/pad.rs PkcsPadding::unpad")],
  ["padded block, returned length, panics"])
p("C15","Bit padding is reversible and accepts only well-formed padding",
  "For every block size and every partial block, bit padding yields the data, one 0x80 byte and then zeroes, and unpadding returns the data (zero-filled) and its length. Padding a full or longer block is refused, and unpadding succeeds exactly on blocks that end in 0x80 followed only by zero bytes.",
  "all partial blocks and all full blocks, all block sizes >= 1",
  "eight blocks of size 4",
  ["src/pad.rs"],
  [("marker byte","src/pad.rs BitPadding::pad"),("search for the marker from the end","src/pad.rs BitPadding::unpad")],
  ["padded block, returned block and length, panics"])
p("C16","Block encryption chains padded blocks and round-trips every message",
  "For every block cipher, every chaining mode and every message, encryption feeds the message in order, block by block and PKCS-padded at the end, through one mode instance and emits each result block whole and in order, and decryption of it emits exactly the message. Decryption refuses input that is empty or not a whole number of blocks, or whose last decrypted block is not well padded.",
  "all messages (every length, aligned or not), all ciphers and stateful modes, all ciphertexts",
  "messages of 2, 4 and 6 bytes with block size 4, plus single-block AES/RC messages; no multi-block decryption with a chaining mode, no malformed ciphertext",
  ["src/lib.rs","src/pad.rs"],
  [("block loop and padding","src/lib.rs BlockEncryption::encrypt"),("one-block look-ahead and unpadding","src/lib.rs BlockEncryption::decrypt"),("pass-through mode","src/lib.rs EcbMode")],
  ["bytes handed to the output callback, panics"],over=("inputs","configurations"))
p("C17","Stream ciphers XOR data with one continuous key stream",
  "A stream cipher built on any key stream emits exactly one byte per data byte, the data XOR the next key stream byte, and successive calls continue the key stream where the last one stopped, bytes never drawn from an output consuming none, so splitting a message changes nothing. Running the same stream over the output restores the data.",
  "all key streams, all messages, all ways of splitting a message into calls",
  "one key, one message and one split",
  ["src/lib.rs","src/rc/rc4.rs"],
  [("next key byte per data byte","src/lib.rs StreamCipher::encrypt")],
  ["bytes of the returned iterator"],over=("inputs","histories"))
p("C18","Big integers convert, compare and report bits as the numbers they are",
  "For every byte string, a big integer built from its big- or little-endian bytes, or from a 128-bit value, denotes that number: it converts back to the minimal big-endian bytes, to 128 bits exactly when it fits, reports its bit length and each bit correctly, and compares (equality and ordering) with others as the numbers do. This holds equally for values reached through arithmetic.",
  "all byte strings with any leading zeros, all pairs of values, all bit indices",
  "three values are converted; ordering, bit queries and little-endian input are not tested at all",
  ["src/big/uint.rs"],
  [("canonical little-endian bytes without trailing zeroes","src/big/uint.rs"),("bit-wise comparison","src/big/uint.rs Ord")],
  ["to_be_bytes, as_u128, bits_used, is_set, ==, cmp"],state=[{"name":"bytes","meaning":"little-endian magnitude, no trailing zero byte","where":"src/big/uint.rs BigUint"}])
p("C19","Big integer addition, subtraction, shifts and remainder are exact",
  "For all big integers a and b, a + b, a + a byte, a - b (when a >= b), a shifted left or right by any number of bits, and a mod b (b non-zero) are the exact arithmetic results, never panic, and leave a value equal to one built directly from the result.",
  "all operand pairs of all sizes, all shift amounts",
  "subtraction is tested on ten pairs; addition, shifts and remainder only indirectly through a few modular products",
  ["src/big/uint.rs"],
  [("carry propagation","src/big/uint.rs AddAssign"),("complement-and-add","src/big/uint.rs SubAssign"),("shift-subtract loop","src/big/uint.rs RemAssign"),("byte and bit shifts","src/big/uint.rs ShlAssign/ShrAssign")],
  ["the resulting big integer"],over=("inputs","histories"))
p("C20","Raw RSA computes modular exponentiation exactly",
  "For every key (exponent, modulus > 1) and every number m, raw RSA encryption and decryption return m to the exponent modulo the modulus, as the canonical number smaller than the modulus.",
  "all moduli, exponents and messages, including messages not smaller than the modulus",
  "three keys and one message value; modular products on a handful of values",
  ["src/rsa/mod.rs","src/big/uint.rs"],
  [("square and multiply","src/rsa/mod.rs pow_mod"),("double and add","src/rsa/mod.rs mul_mod")],
  ["number returned by raw RSA encrypt/decrypt"])
p("C21","RSA key creation yields a matching key pair or refuses",
  "For distinct odd primes p and q and an exponent e, key creation returns the modulus p*q in both keys, e in the public key, and as private exponent the inverse of e modulo lcm(p-1, q-1) in the range below that lcm; if e has no inverse, or p*q does not fit 128 bits, it refuses. Keys it returns decrypt what they encrypt, in either order, for every message number below the modulus.",
  "all prime pairs, all exponents, all messages",
  "two key pairs and one message",
  ["src/rsa/mod.rs"],
  [("lcm and extended Euclid","src/rsa/mod.rs lcm, inverse"),("key assembly","src/rsa/mod.rs create_keys")],
  ["equality of returned keys with keys loaded from a key file; raw RSA round trip"])
p("C22","RSA message encryption round-trips every message",
  "For every matching key pair, every padding scheme that produces a leading zero byte and every message it can encode, decrypting the encrypted message with the other key restores the message, whatever ciphertext number arises. The padding scheme is always given the byte length of the modulus, and the ciphertext is always exactly that long.",
  "all messages, keys and padding schemes; in particular all ciphertext numbers, including ones with leading zero bytes",
  "two messages under two keys; about one ciphertext in 256 starts with a zero byte",
  ["src/rsa/mod.rs"],
  [("message representative and its length","src/rsa/mod.rs encrypt_message, decrypt_message")],
  ["ciphertext bytes, decrypted message, arguments given to the padding scheme"])
p("C23","OAEP encoding is RFC 8017 and decoding restores every message",
  "For every label, every message and every encoded length that has room for it, OAEP (SHA-256) encoding yields exactly that many bytes, starting with zero, that form the RFC 8017 EME-OAEP encoding of the message under some seed, and decoding with the same label restores the message. A message too long for the length is refused.",
  "all labels, messages and lengths",
  "one label, one message, one length",
  ["src/rsa/oaep.rs","src/rsa/mgf.rs","src/rsa/pad.rs","src/sha/sha2.rs"],
  [("data block layout and masking","src/rsa/oaep.rs encode"),("mask generation","src/rsa/mgf.rs mgf1")],
  ["encoded bytes, decoded message, panics"])
p("C24","OAEP decoding accepts exactly the valid encodings and never panics",
  "For every label and every byte string offered as an encoded message of the stated length, OAEP (SHA-256) decoding returns the message if it is a valid RFC 8017 encoding for that label, under any seed, and otherwise returns an error: wrong first byte, wrong label hash, missing or wrong separator, or too short. It never panics.",
  "all byte strings and labels, any length from zero",
  "only a valid encoding is decoded in the tests",
  ["src/rsa/oaep.rs","src/rsa/mgf.rs","src/rsa/pad.rs"],
  [("checks before and after unmasking","src/rsa/oaep.rs decode")],
  ["Ok message or Err of decode, panics"])
p("C25","DER parsing is total and returns exactly the encoded structure",
  "For every byte string (its nesting within what the call stack holds), parsing either returns the value tree the bytes encode (integers, octet and bit strings, null, object identifiers, sequences, short and long lengths) or an error; it never panics. Truncated elements, lengths beyond the data, unknown tags and bytes left over at the end of the input are errors.",
  "all byte strings",
  "three well-formed inputs; no malformed input of any kind",
  ["src/pem/asn1.rs"],
  [("tag/length/value parser","src/pem/asn1.rs parse_from_bytes"),("trailing data check","src/pem/asn1.rs TryFrom<&[u8]>")],
  ["Ok tree or Err of Asn1::try_from, panics"])
p("C26","RSA keys load exactly from well-formed key structures only",
  "Loading an RSA private key (PKCS#8) or public key (SubjectPublicKeyInfo) yields exactly the modulus and exponent encoded in it, for all their values. Anything else is an error and never a panic or a wrong key: wrong label, wrong version, wrong algorithm, wrong element count or element type, unused bits, truncated data.",
  "all key field values; all single and combined deviations from the structure",
  "one real private and one real public key; no rejection is tested",
  ["src/rsa/asn1.rs","src/rsa/mod.rs","src/pem/asn1.rs"],
  [("structure checks","src/rsa/asn1.rs from_asn1"),("label checks","src/rsa/mod.rs TryFrom<PEM>")],
  ["equality of the loaded key with another, raw RSA results, Err"])
p("C27","PEM encoding round-trips every label and all data",
  "For every single-line label and all data, writing a PEM gives a BEGIN line, the base64 of the data broken every 64 characters, and an END line, with the label in both, and reading that text back gives the same label and data.",
  "all data (every length, including empty and multiples of 48), all labels",
  "two data blocks of 71 and 96 bytes are written; none is read back",
  ["src/pem/mod.rs"],
  [("line wrapping","src/pem/mod.rs Display"),("line scanner","src/pem/mod.rs extract_pem_pieces")],
  ["text produced by Display, result of from_str"])
p("C28","PEM reading accepts exactly one well-delimited block and never panics",
  "Reading a PEM text returns the label and decoded data exactly when it has one BEGIN line, later one END line with the same label, and valid base64 on the lines in between; surrounding lines, line whitespace and line breaks do not matter. Any other text is an error, never a panic.",
  "all texts",
  "thirteen hand-written texts",
  ["src/pem/mod.rs"],
  [("BEGIN/END state machine","src/pem/mod.rs extract_pem_pieces"),("base64 decoding","src/pem/mod.rs parse_pem_data")],
  ["Ok label and data or Err of from_str, panics"])
import os
d=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(d,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,(x["id"])
        f.write(json.dumps(x)+"\n")
