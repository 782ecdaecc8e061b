//! RFC 7468 as the crate supports it, and RFC 4648 base64 (strict), over ASCII bytes
use super::der::cat;

const fn character(v: u8) -> u8 {
    match v {
        0..=25 => b'A' + v,
        26..=51 => b'a' + (v - 26),
        52..=61 => b'0' + (v - 52),
        62 => b'+',
        _ => b'/',
    }
}
static ALPHABET: [u8; 64] = {
    let mut t = [0; 64];
    let mut i = 0;
    while i < 64 {
        t[i] = character(i as u8);
        i += 1;
    }
    t
};
/// the value of each character, 255 for the others
static VALUE: [u8; 256] = {
    let mut t = [255; 256];
    let mut i = 0;
    while i < 64 {
        t[character(i as u8) as usize] = i as u8;
        i += 1;
    }
    t
};
fn alphabet(v: u8) -> u8 {
    ALPHABET[v as usize & 63]
}
pub fn base64(data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len() * 2 + 4);
    for g in data.chunks(3) {
        let (a, b, c) = (g[0], if g.len() > 1 { g[1] } else { 0 }, if g.len() > 2 { g[2] } else { 0 });
        out.push(alphabet(a >> 2));
        out.push(alphabet((a & 3) << 4 | b >> 4));
        out.push(if g.len() > 1 { alphabet((b & 15) << 2 | c >> 6) } else { b'=' });
        out.push(if g.len() > 2 { alphabet(c & 63) } else { b'=' });
    }
    out
}
fn digit(c: u8) -> Option<u8> {
    let v = VALUE[c as usize];
    if v == 255 { None } else { Some(v) }
}
pub fn unbase64(text: &[u8]) -> Option<Vec<u8>> {
    if text.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::with_capacity(text.len());
    let groups = text.len() / 4;
    for i in 0..groups {
        let g = &text[4 * i..4 * i + 4];
        let last = i + 1 == groups;
        let (a, b) = (digit(g[0])?, digit(g[1])?);
        if last && g[2] == b'=' && g[3] == b'=' {
            if b & 15 != 0 {
                return None;
            }
            out.push(a << 2 | b >> 4);
        } else if last && g[3] == b'=' {
            let c = digit(g[2])?;
            if c & 3 != 0 {
                return None;
            }
            out.push(a << 2 | b >> 4);
            out.push(b << 4 | c >> 2);
        } else {
            let (c, d) = (digit(g[2])?, digit(g[3])?);
            out.push(a << 2 | b >> 4);
            out.push(b << 4 | c >> 2);
            out.push(c << 6 | d);
        }
    }
    Some(out)
}
/// the text of a PEM
pub fn write(label: &[u8], data: &[u8]) -> Vec<u8> {
    let mut t = cat(&[b"-----BEGIN ", label, b"-----\n"]);
    for line in base64(data).chunks(64) {
        t.extend_from_slice(line);
        t.push(b'\n');
    }
    cat(&[&t, b"-----END ", label, b"-----"])
}
fn space(c: u8) -> bool {
    c == b' ' || (9..=13).contains(&c)
}
fn trim(mut l: &[u8]) -> &[u8] {
    while !l.is_empty() && space(l[0]) {
        l = &l[1..];
    }
    while !l.is_empty() && space(l[l.len() - 1]) {
        l = &l[..l.len() - 1];
    }
    l
}
fn starts(l: &[u8], p: &[u8]) -> bool {
    if l.len() < p.len() {
        return false;
    }
    for i in 0..p.len() {
        if l[i] != p[i] {
            return false;
        }
    }
    true
}
/// what is between the prefix and the five dashes at the end
fn label<'a>(l: &'a [u8], p: &[u8]) -> Option<&'a [u8]> {
    let l = &l[p.len()..];
    if l.len() >= 5 && starts(&l[l.len() - 5..], b"-----") { Some(&l[..l.len() - 5]) } else { None }
}
/// label and data, of a text with exactly one BEGIN line and one later END line of the same label
pub fn read(text: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    const B: &[u8] = b"-----BEGIN ";
    const E: &[u8] = b"-----END ";
    let mut begin: Option<&[u8]> = None;
    let mut end: Option<&[u8]> = None;
    let mut body: Vec<u8> = Vec::with_capacity(text.len());
    let mut from = 0;
    for i in 0..=text.len() {
        if i < text.len() && text[i] != b'\n' {
            continue;
        }
        let l = trim(&text[from..i]);
        from = i + 1;
        if starts(l, B) {
            if begin.is_some() {
                return None;
            }
            begin = Some(label(l, B)?);
        } else if starts(l, E) {
            if begin.is_none() || end.is_some() {
                return None;
            }
            end = Some(label(l, E)?);
        } else if begin.is_some() && end.is_none() {
            body.extend_from_slice(l);
        }
    }
    let (b, e) = (begin?, end?);
    if b.len() != e.len() || !starts(b, e) {
        return None;
    }
    let data = unbase64(&body)?;
    Some((b.to_vec(), data))
}
