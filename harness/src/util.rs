use serde_json::{json, Value};

/// u64 as three limbs <<16 bits, 24 bits, 24 bits>> (TLC integers are 32 bit).
pub fn l3(v: u64) -> Value {
    json!([(v >> 48) as u32, ((v >> 24) & 0xff_ffff) as u32, (v & 0xff_ffff) as u32])
}
pub fn from_l3(v: &Value) -> u64 {
    let g = |i: usize| v[i].as_u64().unwrap_or_else(|| bad(&format!("bad u64 {}", v)));
    g(0) << 48 | g(1) << 24 | g(2)
}
/// A small integer, or -1 when it does not fit TLC's range.
pub fn si(v: u64) -> i64 {
    if v < (1 << 31) { v as i64 } else { -1 }
}
/// Alignment as an exponent: -1 for zero, -2 when it is not a power of two.
pub fn alx(v: u64) -> i64 {
    if v == 0 { -1 } else if v.is_power_of_two() { v.trailing_zeros() as i64 } else { -2 }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or_else(|_| bad("bad hex")))
        .collect()
}
/// Injective, concatenation-homomorphic escape of a byte string into [A-Za-z0-9_.$%-].
pub fn esc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len());
    for &c in b {
        if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
            s.push(c as char)
        } else {
            s.push_str(&format!("%{:02x}", c))
        }
    }
    s
}
pub fn unesc(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or_else(|_| bad("bad escape")));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).unwrap_or_else(|_| bad("names must be UTF-8"))
}
/// Two independent 64-bit FNV-style digests, as a token.
pub fn digest(b: &[u8]) -> String {
    let (mut a, mut c) = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64);
    for &x in b {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        c = (c.rotate_left(5) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
    }
    format!("{:x}-{:016x}{:016x}", b.len(), a, c)
}
/// A malformed program is an error of the machinery, never a verdict.
pub fn bad(m: &str) -> ! {
    eprintln!("harness: malformed program: {}", m);
    std::process::exit(2)
}
