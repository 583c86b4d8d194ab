//! Base32 / Base64 / Base64-URL.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alpha {
    B32,
    B64,
    B64Url,
}

impl Alpha {
    pub fn of(v: &str) -> Alpha {
        if v.starts_with("base32") {
            Alpha::B32
        } else if v.starts_with("base64_url") {
            Alpha::B64Url
        } else {
            Alpha::B64
        }
    }
    pub fn table(self) -> &'static [u8] {
        match self {
            Alpha::B32 => b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
            Alpha::B64 => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
            Alpha::B64Url => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
        }
    }
    pub fn block(self) -> usize {
        if self == Alpha::B32 { 8 } else { 4 }
    }
    pub fn bits(self) -> usize {
        if self == Alpha::B32 { 5 } else { 6 }
    }

    /// canonical encoding
    pub fn encode(self, data: &[u8], pad: bool) -> String {
        let bits: Vec<u8> = data.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
        let mut s: String = bits
            .chunks(self.bits())
            .map(|c| {
                let mut v = 0usize;
                for i in 0..self.bits() {
                    v = v * 2 + c.get(i).copied().unwrap_or(0) as usize;
                }
                self.table()[v] as char
            })
            .collect();
        if pad {
            while s.len() % self.block() != 0 {
                s.push('=');
            }
        }
        s
    }
}

/// The shape of a text: (digits, pads) when it is `digit* '='*` over the alphabet.
pub fn shape(a: Alpha, s: &[u8]) -> Option<(usize, usize)> {
    let n = s.iter().take_while(|c| a.table().contains(c)).count();
    let p = s[n..].iter().take_while(|c| **c == b'=').count();
    if n + p == s.len() { Some((n, p)) } else { None }
}

/// a digit count some byte sequence encodes to
pub fn possible(a: Alpha, digits: usize) -> bool {
    // number of digits for k bytes = ceil(8k / bits); invert on one block
    let block_bytes = if a == Alpha::B32 { 5 } else { 3 };
    let rem = digits % a.block();
    (0..block_bytes).any(|k: usize| (8 * k).div_ceil(a.bits()) == rem)
}

/// What the grammar says, ignoring the padding option: None = never acceptable,
/// Some((padded_ok, unpadded_ok)): satisfies Must / satisfies Disallow.
pub fn grammar(a: Alpha, s: &[u8]) -> Option<(bool, bool)> {
    let (n, p) = shape(a, s)?;
    if n == 0 || !possible(a, n) {
        return None;
    }
    let need = (a.block() - n % a.block()) % a.block();
    if p != 0 && p != need {
        return None;
    }
    Some((p == need, p == 0))
}

/// canonical decoding of the digits (the text is of an acceptable grammar); None = trailing bits set
pub fn decode(a: Alpha, s: &[u8]) -> Option<Vec<u8>> {
    let (n, _) = shape(a, s)?;
    let mut acc = 0u32;
    let mut nb = 0;
    let mut out = vec![];
    for c in &s[..n] {
        let v = a.table().iter().position(|t| t == c)? as u32;
        acc = acc << a.bits() | v;
        nb += a.bits();
        if nb >= 8 {
            nb -= 8;
            out.push((acc >> nb) as u8);
            acc &= (1 << nb) - 1;
        }
    }
    if acc != 0 { None } else { Some(out) }
}
