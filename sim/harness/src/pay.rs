//! Payloads that identify themselves: who sent them, which one they are, and their content.
use crate::mix;

/// A self-describing payload. `key` identifies the message; the content is a function of the key.
pub trait Pay: Send + 'static {
    /// The bits of the key that the value carries.
    const MASK: u64 = u64::MAX;
    fn make(key: u64) -> Self;
    /// The key, if the content is intact.
    fn key(&self) -> Result<u64, String>;
}

#[derive(Debug)]
pub struct Tok {
    pub key: u64,
    pub body: Vec<u8>,
}

fn body(key: u64) -> Vec<u8> {
    let n = (mix(key, 1) % 40) as usize;
    (0..n).map(|i| mix(key, 100 + i as u64) as u8).collect()
}

impl Pay for Tok {
    fn make(key: u64) -> Tok {
        Tok { key, body: body(key) }
    }
    fn key(&self) -> Result<u64, String> {
        if self.body == body(self.key) { Ok(self.key) } else { Err(format!("corrupted body of message {:x}", self.key)) }
    }
}

impl Pay for u64 {
    fn make(key: u64) -> u64 {
        key
    }
    fn key(&self) -> Result<u64, String> {
        Ok(*self)
    }
}

impl Pay for i64 {
    fn make(key: u64) -> i64 {
        key as i64
    }
    fn key(&self) -> Result<u64, String> {
        Ok(*self as u64)
    }
}

impl Pay for String {
    fn make(key: u64) -> String {
        format!("message {:x} \"quoted\" \u{00e9}\u{4e16}", key)
    }
    fn key(&self) -> Result<u64, String> {
        let h = self.strip_prefix("message ").and_then(|s| s.strip_suffix(" \"quoted\" \u{00e9}\u{4e16}"));
        h.and_then(|h| u64::from_str_radix(h, 16).ok()).ok_or_else(|| format!("corrupted string {:?}", self))
    }
}

impl Pay for (u64, Box<Tok>) {
    fn make(key: u64) -> Self {
        (key, Box::new(Tok::make(mix(key, 7))))
    }
    fn key(&self) -> Result<u64, String> {
        let k = self.1.key()?;
        if k == mix(self.0, 7) { Ok(self.0) } else { Err(format!("mixed-up tuple {:x}", self.0)) }
    }
}

/// A large by-value payload.
pub struct Big(pub [u64; 600]);
impl Pay for Big {
    fn make(key: u64) -> Big {
        let mut b = [0; 600];
        for (i, x) in b.iter_mut().enumerate() {
            *x = if i == 0 { key } else { mix(key, i as u64) };
        }
        Big(b)
    }
    fn key(&self) -> Result<u64, String> {
        for (i, x) in self.0.iter().enumerate().skip(1) {
            if *x != mix(self.0[0], i as u64) {
                return Err(format!("corrupted word {} of {:x}", i, self.0[0]));
            }
        }
        Ok(self.0[0])
    }
}

impl Pay for Option<Vec<u64>> {
    fn make(key: u64) -> Self {
        Some(vec![key, mix(key, 3)])
    }
    fn key(&self) -> Result<u64, String> {
        match self {
            Some(v) if v.len() == 2 && v[1] == mix(v[0], 3) => Ok(v[0]),
            x => Err(format!("corrupted {:?}", x)),
        }
    }
}

/// Nothing at all: only its arrival can be seen.
impl Pay for () {
    const MASK: u64 = 0;
    fn make(_: u64) -> Self {}
    fn key(&self) -> Result<u64, String> {
        Ok(0)
    }
}

impl Pay for u8 {
    const MASK: u64 = 0xff;
    fn make(key: u64) -> u8 {
        key as u8
    }
    fn key(&self) -> Result<u64, String> {
        Ok(*self as u64)
    }
}
