//! Independent model of what opening a profile must give, written from the ICC layout and not from the library.
use crate::rt::hash;

pub const SHORT_HEADER: u8 = 1;
pub const BAD_MAGIC: u8 = 2;
pub const BAD_DATE: u8 = 4;
pub const NO_COUNT: u8 = 8;
pub const TOO_MANY: u8 = 16;
pub const SHORT_DIR: u8 = 32;
pub const EOF: u8 = SHORT_HEADER | NO_COUNT | SHORT_DIR;
pub const REPORTED: u8 = BAD_MAGIC | BAD_DATE | TOO_MANY;

#[derive(Clone, PartialEq, Debug)]
pub struct MTag {
    pub sig: u32,
    pub offset: u32,
    pub size: u32,
    pub link: Option<u32>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct MProfile {
    pub version: u32,
    pub class: u32,
    pub space: u32,
    pub pcs: u32,
    pub intent: u32,
    pub flags: u32,
    pub manufacturer: u32,
    pub model: u32,
    pub attributes: u64,
    pub creator: u32,
    pub date: [u16; 6],
    pub id: [u8; 16],
    pub tags: Vec<MTag>,
}

/// A file: its first bytes and its full length (the rest is zeros, and never part of the directory).
#[derive(Clone, Debug)]
pub struct Content {
    pub head: Vec<u8>,
    pub len: u64,
}
impl Content {
    pub fn new(head: Vec<u8>) -> Self {
        let len = head.len() as u64;
        Content { head, len }
    }
    pub fn hash(&self) -> u64 {
        hash(&self.head) ^ self.len.wrapping_mul(0x9E37_79B9)
    }
    /// The bytes as the library is to find them: in its little-endian configuration all numbers are the other way round.
    pub fn stored(&self) -> std::borrow::Cow<'_, [u8]> {
        if !crate::typed::LE {
            return (&self.head[..]).into();
        }
        let mut v = self.head.clone();
        // (numbers that reach into the zeros behind)
        let fields = 132 + 12 * 101;
        if v.len() < fields {
            v.resize(fields.min(self.len as usize), 0);
        }
        let mut at = 0;
        while at < fields {
            let n = match at {
                24..=35 => 2,
                56 => 8,
                84..=127 => 1,
                _ => 4,
            };
            if let Some(f) = v.get_mut(at..at + n) {
                f.reverse();
            }
            at += n;
        }
        v.into()
    }
    pub fn describe(&self) -> String {
        let n = self.head.len().min(1400);
        format!("file length {} starting {}", self.len, crate::rt::hex(&self.head[..n]))
    }
    fn be16(&self, at: usize) -> u16 {
        u16::from(self.b(at)) << 8 | u16::from(self.b(at + 1))
    }
    pub fn be32(&self, at: usize) -> u32 {
        (0..4).fold(0, |a, i| a << 8 | u32::from(self.b(at + i)))
    }
    fn b(&self, at: usize) -> u8 {
        self.head.get(at).copied().unwrap_or(0)
    }
    pub fn put32(&mut self, at: usize, v: u32) {
        if self.head.len() >= at + 4 {
            self.head[at..at + 4].copy_from_slice(&v.to_be_bytes());
        }
    }
    pub fn put16(&mut self, at: usize, v: u16) {
        if self.head.len() >= at + 2 {
            self.head[at..at + 2].copy_from_slice(&v.to_be_bytes());
        }
    }
}

pub fn leap(y: u32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn days_in(y: u32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + u32::from(leap(y)),
        _ => 0,
    }
}
pub fn valid_date(d: &[u16; 6]) -> bool {
    d[2] >= 1 && u32::from(d[2]) <= days_in(d[0].into(), d[1].into()) && d[3] < 24 && d[4] < 60 && d[5] < 60
}

pub fn defects(c: &Content) -> u8 {
    if c.len < 128 {
        return SHORT_HEADER;
    }
    let mut d = 0;
    if c.be32(36) != 0x6163_7370 {
        d |= BAD_MAGIC;
    }
    let date: [u16; 6] = std::array::from_fn(|i| c.be16(24 + 2 * i));
    if !valid_date(&date) {
        d |= BAD_DATE;
    }
    if c.len < 132 {
        return d | NO_COUNT;
    }
    let n = c.be32(128);
    if n > 100 {
        d |= TOO_MANY;
    } else if c.len < 132 + 12 * u64::from(n) {
        d |= SHORT_DIR;
    }
    d
}

pub fn open(c: &Content) -> Result<MProfile, u8> {
    let d = defects(c);
    if d != 0 {
        return Err(d);
    }
    let bound = u64::from(c.be32(0)).min(c.len);
    let mut tags: Vec<MTag> = Vec::new();
    for i in 0..c.be32(128) as usize {
        let at = 132 + 12 * i;
        let (sig, offset, size) = (c.be32(at), c.be32(at + 4), c.be32(at + 8));
        if u64::from(offset) + u64::from(size) > bound {
            continue;
        }
        let link = tags.iter().rev().find(|t| t.offset == offset && t.size == size).map(|t| t.sig);
        tags.push(MTag { sig, offset, size, link });
    }
    Ok(MProfile {
        version: c.be32(8),
        class: c.be32(12),
        space: c.be32(16),
        pcs: c.be32(20),
        date: std::array::from_fn(|i| c.be16(24 + 2 * i)),
        flags: c.be32(44),
        manufacturer: c.be32(48),
        model: c.be32(52),
        attributes: u64::from(c.be32(56)) << 32 | u64::from(c.be32(60)),
        intent: c.be32(64),
        creator: c.be32(80),
        id: std::array::from_fn(|i| c.b(84 + i)),
        tags,
    })
}
/// Error kinds that a rejection for these defects may have.
pub fn kinds(d: u8) -> Vec<std::io::ErrorKind> {
    let mut v = vec![];
    if d & EOF != 0 {
        v.push(std::io::ErrorKind::UnexpectedEof);
    }
    if d & REPORTED != 0 {
        v.push(std::io::ErrorKind::InvalidData);
    }
    v
}
