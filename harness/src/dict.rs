//! Values found as literals in the library's source: comparisons in the code are hit by generated inputs, whatever
//! constants they use. Plus fixed boundary values.
use crate::rt::Rng;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub sigs: Vec<[u8; 4]>,
    pub texts: Vec<String>,
}
impl Dict {
    /// Lines: "i <decimal>", "f <float>", "s <hex bytes>"
    pub fn load(path: &str) -> Dict {
        let mut d = Dict::default();
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            let Some((k, v)) = l.split_once(' ') else { continue };
            match k {
                "i" => d.ints.extend(v.parse::<u64>()),
                "f" => d.floats.extend(v.parse::<f64>()),
                "s" => {
                    let b: Vec<u8> = (0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect();
                    if b.len() == 4 {
                        d.sigs.push([b[0], b[1], b[2], b[3]]);
                    }
                    if let Ok(s) = String::from_utf8(b) {
                        d.texts.push(s);
                    }
                }
                _ => {}
            }
        }
        if d.ints.is_empty() {
            d.ints = vec![0, 1, 100, 128, 132];
        }
        if d.sigs.is_empty() {
            d.sigs = vec![*b"RGB ", *b"desc", *b"acsp"];
        }
        if d.floats.is_empty() {
            d.floats = vec![0.0, 1.0];
        }
        d
    }
    pub fn u64(&self, r: &mut Rng) -> u64 {
        match r.below(10) {
            0..=2 => r.u64(),
            3 => r.below(300),
            4 => 1u64 << r.below(64),
            5 => (1u64 << r.below(64)).wrapping_sub(1),
            6 => *r.pick(&[0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, u64::MAX, 0x0102_0304_0506_0708, u64::MAX - 1]),
            7 => u64::from(u32::from_be_bytes(*r.pick(&self.sigs))),
            8 => r.pick(&self.ints).wrapping_add(r.below(3)).wrapping_sub(1),
            _ => *r.pick(&self.ints),
        }
    }
    /// A length, up to `max`: small ones, powers of two and numbers of the source and their neighbours, any.
    pub fn size(&self, r: &mut Rng, max: u64) -> usize {
        let v = match r.below(6) {
            0 => r.below(20),
            1 => (1u64 << r.below(u64::from(64 - max.leading_zeros()).max(1))).wrapping_add(r.below(5)).wrapping_sub(2),
            2 => r.pick(&self.ints).wrapping_add(r.below(3)).wrapping_sub(1),
            3 => (r.pick(&self.ints) / 2).wrapping_add(r.below(3)).wrapping_sub(1),
            4 => r.below(1000),
            _ => r.below(max + 1),
        };
        (if v > max { r.below(max + 1) } else { v }) as usize
    }
    pub fn u32(&self, r: &mut Rng) -> u32 {
        match r.below(10) {
            0..=2 => r.u32(),
            3 => r.below(300) as u32,
            4 => 1u32 << r.below(32),
            5 => (1u32 << r.below(32)).wrapping_sub(1),
            6 => *r.pick(&[0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x0102_0304, 0x80, 0xff00_0000]),
            7 => u32::from_be_bytes(*r.pick(&self.sigs)),
            8 => (*r.pick(&self.ints) as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1),
            _ => *r.pick(&self.ints) as u32,
        }
    }
    pub fn u16(&self, r: &mut Rng) -> u16 {
        match r.below(5) {
            0 => r.u32() as u16,
            1 => r.below(100) as u16,
            2 => 1u16 << r.below(16),
            3 => *r.pick(&[0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x0102]),
            _ => *r.pick(&self.ints) as u16,
        }
    }
    pub fn sig(&self, r: &mut Rng) -> u32 {
        match r.below(8) {
            0 => r.u32(),
            1 => self.u32(r),
            2 => 0x2020_2020,
            3 => {
                // four printable characters
                let mut b = [0u8; 4];
                for x in &mut b {
                    *x = r.range(0x20, 0x7e) as u8;
                }
                u32::from_be_bytes(b)
            }
            _ => u32::from_be_bytes(*r.pick(&self.sigs)),
        }
    }
    pub fn f64(&self, r: &mut Rng) -> f64 {
        match r.below(8) {
            0 => r.uni(-2.0, 2.0),
            1 => r.uni(0.0, 1.0),
            2 => f64::from_bits(r.u64()),
            3 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-4, -1e-4, 0.99e-4, 1.01e-4, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            4 => *r.pick(&self.floats),
            5 => {
                let f = *r.pick(&self.floats);
                f + r.uni(-1e-3, 1e-3)
            }
            6 => *r.pick(&self.ints) as f64,
            _ => r.uni(-100.0, 100.0),
        }
    }
}
