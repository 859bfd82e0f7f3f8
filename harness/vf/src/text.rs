//! Text generators shared by the workloads.
use crate::Rng;

/// Characters of every UTF-8 and UTF-16 width, plus the ones line logic trips over.
pub const ODD: &[char] = &[
    'é', 'ß', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '日', '本', '\u{2028}', '\u{2029}', '\u{feff}',
    '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{85}', '\u{b}', '\u{c}', '\0', '\u{0a0d}',
    '\u{0d0a}', '\u{300}', '\u{200d}', '\u{ad}',
];

pub fn odd_char(rng: &mut Rng) -> char {
    *rng.pick(ODD)
}

pub fn any_char(rng: &mut Rng) -> char {
    match rng.below(6) {
        0 => odd_char(rng),
        1 => char::from_u32(rng.below(0x800) as u32).unwrap_or('x'),
        2 => char::from_u32(rng.below(0x110000) as u32).unwrap_or('y'),
        _ => (rng.range(0x20, 0x7e) as u8) as char,
    }
}

/// Some char boundary of `s`.
pub fn boundary(rng: &mut Rng, s: &str) -> usize {
    let mut i = rng.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
