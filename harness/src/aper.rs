//! An independent model of the ALIGNED PER encoding rules (ITU-T X.691) for the
//! primitive types, written from the Recommendation and not from the code under
//! test.  Bits are plain booleans; speed does not matter here.

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Con {
    pub lb: Option<i128>,
    pub ub: Option<i128>,
    pub ext: bool,
}
impl Con {
    pub fn new(lb: Option<i128>, ub: Option<i128>, ext: bool) -> Self {
        Con { lb, ub, ext }
    }
    pub fn none() -> Self {
        Con::default()
    }
    pub fn admits(&self, v: i128) -> bool {
        self.lb.map(|l| v >= l).unwrap_or(true) && self.ub.map(|u| v <= u).unwrap_or(true)
    }
    pub fn fixed(&self) -> bool {
        self.lb.is_some() && self.lb == self.ub
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct W {
    pub bits: Vec<bool>,
}

/// What the model says about a value that cannot be encoded.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// Outside the constraint (or not representable): must be refused.
    Invalid(String),
    /// Data ran out.
    Short,
    /// The model cannot represent the result (e.g. integers beyond i128).
    Unrepresentable,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum StrKind {
    Octets,
    Bits,
    /// PrintableString, VisibleString: known-multiplier, 8 bits in ALIGNED PER.
    Chars,
    Utf8,
}

pub fn octets_unsigned(v: u128) -> usize {
    std::cmp::max(1, (128 - v.leading_zeros() as usize).div_ceil(8))
}
pub fn octets_signed(v: i128) -> usize {
    for n in 1..16 {
        let lo = -(1i128 << (8 * n - 1));
        let hi = (1i128 << (8 * n - 1)) - 1;
        if v >= lo && v <= hi {
            return n;
        }
    }
    16
}

impl W {
    pub fn new() -> Self {
        W::default()
    }
    pub fn bit(&mut self, b: bool) {
        self.bits.push(b)
    }
    pub fn uint(&mut self, v: u128, n: usize) {
        for i in (0..n).rev() {
            self.bits.push(i < 128 && v >> i & 1 == 1)
        }
    }
    pub fn align(&mut self) {
        while self.bits.len() % 8 != 0 {
            self.bits.push(false)
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.bits.len().div_ceil(8)];
        for (i, b) in self.bits.iter().enumerate() {
            if *b {
                v[i / 8] |= 0x80 >> (i % 8)
            }
        }
        v
    }
    /// 10.5
    pub fn constrained(&mut self, lb: i128, ub: i128, v: i128) {
        let span = ub.wrapping_sub(lb) as u128; // range - 1
        let off = v.wrapping_sub(lb) as u128;
        if span == 0 {
        } else if span < 255 {
            let n = 128 - span.leading_zeros() as usize;
            self.uint(off, n);
        } else if span == 255 {
            self.align();
            self.uint(off, 8);
        } else if span < 65536 {
            self.align();
            self.uint(off, 16);
        } else {
            let n = octets_unsigned(off);
            self.constrained(1, octets_unsigned(span) as i128, n as i128);
            self.align();
            self.uint(off, 8 * n);
        }
    }
    /// 10.7
    pub fn semi(&mut self, lb: i128, v: i128) {
        let off = v.wrapping_sub(lb) as u128;
        let n = octets_unsigned(off);
        self.len_unconstrained(n);
        self.uint(off, 8 * n);
    }
    /// 10.8
    pub fn unconstrained(&mut self, v: i128) {
        let n = octets_signed(v);
        self.len_unconstrained(n);
        self.uint(v as u128, 8 * n);
    }
    /// 10.9.3.5 - 10.9.3.7, unfragmented
    pub fn len_unconstrained(&mut self, n: usize) {
        assert!(n < 16384);
        self.align();
        if n < 128 {
            self.uint(n as u128, 8)
        } else {
            self.uint(0x8000 | n as u128, 16)
        }
    }
    /// 10.6
    pub fn normally_small(&mut self, v: u128) {
        if v < 64 {
            self.bit(false);
            self.uint(v, 6);
        } else {
            self.bit(true);
            self.semi(0, v as i128);
        }
    }
    /// 10.9.3.4
    pub fn normally_small_len(&mut self, n: usize) {
        if n <= 64 {
            self.bit(false);
            self.uint(n as u128 - 1, 6);
        } else {
            self.bit(true);
            self.len_unconstrained(n);
        }
    }
    /// 12
    pub fn integer(&mut self, c: &Con, v: i128) {
        if c.ext {
            self.bit(!c.admits(v));
            if !c.admits(v) {
                return self.unconstrained(v);
            }
        }
        match (c.lb, c.ub) {
            (Some(l), Some(u)) => self.constrained(l, u, v),
            (Some(l), None) => self.semi(l, v),
            _ => self.unconstrained(v),
        }
    }
    /// Length determinant of an unfragmented item list (10.9), root only.
    pub fn length(&mut self, c: &Con, n: usize) {
        match c.ub {
            Some(u) if u < 65536 => self.constrained(c.lb.unwrap_or(0), u, n as i128),
            _ => self.len_unconstrained(n),
        }
    }
    /// Items `0..n` preceded by a length determinant, fragmenting when the
    /// length is not constrained below 64K.  `put(w, from, to)` appends items.
    pub fn counted(&mut self, c: &Con, n: usize, align: bool, mut put: impl FnMut(&mut W, usize, usize)) {
        let mut c2 = c.clone();
        if c.ext {
            let root = c.admits(n as i128);
            self.bit(!root);
            if !root {
                c2 = Con::none();
            }
        }
        match c2.ub {
            Some(u) if u < 65536 => {
                self.constrained(c2.lb.unwrap_or(0), u, n as i128);
                if n > 0 {
                    if align {
                        self.align();
                    }
                    put(self, 0, n);
                }
            }
            _ => {
                let mut done = 0;
                while n - done >= 16384 {
                    let k = std::cmp::min((n - done) / 16384, 4);
                    self.align();
                    self.uint(0xC0 | k as u128, 8);
                    put(self, done, done + k * 16384);
                    done += k * 16384;
                }
                self.len_unconstrained(n - done);
                put(self, done, n);
            }
        }
    }
    /// Is the content octet-aligned?  (15.9-15.11, 16.6-16.8, 27.5.6-27.5.7)
    pub fn str_aligned(kind: StrKind, c: &Con, n: usize) -> bool {
        if c.ext && !c.admits(n as i128) {
            return true;
        }
        match kind {
            StrKind::Octets => !(c.fixed() && n <= 2),
            StrKind::Bits => !(c.fixed() && n <= 16),
            StrKind::Chars => match c.ub {
                Some(u) if c.fixed() => u > 2,
                Some(u) => u >= 2,
                None => true,
            },
            StrKind::Utf8 => true,
        }
    }
    pub fn string(&mut self, kind: StrKind, c: &Con, content: &[bool]) {
        let unit = if kind == StrKind::Bits { 1 } else { 8 };
        let n = content.len() / unit;
        let c = if kind == StrKind::Utf8 { Con::none() } else { c.clone() };
        let al = W::str_aligned(kind, &c, n);
        self.counted(&c, n, al, |w, a, b| w.bits.extend_from_slice(&content[a * unit..b * unit]));
    }
}

pub fn to_bits(b: &[u8]) -> Vec<bool> {
    let mut v = Vec::with_capacity(b.len() * 8);
    for x in b {
        for i in (0..8).rev() {
            v.push(x >> i & 1 == 1)
        }
    }
    v
}
pub fn to_bytes(b: &[bool]) -> Vec<u8> {
    W { bits: b.to_vec() }.bytes()
}

/// Decoder model.  `canonical` turns false when an accepted encoding is not the
/// one the encoder model produces (a receiver may accept or refuse those).
pub struct R<'a> {
    pub bits: &'a [bool],
    pub pos: usize,
    pub canonical: bool,
}
pub type Res<T> = Result<T, Bad>;
fn inv<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Invalid(s.into()))
}

impl<'a> R<'a> {
    pub fn new(bits: &'a [bool]) -> Self {
        R { bits, pos: 0, canonical: true }
    }
    pub fn at(bits: &'a [bool], pos: usize) -> Self {
        R { bits, pos, canonical: true }
    }
    pub fn bit(&mut self) -> Res<bool> {
        let b = *self.bits.get(self.pos).ok_or(Bad::Short)?;
        self.pos += 1;
        Ok(b)
    }
    pub fn take(&mut self, n: usize) -> Res<&'a [bool]> {
        if n > self.bits.len() - self.pos {
            return Err(Bad::Short);
        }
        let r = &self.bits[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    pub fn uint(&mut self, n: usize) -> Res<u128> {
        let b = self.take(n)?;
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            if *x && n - i > 128 {
                return Err(Bad::Unrepresentable);
            }
            v = v << 1 | *x as u128;
        }
        Ok(v)
    }
    pub fn align(&mut self) -> Res<()> {
        while self.pos % 8 != 0 {
            if self.bit()? {
                return inv("non-zero padding");
            }
        }
        Ok(())
    }
    pub fn constrained(&mut self, lb: i128, ub: i128) -> Res<i128> {
        if ub < lb {
            return inv("empty range");
        }
        let span = ub.wrapping_sub(lb) as u128;
        let off = if span == 0 {
            0
        } else if span < 255 {
            self.uint(128 - span.leading_zeros() as usize)?
        } else if span == 255 {
            self.align()?;
            self.uint(8)?
        } else if span < 65536 {
            self.align()?;
            self.uint(16)?
        } else {
            let n = self.constrained(1, octets_unsigned(span) as i128)? as usize;
            self.align()?;
            let v = self.uint(8 * n)?;
            if octets_unsigned(v) != n {
                self.canonical = false;
            }
            v
        };
        if off > span {
            return inv(format!("value {} above range of {}..{}", off, lb, ub));
        }
        Ok((lb as u128).wrapping_add(off) as i128)
    }
    pub fn semi(&mut self, lb: i128) -> Res<i128> {
        let n = self.whole_len()?;
        if n == 0 {
            // Not an encoding X.691 produces; a receiver may take it as zero.
            self.canonical = false;
            return Ok(lb);
        }
        let v = self.uint(8 * n)?;
        if octets_unsigned(v) != n {
            self.canonical = false;
        }
        if v <= i128::MAX as u128 {
            return lb.checked_add(v as i128).ok_or(Bad::Unrepresentable);
        }
        // Offsets beyond i128: a receiver limited to i128 may refuse them.
        self.canonical = false;
        let room = i128::MAX.wrapping_sub(lb) as u128;
        if v > room {
            return Err(Bad::Unrepresentable);
        }
        Ok((lb as u128).wrapping_add(v) as i128)
    }
    pub fn unconstrained(&mut self) -> Res<i128> {
        let n = self.whole_len()?;
        if n == 0 {
            return inv("integer of zero octets");
        }
        let b = self.take(8 * n)?;
        let neg = b[0];
        let mut v: i128 = if neg { -1 } else { 0 };
        for (i, x) in b.iter().enumerate() {
            if 8 * n - i >= 128 && *x != neg {
                return Err(Bad::Unrepresentable);
            }
            v = v << 1 | *x as i128;
        }
        if octets_signed(v) != n {
            self.canonical = false;
        }
        Ok(v)
    }
    /// Unfragmented length of an integer.
    fn whole_len(&mut self) -> Res<usize> {
        match self.len_piece()? {
            (n, false) => Ok(n),
            (_, true) => Err(Bad::Unrepresentable),
        }
    }
    /// One length octet group: (count, is a fragment)
    pub fn len_piece(&mut self) -> Res<(usize, bool)> {
        self.align()?;
        if !self.bit()? {
            return Ok((self.uint(7)? as usize, false));
        }
        if !self.bit()? {
            let n = self.uint(14)? as usize;
            if n < 128 {
                self.canonical = false;
            }
            return Ok((n, false));
        }
        let k = self.uint(6)? as usize;
        if !(1..=4).contains(&k) {
            return inv("fragment multiplier");
        }
        Ok((k * 16384, true))
    }
    pub fn normally_small(&mut self) -> Res<i128> {
        if !self.bit()? {
            Ok(self.uint(6)? as i128)
        } else {
            let v = self.semi(0)?;
            if v < 64 {
                self.canonical = false;
            }
            Ok(v)
        }
    }
    pub fn normally_small_len(&mut self) -> Res<(usize, bool)> {
        if !self.bit()? {
            Ok((self.uint(6)? as usize + 1, false))
        } else {
            let (n, f) = self.len_piece()?;
            if n <= 64 {
                self.canonical = false;
            }
            Ok((n, f))
        }
    }
    /// (value, is extension)
    pub fn integer(&mut self, c: &Con) -> Res<(i128, bool)> {
        if c.ext && self.bit()? {
            let v = self.unconstrained()?;
            if c.admits(v) {
                self.canonical = false;
            }
            return Ok((v, true));
        }
        Ok((
            match (c.lb, c.ub) {
                (Some(l), Some(u)) => self.constrained(l, u)?,
                (Some(l), None) => self.semi(l)?,
                (None, ub) => {
                    let v = self.unconstrained()?;
                    if ub.map(|u| v > u).unwrap_or(false) {
                        return inv("above upper bound");
                    }
                    v
                }
            },
            false,
        ))
    }
    /// Counted items; `get(r, n)` reads n items.  Returns the total.
    pub fn counted(&mut self, c: &Con, align: impl Fn(bool, usize) -> bool, mut get: impl FnMut(&mut R<'a>, usize) -> Res<()>) -> Res<usize> {
        let extended = c.ext && self.bit()?;
        let c2 = if extended { Con::none() } else { c.clone() };
        match c2.ub {
            Some(u) if u < 65536 => {
                let n = self.constrained(c2.lb.unwrap_or(0), u)? as usize;
                if n > 0 {
                    if align(extended, n) {
                        self.align()?;
                    }
                    get(self, n)?;
                }
                Ok(n)
            }
            _ => {
                let mut total = 0usize;
                let mut prev = 4 * 16384;
                loop {
                    let (n, frag) = self.len_piece()?;
                    if frag && prev < 4 * 16384 {
                        self.canonical = false;
                    }
                    if frag {
                        prev = n;
                    }
                    get(self, n)?;
                    total += n;
                    if !frag {
                        break;
                    }
                }
                if !extended && !c2.admits(total as i128) {
                    return inv(format!("size {} outside constraint", total));
                }
                if extended && c.admits(total as i128) {
                    self.canonical = false;
                }
                Ok(total)
            }
        }
    }
    pub fn string(&mut self, kind: StrKind, c: &Con) -> Res<Vec<bool>> {
        let unit = if kind == StrKind::Bits { 1 } else { 8 };
        let c = if kind == StrKind::Utf8 { Con::none() } else { c.clone() };
        let mut out = vec![];
        let c3 = c.clone();
        self.counted(
            &c,
            |ext, n| if ext { true } else { W::str_aligned(kind, &Con { ext: false, ..c3.clone() }, n) },
            |r, n| {
                out.extend_from_slice(r.take(n * unit)?);
                Ok(())
            },
        )?;
        if matches!(kind, StrKind::Chars | StrKind::Utf8) {
            match std::str::from_utf8(&to_bytes(&out)) {
                Err(_) => return inv("not UTF-8"),
                Ok(s) if kind == StrKind::Chars && !s.is_ascii() => self.canonical = false,
                _ => {}
            }
        }
        Ok(out)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    // Octets known from published S1AP / NGAP traces and X.691 annex examples.
    #[test]
    fn known_encodings() {
        let mut w = W::new();
        w.integer(&Con::new(Some(0), Some(4294967295), false), 0xff8e3b7a);
        assert_eq!(w.bytes(), [0xc0, 0xff, 0x8e, 0x3b, 0x7a]);
        let mut w = W::new();
        w.integer(&Con::none(), -128);
        assert_eq!(w.bytes(), [1, 0x80]);
        let mut w = W::new();
        w.integer(&Con::new(Some(-1), None, false), 255);
        assert_eq!(w.bytes(), [2, 1, 0]);
        let mut w = W::new();
        w.integer(&Con::new(Some(1), None, false), 256);
        assert_eq!(w.bytes(), [1, 255]);
    }
}
