//! Tape based generation: every choice is recorded, so a case can be replayed, mutated and shrunk.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
}

/// Interesting values: literals found in the library's sources plus constants it compared with at run time.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

pub struct Gen<'a> {
    base: &'a [u64],
    pub tape: Vec<u64>,
    pos: usize,
    pub rng: Rng,
    pub dict: &'a Dict,
    pub rtdict: &'a [u64],
    /// past the end of the base tape: draw zeros instead of random values (replays and shrinking)
    pub zeros: bool,
}

impl<'a> Gen<'a> {
    pub fn new(base: &'a [u64], seed: u64, dict: &'a Dict, rtdict: &'a [u64]) -> Self {
        Gen { base, tape: Vec::new(), pos: 0, rng: Rng(seed), dict, rtdict, zeros: false }
    }
    #[inline]
    fn draw(&mut self, max: u64, fresh: impl FnOnce(&mut Rng, &Dict, &[u64]) -> u64) -> u64 {
        let mut v = if self.pos < self.base.len() {
            self.base[self.pos]
        } else if self.zeros {
            0
        } else {
            fresh(&mut self.rng, self.dict, self.rtdict)
        };
        if v > max {
            v %= max + 1; // max is not u64::MAX here
        }
        self.pos += 1;
        self.tape.push(v);
        crate::rt::slot_push(v);
        v
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        let m = n.max(1);
        self.draw(m - 1, |r, _, _| r.below(m))
    }
    pub fn ix(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'b, T>(&mut self, s: &'b [T]) -> &'b T {
        let i = self.ix(s.len());
        &s[i]
    }
    /// Integer in 0..=max with a distribution that favours small, boundary and dictionary values.
    pub fn int(&mut self, max: u64) -> u64 {
        self.draw(max, |r, d, rt| {
            let v = match r.below(100) {
                0..=19 => r.below(17),
                20..=34 => {
                    let bits = 64 - max.leading_zeros() as u64;
                    let k = r.below(bits + 1);
                    let p = if k >= 64 { 0u64 } else { 1u64 << k };
                    p.wrapping_add(r.below(5)).wrapping_sub(2)
                }
                35..=44 => max.wrapping_sub(r.below(4)),
                45..=54 if !d.ints.is_empty() => d.ints[r.below(d.ints.len() as u64) as usize].wrapping_add(r.below(3)).wrapping_sub(1),
                55..=66 if !rt.is_empty() => rt[r.below(rt.len() as u64) as usize].wrapping_add(r.below(3)).wrapping_sub(1),
                _ => r.next(),
            };
            if v > max { if max == u64::MAX { v } else { r.next() % (max + 1) } } else { v }
        })
    }
    pub fn u8(&mut self) -> u8 {
        self.int(255) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.int(65535) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.int(u32::MAX as u64) as u32
    }
    /// Length in 0..=max, mostly small.
    pub fn len(&mut self, max: usize) -> usize {
        let m = max as u64;
        self.draw(m, |r, d, rt| {
            let v = match r.below(100) {
                0..=54 => r.below(9),
                55..=74 => r.below(40),
                75..=84 => r.below(300),
                85..=88 => [63u64, 64, 127, 128, 253, 254, 255, 256, 257, 31, 32, 33, 511, 512][r.below(14) as usize],
                89..=91 if !d.ints.is_empty() => d.ints[r.below(d.ints.len() as u64) as usize].wrapping_add(r.below(3)).wrapping_sub(1),
                92..=94 if !rt.is_empty() => rt[r.below(rt.len() as u64) as usize].wrapping_add(r.below(3)).wrapping_sub(1),
                95 => m.wrapping_sub(r.below(3)),
                _ => r.below(64),
            };
            if v > m { r.below(m.min(64) + 1) } else { v }
        }) as usize
    }
    /// n raw bytes; style: random, ascii, zeros, ramp or dictionary text
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        let style = self.below(8);
        match style {
            0 => out.resize(n, 0),
            1 => {
                let b = self.below(256) as u8;
                out.resize(n, b)
            }
            2 => {
                while out.len() < n {
                    let s = self.dict_str();
                    out.extend_from_slice(&s);
                    if s.is_empty() {
                        out.push(b'a');
                    }
                }
            }
            3 => {
                // small bytes: looks like lengths
                while out.len() < n {
                    let v = self.draw(u64::MAX, |r, _, _| r.next() & 0x0707_0707_0707_0707);
                    out.extend_from_slice(&v.to_be_bytes());
                }
            }
            _ => {
                while out.len() < n {
                    let v = self.draw(u64::MAX, |r, _, _| r.next());
                    out.extend_from_slice(&v.to_be_bytes());
                }
            }
        }
        out.truncate(n);
        if n > 0 && self.chance(1, 6) {
            let i = self.ix(n);
            out[i] = self.u8();
        }
        out
    }
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        self.bytes(n)
    }
    pub fn dict_str(&mut self) -> Vec<u8> {
        if self.dict.strs.is_empty() {
            return b"local".to_vec();
        }
        let n = self.dict.strs.len();
        let i = self.ix(n);
        self.dict.strs[i].clone()
    }
    /// Valid UTF-8 text of at most max bytes.
    pub fn text(&mut self, max: usize) -> String {
        let mut s = String::new();
        if self.chance(1, 8) {
            if let Ok(t) = String::from_utf8(self.dict_str()) {
                s = t;
            }
        } else {
            let n = self.len(max);
            let style = self.below(4);
            while s.len() < n {
                let v = self.draw(u64::MAX, |r, _, _| r.next());
                for b in v.to_be_bytes() {
                    let c = match style {
                        0 => (b'a' + b % 26) as char,
                        1 => (b % 128) as char,
                        2 => char::from_u32(0x80 + (b as u32) * 37).unwrap_or('x'),
                        _ => char::from_u32([0x61, 0xe9, 0x20ac, 0x1f600, 0, 0x7f, 0x2e, 0x41][b as usize % 8]).unwrap(),
                    };
                    s.push(c);
                }
            }
            while s.len() > n {
                s.pop();
            }
        }
        while s.len() > max {
            s.pop();
        }
        s
    }
}

/// Mutates a tape.
pub fn mutate(r: &mut Rng, tape: &[u64], other: &[u64], cmps: &[(u64, u64)], dict: &Dict, rt: &[u64]) -> Vec<u64> {
    let mut t = tape.to_vec();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len() as u64) as usize;
        match r.below(14) {
            0 => t[i] = r.next(),
            1 => t[i] = t[i].wrapping_add(1),
            2 => t[i] = t[i].wrapping_sub(1),
            3 => t[i] ^= 1 << r.below(64),
            4 => t[i] = r.below(256),
            5 => {
                if !dict.ints.is_empty() {
                    t[i] = dict.ints[r.below(dict.ints.len() as u64) as usize]
                }
            }
            6 => {
                if !rt.is_empty() {
                    t[i] = rt[r.below(rt.len() as u64) as usize]
                }
            }
            7 | 8 | 9 => {
                // input to state: an operand the library compared occurs on the tape; put the other side there
                if !cmps.is_empty() {
                    let (a, b) = cmps[r.below(cmps.len() as u64) as usize];
                    let delta = [0u64, 0, 0, 1, u64::MAX][r.below(5) as usize];
                    let (from, to) = if r.below(2) == 0 { (a, b) } else { (b, a) };
                    let hits: Vec<usize> = t.iter().enumerate().filter(|(_, v)| **v == from).map(|(i, _)| i).collect();
                    if !hits.is_empty() {
                        let k = hits[r.below(hits.len() as u64) as usize];
                        t[k] = to.wrapping_add(delta);
                    } else {
                        t[i] = to.wrapping_add(delta);
                    }
                }
            }
            10 => {
                let j = (i + 1 + r.below(8) as usize).min(t.len());
                t.drain(i..j);
            }
            11 => {
                let j = (i + 1 + r.below(12) as usize).min(t.len());
                let c: Vec<u64> = t[i..j].to_vec();
                let at = r.below(t.len() as u64 + 1) as usize;
                t.splice(at..at, c);
            }
            12 => {
                if !other.is_empty() {
                    let a = r.below(other.len() as u64) as usize;
                    let b = (a + 1 + r.below(40) as usize).min(other.len());
                    let e = (i + b - a).min(t.len());
                    t.splice(i..e, other[a..b].iter().copied());
                }
            }
            _ => t.truncate(i + 1),
        }
    }
    t.truncate(30_000);
    t
}
