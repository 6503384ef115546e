//! Hostile and unusual byte strings.
use crate::gen::Gen;
use crate::model::*;

/// Offsets where a label or name starts, as far as a quick scan can tell (used for pointers).
fn ptr_target(g: &mut Gen, names: &[usize], len: usize, at: usize) -> usize {
    match g.below(10) {
        0..=4 if !names.is_empty() => *g.pick(names),
        5 => at,
        6 => at.saturating_sub(1 + g.ix(4)),
        7 => at + 1 + g.ix(6),
        8 => g.ix(len + 1),
        _ => g.int(0x3fff) as usize,
    }
    .min(0x3fff)
}

pub fn put16(b: &mut [u8], at: usize, v: u16) {
    if at + 2 <= b.len() {
        b[at..at + 2].copy_from_slice(&v.to_be_bytes());
    }
}
pub fn get16(b: &[u8], at: usize) -> u16 {
    u16::from_be_bytes([b[at], b[at + 1]])
}

/// A legal name with many labels followed by chains of pointers.
fn pointer_maze(g: &mut Gen, b: &mut Vec<u8>, starts: &mut Vec<usize>) {
    let n = g.range(1, 30);
    for _ in 0..n {
        starts.push(b.len());
        let many = if g.chance(1, 12) { g.range(5, 130) } else { 0 };
        for _ in 0..many {
            b.extend_from_slice(&[1, b'z']);
        }
        for _ in 0..g.below(4) {
            let l = match g.below(12) {
                0 => 63,
                1 => 64 + g.ix(128),
                2 => g.ix(64),
                _ => 1 + g.ix(3),
            };
            b.push(l as u8);
            let k = l.min(63);
            for _ in 0..k {
                b.push(b'a' + (b.len() % 26) as u8);
            }
        }
        match g.below(5) {
            0 => b.push(0),
            1 => {}
            _ => {
                let at = b.len();
                let t = ptr_target(g, starts, at + 10, at);
                b.extend_from_slice(&(0xC000 | t as u16).to_be_bytes());
            }
        }
    }
}

pub fn small_opt(g: &mut Gen) -> Opt {
    Opt { max_blob: *g.pick(&[8usize, 24, 60, 300]), constructible: false, raw_flags: true }
}

/// A well-formed message, compressed at random.
pub fn good(g: &mut Gen) -> (MMsg, Encoded) {
    let o = small_opt(g);
    let m = gen_msg(g, &o);
    let e = if g.chance(2, 3) { encode(&m, &mut Comp::Random(g)) } else { encode(&m, &mut Comp::None) };
    (m, e)
}

/// Applies one corruption that knows the structure of the message.
pub fn corrupt(g: &mut Gen, e: &mut Encoded) {
    let n = e.bytes.len();
    if n == 0 {
        return;
    }
    let names: Vec<usize> = e.marks.iter().filter(|m| m.k == K::Name).map(|m| m.off).collect();
    match g.below(16) {
        0..=5 if !e.marks.is_empty() => {
            // a field gets another value
            let m = g.pick(&e.marks).clone();
            match m.k {
                K::Name if m.off + 2 <= n => match g.below(4) {
                    0 => {
                        let t = ptr_target(g, &names, n, m.off);
                        put16(&mut e.bytes, m.off, 0xC000 | t as u16)
                    }
                    1 => e.bytes[m.off] = g.u8(),
                    2 => {
                        let at = m.off + g.ix(m.len);
                        e.bytes[at.min(n - 1)] = g.u8();
                    }
                    _ => {
                        // last octets of the name become a pointer
                        if m.len >= 2 {
                            let at = m.off + m.len - 2;
                            let t = ptr_target(g, &names, n, at);
                            put16(&mut e.bytes, at, 0xC000 | t as u16);
                        }
                    }
                },
                K::RdLen | K::Count if n >= 2 && m.off < n => {
                    let v = get16(&e.bytes, m.off.min(n - 2));
                    let w = match g.below(6) {
                        0 => v.wrapping_add(1 + g.below(4) as u16),
                        1 => v.wrapping_sub(1 + g.below(4) as u16),
                        2 => 0,
                        3 => (n - m.off) as u16,
                        _ => g.u16(),
                    };
                    put16(&mut e.bytes, m.off, w);
                }
                K::RData => {
                    if m.len > 0 {
                        let at = m.off + g.ix(m.len);
                        if at < n {
                            e.bytes[at] = g.u8();
                        }
                    }
                }
                _ => {
                    let at = m.off + g.ix(m.len.max(1));
                    if at < n {
                        match g.below(3) {
                            0 => e.bytes[at] = e.bytes[at].wrapping_add(1),
                            1 => e.bytes[at] = e.bytes[at].wrapping_sub(1),
                            _ => e.bytes[at] = g.u8(),
                        }
                    }
                    if m.len == 2 && g.chance(1, 2) {
                        put16(&mut e.bytes, m.off, if g.flip() { g.u16() } else { *g.pick(qtypes()) });
                    }
                }
            }
        }
        6 | 7 => {
            let i = g.ix(n);
            e.bytes[i] = g.u8();
        }
        8 => {
            let i = g.ix(n);
            e.bytes[i] ^= 1 << g.below(8);
        }
        9 => {
            let i = g.ix(n + 1);
            e.bytes.truncate(i);
        }
        10 => {
            let i = g.ix(n + 1);
            let k = g.len(40);
            let v = g.bytes(k);
            e.bytes.splice(i..i, v);
        }
        11 => {
            let i = g.ix(n);
            let j = (i + 1 + g.ix(12)).min(n);
            e.bytes.drain(i..j);
        }
        12 => {
            let i = g.ix(n);
            let t = ptr_target(g, &names, n, i);
            put16(&mut e.bytes, i, 0xC000 | t as u16);
        }
        13 => {
            let i = g.ix(n);
            let v = g.u16();
            put16(&mut e.bytes, i, v);
        }
        14 => {
            // copy a part over another
            let (i, j) = (g.ix(n), g.ix(n));
            let k = 1 + g.ix(40);
            for x in 0..k {
                if i + x < n && j + x < n {
                    e.bytes[j + x] = e.bytes[i + x];
                }
            }
        }
        _ => {
            let k = g.len(60);
            let v = g.bytes(k);
            e.bytes.extend(v);
        }
    }
}

pub fn header_bytes(g: &mut Gen, counts: [u16; 4]) -> Vec<u8> {
    let mut b = vec![];
    b.extend_from_slice(&g.u16().to_be_bytes());
    let f = if g.flip() { g.u16() & 0xfff0 | g.below(11) as u16 } else { g.u16() };
    b.extend_from_slice(&f.to_be_bytes());
    for c in counts {
        b.extend_from_slice(&c.to_be_bytes());
    }
    b
}

/// Bytes to be parsed as a message.
pub fn hostile(g: &mut Gen) -> Vec<u8> {
    let mut b = match g.below(20) {
        0 => g.blob(80),
        1 => {
            let c = [g.below(3) as u16, g.below(3) as u16, g.below(3) as u16, g.below(3) as u16];
            let mut b = header_bytes(g, c);
            let t = g.blob(300);
            b.extend(t);
            b
        }
        2 => {
            let c = [g.u16(), g.u16(), g.u16(), g.u16()];
            let mut b = header_bytes(g, c);
            let t = g.blob(60);
            b.extend(t);
            b
        }
        3 => {
            // questions whose names are a maze of labels and pointers
            let mut b = header_bytes(g, [0; 4]);
            let mut starts = vec![];
            pointer_maze(g, &mut b, &mut starts);
            let q = g.range(1, 4);
            put16(&mut b, 4, q as u16);
            b
        }
        4 => {
            // maze in the RDATA of the first record, names of later records point into it
            let mut b = header_bytes(g, [0, 0, 0, 0]);
            b.extend_from_slice(&[0, 0, 10, 0, 1, 0, 0, 0, 0, 0, 0]);
            let at = b.len();
            let mut starts = vec![];
            pointer_maze(g, &mut b, &mut starts);
            let l = (b.len() - at) as u16;
            put16(&mut b, at - 2, l);
            let k = g.range(1, 6);
            for _ in 0..k {
                let here = b.len();
                let t = ptr_target(g, &starts, b.len(), here);
                b.extend_from_slice(&(0xC000 | t as u16).to_be_bytes());
                let ti = *g.pick(types());
                b.extend_from_slice(&ti.code.to_be_bytes());
                b.extend_from_slice(&[0, 1, 0, 0, 0, 9]);
                if g.flip() && !starts.is_empty() {
                    let s = *g.pick(&starts);
                    b.extend_from_slice(&[0, 2]);
                    b.extend_from_slice(&(0xC000 | s as u16).to_be_bytes());
                } else {
                    let mut pool = vec![];
                    let r = gen_rdata(g, ti, &mut pool, &Opt { max_blob: 20, ..Default::default() });
                    let r = encode_rdata(ti.code, &r);
                    b.extend_from_slice(&(r.len() as u16).to_be_bytes());
                    b.extend(r);
                }
            }
            put16(&mut b, 6, 1 + k as u16);
            b
        }
        5 => {
            // one record of a chosen type with raw RDATA
            let mut b = header_bytes(g, [0, 1, 0, 0]);
            b.push(0);
            let ti = *g.pick(types());
            b.extend_from_slice(&ti.code.to_be_bytes());
            b.extend_from_slice(&[0, 1, 0, 0, 0, 9]);
            let r = rdata_bytes(g, ti);
            b.extend_from_slice(&(r.len() as u16).to_be_bytes());
            b.extend(r);
            b
        }
        _ => {
            let (_, mut e) = good(g);
            let k = match g.below(10) {
                0 => 0,
                1..=6 => 1,
                7 | 8 => g.range(2, 4),
                _ => g.range(4, 12),
            };
            for _ in 0..k {
                corrupt(g, &mut e);
            }
            e.bytes
        }
    };
    b.truncate(70_000);
    b
}

/// RDATA for the given type: well formed, corrupted or arbitrary.
pub fn rdata_bytes(g: &mut Gen, ti: &TypeInfo) -> Vec<u8> {
    if g.chance(1, 6) {
        return g.blob(120);
    }
    let mut pool = vec![];
    let o = Opt { max_blob: *g.pick(&[6usize, 20, 60, 300]), ..Default::default() };
    let f = gen_rdata(g, ti, &mut pool, &o);
    let mut b = encode_rdata(ti.code, &f);
    if matches!(ti.schema.last(), Some(S::Bitmap)) && g.flip() {
        // hostile windows after the fixed part
        let fixed = b.len() - encode_bitmap(match f.last() { Some(F::Bitmap(t)) => t, _ => unreachable!() }).len();
        b.truncate(fixed);
        for _ in 0..g.range(1, 3) {
            b.push(match g.below(5) { 0 => 0, 1 => 1, 2 => 255, _ => g.u8() });
            let n = match g.below(4) { 0 => 1, 1 => 32, 2 => *g.pick(&[0u8, 2, 31, 33, 64, 128, 254, 255]), _ => g.u8() };
            b.push(n);
            let mut w = vec![0; n as usize];
            for _ in 0..g.range(0, 3) {
                if n > 0 {
                    let i = if g.flip() { n as usize - 1 } else { g.ix(n as usize) };
                    w[i] |= match g.below(3) { 0 => 1, 1 => 0x80, _ => 1 << g.below(8) };
                }
            }
            if g.chance(1, 8) {
                let k = g.ix(w.len() + 1);
                w.truncate(k);
            }
            b.extend(w);
        }
        if g.flip() {
            return b;
        }
    }
    let k = match g.below(6) {
        0 => 0,
        1..=3 => 1,
        _ => g.range(2, 5),
    };
    for _ in 0..k {
        let n = b.len();
        match g.below(8) {
            0 => b.truncate(g.ix(n + 1)),
            1 => {
                let k = g.len(20);
                let v = g.bytes(k);
                b.extend(v)
            }
            2 if n > 0 => {
                let i = g.ix(n);
                b[i] = b[i].wrapping_add(1)
            }
            3 if n > 0 => {
                let i = g.ix(n);
                b[i] = b[i].wrapping_sub(1)
            }
            4 if n > 1 => {
                let i = g.ix(n - 1);
                let v = g.u16();
                put16(&mut b, i, v)
            }
            5 if n > 0 => {
                let i = g.ix(n);
                b.remove(i);
            }
            6 => {
                let i = g.ix(n + 1);
                let v = g.u8();
                b.insert(i, v)
            }
            _ if n > 0 => {
                let i = g.ix(n);
                b[i] = g.u8()
            }
            _ => {}
        }
    }
    b
}

/// A buffer and a position to read a name from.
pub fn name_buffer(g: &mut Gen) -> (Vec<u8>, usize) {
    let mut b = vec![];
    let pre = g.len(30);
    if g.flip() {
        let v = g.bytes(pre);
        b.extend(v);
    }
    let mut starts = vec![];
    match g.below(8) {
        0..=3 => pointer_maze(g, &mut b, &mut starts),
        4 => {
            // chain of pointers ending in a name
            starts.push(b.len());
            let mut pool = vec![];
            let n = gen_name(g, &mut pool);
            b.extend(n.wire());
            for _ in 0..g.range(1, 200) {
                let p = *starts.last().unwrap();
                starts.push(b.len());
                b.extend_from_slice(&(0xC000 | p as u16).to_be_bytes());
            }
        }
        5 => {
            // suffixes and prefixes that add up around 255 octets
            let mut pool = vec![];
            for _ in 0..g.range(2, 5) {
                let at = b.len();
                let k = g.range(1, 4);
                for _ in 0..k {
                    let l = match g.below(3) {
                        0 => 63,
                        1 => 1 + g.ix(63),
                        _ => 60,
                    };
                    b.push(l as u8);
                    b.resize(b.len() + l, b'x');
                }
                if let Some(p) = starts.last() {
                    let p: usize = *p;
                    b.extend_from_slice(&(0xC000 | p as u16).to_be_bytes());
                } else {
                    b.push(0);
                }
                starts.push(at);
            }
            let _ = gen_name(g, &mut pool);
        }
        6 => {
            // far offsets
            let k = *g.pick(&[0x3f0usize, 0xff, 0x100, 0x1ff, 0x3ff0, 0x3fff, 0x4000, 0x1000]);
            b.resize(b.len() + k, 1);
            pointer_maze(g, &mut b, &mut starts);
        }
        _ => {
            let mut pool = vec![];
            for _ in 0..g.range(1, 4) {
                starts.push(b.len());
                let n = gen_name(g, &mut pool);
                b.extend(n.wire());
            }
        }
    }
    let tail = g.len(12);
    let v = g.bytes(tail);
    b.extend(v);
    if g.chance(1, 5) {
        let n = b.len();
        b.truncate(g.ix(n + 1));
    }
    let pos = match g.below(8) {
        0 => g.ix(b.len() + 1),
        _ if !starts.is_empty() => {
            if g.flip() {
                *starts.last().unwrap()
            } else {
                *g.pick(&starts)
            }
        }
        _ => 0,
    };
    let pos = pos.min(b.len());
    (b, pos)
}
