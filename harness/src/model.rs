//! Independent model of DNS messages: data types, schemas of all record types, generator, reference encoder and
//! reference decoder. Nothing in this file calls the library.
use crate::gen::Gen;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Labels = Vec<Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct MName(pub Labels);
impl MName {
    pub fn wire_len(&self) -> usize {
        1 + self.0.iter().filter(|l| !l.is_empty()).map(|l| l.len() + 1).sum::<usize>()
    }
    pub fn wire(&self) -> Vec<u8> {
        let mut o = vec![];
        for l in self.0.iter().filter(|l| !l.is_empty()) {
            o.push(l.len() as u8);
            o.extend_from_slice(l);
        }
        o.push(0);
        o
    }
}

/// Field values of RDATA, in wire order.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum F {
    U(u8, u64),                       // width in octets, value
    Raw(Vec<u8>),                     // fixed size
    Str(Vec<u8>),                     // one octet length prefix
    Name(MName),                      //
    Rest(Vec<u8>),                    // to the end of the RDATA
    Lp16(Vec<u8>),                    // two octet length prefix
    StrList(Vec<Vec<u8>>),            // character strings to the end
    Opts(BTreeMap<u16, Vec<u8>>),     // EDNS options
    Bitmap(BTreeSet<u16>),            //
    Apl(u16, u8, bool, Vec<u8>),      // family, prefix, negation, full address
    Gw(u8, u8, u8, Vec<u8>, MName),   // precedence, gateway type, algorithm, address, name
    Hip(Vec<u8>, u8, Vec<u8>, Vec<MName>),
    Params(BTreeMap<u16, Vec<u8>>),   // SVCB: key -> canonical value
    Caa(bool, Vec<u8>),               // critical flag, tag
}

#[derive(Clone, Copy, Debug)]
pub enum D {
    Any,
    Max(u64),
    Range(u64, u64),
    In(&'static [u64]),
    Type, // a supported record type
}
#[derive(Clone, Copy, Debug)]
pub enum S {
    U(u8, D),
    Raw(usize),
    Str,
    StrUtf8,
    Flags, // NAPTR flags
    NameC,
    NameU,
    Rest,
    Lp16,
    StrList,
    Opts,
    Bitmap,
    Apl,
    Gw,
    Hip,
    Params,
    Caa,
}
const ALG: D = D::In(&[1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254]);
const DIG: D = D::In(&[1, 2, 4, 5]);

pub struct TypeInfo {
    pub code: u16,
    pub name: &'static str,
    pub dnssec: bool,
    pub schema: &'static [S],
}
pub const DNSSEC_TYPES: &[u16] = &[43, 46, 47, 48, 59, 60];
pub static TYPES: &[TypeInfo] = &[
    TypeInfo { code: 1, name: "A", dnssec: false, schema: &[S::Raw(4)] },
    TypeInfo { code: 2, name: "NS", dnssec: false, schema: &[S::NameC] },
    TypeInfo { code: 5, name: "CNAME", dnssec: false, schema: &[S::NameC] },
    TypeInfo { code: 6, name: "SOA", dnssec: false, schema: &[S::NameC, S::NameC, S::U(4, D::Any), S::U(4, D::Any), S::U(4, D::Any), S::U(4, D::Any), S::U(4, D::Any)] },
    TypeInfo { code: 10, name: "NULL", dnssec: false, schema: &[S::Rest] },
    TypeInfo { code: 11, name: "WKS", dnssec: false, schema: &[S::Raw(4), S::U(1, D::Any), S::Rest] },
    TypeInfo { code: 12, name: "PTR", dnssec: false, schema: &[S::NameC] },
    TypeInfo { code: 13, name: "HINFO", dnssec: false, schema: &[S::Str, S::Str] },
    TypeInfo { code: 14, name: "MINFO", dnssec: false, schema: &[S::NameC, S::NameC] },
    TypeInfo { code: 15, name: "MX", dnssec: false, schema: &[S::U(2, D::Any), S::NameC] },
    TypeInfo { code: 16, name: "TXT", dnssec: false, schema: &[S::StrList] },
    TypeInfo { code: 28, name: "AAAA", dnssec: false, schema: &[S::Raw(16)] },
    TypeInfo { code: 29, name: "LOC", dnssec: false, schema: &[S::U(1, D::Any), S::U(1, D::Any), S::U(1, D::Any), S::U(1, D::Any), S::U(4, D::Any), S::U(4, D::Any), S::U(4, D::Any)] },
    TypeInfo { code: 33, name: "SRV", dnssec: false, schema: &[S::U(2, D::Any), S::U(2, D::Any), S::U(2, D::Any), S::NameC] },
    TypeInfo { code: 35, name: "NAPTR", dnssec: false, schema: &[S::U(2, D::Any), S::U(2, D::Any), S::Flags, S::Str, S::StrUtf8, S::NameC] },
    TypeInfo { code: 41, name: "OPT", dnssec: false, schema: &[S::Opts] },
    TypeInfo { code: 42, name: "APL", dnssec: false, schema: &[S::Apl] },
    TypeInfo { code: 43, name: "DS", dnssec: true, schema: &[S::U(2, D::Any), S::U(1, ALG), S::U(1, DIG), S::Rest] },
    TypeInfo { code: 44, name: "SSHFP", dnssec: false, schema: &[S::U(1, D::Max(5)), S::U(1, D::Max(1)), S::Rest] },
    TypeInfo { code: 45, name: "IPSECKEY", dnssec: false, schema: &[S::Gw, S::Rest] },
    TypeInfo { code: 46, name: "RRSIG", dnssec: true, schema: &[S::U(2, D::Type), S::U(1, ALG), S::U(1, D::Any), S::U(4, D::Any), S::U(4, D::Any), S::U(4, D::Any), S::U(2, D::Any), S::NameU, S::Rest] },
    TypeInfo { code: 47, name: "NSEC", dnssec: true, schema: &[S::NameC, S::Bitmap] },
    TypeInfo { code: 48, name: "DNSKEY", dnssec: true, schema: &[S::U(2, D::Any), S::U(1, D::Any), S::U(1, ALG), S::Rest] },
    TypeInfo { code: 49, name: "DHCID", dnssec: false, schema: &[S::U(2, D::Max(2)), S::U(1, D::Range(1, 1)), S::Rest] },
    TypeInfo { code: 52, name: "TLSA", dnssec: false, schema: &[S::U(1, D::Max(3)), S::U(1, D::Max(1)), S::U(1, D::Max(2)), S::Rest] },
    TypeInfo { code: 55, name: "HIP", dnssec: false, schema: &[S::Hip] },
    TypeInfo { code: 59, name: "CDS", dnssec: true, schema: &[S::U(2, D::Any), S::U(1, ALG), S::U(1, DIG), S::Rest] },
    TypeInfo { code: 60, name: "CDNSKEY", dnssec: true, schema: &[S::U(2, D::Any), S::U(1, D::Any), S::U(1, ALG), S::Rest] },
    TypeInfo { code: 61, name: "OPENPGPKEY", dnssec: false, schema: &[S::Rest] },
    TypeInfo { code: 62, name: "CSYNC", dnssec: false, schema: &[S::U(4, D::Any), S::U(2, D::Max(3)), S::Bitmap] },
    TypeInfo { code: 64, name: "SVCB", dnssec: false, schema: &[S::U(2, D::Any), S::NameU, S::Params] },
    TypeInfo { code: 108, name: "EUI48", dnssec: false, schema: &[S::Raw(6)] },
    TypeInfo { code: 109, name: "EUI64", dnssec: false, schema: &[S::Raw(8)] },
    TypeInfo { code: 249, name: "TKEY", dnssec: false, schema: &[S::NameU, S::U(4, D::Any), S::U(4, D::Any), S::U(2, D::Range(1, 65534)), S::U(2, D::Max(21)), S::Lp16, S::Lp16] },
    TypeInfo { code: 250, name: "TSIG", dnssec: false, schema: &[S::NameU, S::U(6, D::Any), S::U(2, D::Any), S::Lp16, S::U(2, D::Any), S::U(2, D::In(&[0, 16, 17, 18, 22])), S::Lp16] },
    TypeInfo { code: 256, name: "URI", dnssec: false, schema: &[S::U(2, D::Any), S::U(2, D::Any), S::Rest] },
    TypeInfo { code: 257, name: "CAA", dnssec: false, schema: &[S::Caa, S::Rest] },
];
pub const DNSSEC: bool = cfg!(feature = "dnssec");
pub const MDNS: bool = cfg!(feature = "mdns");
pub const QONLY: &[u16] = &[252, 253, 254, 255];
pub const QCLASSES: &[u16] = &[1, 2, 3, 4, 254, 255];

/// Only what all feature combinations have in common (C28).
pub static COMMON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn dnssec_on() -> bool {
    DNSSEC && !COMMON.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn mdns_on() -> bool {
    MDNS && !COMMON.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn type_info(code: u16) -> Option<&'static TypeInfo> {
    TYPES.iter().find(|t| t.code == code && (!t.dnssec || dnssec_on()))
}
pub fn types() -> &'static [&'static TypeInfo] {
    static T: std::sync::OnceLock<Vec<&'static TypeInfo>> = std::sync::OnceLock::new();
    T.get_or_init(|| TYPES.iter().filter(|t| !t.dnssec || dnssec_on()).collect())
}
pub fn qtypes() -> &'static [u16] {
    static T: std::sync::OnceLock<Vec<u16>> = std::sync::OnceLock::new();
    T.get_or_init(|| types().iter().map(|t| t.code).chain(QONLY.iter().copied()).collect())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MHeader {
    pub id: u16,
    pub qr: bool,
    pub opcode: u8,
    pub aa: bool,
    pub tc: bool,
    pub rd: bool,
    pub ra: bool,
    pub z: u8,
    pub rcode: u8,
}
impl MHeader {
    pub fn flags(&self) -> u16 {
        (self.qr as u16) << 15 | (self.opcode as u16) << 11 | (self.aa as u16) << 10 | (self.tc as u16) << 9 | (self.rd as u16) << 8 | (self.ra as u16) << 7 | (self.z as u16) << 4 | self.rcode as u16
    }
    pub fn from_flags(id: u16, f: u16) -> Self {
        MHeader { id, qr: f >> 15 & 1 == 1, opcode: (f >> 11 & 15) as u8, aa: f >> 10 & 1 == 1, tc: f >> 9 & 1 == 1, rd: f >> 8 & 1 == 1, ra: f >> 7 & 1 == 1, z: (f >> 4 & 7) as u8, rcode: (f & 15) as u8 }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MQuestion {
    pub name: MName,
    pub qtype: u16,
    pub class: u16,
    pub unicast: bool, // top bit of the class on the wire
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MRecord {
    pub name: MName,
    pub rtype: u16,
    pub class: u16, // 16 bits for OPT, else 15
    pub flush: bool,
    pub ttl: u32,
    pub rdata: Vec<F>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MMsg {
    pub h: MHeader,
    pub q: Vec<MQuestion>,
    pub s: [Vec<MRecord>; 3],
}

// ---- generation ---------------------------------------------------------------------------------------

pub fn gen_label(g: &mut Gen) -> Vec<u8> {
    let l = match g.below(16) {
        0 => {
            let mut s = g.dict_str();
            s.truncate(63);
            s
        }
        1 => b"local".to_vec(),
        2 => g.bytes(63),
        3 => {
            let n = g.range(1, 63) as usize;
            g.bytes(n)
        }
        4 => {
            let mut s = g.text(63).into_bytes();
            s.retain(|b| *b != b'.');
            s
        }
        5 => vec![g.below(256) as u8],
        6 => {
            let n = g.range(1, 12) as usize;
            let b = g.bytes(n);
            b.iter().map(|x| if x & 1 == 0 { b'A' + x % 26 } else { b'a' + x % 26 }).collect()
        }
        7 => g.pick(&[&b"com"[..], b"COM", b"Com", b"example", b"EXAMPLE", b"www", b"_tcp", b"_udp", b"in-addr", b"arpa", b"*", b"xn--p1ai", b"ip6", b"org", b"net", b"."]).to_vec(),
        8 => vec![b'a' + g.below(3) as u8],
        _ => {
            let n = g.range(1, 10) as usize;
            (0..n).map(|_| b'a' + g.below(26) as u8).collect()
        }
    };
    if l.is_empty() { b"x".to_vec() } else { l }
}
pub fn fits(l: &Labels) -> bool {
    1 + l.iter().map(|x| x.len() + 1).sum::<usize>() <= 255
}
pub fn gen_name(g: &mut Gen, pool: &mut Vec<MName>) -> MName {
    let k = g.below(22);
    let n = match k {
        0 => MName(vec![]),
        20 | 21 if !pool.is_empty() => {
            // nearly the same octets, other label boundaries
            let mut l = g.pick(pool).clone().0;
            if !l.is_empty() {
                let i = g.ix(l.len());
                match g.below(6) {
                    0 if i + 1 < l.len() && l[i].len() + l[i + 1].len() < 63 => {
                        let b = l.remove(i + 1);
                        if g.flip() {
                            l[i].push(b'.');
                        }
                        l[i].extend(b);
                    }
                    1 if l[i].len() > 1 => {
                        let at = 1 + g.ix(l[i].len() - 1);
                        let b = l[i].split_off(at);
                        l.insert(i + 1, b);
                    }
                    2 if i + 1 < l.len() => l.swap(i, i + 1),
                    3 if i + 1 < l.len() && l[i].len() > 1 => {
                        let c = l[i].pop().unwrap();
                        if l[i + 1].len() < 63 {
                            l[i + 1].insert(0, c);
                        }
                    }
                    4 => {
                        let b = l[i].clone();
                        l.insert(i, b);
                    }
                    _ => {
                        let j = g.ix(l[i].len());
                        l[i][j] = g.below(256) as u8;
                    }
                }
            }
            MName(l)
        }
        1..=6 if !pool.is_empty() => g.pick(pool).clone(),
        7..=11 if !pool.is_empty() => {
            let base = g.pick(pool).clone();
            let drop = g.ix(base.0.len() + 1);
            let mut l: Labels = (0..g.below(3)).map(|_| gen_label(g)).collect();
            l.extend_from_slice(&base.0[drop..]);
            MName(l)
        }
        12 if !pool.is_empty() => {
            // same name, other letter case
            let mut base = g.pick(pool).clone();
            if !base.0.is_empty() {
                let i = g.ix(base.0.len());
                let j = g.ix(base.0[i].len());
                let c = base.0[i][j];
                base.0[i][j] = if c.is_ascii_alphabetic() { c ^ 0x20 } else { c };
            }
            base
        }
        13 => {
            // close to the limit of 255 octets
            let total = g.range(250, 255) as usize;
            let mut l = vec![];
            let mut left = total - 1;
            let small = g.chance(1, 3);
            while left > 1 {
                let m = if small { 1 } else { (1 + g.ix(63)).min(left - 1) };
                let m = if left - 1 - m == 1 { m.saturating_sub(1).max(1) } else { m };
                l.push(if small { vec![b'a' + g.below(2) as u8] } else { g.bytes(m) });
                left = left.saturating_sub(1 + m);
            }
            MName(l)
        }
        14 => {
            let n = if g.chance(1, 5) { 127 } else { g.range(1, 127) as usize };
            MName((0..n).map(|_| vec![b'a' + g.below(4) as u8]).collect())
        }
        _ => {
            let n = if g.chance(1, 10) { g.range(5, 12) } else { g.range(1, 4) };
            let mut l: Labels = (0..n).map(|_| gen_label(g)).collect();
            if g.chance(1, 5) {
                // the usual endings
                let end = *g.pick(&["local", "_tcp.local", "_sub._http._tcp.local", "_dns-sd._udp.local", "in-addr.arpa", "ip6.arpa", "example.com"]);
                l.extend(end.split('.').map(|x| x.as_bytes().to_vec()));
            }
            MName(l)
        }
    };
    let mut n = n;
    while !fits(&n.0) {
        n.0.remove(0);
    }
    if pool.len() < 24 {
        pool.push(n.clone());
    }
    n
}

pub struct Opt {
    pub max_blob: usize,
    /// only values that the API can construct with public constructors
    pub constructible: bool,
    pub raw_flags: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { max_blob: 400, constructible: false, raw_flags: false }
    }
}

fn dom(g: &mut Gen, w: u8, d: D) -> u64 {
    let max = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    match d {
        D::Any => g.int(max),
        D::Max(m) => g.below(m + 1),
        D::Range(a, b) => a + g.int(b - a),
        D::In(s) => *g.pick(s),
        D::Type => g.pick(types()).code as u64,
    }
}
pub fn gen_types(g: &mut Gen) -> BTreeSet<u16> {
    let mut s = BTreeSet::new();
    match g.below(8) {
        0 => {}
        1 => {
            s.extend(types().iter().map(|t| t.code));
        }
        2 => {
            s.insert(*g.pick(&[256, 257]));
            if g.flip() {
                s.extend([256, 257]);
            }
        }
        _ => {
            for _ in 0..g.range(1, 8) {
                s.insert(g.pick(types()).code);
            }
        }
    }
    s
}
pub fn gen_params(g: &mut Gen, max: usize) -> BTreeMap<u16, Vec<u8>> {
    let mut m = BTreeMap::new();
    let (n, max) = several(g, 5, max);
    for _ in 0..n {
        let k = match g.below(10) {
            k @ 0..=6 => k as u16,
            7 => 65535,
            8 => 65280 + g.below(255) as u16,
            _ => 65280 + g.int(254) as u16,
        };
        let v = match k {
            0 => {
                let mut keys = BTreeSet::new();
                for _ in 0..several(g, 4, 0).0 {
                    keys.insert(match g.below(4) {
                        0 => 65535u16,
                        1 => 65280 + g.int(254) as u16,
                        _ => g.below(7) as u16,
                    });
                }
                keys.iter().flat_map(|k| k.to_be_bytes()).collect()
            }
            1 => {
                let mut v = vec![];
                let (n, max) = several(g, 4, max.min(255));
                for _ in 0..n {
                    let s = g.blob(max);
                    v.push(s.len() as u8);
                    v.extend(s);
                }
                v
            }
            3 => g.u16().to_be_bytes().to_vec(),
            4 => g.bytes(4),
            6 => g.bytes(16),
            2 | 65535 => vec![],
            _ => g.blob(max),
        };
        m.insert(k, v);
    }
    m
}
/// How many elements a list gets and how large they may be: seldom many small ones.
fn several(g: &mut Gen, few: u64, max: usize) -> (u64, usize) {
    if g.chance(1, 24) {
        (g.below(60), max.min(12))
    } else {
        (g.below(few), max)
    }
}
pub fn gen_rdata(g: &mut Gen, ti: &TypeInfo, pool: &mut Vec<MName>, o: &Opt) -> Vec<F> {
    ti.schema
        .iter()
        .map(|s| match *s {
            S::U(w, d) => {
                if o.constructible && ti.name.ends_with("DNSKEY") {
                    // flags and protocol that the constructor can express
                    if w == 2 {
                        return F::U(2, *g.pick(&[0u64, 1, 256, 257]));
                    }
                    if let D::Any = d {
                        return F::U(1, 3);
                    }
                }
                F::U(w, dom(g, w, d))
            }
            S::Raw(n) => F::Raw(g.bytes(n)),
            S::Str => F::Str(g.blob(255)),
            S::StrUtf8 => F::Str(g.text(255).into_bytes()),
            S::Flags => {
                let n = g.below(6) as usize;
                let n = if g.chance(1, 20) { g.range(0, 255) as usize } else { n };
                F::Str((0..n).map(|_| *g.pick(b"SAUP")).collect())
            }
            S::NameC | S::NameU => F::Name(gen_name(g, pool)),
            S::Rest => F::Rest(g.blob(o.max_blob)),
            S::Lp16 => F::Lp16(g.blob(o.max_blob)),
            S::StrList => {
                let (n, max) = several(g, 5, 255);
                F::StrList((0..n).map(|_| g.text(max).into_bytes()).collect())
            }
            S::Opts => {
                let (n, max) = several(g, 6, o.max_blob.min(300));
                F::Opts((0..n).map(|_| (if g.flip() { g.u16() } else { g.below(20) as u16 }, g.blob(max))).collect())
            }
            S::Bitmap => F::Bitmap(gen_types(g)),
            S::Apl => {
                let fam = g.range(1, 2) as u16;
                F::Apl(fam, g.u8(), g.flip(), g.bytes(if fam == 1 { 4 } else { 16 }))
            }
            S::Gw => {
                let t = g.below(4) as u8;
                let addr = match t {
                    1 => g.bytes(4),
                    2 => g.bytes(16),
                    _ => vec![],
                };
                let name = if t == 3 { gen_name(g, pool) } else { MName::default() };
                F::Gw(g.u8(), t, g.below(6) as u8, addr, name)
            }
            S::Hip => {
                let hit = g.blob(255);
                let alg = g.below(6) as u8;
                let pk = g.blob(o.max_blob);
                let (n, _) = several(g, 4, 0);
                F::Hip(hit, alg, pk, (0..n).map(|_| gen_name(g, pool)).collect())
            }
            S::Params => F::Params(gen_params(g, o.max_blob)),
            S::Caa => {
                let mut t = g.text(255).into_bytes();
                if t.is_empty() {
                    t = b"issue".to_vec();
                }
                F::Caa(g.flip(), t)
            }
        })
        .collect()
}
pub fn gen_header(g: &mut Gen, o: &Opt) -> MHeader {
    let qr = g.flip();
    let (ra, rcode) = if qr || o.raw_flags { (g.flip(), g.below(11) as u8) } else { (false, 0) };
    MHeader {
        id: g.u16(),
        qr,
        opcode: if o.raw_flags { g.below(16) as u8 } else { g.below(4) as u8 },
        aa: g.flip(),
        tc: g.flip(),
        rd: g.flip(),
        ra,
        z: if o.raw_flags && g.chance(1, 3) { g.below(8) as u8 } else { 0 },
        rcode,
    }
}
pub fn gen_question(g: &mut Gen, pool: &mut Vec<MName>) -> MQuestion {
    MQuestion { name: gen_name(g, pool), qtype: *g.pick(qtypes()), class: *g.pick(QCLASSES), unicast: mdns_on() && g.chance(1, 3) }
}
pub fn gen_record_of(g: &mut Gen, ti: &TypeInfo, pool: &mut Vec<MName>, o: &Opt) -> MRecord {
    let name = gen_name(g, pool);
    let class = if ti.code == 41 {
        g.u16()
    } else {
        match g.below(8) {
            0 => g.int(0x7fff) as u16,
            1 => 254,
            2 => 255,
            k => (k % 4 + 1) as u16,
        }
    };
    let flush = mdns_on() && ti.code != 41 && g.chance(1, 3);
    let ttl = g.u32();
    let rdata = gen_rdata(g, ti, pool, o);
    MRecord { name, rtype: ti.code, class, flush, ttl, rdata }
}
pub fn gen_record(g: &mut Gen, pool: &mut Vec<MName>, o: &Opt) -> MRecord {
    let ti = *g.pick(types());
    gen_record_of(g, ti, pool, o)
}
/// Record types whose RDATA contains names that are compressed when serialised compressed.
pub fn gen_namey_record(g: &mut Gen, pool: &mut Vec<MName>, o: &Opt) -> MRecord {
    loop {
        let ti = *g.pick(types());
        if ti.schema.iter().any(|s| matches!(s, S::NameC | S::NameU | S::Hip | S::Gw)) || g.chance(1, 5) {
            return gen_record_of(g, ti, pool, o);
        }
    }
}
pub fn gen_msg(g: &mut Gen, o: &Opt) -> MMsg {
    let mut pool = vec![];
    let h = gen_header(g, o);
    let style = g.below(10);
    let (mq, mr) = match style {
        0 => (0, 1),
        1..=6 => (2, 3),
        7 | 8 => (4, 6),
        _ => (8, 14),
    };
    let q = (0..g.below(mq + 1)).map(|_| gen_question(g, &mut pool)).collect();
    let mut s: [Vec<MRecord>; 3] = Default::default();
    let namey = g.chance(1, 3);
    for x in s.iter_mut() {
        let n = g.below(mr + 1);
        for _ in 0..n {
            x.push(if namey { gen_namey_record(g, &mut pool, o) } else { gen_record(g, &mut pool, o) });
        }
    }
    let mut q: Vec<MQuestion> = q;
    if g.chance(1, 4) {
        repeat_question(g, &mut q);
        let i = g.ix(3);
        repeat_record(g, &mut s[i]);
        if g.flip() {
            // the same record in another section
            if let Some(r) = s[i].last().cloned() {
                s[(i + 1) % 3].push(r);
            }
        }
    }
    MMsg { h, q, s }
}
/// Elements equal to, or in one field different from, an earlier one.
pub fn repeat_question(g: &mut Gen, q: &mut Vec<MQuestion>) {
    if q.is_empty() {
        return;
    }
    let at = g.ix(q.len());
    let mut x = q[at].clone();
    match g.below(6) {
        0 => x.qtype = *g.pick(qtypes()),
        1 => x.class = *g.pick(QCLASSES),
        2 => x.unicast = mdns_on() && !x.unicast,
        3 => x.name = other_case(&x.name),
        _ => {}
    }
    let to = if g.flip() { at + 1 } else { g.ix(q.len() + 1) };
    q.insert(to, x);
}
pub fn repeat_record(g: &mut Gen, s: &mut Vec<MRecord>) {
    if s.is_empty() {
        return;
    }
    let at = g.ix(s.len());
    let mut x = s[at].clone();
    match g.below(8) {
        0 => x.ttl = g.u32(),
        1 if x.rtype != 41 => x.class = g.int(4) as u16,
        2 => x.flush = mdns_on() && x.rtype != 41 && !x.flush,
        3 => x.name = other_case(&x.name),
        4 => {
            let o = Opt { max_blob: 12, ..Default::default() };
            let mut pool = vec![x.name.clone()];
            x.rdata = gen_rdata(g, type_info(x.rtype).unwrap(), &mut pool, &o);
        }
        _ => {}
    }
    let to = if g.flip() { at + 1 } else { g.ix(s.len() + 1) };
    s.insert(to, x);
}
fn other_case(n: &MName) -> MName {
    MName(n.0.iter().map(|l| l.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect()).collect())
}
fn each_name(m: &mut MMsg, f: &mut dyn FnMut(&mut MName)) {
    for q in &mut m.q {
        f(&mut q.name);
    }
    for r in m.s.iter_mut().flatten() {
        f(&mut r.name);
        rdata_names(&mut r.rdata, f);
    }
}
pub fn rdata_names(d: &mut [F], f: &mut dyn FnMut(&mut MName)) {
    for x in d {
        match x {
            F::Name(n) => f(n),
            F::Gw(_, 3, _, _, n) => f(n),
            F::Hip(_, _, _, l) => l.iter_mut().for_each(&mut *f),
            _ => {}
        }
    }
}
/// Puts empty labels, which are never written, into names.
pub fn empty_labels(g: &mut Gen, n: &mut MName) {
    for _ in 0..g.below(3) {
        let i = g.ix(n.0.len() + 1);
        n.0.insert(i, vec![]);
    }
}
pub fn add_empty_labels(g: &mut Gen, m: &mut MMsg) {
    each_name(m, &mut |n| empty_labels(g, n));
}
/// One section with very many small elements.
pub fn gen_many(g: &mut Gen) -> MMsg {
    let n = *g.pick(&[65535usize, 40000, 32768, 32767, 16384, 9999, 4097]);
    let mut m = MMsg { h: gen_header(g, &Opt::default()), ..Default::default() };
    let k = g.ix(4);
    let mut pool = vec![];
    if k == 0 {
        let q = gen_question(g, &mut pool);
        let name = if g.flip() { MName::default() } else { MName(vec![b"a".to_vec()]) };
        m.q = (0..n).map(|i| MQuestion { class: QCLASSES[i % QCLASSES.len()], name: name.clone(), ..q.clone() }).collect();
    } else {
        let name = if g.flip() { MName::default() } else { MName(vec![b"a".to_vec()]) };
        let a = MRecord { name, rtype: 1, class: 1, flush: false, ttl: 0, rdata: vec![F::Raw(vec![192, 0, 2, 7])] };
        m.s[k - 1] = (0..n).map(|i| MRecord { ttl: i as u32, ..a.clone() }).collect();
    }
    let o = Opt { max_blob: 8, ..Default::default() };
    for i in 0..3 {
        if i + 1 != k {
            let r = gen_record(g, &mut pool, &o);
            m.s[i].push(r);
        }
    }
    m
}
/// A message with thousands of different names (and ends of names), which then come again.
pub fn gen_suffixes(g: &mut Gen) -> MMsg {
    let mut m = MMsg { h: gen_header(g, &Opt::default()), ..Default::default() };
    let longest = *g.pick(&[127usize, 126, 100, 40, 12, 3, 1]);
    let mut at = 12;
    let mut names: Vec<MName> = vec![];
    while at < 0x4000 && names.len() < 4000 {
        let k = 1 + g.ix(longest);
        let k = if g.chance(3, 4) { longest } else { k };
        let raw = u64::from(g.u32());
        let size = if longest == 1 { 4 } else { 1 };
        // one draw of the tape per name; the labels are spread from it
        let mut x = raw ^ (names.len() as u64) << 32 | 1;
        let n = MName((0..k).map(|_| (0..size).map(|_| { x = x.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(0x14057b7ef767814f); b'a' + ((x >> 40) % 26) as u8 }).collect()).collect());
        at += n.wire_len() + if longest == 127 { 4 } else { 14 };
        names.push(n);
    }
    let again: Vec<MName> = (0..40).map(|i| if i == 0 { names[names.len() - 1].clone() } else { names[g.ix(names.len())].clone() }).collect();
    for (i, n) in names.into_iter().chain(again).enumerate() {
        if longest == 127 || i % 5 == 0 {
            m.q.push(MQuestion { name: n, qtype: 1, class: 1, unicast: false });
        } else {
            m.s[i % 3].push(MRecord { name: n, rtype: 1, class: 1, flush: false, ttl: i as u32, rdata: vec![F::Raw(vec![192, 0, 2, 7])] });
        }
    }
    m
}
/// A message whose names fall near and beyond offset 16384.
pub fn gen_big_msg(g: &mut Gen, o: &Opt) -> MMsg {
    let mut m = gen_msg(g, o);
    let null = type_info(10).unwrap();
    let before = encode(&m, &mut Comp::None).bytes.len();
    let mut pool: Vec<MName> = m.q.iter().map(|q| q.name.clone()).chain(m.s.iter().flatten().map(|r| r.name.clone())).collect();
    pool.truncate(12);
    let target = match g.below(4) {
        0 => 0x4000 - 1 - g.ix(60),
        1 => 0x3fff - g.ix(300),
        2 => 0x4000 + g.ix(40),
        _ => 0x3f00 + g.ix(0x200),
    };
    let mut filler = gen_record_of(g, null, &mut pool, &Opt { max_blob: 4, constructible: o.constructible, raw_flags: false });
    let head = filler.name.wire_len() + 10;
    let n = target.saturating_sub(before + head);
    let fill = g.bytes(n.min(64));
    filler.rdata = vec![F::Rest(fill.iter().copied().cycle().take(if fill.is_empty() { 0 } else { n }).collect())];
    m.s[2].push(filler);
    let k = g.range(2, 12);
    for _ in 0..k {
        let r = gen_namey_record(g, &mut pool, &Opt { max_blob: 60, constructible: o.constructible, raw_flags: false });
        m.s[2].push(r);
    }
    if g.chance(1, 6) {
        // far beyond 64 KiB
        for _ in 0..g.range(1, 4) {
            let n = g.range(10_000, 30_000) as usize;
            m.s[2].push(MRecord { name: MName::default(), rtype: 10, class: 1, flush: false, ttl: 0, rdata: vec![F::Rest(vec![7; n])] });
            let r = gen_namey_record(g, &mut pool, &Opt { max_blob: 60, constructible: o.constructible, raw_flags: false });
            m.s[2].push(r);
        }
    }
    m
}

// ---- reference encoder --------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Flags,
    Count,
    Name,
    QType,
    QClass,
    Type,
    Class,
    Ttl,
    RdLen,
    RData,
    Field, // a field with a restricted domain, or a length, inside RDATA
}
#[derive(Clone, Debug)]
pub struct Mark {
    pub k: K,
    pub off: usize,
    pub len: usize,
    pub rtype: u16,
}
pub struct Encoded {
    pub bytes: Vec<u8>,
    pub marks: Vec<Mark>,
    /// end offset of the header and of every question and record
    pub bounds: Vec<usize>,
    pub pointers: usize,
}
pub enum Comp<'x, 'g> {
    None,
    Random(&'x mut Gen<'g>),
}
#[derive(Default)]
struct Table(HashMap<u128, Vec<usize>, std::hash::BuildHasherDefault<crate::Fnv>>);
/// Identifies every suffix of a name.
fn suffix_ids(n: &MName) -> Vec<u128> {
    let mut h = 0x6c62272e07bb014262b821756295c58du128;
    let mut o = vec![0; n.0.len()];
    for i in (0..n.0.len()).rev() {
        for b in std::iter::once(n.0[i].len() as u8).chain(n.0[i].iter().copied()) {
            h = (h ^ b as u128).wrapping_mul(0x0000000001000000000000000000013Bu128);
        }
        o[i] = h;
    }
    o
}

/// Does the library use a placeholder octet for IPSECKEY records without gateway? (see known findings)
pub static IPSEC_PLACEHOLDER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
pub fn ipsec_placeholder() -> bool {
    IPSEC_PLACEHOLDER.load(std::sync::atomic::Ordering::Relaxed)
}

struct Enc<'x, 'g, 'c> {
    o: Vec<u8>,
    t: Table,
    c: &'c mut Comp<'x, 'g>,
    marks: Vec<Mark>,
    pointers: usize,
    /// a pointer to the root is longer than the root: not where RDATA would grow beyond its limit
    grow: bool,
}
impl Enc<'_, '_, '_> {
    fn u16(&mut self, v: u16) {
        self.o.extend_from_slice(&v.to_be_bytes());
    }
    fn mark(&mut self, k: K, len: usize, rtype: u16) {
        self.marks.push(Mark { k, off: self.o.len(), len, rtype });
    }
    fn name(&mut self, n: &MName) {
        let n = &MName(n.0.iter().filter(|l| !l.is_empty()).cloned().collect()); // empty labels are not written
        let start = self.o.len();
        let ids = if let Comp::Random(_) = self.c { suffix_ids(n) } else { vec![] };
        let mut ptr = None;
        for i in 0..n.0.len() {
            if let Comp::Random(g) = self.c {
                if let Some(v) = self.t.0.get(&ids[i]) {
                    if g.chance(3, 5) {
                        ptr = Some((i, *g.pick(v)));
                        break;
                    }
                }
            }
            let off = self.o.len();
            self.o.push(n.0[i].len() as u8);
            self.o.extend_from_slice(&n.0[i]);
            let _ = off;
        }
        // the root is a suffix, too, though a pointer to it does not save anything
        if let (Comp::Random(g), None) = (&mut *self.c, ptr) {
            if self.grow && g.chance(1, 20) {
                if let Some(v) = self.t.0.get(&0) {
                    let p = if g.flip() { v[v.len() - 1] } else { *g.pick(v) };
                    ptr = Some((n.0.len(), p));
                }
            }
        }
        // remember the positions of this name's suffixes
        let mut off = start;
        for i in 0..n.0.len() {
            if let Some((j, _)) = ptr {
                if i >= j {
                    break;
                }
            }
            if off < 0x4000 && !ids.is_empty() {
                self.t.0.entry(ids[i]).or_default().push(off);
            }
            off += 1 + n.0[i].len();
        }
        match ptr {
            Some((j, p)) => {
                if off < 0x4000 {
                    // pointing at the pointer is legal, too
                    self.t.0.entry(ids.get(j).copied().unwrap_or(0)).or_default().push(off);
                }
                self.pointers += 1;
                self.u16(0xC000 | p as u16);
            }
            None => {
                if off < 0x4000 {
                    self.t.0.entry(0).or_default().push(off);
                }
                self.o.push(0)
            }
        }
        self.marks.push(Mark { k: K::Name, off: start, len: self.o.len() - start, rtype: 0 });
    }
}

pub fn encode_bitmap(t: &BTreeSet<u16>) -> Vec<u8> {
    let mut o = vec![];
    let mut wins: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    for x in t {
        let w = wins.entry((x >> 8) as u8).or_default();
        let lo = (x & 255) as usize;
        if w.len() <= lo / 8 {
            w.resize(lo / 8 + 1, 0);
        }
        w[lo / 8] |= 0x80 >> (lo % 8);
    }
    for (k, v) in wins {
        o.push(k);
        o.push(v.len() as u8);
        o.extend(v);
    }
    o
}
fn enc_field(e: &mut Enc, f: &F, rtype: u16) {
    match f {
        F::U(w, v) => {
            e.mark(K::Field, *w as usize, rtype);
            e.o.extend_from_slice(&v.to_be_bytes()[8 - *w as usize..]);
        }
        F::Raw(b) | F::Rest(b) => e.o.extend_from_slice(b),
        F::Str(b) => {
            e.mark(K::Field, 1, rtype);
            e.o.push(b.len() as u8);
            e.o.extend_from_slice(b);
        }
        F::Name(n) => e.name(n),
        F::Lp16(b) => {
            e.mark(K::Field, 2, rtype);
            e.u16(b.len() as u16);
            e.o.extend_from_slice(b);
        }
        F::StrList(l) => {
            for b in l {
                e.mark(K::Field, 1, rtype);
                e.o.push(b.len() as u8);
                e.o.extend_from_slice(b);
            }
        }
        F::Opts(m) => {
            for (k, v) in m {
                e.u16(*k);
                e.mark(K::Field, 2, rtype);
                e.u16(v.len() as u16);
                e.o.extend_from_slice(v);
            }
        }
        F::Params(m) => {
            for (k, v) in m {
                e.mark(K::Field, 2, rtype);
                e.u16(*k);
                e.mark(K::Field, 2, rtype);
                e.u16(v.len() as u16);
                e.o.extend_from_slice(v);
            }
        }
        F::Bitmap(t) => {
            let b = encode_bitmap(t);
            e.mark(K::Field, b.len(), rtype);
            e.o.extend_from_slice(&b);
        }
        F::Apl(fam, p, n, a) => {
            e.mark(K::Field, 2, rtype);
            e.u16(*fam);
            e.o.push(*p);
            let mut l = a.len();
            if let Comp::Random(g) = e.c {
                // RFC 3123: trailing zero octets may be left out
                while l > 0 && a[l - 1] == 0 && g.chance(3, 4) {
                    l -= 1;
                }
            }
            e.mark(K::Field, 1, rtype);
            e.o.push((*n as u8) << 7 | l as u8);
            e.o.extend_from_slice(&a[..l]);
        }
        F::Gw(p, t, alg, a, n) => {
            e.o.push(*p);
            e.mark(K::Field, 1, rtype);
            e.o.push(*t);
            e.mark(K::Field, 1, rtype);
            e.o.push(*alg);
            match t {
                0 => {
                    if ipsec_placeholder() {
                        e.o.push(b'.')
                    }
                }
                3 => e.name(n),
                _ => e.o.extend_from_slice(a),
            }
        }
        F::Hip(hit, alg, pk, rs) => {
            e.mark(K::Field, 1, rtype);
            e.o.push(hit.len() as u8);
            e.mark(K::Field, 1, rtype);
            e.o.push(*alg);
            e.mark(K::Field, 2, rtype);
            e.u16(pk.len() as u16);
            e.o.extend_from_slice(hit);
            e.o.extend_from_slice(pk);
            for n in rs {
                e.name(n);
            }
        }
        F::Caa(c, t) => {
            e.o.push((*c as u8) << 7);
            e.mark(K::Field, 1, rtype);
            e.o.push(t.len() as u8);
            e.o.extend_from_slice(t);
        }
    }
}
pub fn encode_rdata(rtype: u16, f: &[F]) -> Vec<u8> {
    encode_rdata_marks(rtype, f).0
}
pub fn encode_rdata_marks(rtype: u16, f: &[F]) -> (Vec<u8>, Vec<Mark>) {
    let mut c = Comp::None;
    let mut e = Enc { o: vec![], t: Table::default(), c: &mut c, marks: vec![], pointers: 0, grow: true };
    for x in f {
        enc_field(&mut e, x, rtype);
    }
    (e.o, e.marks)
}
/// how many names the field may write
fn field_names(f: &F) -> usize {
    match f {
        F::Name(_) | F::Gw(..) => 1,
        F::Hip(_, _, _, rs) => rs.len(),
        _ => 0,
    }
}
fn enc_question(e: &mut Enc, q: &MQuestion) {
    e.name(&q.name);
    e.mark(K::QType, 2, 0);
    e.u16(q.qtype);
    e.mark(K::QClass, 2, 0);
    e.u16(q.class | (q.unicast as u16) << 15);
}
fn enc_record(e: &mut Enc, r: &MRecord) {
    e.name(&r.name);
    e.mark(K::Type, 2, r.rtype);
    e.u16(r.rtype);
    e.mark(K::Class, 2, r.rtype);
    e.u16(if r.rtype == 41 { r.class } else { r.class | (r.flush as u16) << 15 });
    e.mark(K::Ttl, 4, r.rtype);
    e.o.extend_from_slice(&r.ttl.to_be_bytes());
    let at = e.o.len();
    e.mark(K::RdLen, 2, r.rtype);
    e.u16(0);
    e.grow = r.rdata.iter().map(field_names).sum::<usize>() + encode_rdata(r.rtype, &r.rdata).len() <= 65535;
    for f in &r.rdata {
        enc_field(e, f, r.rtype);
    }
    e.grow = true;
    let n = e.o.len() - at - 2;
    e.o[at..at + 2].copy_from_slice(&(n as u16).to_be_bytes());
    e.marks.push(Mark { k: K::RData, off: at + 2, len: n, rtype: r.rtype });
}
pub fn encode_question(q: &MQuestion) -> Vec<u8> {
    let mut c = Comp::None;
    let mut e = Enc { o: vec![], t: Table::default(), c: &mut c, marks: vec![], pointers: 0, grow: true };
    enc_question(&mut e, q);
    e.o
}
pub fn encode_record(r: &MRecord) -> Vec<u8> {
    let mut c = Comp::None;
    let mut e = Enc { o: vec![], t: Table::default(), c: &mut c, marks: vec![], pointers: 0, grow: true };
    enc_record(&mut e, r);
    e.o
}
pub fn encode(m: &MMsg, c: &mut Comp) -> Encoded {
    let mut e = Enc { o: vec![], t: Table::default(), c, marks: vec![], pointers: 0, grow: true };
    e.u16(m.h.id);
    e.mark(K::Flags, 2, 0);
    e.u16(m.h.flags());
    let mut bounds = vec![];
    for n in [m.q.len(), m.s[0].len(), m.s[1].len(), m.s[2].len()] {
        e.mark(K::Count, 2, 0);
        e.u16(n as u16);
    }
    bounds.push(12);
    for q in &m.q {
        enc_question(&mut e, q);
        bounds.push(e.o.len());
    }
    for s in &m.s {
        for r in s {
            enc_record(&mut e, r);
            bounds.push(e.o.len());
        }
    }
    Encoded { bytes: e.o, marks: e.marks, bounds, pointers: e.pointers }
}

// ---- reference decoder --------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// the input is malformed: must be rejected
    Reject,
    /// the statement of the properties does not say what happens
    Unspec,
}
pub type R<T> = Result<T, Bad>;

#[derive(Default, Debug)]
pub struct Notes {
    /// unusual: rejecting is allowed, accepting with other values is not
    pub may_reject: bool,
    /// TXT text that is not UTF-8 was met (known finding): decoded lossily
    pub lossy: bool,
    /// data that the representation does not keep was met
    pub dropped: bool,
    pub max_hops: usize,
    pub pointers: usize,
    /// something was met that not all feature combinations have
    pub special: bool,
}
pub struct Dec<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub n: Notes,
    /// where labels and pointers of names start
    labels: BTreeSet<usize>,
    /// every name met: start, end in place, position and target of its first pointer
    pub names: Vec<(usize, usize, Option<(usize, usize)>)>,
    pub pointer_at: BTreeSet<usize>,
    /// names met in RDATA that has to be written without compression
    pub plain: Vec<(usize, u16)>,
    /// RDATA: record type, offset, length
    pub rdatas: Vec<(u16, usize, usize)>,
    /// owner and question names: index into names
    pub owners: Vec<usize>,
}
impl<'a> Dec<'a> {
    pub fn new(d: &'a [u8], pos: usize) -> Self {
        Dec { d, pos, end: d.len(), n: Notes::default(), labels: BTreeSet::new(), names: vec![], pointer_at: BTreeSet::new(), plain: vec![], rdatas: vec![], owners: vec![] }
    }
    fn left(&self) -> usize {
        self.end - self.pos
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.left() {
            return Err(Bad::Reject);
        }
        let s = &self.d[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn uint(&mut self, w: usize) -> R<u64> {
        Ok(self.take(w)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(self.uint(2)? as u16)
    }
    pub fn name(&mut self) -> R<MName> {
        let mut l: Labels = vec![];
        let start = self.pos;
        let mut first = None;
        let mut p = self.pos;
        let mut run = p;
        let mut after = None;
        let mut size = 1;
        let mut hops = 0;
        loop {
            if p >= self.end {
                return Err(Bad::Reject);
            }
            let b = self.d[p];
            match b >> 6 {
                0 => {
                    if b == 0 {
                        if after.is_none() {
                            self.labels.insert(p);
                        }
                        p += 1;
                        break;
                    }
                    let e = p + 1 + b as usize;
                    if e > self.end {
                        return Err(Bad::Reject);
                    }
                    size += 1 + b as usize;
                    if size > 255 {
                        return Err(Bad::Reject);
                    }
                    if after.is_none() {
                        self.labels.insert(p);
                    }
                    l.push(self.d[p + 1..e].to_vec());
                    p = e;
                }
                3 => {
                    if p + 2 > self.end {
                        return Err(Bad::Reject);
                    }
                    if after.is_none() {
                        self.labels.insert(p);
                        after = Some(p + 2);
                    }
                    let t = ((b & 0x3f) as usize) << 8 | self.d[p + 1] as usize;
                    if t >= p {
                        return Err(Bad::Reject);
                    }
                    if first.is_none() {
                        first = Some((p, t));
                        self.pointer_at.insert(p);
                    }
                    if t >= run {
                        // into the labels just read: a cycle in nearly all cases
                        return if self.in_cycle(t) { Err(Bad::Reject) } else { Err(Bad::Unspec) };
                    }
                    if !self.labels.contains(&t) {
                        self.n.may_reject = true;
                    }
                    hops += 1;
                    p = t;
                    run = t;
                }
                _ => return Err(Bad::Reject),
            }
        }
        self.n.max_hops = self.n.max_hops.max(hops);
        self.n.pointers += hops;
        self.pos = after.unwrap_or(p);
        self.names.push((start, self.pos, first));
        Ok(MName(l))
    }
    /// Does following the labels and pointers from t come back to a position already visited?
    fn in_cycle(&self, t: usize) -> bool {
        let mut seen = BTreeSet::new();
        let mut p = t;
        loop {
            if p >= self.end || !seen.insert(p) {
                return p < self.end;
            }
            let b = self.d[p];
            match b >> 6 {
                0 if b == 0 => return false,
                0 => p += 1 + b as usize,
                3 if p + 1 < self.end => p = ((b & 0x3f) as usize) << 8 | self.d[p + 1] as usize,
                _ => return false,
            }
        }
    }
    fn check(&self, v: u64, d: D) -> R<()> {
        let ok = match d {
            D::Any => true,
            D::Max(m) => v <= m,
            D::Range(a, b) => v >= a && v <= b,
            D::In(s) => s.contains(&v),
            D::Type => type_info(v as u16).is_some(),
        };
        if ok { Ok(()) } else { Err(Bad::Reject) }
    }
    fn str(&mut self) -> R<Vec<u8>> {
        let n = self.uint(1)? as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn bitmap(&mut self) -> R<BTreeSet<u16>> {
        let mut t = BTreeSet::new();
        let mut last = -1i32;
        while self.left() > 0 {
            let w = self.uint(1)? as i32;
            let n = self.uint(1)? as usize;
            if n > 32 {
                return Err(Bad::Reject);
            }
            let b = self.take(n)?;
            if w <= last || n == 0 || b[n - 1] == 0 {
                self.n.may_reject = true;
                self.n.dropped = true;
            }
            last = w;
            for (i, x) in b.iter().enumerate() {
                for j in 0..8 {
                    if x & (0x80 >> j) != 0 {
                        let code = (w as u32 * 256 + i as u32 * 8 + j) as u16;
                        self.n.special |= DNSSEC_TYPES.contains(&code);
                        if type_info(code).is_none() {
                            return Err(Bad::Reject);
                        }
                        t.insert(code);
                    }
                }
            }
        }
        Ok(t)
    }
    fn params(&mut self) -> R<BTreeMap<u16, Vec<u8>>> {
        let mut m = BTreeMap::new();
        let mut last = -1i32;
        while self.left() > 0 {
            let k = self.u16()?;
            let n = self.u16()? as usize;
            if (7..65280).contains(&k) {
                return Err(Bad::Reject);
            }
            let v = self.take(n)?.to_vec();
            if k as i32 <= last {
                self.n.may_reject = true;
                self.n.dropped = true;
            }
            last = k as i32;
            let v = match k {
                0 => {
                    if n % 2 != 0 {
                        return Err(Bad::Reject);
                    }
                    let keys: Vec<u16> = v.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                    if keys.iter().any(|k| (7..65280).contains(k)) {
                        return Err(Bad::Reject);
                    }
                    let set: BTreeSet<u16> = keys.iter().copied().collect();
                    if set.iter().copied().collect::<Vec<_>>() != keys {
                        self.n.may_reject = true;
                        self.n.dropped = true;
                    }
                    set.iter().flat_map(|k| k.to_be_bytes()).collect()
                }
                1 => {
                    let mut p = 0;
                    while p < v.len() {
                        p += 1 + v[p] as usize;
                    }
                    if p != v.len() {
                        return Err(Bad::Reject);
                    }
                    v
                }
                2 | 65535 if n > 0 => return Err(Bad::Reject),
                3 | 4 | 6 => {
                    let want = match k {
                        3 => 2,
                        4 => 4,
                        _ => 16,
                    };
                    if n != want {
                        return Err(Bad::Reject);
                    }
                    v
                }
                _ => v,
            };
            if m.insert(k, v).is_some() {
                return Err(Bad::Unspec);
            }
        }
        Ok(m)
    }
    pub fn rdata(&mut self, ti: &TypeInfo) -> R<Vec<F>> {
        let mut o = vec![];
        for s in ti.schema {
            o.push(match *s {
                S::U(w, d) => {
                    let v = self.uint(w as usize)?;
                    self.check(v, d)?;
                    F::U(w, v)
                }
                S::Raw(n) => F::Raw(self.take(n)?.to_vec()),
                S::Str => F::Str(self.str()?),
                S::StrUtf8 => {
                    let s = self.str()?;
                    // if it is accepted, then not with other text
                    self.n.may_reject |= std::str::from_utf8(&s).is_err();
                    F::Str(s)
                }
                S::Flags => {
                    let s = self.str()?;
                    let k: Vec<u8> = s.iter().copied().filter(|c| b"SAUP".contains(c)).collect();
                    if k != s {
                        self.n.may_reject = true;
                        self.n.dropped = true;
                    }
                    F::Str(k)
                }
                S::NameC => F::Name(self.name()?),
                S::NameU => {
                    self.plain.push((self.names.len(), ti.code));
                    F::Name(self.name()?)
                }
                S::Rest => F::Rest(self.take(self.left())?.to_vec()),
                S::Lp16 => {
                    let n = self.u16()? as usize;
                    F::Lp16(self.take(n)?.to_vec())
                }
                S::StrList => {
                    let mut l = vec![];
                    while self.left() > 0 {
                        let s = self.str()?;
                        match String::from_utf8(s) {
                            Ok(s) => l.push(s.into_bytes()),
                            Err(e) => {
                                self.n.lossy = true;
                                self.n.may_reject = true;
                                l.push(String::from_utf8_lossy(e.as_bytes()).into_owned().into_bytes());
                            }
                        }
                    }
                    F::StrList(l)
                }
                S::Opts => {
                    let mut m = BTreeMap::new();
                    while self.left() > 0 {
                        let k = self.u16()?;
                        let n = self.u16()? as usize;
                        if m.insert(k, self.take(n)?.to_vec()).is_some() {
                            return Err(Bad::Unspec);
                        }
                    }
                    F::Opts(m)
                }
                S::Bitmap => F::Bitmap(self.bitmap()?),
                S::Apl => {
                    if self.left() == 0 {
                        return Err(Bad::Unspec); // an empty list is legal but cannot be represented
                    }
                    let fam = self.u16()?;
                    let p = self.uint(1)? as u8;
                    let l = self.uint(1)? as u8;
                    let mut a = self.take((l & 0x7f) as usize)?.to_vec();
                    let n = match fam {
                        1 => 4,
                        2 => 16,
                        _ => return Err(Bad::Reject),
                    };
                    if a.len() > n {
                        return Err(Bad::Unspec);
                    }
                    if a.len() < n {
                        self.n.dropped = true;
                    }
                    a.resize(n, 0);
                    F::Apl(fam, p, l & 0x80 != 0, a)
                }
                S::Gw => {
                    let p = self.uint(1)? as u8;
                    let t = self.uint(1)? as u8;
                    let alg = self.uint(1)? as u8;
                    if alg > 5 || t > 3 {
                        return Err(Bad::Reject);
                    }
                    let (mut a, mut n) = (vec![], MName::default());
                    match t {
                        0 => {
                            if ipsec_placeholder() {
                                let b = self.take(1)?;
                                if b != b"." {
                                    self.n.may_reject = true;
                                    self.n.dropped = true;
                                }
                            }
                        }
                        1 => a = self.take(4)?.to_vec(),
                        2 => a = self.take(16)?.to_vec(),
                        _ => {
                            self.plain.push((self.names.len(), ti.code));
                            n = self.name()?
                        }
                    }
                    F::Gw(p, t, alg, a, n)
                }
                S::Hip => {
                    let hl = self.uint(1)? as usize;
                    let alg = self.uint(1)? as u8;
                    if alg > 5 {
                        return Err(Bad::Reject);
                    }
                    let pl = self.u16()? as usize;
                    let hit = self.take(hl)?.to_vec();
                    let pk = self.take(pl)?.to_vec();
                    let mut rs = vec![];
                    while self.left() > 0 {
                        self.plain.push((self.names.len(), ti.code));
                        rs.push(self.name()?);
                    }
                    F::Hip(hit, alg, pk, rs)
                }
                S::Params => F::Params(self.params()?),
                S::Caa => {
                    let fl = self.uint(1)? as u8;
                    let tl = self.uint(1)? as usize;
                    if tl == 0 {
                        return Err(Bad::Reject);
                    }
                    let t = self.take(tl)?.to_vec();
                    self.n.may_reject |= std::str::from_utf8(&t).is_err();
                    if fl & 0x7f != 0 {
                        self.n.may_reject = true;
                        self.n.dropped = true;
                    }
                    F::Caa(fl & 0x80 != 0, t)
                }
            });
        }
        if self.left() > 0 {
            self.n.may_reject = true;
            self.n.dropped = true;
            if ti.code == 42 {
                return Err(Bad::Unspec); // further APL items
            }
        }
        Ok(o)
    }
    pub fn question(&mut self) -> R<MQuestion> {
        self.owners.push(self.names.len());
        let name = self.name()?;
        let qtype = self.u16()?;
        self.n.special |= DNSSEC_TYPES.contains(&qtype);
        if type_info(qtype).is_none() && !QONLY.contains(&qtype) {
            return Err(Bad::Reject);
        }
        let c = self.u16()?;
        self.n.special |= c >> 15 == 1;
        if !QCLASSES.contains(&(c & 0x7fff)) {
            return Err(Bad::Reject);
        }
        Ok(MQuestion { name, qtype, class: c & 0x7fff, unicast: MDNS && c >> 15 == 1 })
    }
    pub fn record(&mut self) -> R<MRecord> {
        self.owners.push(self.names.len());
        let name = self.name()?;
        let rtype = self.u16()?;
        self.n.special |= DNSSEC_TYPES.contains(&rtype);
        let Some(ti) = type_info(rtype) else { return Err(Bad::Reject) };
        let c = self.u16()?;
        self.n.special |= c >> 15 == 1 && rtype != 41;
        let ttl = self.uint(4)? as u32;
        let n = self.u16()? as usize;
        if n > self.left() {
            return Err(Bad::Reject);
        }
        let save = self.end;
        self.rdatas.push((rtype, self.pos, n));
        self.end = self.pos + n;
        let rdata = self.rdata(ti);
        let stop = self.end;
        self.end = save;
        let rdata = rdata?;
        self.pos = stop;
        let (class, flush) = if rtype == 41 { (c, false) } else { (c & 0x7fff, MDNS && c >> 15 == 1) };
        if !MDNS && rtype != 41 && c >> 15 == 1 {
            self.n.dropped = true;
        }
        Ok(MRecord { name, rtype, class, flush, ttl, rdata })
    }
    pub fn header(&mut self) -> R<(MHeader, [u16; 4])> {
        let id = self.u16()?;
        let f = self.u16()?;
        let h = MHeader::from_flags(id, f);
        if h.rcode > 10 {
            return Err(Bad::Reject);
        }
        Ok((h, [self.u16()?, self.u16()?, self.u16()?, self.u16()?]))
    }
    pub fn msg(&mut self) -> R<MMsg> {
        let (h, c) = self.header()?;
        let mut m = MMsg { h, ..Default::default() };
        for _ in 0..c[0] {
            let q = self.question()?;
            m.q.push(q);
        }
        for i in 0..3 {
            for _ in 0..c[i + 1] {
                let r = self.record()?;
                m.s[i].push(r);
            }
        }
        Ok(m)
    }
}
pub fn decode(d: &[u8]) -> (R<MMsg>, Notes, usize) {
    let mut x = Dec::new(d, 0);
    let r = x.msg();
    (r, x.n, x.pos)
}
