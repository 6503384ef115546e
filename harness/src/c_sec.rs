//! DNSSEC: created signatures (C20), tampering and hostile keys (C21), key tags, DS and texts (C23),
//! interoperation with implementations that share no code with the library (C24).
use crate::gen::Gen;
use crate::map::*;
use crate::model::*;
use crate::{hash, Cx, Workload};
use maybe_dns::rdata::{DnsKey, Ds, Rrsig};
use maybe_dns::*;
use rsa::BigUint;
use std::sync::OnceLock;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn workloads(v: &mut Vec<Workload>) {
    v.push(Workload::new("C20", "c20_sign", c20_sign, 30_000, false, &["verified", "over the wire", "RSA/MD5", "RSA/SHA-1", "RSA/SHA-256", "RSA/SHA-512", "DSA", "P-256", "P-384", "Ed25519", "Ed448"]));
    v.push(Workload::new("C20", "c20_times", c20_times, 20_000, false, &["signed"]));
    v.push(Workload::new("C21", "c21_tamper", c21_tamper, 16_000, false, &["signature changed", "field changed", "data changed", "set changed", "key changed", "other key", "records moved"]));
    v.push(Workload::new("C21", "c21_hostile_keys", c21_hostile_keys, 60_000, true, &["verifications"]));
    v.push(Workload::new("C21", "c21_hostile_private", c21_hostile_private, 6_000, false, &["refused", "signed"]));
    v.push(Workload::new("C23", "c23_ds", c23_ds, 500_000, true, &["DS", "RRSIG", "RSA/MD5 keys"]));
    v.push(Workload::new("C23", "c23_text", c23_text, 60_000, false, &["hex", "base64"]));
    v.push(Workload::new("C23", "c23_vectors", c23_vectors, 1, false, &["vectors"]));
    v.push(Workload::new("C24", "c24_vectors", c24_vectors, 1, false, &["vectors"]));
    v.push(Workload::new("C24", "c24_foreign", c24_foreign, 16_000, false, &["accepted", "RSA/MD5", "RSA/SHA-1", "RSA/SHA-256", "RSA/SHA-512", "DSA", "P-256", "P-384", "Ed25519", "Ed448"]));
    v.push(Workload::new("C24", "c24_ours", c24_ours, 16_000, false, &["accepted", "RSA/MD5", "RSA/SHA-1", "RSA/SHA-256", "RSA/SHA-512", "DSA", "P-256", "P-384", "Ed25519", "Ed448"]));
}

// ---- keys -----------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Rsa,
    Dsa,
    P256,
    P384,
    Ed25519,
    Ed448,
}
pub struct Key {
    pub name: &'static str,
    pub kind: Kind,
    /// as the library's signing functions take it
    pub private: Vec<u8>,
    /// as in a DNSKEY record
    pub public: Vec<u8>,
    pub bits: usize,
    n: Vec<BigUint>,
}
macro_rules! key_files {
    ($($kind:ident $f:literal;)*) => { [$((Kind::$kind, $f, &include_bytes!(concat!("../keys/", $f))[..])),*] };
}
fn pad(n: &BigUint, l: usize) -> Vec<u8> {
    let b = n.to_bytes_be();
    let mut v = vec![0; l - b.len()];
    v.extend(b);
    v
}
pub fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        let files = key_files! {
            Rsa "rsa512.p8"; Rsa "rsa768.p8"; Rsa "rsa1024.p8"; Rsa "rsa1024e3.p8"; Rsa "rsa2048a.p8"; Rsa "rsa2048b.p8"; Rsa "rsa3072.p8";
            Rsa "rsa1023.p8"; Rsa "rsa1025.p8"; Rsa "rsa1031.p8"; Rsa "rsa1024e33.p8";
            Dsa "dsa512a.p8"; Dsa "dsa768a.p8"; Dsa "dsa1024a.p8"; Dsa "dsa1024b.p8";
            Dsa "dsa512y8.p8"; Dsa "dsa512y16.p8"; Dsa "dsa1024y8.p8";
            P256 "p256a.p8"; P256 "p256b.p8"; P384 "p384a.p8"; P384 "p384b.p8";
            Ed25519 "ed25519a.p8"; Ed25519 "ed25519b.p8"; Ed448 "ed448a.raw"; Ed448 "ed448b.raw";
        };
        // for each curve a key for each value of the first octet of the public key
        let many: [(Kind, &str, usize, &[u8]); 4] = [
            (Kind::P256, "P-256", 138, include_bytes!("../keys/p256.many")),
            (Kind::P384, "P-384", 185, include_bytes!("../keys/p384.many")),
            (Kind::Ed25519, "Ed25519", 83, include_bytes!("../keys/ed25519.many")),
            (Kind::Ed448, "Ed448", 57, include_bytes!("../keys/ed448.many")),
        ];
        let many = many.into_iter().flat_map(|(kind, n, size, b)| b.chunks(size).enumerate().map(move |(i, der)| (kind, &*Box::leak(format!("{n} key {i}").into_boxed_str()), der)));
        files
            .into_iter()
            .chain(many)
            .map(|(kind, name, der)| {
                let (public, bits, n) = match kind {
                    Kind::Rsa => {
                        use rsa::{pkcs8::DecodePrivateKey, traits::PrivateKeyParts, traits::PublicKeyParts};
                        let k = rsa::RsaPrivateKey::from_pkcs8_der(der).unwrap();
                        (rsa_public(k.e(), k.n(), false), k.n().bits(), vec![k.n().clone(), k.e().clone(), k.d().clone()])
                    }
                    Kind::Dsa => {
                        use dsa::pkcs8::DecodePrivateKey;
                        let k = dsa::SigningKey::from_pkcs8_der(der).unwrap();
                        let c = k.verifying_key().components();
                        let l = (c.p().bits() + 63) / 64 * 8;
                        let mut b = vec![((l - 64) / 8) as u8];
                        b.extend(pad(c.q(), 20));
                        b.extend(pad(c.p(), l));
                        b.extend(pad(c.g(), l));
                        b.extend(pad(k.verifying_key().y(), l));
                        (b, c.p().bits(), vec![c.p().clone(), c.q().clone(), c.g().clone(), k.verifying_key().y().clone(), k.x().clone()])
                    }
                    Kind::P256 | Kind::P384 => {
                        use ring::signature::KeyPair;
                        let a = if kind == Kind::P256 { &ring::signature::ECDSA_P256_SHA256_FIXED_SIGNING } else { &ring::signature::ECDSA_P384_SHA384_FIXED_SIGNING };
                        let k = ring::signature::EcdsaKeyPair::from_pkcs8(a, der, &ring::rand::SystemRandom::new()).unwrap();
                        let p = k.public_key().as_ref().to_vec();
                        assert!(p[0] == 4);
                        (p[1..].to_vec(), 0, vec![])
                    }
                    Kind::Ed25519 => {
                        use ring::signature::KeyPair;
                        let k = ring::signature::Ed25519KeyPair::from_pkcs8(der).unwrap();
                        (k.public_key().as_ref().to_vec(), 0, vec![])
                    }
                    Kind::Ed448 => (crrl::ed448::PrivateKey::decode(der).unwrap().public_key.encode().to_vec(), 0, vec![]),
                };
                Key { name, kind, private: der.to_vec(), public, bits, n }
            })
            .collect()
    })
}
fn rsa_public(e: &BigUint, n: &BigUint, long: bool) -> Vec<u8> {
    let e = e.to_bytes_be();
    let mut b = if long { vec![0, (e.len() >> 8) as u8, e.len() as u8] } else { vec![e.len() as u8] };
    b.extend(e);
    b.extend(n.to_bytes_be());
    b
}
pub const ALGS: [(u8, Kind, &str); 9] = [
    (1, Kind::Rsa, "RSA/MD5"),
    (3, Kind::Dsa, "DSA"),
    (5, Kind::Rsa, "RSA/SHA-1"),
    (8, Kind::Rsa, "RSA/SHA-256"),
    (10, Kind::Rsa, "RSA/SHA-512"),
    (13, Kind::P256, "P-256"),
    (14, Kind::P384, "P-384"),
    (15, Kind::Ed25519, "Ed25519"),
    (16, Kind::Ed448, "Ed448"),
];
fn sec_alg_names(a: u8) -> &'static str {
    ALGS.iter().find(|x| x.0 == a).map(|x| x.2).unwrap_or("other")
}
/// Is this key allowed with this algorithm? (signing: the library's providers want 2048 bits for SHA-2)
fn usable(k: &Key, alg: u8, signing: bool) -> bool {
    let kind = ALGS.iter().find(|x| x.0 == alg).unwrap().1;
    k.kind == kind
        && match alg {
            8 | 10 if signing => k.bits >= 2048,
            10 => k.bits >= 768,
            1 | 5 if signing => k.bits >= 512,
            _ => true,
        }
}
fn pick_key(g: &mut Gen, alg: u8, signing: bool, small: bool) -> &'static Key {
    let mut c: Vec<&Key> = keys().iter().filter(|k| usable(k, alg, signing)).collect();
    if small {
        let m = c.iter().map(|k| k.bits).min().unwrap();
        c.retain(|k| k.bits <= m.max(1024));
    }
    let i = g.ix(c.len());
    c[i]
}
fn dnskey(g: &mut Gen, alg: u8, public: &[u8]) -> DnsKey {
    let mut k = DnsKey::new(alg.try_into().unwrap(), public.to_vec());
    k.zone_key = g.flip();
    k.secure_entry_point = g.flip();
    k
}
fn dnskey_rdata(k: &DnsKey, alg: u8) -> Vec<u8> {
    let mut v = vec![k.zone_key as u8, k.secure_entry_point as u8, 3, alg];
    v.extend(&k.public_key);
    v
}
/// RFC 4034, appendix B.
pub fn key_tag(rdata: &[u8]) -> u16 {
    if rdata[3] == 1 {
        let k = &rdata[4..];
        return u16::from_be_bytes([k[k.len() - 3], k[k.len() - 2]]);
    }
    let mut ac: u64 = 0;
    for (i, b) in rdata.iter().enumerate() {
        ac += if i % 2 == 1 { *b as u64 } else { (*b as u64) << 8 };
    }
    ac += (ac >> 16) & 0xffff;
    ac as u16
}

// ---- independent cryptography -----------------------------------------------------------------------------
pub fn digest(kind: &str, d: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    match kind {
        "md5" => md5::Md5::digest(d).to_vec(),
        "sha1" => sha1::Sha1::digest(d).to_vec(),
        "sha256" => sha2::Sha256::digest(d).to_vec(),
        "sha384" => sha2::Sha384::digest(d).to_vec(),
        _ => sha2::Sha512::digest(d).to_vec(),
    }
}
/// PKCS #1 v1.5 encoded message for a modulus of k octets.
fn em(alg: u8, data: &[u8], k: usize) -> Option<BigUint> {
    let (oid, h): (&[u8], _) = match alg {
        1 => (&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05], digest("md5", data)),
        5 => (&[0x2b, 0x0e, 0x03, 0x02, 0x1a], digest("sha1", data)),
        8 => (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01], digest("sha256", data)),
        _ => (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03], digest("sha512", data)),
    };
    let mut id = vec![0x06, oid.len() as u8];
    id.extend(oid);
    id.extend([5, 0]);
    let mut t = vec![0x30, id.len() as u8];
    t.extend(id);
    t.extend([4, h.len() as u8]);
    t.extend(h);
    let mut s = vec![0x30, t.len() as u8];
    s.extend(t);
    if s.len() + 11 > k {
        return None;
    }
    let mut e = vec![0, 1];
    e.resize(k - s.len() - 1, 0xff);
    e.push(0);
    e.extend(s);
    Some(BigUint::from_bytes_be(&e))
}
fn modulus_len(k: &Key) -> usize {
    (k.bits + 7) / 8
}
/// A signature over data in DNSSEC's format.
pub fn foreign_sign(g: &mut Gen, k: &Key, alg: u8, data: &[u8]) -> Option<Vec<u8>> {
    Some(match k.kind {
        Kind::Rsa => pad(&em(alg, data, modulus_len(k))?.modpow(&k.n[2], &k.n[0]), modulus_len(k)),
        Kind::Dsa => {
            let (p, q, gg, x) = (&k.n[0], &k.n[1], &k.n[2], &k.n[4]);
            let h = BigUint::from_bytes_be(&digest("sha1", data));
            let two = BigUint::from(2u8);
            // small nonces make r and s with leading zeros more likely to be reached by search below
            let mut nonce = BigUint::from_bytes_be(&g.bytes(20)) % q + BigUint::from(1u8);
            let want_short = g.chance(1, 6);
            for _ in 0..400 {
                let r = gg.modpow(&nonce, p) % q;
                let s = nonce.modpow(&(q - &two), q) * (&h + x * &r) % q;
                let zero = BigUint::from(0u8);
                if r != zero && s != zero && (!want_short || r.to_bytes_be().len() < 20 || s.to_bytes_be().len() < 20) {
                    let l = (p.bits() + 63) / 64 * 8;
                    let mut b = vec![((l - 64) / 8) as u8];
                    b.extend(pad(&r, 20));
                    b.extend(pad(&s, 20));
                    return Some(b);
                }
                nonce = (nonce + BigUint::from(1u8)) % q;
            }
            return None;
        }
        Kind::P256 | Kind::P384 => {
            let rng = ring::rand::SystemRandom::new();
            let a = if k.kind == Kind::P256 { &ring::signature::ECDSA_P256_SHA256_FIXED_SIGNING } else { &ring::signature::ECDSA_P384_SHA384_FIXED_SIGNING };
            ring::signature::EcdsaKeyPair::from_pkcs8(a, &k.private, &rng).unwrap().sign(&rng, data).unwrap().as_ref().to_vec()
        }
        Kind::Ed25519 => ring::signature::Ed25519KeyPair::from_pkcs8(&k.private).unwrap().sign(data).as_ref().to_vec(),
        Kind::Ed448 => crrl::ed448::PrivateKey::decode(&k.private).unwrap().sign_raw(data).to_vec(),
    })
}
pub fn foreign_verify(k: &Key, alg: u8, data: &[u8], sig: &[u8]) -> bool {
    match k.kind {
        Kind::Rsa => sig.len() == modulus_len(k) && em(alg, data, modulus_len(k)).is_some_and(|e| BigUint::from_bytes_be(sig).modpow(&k.n[1], &k.n[0]) == e),
        Kind::Dsa => {
            let (p, q, gg, y) = (&k.n[0], &k.n[1], &k.n[2], &k.n[3]);
            let l = (p.bits() + 63) / 64 * 8;
            if sig.len() != 41 || sig[0] as usize != (l - 64) / 8 {
                return false;
            }
            let (r, s) = (BigUint::from_bytes_be(&sig[1..21]), BigUint::from_bytes_be(&sig[21..]));
            let zero = BigUint::from(0u8);
            if r == zero || s == zero || r >= *q || s >= *q {
                return false;
            }
            let w = s.modpow(&(q - BigUint::from(2u8)), q);
            let h = BigUint::from_bytes_be(&digest("sha1", data));
            let v = gg.modpow(&(h * &w % q), p) * y.modpow(&(&r * &w % q), p) % p % q;
            v == r
        }
        Kind::P256 | Kind::P384 => {
            let a = if k.kind == Kind::P256 { &ring::signature::ECDSA_P256_SHA256_FIXED } else { &ring::signature::ECDSA_P384_SHA384_FIXED };
            let mut p = vec![4];
            p.extend(&k.public);
            ring::signature::UnparsedPublicKey::new(a, p).verify(data, sig).is_ok()
        }
        Kind::Ed25519 => ring::signature::UnparsedPublicKey::new(&ring::signature::ED25519, &k.public).verify(data, sig).is_ok(),
        Kind::Ed448 => crrl::ed448::PublicKey::decode(&k.public).unwrap().verify_raw(sig, data),
    }
}

// ---- record sets ------------------------------------------------------------------------------------------
#[derive(Clone)]
struct Set {
    name: MName,
    code: u16,
    class: u16,
    ttl: u32,
    f: Vec<Vec<F>>,
}
struct Lib {
    name: FQDN,
    data: Vec<RecordData>,
}
impl Set {
    fn gen(g: &mut Gen) -> Set {
        let mut pool = vec![];
        let ti = *g.pick(types());
        let o = Opt { max_blob: if g.chance(1, 50) { 20_000 } else { *g.pick(&[3usize, 20, 60, 300]) }, ..Default::default() };
        let name = gen_name(g, &mut pool);
        let n = match g.below(240) {
            0 => g.range(256, 400),
            1..=20 => g.range(8, 20),
            _ => g.range(1, 6),
        };
        let f = (0..n).map(|_| gen_rdata(g, ti, &mut pool, &o)).collect();
        Set { name, code: ti.code, class: if g.chance(1, 5) { g.int(0x7fff) as u16 } else { g.range(1, 4) as u16 }, ttl: g.u32(), f }
    }
    /// distinct wire forms
    fn distinct(mut self) -> Set {
        let mut seen = std::collections::BTreeSet::new();
        let code = self.code;
        self.f.retain(|f| seen.insert(encode_rdata(code, f)));
        self
    }
    fn lib(&self) -> Result<Lib, String> {
        Ok(Lib { name: name_to(&self.name), data: self.f.iter().map(|f| rdata_to(self.code, f)).collect::<Result<_, _>>()? })
    }
    /// owner | type | class | ttl | rdlength | rdata, in canonical order
    fn wire(&self) -> Vec<u8> {
        let mut r: Vec<Vec<u8>> = self.f.iter().map(|f| encode_rdata(self.code, f)).collect();
        r.sort();
        let mut v = vec![];
        for r in r {
            v.extend(self.name.wire());
            v.extend(self.code.to_be_bytes());
            v.extend(self.class.to_be_bytes());
            v.extend(self.ttl.to_be_bytes());
            v.extend((r.len() as u16).to_be_bytes());
            v.extend(r);
        }
        v
    }
    fn set<'a>(&self, l: &'a Lib) -> ResourceRecordSet<'a> {
        ResourceRecordSet::new(&l.name, rtype(self.code).unwrap(), rclass(self.class, false), self.ttl, l.data.iter().collect())
    }
    fn labels(&self) -> u8 {
        self.name.0.len() as u8
    }
}
fn head(code: u16, alg: u8, labels: u8, ttl: u32, exp: u32, inc: u32, tag: u16, signer: &MName) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend([alg, labels]);
    v.extend(ttl.to_be_bytes());
    v.extend(exp.to_be_bytes());
    v.extend(inc.to_be_bytes());
    v.extend(tag.to_be_bytes());
    v.extend(signer.wire());
    v
}
fn times(g: &mut Gen) -> (u32, u32, SystemTime, SystemTime) {
    let (a, b) = (g.u32(), g.u32());
    let t = |g: &mut Gen, s: u32| UNIX_EPOCH + Duration::new(s as u64, g.int(999_999_999) as u32);
    let (x, y) = (t(g, a), t(g, b));
    (a, b, x, y)
}
fn shuffle<T>(g: &mut Gen, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = g.ix(i + 1);
        v.swap(i, j);
    }
}
fn accepted(cx: &mut Cx, what: &str, r: Result<bool, DnsError>) -> Result<(), String> {
    cx.count("verified");
    match r {
        Ok(true) => Ok(()),
        Ok(false) => Err(format!("{what}: a valid signature does not verify")),
        Err(e) => Err(format!("{what}: verifying a valid signature fails with {e}")),
    }
}
fn rejected(what: &str, r: Result<bool, DnsError>) -> Result<(), String> {
    match r {
        Ok(true) => Err(format!("{what}: verification returns true")),
        Ok(false) => Ok(()),
        Err(e) => {
            let _ = format!("{e} {e:?}");
            Ok(())
        }
    }
}

// ---- C20 --------------------------------------------------------------------------------------------------
fn c20_sign(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (alg, _, an) = *g.pick(&ALGS);
    let key = pick_key(g, alg, true, false);
    let dk = dnskey(g, alg, &key.public);
    let s = Set::gen(g);
    let l = s.lib()?;
    let (inc, exp, ti, te) = times(g);
    let what = format!("{an} with {}, type {}, owner {:?}, {} records", key.name, s.code, s.name, s.f.len());
    cx.count(an);
    cx.nontrivial(hash(&(alg, s.wire(), inc, exp)));
    cx.sample(|| format!("{what}: {}", hex(&s.wire())));
    let set = s.set(&l);
    let sig = Rrsig::from_dnskey(&dk, &set, &ti, &te, &key.private).map_err(|e| format!("{what}: signing with a valid key fails with {e}"))?;
    // what the record says
    let tag = key_tag(&dnskey_rdata(&dk, alg));
    let mut want = head(s.code, alg, s.labels(), s.ttl, exp, inc, tag, &s.name);
    let b = sig.to_bytes();
    if !b.starts_with(&want) {
        return Err(format!("{what}: the signature record starts with {}, should be {}", hex(&b[..want.len().min(b.len())]), hex(&want)));
    }
    if b[want.len()..] != *sig.signature() || sig.key_tag() != tag || sig.signature().is_empty() {
        return Err(format!("{what}: accessors of the signature record disagree with it"));
    }
    want.extend(s.wire());
    accepted(cx, &what, sig.verify(&dk, &set))?;
    // same records in another order
    let mut refs: Vec<&RecordData> = l.data.iter().collect();
    shuffle(g, &mut refs);
    let other = ResourceRecordSet::new(&l.name, rtype(s.code).unwrap(), rclass(s.class, false), s.ttl, refs);
    accepted(cx, &format!("{what}, reordered"), sig.verify(&dk, &other))?;
    let mut canon = other.clone();
    canon.canonical_reorder();
    accepted(cx, &format!("{what}, canonically reordered"), sig.verify(&dk, &canon))?;
    // and signing the reordered set gives a signature for the same data
    if g.chance(1, 4) {
        let sig2 = Rrsig::from_dnskey(&dk, &canon, &ti, &te, &key.private).map_err(|e| format!("{what}: signing the reordered set fails with {e}"))?;
        accepted(cx, &format!("{what}, signed reordered"), sig2.verify(&dk, &set))?;
    }
    // over the wire
    if s.code != 41 {
        cx.count("over the wire");
        let mut p = Packet::default();
        for d in &l.data {
            p.add_answer(ResourceRecord::new(l.name.clone(), rtype(s.code).unwrap(), rclass(s.class, false), s.ttl, d.clone()));
        }
        p.add_answer(ResourceRecord::new(l.name.clone(), RecordType::RRSIG, RecordClass::IN, s.ttl, RecordData::RRSIG(sig.clone())));
        p.add_additional(ResourceRecord::new(l.name.clone(), RecordType::DNSKEY, RecordClass::IN, 60, RecordData::DNSKEY(dk.clone())));
        let bytes = if g.flip() { p.to_bytes() } else { p.to_bytes_compressed() };
        let q = Packet::try_from(&bytes[..]).map_err(|e| format!("{what}: the message with records, signature and key is rejected: {e}"))?;
        let n = q.answers().len();
        let (Some(last), Some(k)) = (q.answers().last(), q.additionals().first()) else {
            return Err(format!("{what}: records are missing after transport"));
        };
        let (RecordData::RRSIG(sig3), RecordData::DNSKEY(k3)) = (last.data(), k.data()) else {
            return Err(format!("{what}: signature or key have another type after transport"));
        };
        if *sig3 != sig || *k3 != dk {
            return Err(format!("{what}: signature or key differ after transport: {sig3:?} {k3:?}"));
        }
        let rs: Vec<&RecordData> = q.answers()[..n - 1].iter().map(|r| r.data()).collect();
        let set3 = ResourceRecordSet::new(last.name(), rtype(s.code).unwrap(), rclass(s.class, false), s.ttl, rs);
        accepted(cx, &format!("{what}, after transport"), sig3.verify(k3, &set3))?;
    }
    Ok(())
}
fn c20_times(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let key = pick_key(g, 15, true, false);
    let dk = dnskey(g, 15, &key.public);
    let s = Set::gen(g);
    let l = s.lib()?;
    let (inc, exp, ti, te) = times(g);
    cx.nontrivial(hash(&(inc, exp)));
    let sig = Rrsig::from_dnskey(&dk, &s.set(&l), &ti, &te, &key.private).map_err(|e| format!("signing with times {inc} {exp} fails with {e}"))?;
    cx.count("signed");
    let b = sig.to_bytes();
    if b[8..12] != exp.to_be_bytes() || b[12..16] != inc.to_be_bytes() {
        return Err(format!("signature from {inc} to {exp} states {}", hex(&b[8..16])));
    }
    // a time before 1970 has no representation: refused, not wrong
    let early = UNIX_EPOCH - Duration::new(g.range(1, 1 << 32), 0);
    let (a, b) = if g.flip() { (&early, &te) } else { (&ti, &early) };
    if Rrsig::from_dnskey(&dk, &s.set(&l), a, b, &key.private).is_ok() {
        return Err("a signature with a time before 1970 was created".into());
    }
    Ok(())
}

// ---- C21 --------------------------------------------------------------------------------------------------
#[derive(Clone)]
struct Fields {
    code: u16,
    alg: u8,
    labels: u8,
    ttl: u32,
    exp: u32,
    inc: u32,
    tag: u16,
    signer: MName,
    sig: Vec<u8>,
}
impl Fields {
    fn lib(&self) -> Rrsig {
        Rrsig::new(rtype(self.code).unwrap(), self.alg.try_into().unwrap(), self.labels, self.ttl, self.exp, self.inc, self.tag, name_to(&self.signer), self.sig.clone())
    }
}
fn other_bit(g: &mut Gen, w: u32) -> u32 {
    1 << g.below(w as u64)
}
fn lower(n: &MName) -> Vec<Vec<u8>> {
    n.0.iter().map(|l| l.to_ascii_lowercase()).collect()
}
/// another name that differs in more than letter case
fn other_name(g: &mut Gen, n: &MName) -> MName {
    let mut m = n.clone();
    match g.below(5) {
        0 if !m.0.is_empty() => {
            m.0.remove(0);
        }
        1 if !m.0.is_empty() => {
            let i = g.ix(m.0.len());
            let j = g.ix(m.0[i].len());
            m.0[i][j] ^= 1 << g.below(8);
        }
        2 if m.0.len() > 1 => {
            let i = g.ix(m.0.len() - 1);
            m.0.swap(i, i + 1);
        }
        3 if m.0.len() > 1 => {
            // move a label boundary
            let i = g.ix(m.0.len() - 1);
            if m.0[i].len() > 1 {
                let c = m.0[i].pop().unwrap();
                m.0[i + 1].insert(0, c);
            }
        }
        _ => m.0.insert(0, vec![b'x']),
    }
    if m == *n || !fits(&m.0) || m.0.iter().any(|l| l.is_empty() || l.len() > 63) {
        m = if n.0.is_empty() { MName(vec![b"other".to_vec()]) } else { MName(vec![]) };
    }
    m
}
fn c21_tamper(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (alg, _, an) = *g.pick(&ALGS);
    let small = g.chance(3, 4);
    let key = pick_key(g, alg, true, small);
    let dk = dnskey(g, alg, &key.public);
    let s = Set::gen(g).distinct();
    let l = s.lib()?;
    let (_, _, ti, te) = times(g);
    let set = s.set(&l);
    let Ok(sig) = Rrsig::from_dnskey(&dk, &set, &ti, &te, &key.private) else {
        return Err(format!("{an}: signing with a valid key fails"));
    };
    if !matches!(sig.verify(&dk, &set), Ok(true)) {
        return Err(format!("{an}: the untouched signature does not verify, tampering cannot be observed"));
    }
    let b = sig.to_bytes();
    let mut d = Dec::new(&b, 0);
    let (Ok(code), Ok(a), Ok(labels), Ok(ttl), Ok(exp), Ok(inc), Ok(tag), Ok(signer)) = (d.u16(), d.uint(1), d.uint(1), d.uint(4), d.uint(4), d.uint(4), d.u16(), d.name()) else {
        return Err("the signature record cannot be read".into());
    };
    let f0 = Fields { code, alg: a as u8, labels: labels as u8, ttl: ttl as u32, exp: exp as u32, inc: inc as u32, tag, signer, sig: b[d.pos..].to_vec() };
    if f0.lib() != sig || f0.alg != alg {
        return Err(format!("{an}: the signature record built from its fields differs from the original"));
    }
    cx.nontrivial(hash(&(alg, s.wire())));
    cx.count(an);
    for _ in 0..g.range(6, 14) {
        let mut f = f0.clone();
        match g.below(12) {
            0 | 1 => {
                cx.count("signature changed");
                let n = f.sig.len();
                match g.below(8) {
                    0..=3 => {
                        let i = g.ix(n);
                        f.sig[i] ^= other_bit(g, 8) as u8;
                    }
                    4 => f.sig.truncate(g.ix(n)),
                    5 => f.sig.push(g.u8()),
                    6 => f.sig.insert(0, 0),
                    _ => f.sig.iter_mut().for_each(|b| *b = 0),
                }
                if f.sig == f0.sig {
                    continue;
                }
                rejected(&format!("{an}, signature changed to {}", hex(&f.sig)), f.lib().verify(&dk, &set))?;
            }
            2 | 3 => {
                cx.count("field changed");
                let (what, old) = match g.below(7) {
                    0 => {
                        let o = f.code;
                        f.code = g.pick(types()).code;
                        if f.code == o {
                            continue;
                        }
                        ("type covered", o as u32)
                    }
                    1 => {
                        f.labels ^= if g.flip() { other_bit(g, 8) as u8 } else { g.range(1, 255) as u8 };
                        ("labels", f0.labels as u32)
                    }
                    2 => {
                        f.ttl ^= other_bit(g, 32);
                        ("original TTL", f0.ttl)
                    }
                    3 => {
                        f.exp ^= other_bit(g, 32);
                        ("expiration", f0.exp)
                    }
                    4 => {
                        f.inc ^= other_bit(g, 32);
                        ("inception", f0.inc)
                    }
                    5 => {
                        f.tag ^= other_bit(g, 16) as u16;
                        ("key tag", f0.tag as u32)
                    }
                    _ => {
                        f.signer = other_name(g, &f.signer);
                        ("signer", 0)
                    }
                };
                rejected(&format!("{an}, {what} changed from {old} in {:?} signed by {:?}", f0.labels, f0.signer), f.lib().verify(&dk, &set))?;
            }
            4 => {
                // another algorithm number, in the signature only or in both
                let (na, _, nn) = *g.pick(&ALGS);
                let na = if g.chance(1, 6) { *g.pick(&[252u8, 253, 254]) } else { na };
                if na == alg {
                    continue;
                }
                cx.count("field changed");
                f.alg = na;
                rejected(&format!("{an} signature labelled {nn}"), f.lib().verify(&dk, &set))?;
                let mut k = dk.clone();
                k.algorithm = na.try_into().unwrap();
                rejected(&format!("{an} signature, key labelled {nn}"), f0.lib().verify(&k, &set))?;
                rejected(&format!("{an} signature and key labelled {nn}"), f.lib().verify(&k, &set))?;
            }
            5 | 6 => {
                cx.count("data changed");
                let mut t = s.clone();
                let i = g.ix(t.f.len());
                let mut pool = vec![];
                let o = Opt { max_blob: 40, ..Default::default() };
                t.f[i] = near(g, &t.f[i], type_info(t.code).unwrap(), &mut pool, &o);
                if t.wire() == s.wire() {
                    continue;
                }
                let tl = t.lib()?;
                rejected(&format!("{an}, records {} changed to {}", hex(&s.wire()), hex(&t.wire())), sig.verify(&dk, &t.set(&tl)))?;
            }
            7 => {
                cx.count("set changed");
                let mut t = s.clone();
                let what = match g.below(3) {
                    0 => {
                        t.name = other_name(g, &t.name);
                        "owner"
                    }
                    1 => {
                        t.class ^= other_bit(g, 15) as u16;
                        "class"
                    }
                    _ => {
                        t.code = g.pick(types()).code;
                        "type"
                    }
                };
                if (&t.name, t.class, t.code) == (&s.name, s.class, s.code) {
                    continue;
                }
                let n = name_to(&t.name);
                let ts = ResourceRecordSet::new(&n, rtype(t.code).unwrap(), rclass(t.class, false), t.ttl, l.data.iter().collect());
                rejected(&format!("{an}, {what} of the set changed: {:?} {} {} to {:?} {} {}", s.name, s.class, s.code, t.name, t.class, t.code), sig.verify(&dk, &ts))?;
            }
            8 => {
                cx.count("set changed");
                let mut t = s.clone();
                let i = g.ix(t.f.len());
                let what = if g.flip() {
                    t.f.remove(i);
                    "removed"
                } else if g.chance(1, 4) {
                    let f = t.f[i].clone();
                    let j = g.ix(t.f.len() + 1);
                    t.f.insert(j, f);
                    "added twice"
                } else {
                    let mut pool = vec![];
                    let f = gen_rdata(g, type_info(s.code).unwrap(), &mut pool, &Opt { max_blob: 20, ..Default::default() });
                    t.f.insert(i, f);
                    "added"
                };
                if t.wire() == s.wire() {
                    continue;
                }
                let tl = t.lib()?;
                rejected(&format!("{an}, a record was {what}"), sig.verify(&dk, &t.set(&tl)))?;
            }
            9 => {
                cx.count("key changed");
                let mut k = dk.clone();
                let n = k.public_key.len();
                let what = match g.below(5) {
                    0 => {
                        k.public_key.truncate(g.ix(n));
                        "truncated"
                    }
                    // octets after a DSA key are not part of it
                    1 if alg != 3 && alg != 6 => {
                        let x = g.range(1, 4) as usize;
                        let x = if g.flip() { vec![0; x] } else { g.bytes(x) };
                        k.public_key.extend(x);
                        "extended"
                    }
                    _ => {
                        let i = g.ix(n);
                        k.public_key[i] ^= other_bit(g, 8) as u8;
                        "bit flipped"
                    }
                };
                rejected(&format!("{an}, public key {what}: {}", hex(&k.public_key)), sig.verify(&k, &set))?;
            }
            10 => {
                let o: Vec<&Key> = keys().iter().filter(|k| k.kind == key.kind && k.name != key.name).collect();
                let o = *g.pick(&o);
                cx.count("other key");
                let k = dnskey(g, alg, &o.public);
                rejected(&format!("{an}, signed with {} verified with {}", key.name, o.name), sig.verify(&k, &set))?;
            }
            _ => {
                // the same octets cut into records differently
                let k = g.range(2, 6) as usize;
                let blob = g.bytes(k);
                let cut = 1 + g.ix(k - 1);
                let cut2 = 1 + g.ix(k - 1);
                if cut == cut2 {
                    continue;
                }
                let mk = |c: usize| Set { name: s.name.clone(), code: 10, class: s.class, ttl: s.ttl, f: vec![vec![F::Rest(blob[..c].to_vec())], vec![F::Rest(blob[c..].to_vec())]] };
                let (x, y) = (mk(cut), mk(cut2));
                if x.wire() == y.wire() {
                    continue;
                }
                cx.count("records moved");
                let (xl, yl) = (x.lib()?, y.lib()?);
                let Ok(sg) = Rrsig::from_dnskey(&dk, &x.set(&xl), &ti, &te, &key.private) else {
                    return Err(format!("{an}: signing with a valid key fails"));
                };
                rejected(&format!("{an}, octets moved between records of {}", hex(&x.wire())), sg.verify(&dk, &y.set(&yl)))?;
            }
        }
    }
    // still fine after all that
    accepted(cx, an, sig.verify(&dk, &set))
}
/// A close relative of RDATA.
fn near(g: &mut Gen, f: &[F], ti: &TypeInfo, pool: &mut Vec<MName>, o: &Opt) -> Vec<F> {
    let fresh = gen_rdata(g, ti, pool, o);
    let mut v = f.to_vec();
    let i = g.ix(v.len());
    match &mut v[i] {
        F::Rest(b) if !b.is_empty() && g.flip() => {
            let j = g.ix(b.len());
            b[j] ^= 1 << g.below(8);
        }
        F::Rest(b) => {
            if g.flip() {
                b.push(g.u8());
            } else {
                b.pop();
            }
        }
        F::Raw(b) if !b.is_empty() => {
            let j = g.ix(b.len());
            b[j] ^= 1 << g.below(8);
        }
        F::U(_, x) => {
            if let (S::U(w, D::Any), _) = (ti.schema[i], ()) {
                *x ^= 1 << g.below(8 * w as u64);
            } else {
                return fresh;
            }
        }
        F::Name(n) => *n = other_name(g, n),
        _ => return fresh,
    }
    v
}
fn hostile_public(g: &mut Gen, alg: u8) -> Vec<u8> {
    let kind = ALGS.iter().find(|x| x.0 == alg).map(|x| x.1);
    let real: Vec<&Key> = keys().iter().filter(|k| Some(k.kind) == kind).collect();
    let mut v = match g.below(6) {
        0 => g.blob(80),
        1 if !real.is_empty() => {
            let mut v = g.pick(&real).public.clone();
            for _ in 0..g.range(1, 4) {
                let i = g.ix(v.len());
                v[i] = g.u8();
            }
            v
        }
        2 if !real.is_empty() => {
            let v = &g.pick(&real).public;
            v[..g.ix(v.len() + 1)].to_vec()
        }
        3 => {
            let n = *g.pick(&[0usize, 1, 31, 32, 33, 56, 57, 58, 63, 64, 65, 95, 96, 97]);
            vec![*g.pick(&[0u8, 1, 0xff, 4, 2]); n]
        }
        _ => match kind {
            Some(Kind::Dsa) => {
                let t = *g.pick(&[0u8, 1, 8, 8, 255]) as usize;
                let l = 64 + 8 * t;
                let mut v = vec![t as u8];
                for n in [20, l, l, l] {
                    let mut b = match g.below(5) {
                        0 => vec![0; n],
                        1 => {
                            let mut b = vec![0; n];
                            b[n - 1] = *g.pick(&[1u8, 2, 3]);
                            b
                        }
                        2 => vec![0xff; n],
                        _ => g.bytes(n),
                    };
                    if g.chance(1, 8) {
                        b[0] = 0;
                    }
                    v.extend(b);
                }
                v
            }
            Some(Kind::Rsa) => {
                let e = match g.below(5) {
                    0 => vec![],
                    1 => vec![*g.pick(&[0u8, 1, 2, 3])],
                    2 => vec![1, 0, 1],
                    _ => g.blob(9),
                };
                let m = match g.below(6) {
                    0 => vec![],
                    1 => vec![*g.pick(&[0u8, 1, 2, 3])],
                    2 => vec![0; 64],
                    3 => g.bytes(64),
                    4 => {
                        let n = *g.pick(&[64usize, 128, 256, 512, 513, 700]);
                        vec![0xff; n]
                    }
                    _ => {
                        let n = g.len(64);
                        g.bytes(n)
                    }
                };
                let mut v = match g.below(4) {
                    0 => vec![0, 0, e.len() as u8],
                    1 => vec![g.u8()],
                    _ => vec![e.len() as u8],
                };
                v.extend(e);
                v.extend(m);
                v
            }
            Some(Kind::P256) => g.bytes(64),
            Some(Kind::P384) => g.bytes(96),
            Some(Kind::Ed25519) => g.bytes(32),
            Some(Kind::Ed448) => g.bytes(57),
            None => g.blob(80),
        },
    };
    if g.chance(1, 10) {
        let n = g.len(20);
        v.extend(g.bytes(n));
    }
    v
}
fn c21_hostile_keys(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let alg = if g.chance(1, 12) { *g.pick(&[252u8, 253, 254]) } else { g.pick(&ALGS).0 };
    let public = hostile_public(g, alg);
    let dk = DnsKey::new(alg.try_into().unwrap(), public.clone());
    let name = FQDN::try_from("host.example").unwrap_or_default();
    let a = RecordData::NULL(maybe_dns::rdata::Null::new(vec![1]));
    let set = ResourceRecordSet::new(&name, RecordType::NULL, RecordClass::IN, 5, vec![&a]);
    let n = match alg {
        1 | 5 | 8 | 10 => *g.pick(&[0usize, 1, 64, 128, 256, 512, public.len().saturating_sub(4)]),
        3 => *g.pick(&[0usize, 1, 20, 40, 41, 42]),
        13 | 15 => *g.pick(&[0usize, 63, 64, 65]),
        14 => *g.pick(&[0usize, 95, 96, 97]),
        _ => *g.pick(&[0usize, 1, 113, 114, 115]),
    };
    let mut sig = match g.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => g.bytes(n),
    };
    if alg == 3 && !sig.is_empty() && !public.is_empty() && g.chance(3, 4) {
        sig[0] = public[0];
    }
    cx.count("verifications");
    cx.nontrivial(hash(&(alg, &public, &sig)));
    cx.sample(|| format!("{} key {} signature {}", sec_alg_names(alg), hex(&public), hex(&sig)));
    let r = Rrsig::new(RecordType::NULL, alg.try_into().unwrap(), 2, 5, 1, 2, 3, name.clone(), sig.clone());
    let res = r.verify(&dk, &set);
    let zero = sig.iter().all(|b| *b == 0);
    // a key that is a point or element of small order is not malformed: made-up signatures can verify with it
    let length = match alg {
        3 => 41,
        13 | 15 => 64,
        14 => 96,
        16 => 114,
        _ => sig.len(),
    };
    let impossible = match alg {
        3 => zero || sig.len() != length,
        15 | 16 => sig.len() != length,
        _ => true,
    };
    if matches!(res, Ok(true)) && impossible {
        return Err(format!("{} key {} accepts the made-up signature {}", sec_alg_names(alg), hex(&public), hex(&sig)));
    }
    if let Err(e) = res {
        cx.count("refused");
        let _ = format!("{e} {e:?}");
    }
    // such a key still has a tag, a digest and texts
    let _ = (dk.base64_public_key(), r.base64_signature(), dk.valid_protocol());
    Ds::try_from_dnskey(&name, &dk, 2u8.try_into().unwrap()).map_err(|e| format!("no DS from a key of {} octets: {e}", public.len()))?;
    Ok(())
}
fn c21_hostile_private(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let alg = if g.chance(1, 12) { *g.pick(&[252u8, 253, 254]) } else { g.pick(&ALGS).0 };
    let kind = ALGS.iter().find(|x| x.0 == alg).map(|x| x.1);
    let real: Vec<&Key> = keys().iter().filter(|k| (Some(k.kind) == kind && k.bits <= 2048) || g.chance(1, 10)).collect();
    let mut k = match real.is_empty() {
        true => g.blob(60),
        false => g.pick(&real).private.clone(),
    };
    match g.below(6) {
        0 => k = g.blob(100),
        1 => k.truncate(g.ix(k.len() + 1)),
        2 => k.push(g.u8()),
        3 | 4 => {
            for _ in 0..g.range(1, 3) {
                let i = if g.flip() { g.ix(k.len().min(40)) } else { g.ix(k.len()) };
                if let Some(b) = k.get_mut(i) {
                    *b = g.u8();
                }
            }
        }
        _ => {}
    }
    let name = FQDN::try_from("host.example").unwrap_or_default();
    let a = RecordData::NULL(maybe_dns::rdata::Null::new(vec![1]));
    let set = ResourceRecordSet::new(&name, RecordType::NULL, RecordClass::IN, 5, vec![&a]);
    let dk = DnsKey::new(alg.try_into().unwrap(), vec![1, 2, 3]);
    cx.nontrivial(hash(&(alg, &k)));
    cx.sample(|| format!("{} private key {}", sec_alg_names(alg), hex(&k)));
    let t = UNIX_EPOCH + Duration::from_secs(5);
    match Rrsig::from_dnskey(&dk, &set, &t, &t, &k) {
        Ok(s) => {
            cx.count("signed");
            if alg >= 252 {
                return Err(format!("algorithm {alg} without a signature scheme signs: {}", hex(s.signature())));
            }
        }
        Err(e) => {
            cx.count("refused");
            let _ = format!("{e} {e:?}");
        }
    }
    Ok(())
}

// ---- C23 --------------------------------------------------------------------------------------------------
const DIGESTS: [(u8, &str); 4] = [(1, "sha1"), (2, "sha256"), (4, "sha384"), (5, "sha512")];
fn up_hex(b: &[u8]) -> String {
    const D: &[u8] = b"0123456789ABCDEF";
    b.iter().flat_map(|x| [D[(x >> 4) as usize] as char, D[(x & 15) as usize] as char]).collect()
}
fn base64_of(b: &[u8]) -> String {
    const D: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(D[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn c23_ds(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let alg = if g.chance(1, 8) { *g.pick(&[252u8, 253, 254]) } else { g.pick(&ALGS).0 };
    let n = if g.chance(1, 200) { g.range(1000, 65_531) as usize } else { g.len(300) };
    let mut public = match g.below(4) {
        0 => vec![*g.pick(&[0u8, 0xff, 0x80, 1]); n],
        _ => g.bytes(n),
    };
    if alg == 1 && public.len() < 3 {
        // no key tag is defined for a modulus this short
        public.resize(3, 7);
    }
    let mut pool = vec![];
    let mn = gen_name(g, &mut pool);
    let name = name_to(&mn);
    let mut rd;
    let dk = if g.flip() {
        let dk = dnskey(g, alg, &public);
        rd = dnskey_rdata(&dk, alg);
        dk
    } else {
        // with any flags and protocol
        rd = g.bytes(3);
        rd.push(alg);
        rd.extend(&public);
        match parse_rdata(48, &rd) {
            Ok(RecordData::DNSKEY(k)) => k,
            r => return Err(format!("DNSKEY RDATA {} reads as {r:?}", hex(&rd))),
        }
    };
    cx.nontrivial(hash(&(&rd, &mn)));
    cx.sample(|| format!("{mn:?} {}", hex(&rd)));
    if alg == 1 {
        cx.count("RSA/MD5 keys");
    }
    let tag = key_tag(&rd);
    let (dt, dn) = *g.pick(&DIGESTS);
    let ds = Ds::try_from_dnskey(&name, &dk, dt.try_into().unwrap()).map_err(|e| format!("no DS for DNSKEY {}: {e}", hex(&rd)))?;
    cx.count("DS");
    let mut input = mn.wire();
    input.extend(&rd);
    let d = digest(dn, &input);
    let mut want = tag.to_be_bytes().to_vec();
    want.extend([alg, dt]);
    want.extend(&d);
    if ds.to_bytes() != want || ds.key_tag != tag || ds.digest != d || ds.hex_digest() != up_hex(&d) {
        return Err(format!("DS of DNSKEY {} owned by {mn:?} is {}, should be {}", hex(&rd), hex(&ds.to_bytes()), hex(&want)));
    }
    if dk.base64_public_key() != base64_of(&public) {
        return Err(format!("public key {} reads {}", hex(&public), dk.base64_public_key()));
    }
    if g.chance(1, 8) {
        // the tag in a signature
        let cheap: &[u8] = &[13, 15];
        let (a2, dk2, rd2) = if cheap.contains(&alg) {
            (alg, dk, rd)
        } else {
            rd[3] = if g.chance(1, 30) { 1 } else { *g.pick(cheap) };
            let a2 = rd[3];
            let Ok(RecordData::DNSKEY(k)) = parse_rdata(48, &rd) else { return Err(format!("DNSKEY RDATA {} rejected", hex(&rd))) };
            (a2, k, rd)
        };
        if a2 == 1 && dk2.public_key.len() < 3 {
            return Ok(());
        }
        let key = pick_key(g, a2, true, true);
        let a = RecordData::NULL(maybe_dns::rdata::Null::new(vec![1]));
        let set = ResourceRecordSet::new(&name, RecordType::NULL, RecordClass::IN, 5, vec![&a]);
        let s = Rrsig::from_dnskey(&dk2, &set, &UNIX_EPOCH, &UNIX_EPOCH, &key.private).map_err(|e| format!("signing fails: {e}"))?;
        cx.count("RRSIG");
        if s.key_tag() != key_tag(&rd2) {
            return Err(format!("signature with DNSKEY {} has key tag {}, should be {}", hex(&rd2), s.key_tag(), key_tag(&rd2)));
        }
        if s.base64_signature() != base64_of(s.signature()) {
            return Err(format!("signature {} reads {}", hex(s.signature()), s.base64_signature()));
        }
    }
    Ok(())
}
fn c23_text(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = g.blob(600);
    cx.nontrivial(hash(&b));
    cx.count("hex");
    let ds = Ds::new(g.u16(), 8.try_into().unwrap(), 2.try_into().unwrap(), b.clone());
    if ds.hex_digest() != up_hex(&b) {
        return Err(format!("digest {} reads {}", hex(&b), ds.hex_digest()));
    }
    cx.count("base64");
    let k = DnsKey::new(8.try_into().unwrap(), b.clone());
    let r = Rrsig::new(RecordType::A, 8.try_into().unwrap(), 0, 0, 0, 0, 0, FQDN::default(), b.clone());
    if k.base64_public_key() != base64_of(&b) || r.base64_signature() != base64_of(&b) {
        return Err(format!("key or signature {} read {} and {}", hex(&b), k.base64_public_key(), r.base64_signature()));
    }
    for (dt, dn) in DIGESTS {
        let ds = Ds::new(1, 8.try_into().unwrap(), dt.try_into().unwrap(), vec![]);
        let d = ds.digest_type.hash_data(&b).map_err(|e| format!("hashing fails: {e}"))?;
        if d != digest(dn, &b) {
            return Err(format!("{dn} of {} is {}", hex(&b), hex(&d)));
        }
    }
    Ok(())
}
fn unb64(s: &str) -> Vec<u8> {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD.decode(s).unwrap()
}
fn c23_vectors(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    // RFC 4034 section 5.4, RFC 4509 section 2.3, RFC 6605 section 6, RFC 8080 section 6
    let v: &[(&str, &str, u16, u8, &str, u16, u8, &str)] = &[
        ("RFC 4034", "dskey.example.com", 256, 5, "AQOeiiR0GOMYkDshWoSKz9XzfwJr1AYtsmx3TGkJaNXVbfi/2pHm822aJ5iI9BMzNXxeYCmZDRD99WYwYqUSdjMmmAphXdvxegXd/M5+X7OrzKBaMbCVdFLUUh6DhweJBjEVv5f2wwjM9XzcnOf+EPbtG9DMBmADjFDc2w/rljwvFw==", 60485, 1, "2BB183AF5F22588179A53B0A98631FAD1A292118"),
        ("RFC 4509", "dskey.example.com", 256, 5, "AQOeiiR0GOMYkDshWoSKz9XzfwJr1AYtsmx3TGkJaNXVbfi/2pHm822aJ5iI9BMzNXxeYCmZDRD99WYwYqUSdjMmmAphXdvxegXd/M5+X7OrzKBaMbCVdFLUUh6DhweJBjEVv5f2wwjM9XzcnOf+EPbtG9DMBmADjFDc2w/rljwvFw==", 60485, 2, "D4B7D520E7BB5F0F67674A0CCEB1E3E0614B93C4F9E99B8383F6A1E4469DA50A"),
        ("RFC 6605", "example.net", 257, 13, "GojIhhXUN/u4v54ZQqGSnyhWJwaubCvTmeexv7bR6edbkrSqQpF64cYbcB7wNcP+e+MAnLr+Wi9xMWyQLc8NAA==", 55648, 2, "B4C8C1FE2E7477127B27115656AD6256F424625BF5C1E2770CE6D6E37DF61D17"),
        ("RFC 6605", "example.net", 257, 14, "xKYaNhWdGOfJ+nPrL8/arkwf2EY3MDJ+SErKivBVSum1w/egsXvSADtNJhyem5RCOpgQ6K8X1DRSEkrbYQ+OB+v8/uX45NBwY8rp65F6Glur8I/mlVNgF6W/qTI37m40", 10771, 4, "72D7B62976CE06438E9C0BF319013CF801F09ECC84B8D7E9495F27E305C6A9B0563A9B5F4D288405C3008A946DF983D6"),
        ("RFC 8080", "example.com", 257, 15, "l02Woi0iS8Aa25FQkUd9RMzZHJpBoRQwAQEX1SxZJA4=", 3613, 2, "3AA5AB37EFCE57F737FC1627013FEE07BDF241BD10F3B1964AB55C78E79A304B"),
    ];
    for (src, owner, flags, alg, key, tag, dt, dig) in v {
        cx.count("vectors");
        cx.nontrivial(hash(&(src, alg, dt)));
        let mut k = DnsKey::new((*alg).try_into().unwrap(), unb64(key));
        k.zone_key = true;
        k.secure_entry_point = flags & 1 == 1;
        let ds = Ds::try_from_dnskey(&FQDN::try_from(*owner).map_err(|e| format!("{e}"))?, &k, (*dt).try_into().unwrap()).map_err(|e| format!("{src}: {e}"))?;
        if ds.key_tag != *tag || ds.hex_digest() != *dig {
            return Err(format!("{src} {owner} algorithm {alg}: DS {} {}, should be {tag} {dig}", ds.key_tag, ds.hex_digest()));
        }
        if k.base64_public_key() != *key {
            return Err(format!("{src}: key reads {}", k.base64_public_key()));
        }
    }
    cx.sample(|| "published DS records of RFC 4034, 4509, 6605, 8080".into());
    Ok(())
}

// ---- C24 --------------------------------------------------------------------------------------------------
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn c24_vectors(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    crate::rt::tls().budget = u64::MAX / 2;
    for l in include_str!("../keys/vectors.txt").lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let [src, key, owner, code, ttl, rds, sig] = p[..] else { panic!("vectors.txt") };
        cx.count("vectors");
        cx.nontrivial(hash(&l));
        let (key, owner, sig) = (unhex(key), unhex(owner), unhex(sig));
        let code: u16 = code.parse().unwrap();
        let Ok(RecordData::DNSKEY(k)) = parse_rdata(48, &key) else { return Err(format!("{src}: DNSKEY rejected")) };
        let Ok(RecordData::RRSIG(s)) = parse_rdata(46, &sig) else { return Err(format!("{src}: RRSIG rejected")) };
        let mut buf = DnsBuffer::from(&owner[..]);
        let name = buf.extract_fqdn().map_err(|e| format!("{src}: owner rejected: {e}"))?;
        let ds = rds.split(',').map(|r| parse_rdata(code, &unhex(r)).map_err(|e| format!("{src}: record rejected: {e}"))).collect::<Result<Vec<_>, _>>()?;
        let ttl: u32 = ttl.parse().unwrap();
        let set = ResourceRecordSet::new(&name, rtype(code).unwrap(), RecordClass::IN, ttl, ds.iter().collect());
        accepted(cx, src, s.verify(&k, &set))?;
        // and not for anything else
        let set2 = ResourceRecordSet::new(&name, rtype(code).unwrap(), RecordClass::CH, ttl, ds.iter().collect());
        rejected(src, s.verify(&k, &set2))?;
        // as it is published
        if s.to_bytes() != sig || k.to_bytes() != key {
            return Err(format!("{src}: key or signature are written differently from how they were read"));
        }
    }
    cx.sample(|| "signatures made by OpenSSL 3.0 for every algorithm; RFC 5702, 6605, 8080 examples".into());
    Ok(())
}
fn c24_foreign(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (alg, _, an) = *g.pick(&ALGS);
    let small = g.chance(3, 4);
    let key = pick_key(g, alg, false, small);
    let public = if key.kind == Kind::Rsa && g.chance(1, 3) { rsa_public(&key.n[1], &key.n[0], true) } else { key.public.clone() };
    let dk = dnskey(g, alg, &public);
    let s = Set::gen(g).distinct();
    let l = s.lib()?;
    let signer = if s.name.0.is_empty() || g.flip() { s.name.clone() } else { MName(s.name.0[g.ix(s.name.0.len())..].to_vec()) };
    let f = Fields { code: s.code, alg, labels: s.labels(), ttl: s.ttl, exp: g.u32(), inc: g.u32(), tag: key_tag(&dnskey_rdata(&dk, alg)), signer, sig: vec![] };
    let mut data = head(f.code, f.alg, f.labels, f.ttl, f.exp, f.inc, f.tag, &f.signer);
    data.extend(s.wire());
    let Some(sig) = foreign_sign(g, key, alg, &data) else { return Ok(()) };
    cx.count(an);
    if key.kind == Kind::Dsa && (sig[1] == 0 || sig[21] == 0) {
        cx.count("DSA with leading zeros");
    }
    cx.nontrivial(hash(&(alg, &data)));
    cx.sample(|| format!("{an} {} signs {}: {}", key.name, hex(&data), hex(&sig)));
    // received from the wire, or built from its fields
    let r = if g.flip() {
        Fields { sig, ..f }.lib()
    } else {
        let mut b = head(f.code, f.alg, f.labels, f.ttl, f.exp, f.inc, f.tag, &f.signer);
        b.extend(&sig);
        match parse_rdata(46, &b) {
            Ok(RecordData::RRSIG(r)) => r,
            o => return Err(format!("RRSIG RDATA {} reads as {o:?}", hex(&b))),
        }
    };
    cx.count("accepted");
    let mut refs: Vec<&RecordData> = l.data.iter().collect();
    shuffle(g, &mut refs);
    let set = ResourceRecordSet::new(&l.name, rtype(s.code).unwrap(), rclass(s.class, false), s.ttl, refs);
    accepted(cx, &format!("{an}, signed elsewhere with {} over {}", key.name, hex(&data)), r.verify(&dk, &set))
}
fn c24_ours(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (alg, _, an) = *g.pick(&ALGS);
    let small = g.chance(3, 4);
    let key = pick_key(g, alg, true, small);
    let dk = dnskey(g, alg, &key.public);
    cx.count(an);
    if g.chance(1, 4) {
        // any data
        let d = g.blob(500);
        let a = dk.algorithm;
        let sig = a.sign_data(&d, &key.private).map_err(|e| format!("{an}: signing fails with {e}"))?;
        cx.nontrivial(hash(&(alg, &d)));
        if !foreign_verify(key, alg, &d, &sig) {
            return Err(format!("{an}: the signature {} over {} made with {} is not accepted elsewhere", hex(&sig), hex(&d), key.name));
        }
        cx.count("accepted");
        return Ok(());
    }
    let s = Set::gen(g).distinct();
    let l = s.lib()?;
    let (inc, exp, ti, te) = times(g);
    let sig = Rrsig::from_dnskey(&dk, &s.set(&l), &ti, &te, &key.private).map_err(|e| format!("{an}: signing fails with {e}"))?;
    let mut data = head(s.code, alg, s.labels(), s.ttl, exp, inc, key_tag(&dnskey_rdata(&dk, alg)), &s.name);
    data.extend(s.wire());
    cx.nontrivial(hash(&(alg, &data)));
    cx.sample(|| format!("{an} {} over {}: {}", key.name, hex(&data), hex(sig.signature())));
    if !foreign_verify(key, alg, &data, sig.signature()) {
        return Err(format!("{an}: the signature {} made with {} is not accepted elsewhere over {}", hex(sig.signature()), key.name, hex(&data)));
    }
    cx.count("accepted");
    Ok(())
}
