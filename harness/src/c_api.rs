//! Names as text (C17), code tables (C18), constructors and conversions (C29).
use crate::gen::Gen;
use crate::map::*;
use crate::model::*;
use crate::{hash, Cx, Workload};
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::BTreeMap;
use std::convert::{TryFrom, TryInto};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn workloads(v: &mut Vec<Workload>) {
    v.push(Workload::new("C17", "c17_names", c17_names, 300_000, true, &["names", "edits", "compared", "from text"]));
    v.push(Workload::new("C17", "c17_text", c17_text, 300_000, true, &["names"]));
    v.push(Workload::new("C18", "c18_tables", c18_tables, 1, false, &["codes"]));
    v.push(Workload::new("C18", "c18_inside", c18_inside, 1, false, &["codes"]));
    v.push(Workload::new("C29", "c29_values", c29_values, 300_000, true, &["values", "edits"]));
    v.push(Workload::new("C29", "c29_convert", c29_convert, 200_000, true, &["A", "AAAA", "DHCID", "text", "text refused"]));
    v.push(Workload::new("C29", "c29_small", c29_small, 1, false, &["values"]));
}

// ---- C17 -----------------------------------------------------------------------------------------------
type L = Vec<Vec<u8>>;
fn any_label(g: &mut Gen) -> Vec<u8> {
    match g.below(8) {
        0 => vec![],
        1 => b"local".to_vec(),
        2 => g.text(12).into_bytes(),
        3 => g.dict_str().into_iter().take(63).collect(),
        4 => (*g.pick(&[&b"Local"[..], b"LOCAL", b"loca", b"locale", b"xlocal", b"local ", b"local.", b"lokal"])).to_vec(),
        _ => gen_label(g),
    }
}
fn text_label(g: &mut Gen) -> String {
    match g.below(6) {
        0 => String::new(),
        1 => "local".into(),
        2 => g.text(20),
        3 => String::from_utf8_lossy(&g.dict_str()).into_owned(),
        _ => String::from_utf8_lossy(&gen_label(g)).into_owned(),
    }
}
fn split(t: &str) -> L {
    let mut v: L = vec![];
    let mut cur = vec![];
    for b in t.bytes() {
        if b == b'.' {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(b);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn build(cx: &mut Cx, g: &mut Gen) -> Result<(FQDN, L), String> {
    Ok(match g.below(8) {
        0 | 1 => {
            cx.count("from text");
            let n = g.below(6);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(&text_label(g));
                if g.chance(9, 10) {
                    t.push('.');
                }
            }
            if g.chance(1, 5) {
                t.insert(0, '.');
            }
            let l = split(&t);
            (if g.flip() { FQDN::new(&t) } else { FQDN::from(t.as_str()) }, l)
        }
        2 => {
            let v: Vec<String> = (0..g.below(5)).map(|_| text_label(g)).collect();
            let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            (FQDN::from(&r[..]), v.iter().map(|s| s.clone().into_bytes()).collect())
        }
        3 => (FQDN::default(), vec![]),
        4 => {
            let l: L = (0..g.below(120)).map(|_| any_label(g)).collect();
            (FQDN::from(l.clone()), l)
        }
        5 => {
            let n = gen_name(g, &mut vec![]);
            let b = n.wire();
            let f = FQDN::try_from(&mut DnsBuffer::from(&b[..])).map_err(|e| format!("name {} rejected with {e}", hex(&b)))?;
            (f, n.0)
        }
        _ => {
            let l: L = (0..g.below(6)).map(|_| any_label(g)).collect();
            (if g.flip() { FQDN::from(l.clone()) } else { FQDN::from(&l[..]) }, l)
        }
    })
}
fn consistent(f: &FQDN, l: &L) -> Result<(), String> {
    let bad = |what: &str, got: String| Err(format!("{what} of a name with labels {:?} is {got}", l.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>()));
    let it: L = f.iter().cloned().collect();
    if it != *l {
        return bad("iter()", format!("{it:?}"));
    }
    let it: L = f.into_iter().cloned().collect();
    if it != *l {
        return bad("&name into_iter()", format!("{it:?}"));
    }
    let it: L = f.clone().into_iter().collect();
    if it != *l {
        return bad("into_iter()", format!("{it:?}"));
    }
    if f.iter().len() != l.len() || f.iter().next_back() != l.last() {
        return bad("iter() length or end", format!("{}", f.iter().len()));
    }
    if l.len() <= 255 && f.label_count() as usize != l.len() {
        return bad("label_count()", f.label_count().to_string());
    }
    let full: Vec<&Vec<u8>> = l.iter().filter(|x| !x.is_empty()).collect();
    let wire: usize = 1 + full.iter().map(|x| x.len() + 1).sum::<usize>();
    if f.len() != wire || f.byte_size() != wire {
        return bad("len() / byte_size()", format!("{} / {}", f.len(), f.byte_size()));
    }
    if f.is_empty() != l.is_empty() {
        return bad("is_empty()", f.is_empty().to_string());
    }
    if f.is_root() != full.is_empty() {
        return bad("is_root()", f.is_root().to_string());
    }
    let ll = l.last().map(|x| x == b"local").unwrap_or(false);
    if f.is_link_local() != ll {
        return bad("is_link_local()", f.is_link_local().to_string());
    }
    if l.iter().all(|x| std::str::from_utf8(x).is_ok()) {
        let want = l.iter().map(|x| std::str::from_utf8(x).unwrap()).collect::<Vec<_>>().join(".");
        if f.to_string() != want {
            return bad("to_string()", format!("{:?}", f.to_string()));
        }
    } else {
        let _ = f.to_string();
    }
    let mut w = vec![];
    for x in &full {
        w.push(x.len() as u8);
        w.extend(*x);
    }
    w.push(0);
    if full.iter().all(|x| x.len() < 64) && f.to_bytes() != w {
        return bad("to_bytes()", hex(&f.to_bytes()));
    }
    Ok(())
}
fn edit(g: &mut Gen, f: &mut FQDN, l: &mut L) {
    match g.below(5) {
        0 => {
            let t = text_label(g);
            f.append_label(&t);
            l.push(t.into_bytes());
        }
        1 if !l.is_empty() => {
            let (k, x) = (g.ix(l.len()), any_label(g));
            *f.iter_mut().nth(k).expect("label") = x.clone();
            l[k] = x;
        }
        2 if !l.is_empty() => {
            let (k, b) = (g.ix(l.len()), g.u8());
            f.iter_mut().nth(k).expect("label").push(b);
            l[k].push(b);
        }
        3 => {
            for x in f.iter_mut() {
                x.make_ascii_lowercase();
            }
            for x in l.iter_mut() {
                x.make_ascii_lowercase();
            }
        }
        _ => {
            let n = g.ix(4);
            for x in (&mut *f).into_iter().skip(n) {
                x.truncate(3);
            }
            for x in l.iter_mut().skip(n) {
                x.truncate(3);
            }
        }
    }
}
fn c17_names(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    cx.count("names");
    let (mut f, mut l) = build(cx, g)?;
    consistent(&f, &l)?;
    for _ in 0..g.below(4) {
        cx.count("edits");
        let (keep, kl) = (f.clone(), l.clone());
        edit(g, &mut f, &mut l);
        consistent(&f, &l).map_err(|e| format!("after an edit: {e}"))?;
        if keep != f && keep.iter().cloned().collect::<L>() == l || (keep == f) != (kl == l) {
            return Err(format!("equality of {kl:?} and {l:?} is {}", keep == f));
        }
        consistent(&keep, &kl).map_err(|e| format!("a clone after an edit of the original: {e}"))?;
    }
    // comparisons with an unrelated or a related name
    let (o, ol) = if g.flip() {
        let (mut o, mut ol) = (f.clone(), l.clone());
        edit(g, &mut o, &mut ol);
        (o, ol)
    } else {
        build(cx, g)?
    };
    cx.count("compared");
    let want = l.cmp(&ol);
    if f.cmp(&o) != want || f.partial_cmp(&o) != Some(want) || o.cmp(&f) != want.reverse() || (f < o) != want.is_lt() || (f >= o) != want.is_ge() {
        return Err(format!("{l:?} compares as {:?} with {ol:?}", f.cmp(&o)));
    }
    if (f == o) != (l == ol) || (f != o) != (l != ol) {
        return Err(format!("{l:?} == {ol:?} is {}", f == o));
    }
    cx.nontrivial(hash(&(&l, &ol)));
    cx.sample(|| format!("{f} / {o}"));
    Ok(())
}
/// Text with dots everywhere.
fn c17_text(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    cx.count("names");
    let mut t = String::new();
    for _ in 0..g.below(12) {
        match g.below(6) {
            0 | 1 => t.push('.'),
            2 => t.push_str(&text_label(g)),
            3 => t.push(*g.pick(&['a', 'Z', '0', '-', '_', ' ', '\\', '\0', 'é', '日', '。', '\u{ff0e}', '\u{7f}'])),
            _ => t.push((b'a' + g.below(26) as u8) as char),
        }
    }
    let l = split(&t);
    cx.nontrivial(hash(&t));
    cx.sample(|| format!("{t:?}"));
    for f in [FQDN::new(&t), FQDN::from(t.as_str())] {
        consistent(&f, &l).map_err(|e| format!("{e}; text {t:?}"))?;
        if FQDN::new(&f.to_string()) != f {
            return Err(format!("text {t:?}: the displayed name {:?} does not read back", f.to_string()));
        }
        let fits = l.iter().all(|x| x.len() < 64) && f.len() <= 255;
        if fits {
            let b = f.to_bytes();
            let p = FQDN::try_from(&mut DnsBuffer::from(&b[..])).map_err(|e| format!("text {t:?}: {} rejected with {e}", hex(&b)))?;
            if p != f {
                return Err(format!("text {t:?}: after the wire the name is {p:?}"));
            }
        }
    }
    Ok(())
}

// ---- C18 -----------------------------------------------------------------------------------------------
/// One table over a complete code space. `item`: the reference; `conv`: the library's conversion; `back`: its inverse.
fn table<T: PartialEq + std::fmt::Debug + Clone>(cx: &mut Cx, what: &str, space: u32, item: impl Fn(u16) -> Option<T>, conv: impl Fn(u16) -> Option<T>, back: impl Fn(&T) -> u16) -> Result<(), String> {
    let mut shown: BTreeMap<String, u16> = BTreeMap::new();
    for c in 0..space {
        let c = c as u16;
        cx.count("codes");
        cx.nontrivial(hash(&(what, c)));
        let (w, got) = (item(c), conv(c));
        if w != got {
            return Err(format!("{what} {c} converts to {got:?}, should be {w:?}"));
        }
        if let Some(t) = got {
            let b = back(&t);
            if b != c {
                return Err(format!("{what} {c} ({t:?}) converts back to {b}"));
            }
            if let Some(o) = shown.insert(format!("{t:?}"), c) {
                return Err(format!("{what} {c} and {o} both give {t:?}"));
            }
        }
    }
    Ok(())
}
fn c18_tables(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    crate::rt::tls().budget = u64::MAX / 2;
    table(cx, "record type", 65536, rtype, |c| RecordType::try_from(c).ok(), |t| u16::from(*t))?;
    table(cx, "question type", 65536, qtype, |c| QType::try_from(c).ok(), |t| u16::from(*t))?;
    table(cx, "question class", 32768, qclass, |c| QClass::try_from(c).ok(), |t| u16::from(*t))?;
    table(cx, "class", 32768, |c| Some(rclass(c, false)), |c| Some(RecordClass::from(c)), |t| u16::from(*t))?;
    table(cx, "response code", 256, |c| RCODES.get(c as usize).copied(), |c| ResponseCode::try_from(c as u8).ok(), |t| *t as u16)?;
    for c in 0..=255u8 {
        cx.count("codes");
        let o = OpCode::from(c);
        if o != OPCODES[c.min(3) as usize] || c < 3 && o as u8 != c {
            return Err(format!("opcode {c} converts to {o:?}"));
        }
    }
    table(cx, "SSHFP algorithm", 256, |c| [Algorithm::Reserved, Algorithm::RSA, Algorithm::DSA, Algorithm::ECDSA, Algorithm::Ed25519, Algorithm::Ed448].get(c as usize).copied(), |c| Algorithm::try_from(c as u8).ok(), |t| u8::from(*t) as u16)?;
    table(cx, "SSHFP fingerprint type", 256, |c| [sshfp::FingerprintType::Reserved, sshfp::FingerprintType::SHA1].get(c as usize).copied(), |c| sshfp::FingerprintType::try_from(c as u8).ok(), |t| u8::from(*t) as u16)?;
    {
        use tlsa::*;
        table(cx, "TLSA certificate usage", 256, |c| [CertUsage::Ca, CertUsage::ServiceCertificateConstraint, CertUsage::TrustAnchor, CertUsage::DomainIssuedCertificate].get(c as usize).copied(), |c| CertUsage::try_from(c as u8).ok(), |t| u8::from(*t) as u16)?;
        table(cx, "TLSA selector", 256, |c| [Selector::Full, Selector::SubjectPublicKeyInfo].get(c as usize).copied(), |c| Selector::try_from(c as u8).ok(), |t| u8::from(*t) as u16)?;
        table(cx, "TLSA matching type", 256, |c| [MatchingType::ExactMatch, MatchingType::SHA256, MatchingType::SHA512].get(c as usize).copied(), |c| MatchingType::try_from(c as u8).ok(), |t| u8::from(*t) as u16)?;
    }
    table(cx, "TKEY mode", 65536, |c| (1..65535).contains(&c).then(|| tkey_mode(c)), |c| tkey::Mode::try_from(c).ok(), |t| u16::from(*t))?;
    table(cx, "TKEY error", 65536, |c| (c <= 21).then(|| tkey_err(c)), |c| tkey::Error::try_from(c).ok(), |t| u16::from(*t))?;
    table(cx, "TSIG error", 65536, |c| [0, 16, 17, 18, 22].contains(&c).then(|| tsig_err(c)), |c| tsig::Error::try_from(c).ok(), |t| u16::from(*t))?;
    {
        use naptr::Flag;
        table(cx, "NAPTR flag", 256, |c| match c {
            83 => Some(Flag::S),
            65 => Some(Flag::A),
            85 => Some(Flag::U),
            80 => Some(Flag::P),
            _ => None,
        }, |c| Flag::try_from(c as u8).ok(), |t| u8::from(*t) as u16)?;
    }
    {
        use dhcid::IdentifierType as I;
        table(cx, "DHCID identifier type", 65536, |c| [I::ChaddrOfDhcpRequest, I::ClientIdentifierOption, I::DUID].get(c as usize).copied(), |c| I::try_from(c).ok(), |t| u16::from(*t))?;
    }
    // record types and question types agree
    for c in 0..=65535u16 {
        if let Ok(r) = RecordType::try_from(c) {
            match QType::try_from(c) {
                Ok(q) if format!("{q:?}") == format!("{r:?}") && u16::from(q) == u16::from(r) => {}
                q => return Err(format!("code {c} is record type {r:?} but question type {q:?}")),
            }
            if r.to_bytes() != c.to_be_bytes() || r.byte_size() != 2 || r as u16 != c {
                return Err(format!("record type {c} is written as {}", hex(&r.to_bytes())));
            }
        }
        if let Ok(q) = QType::try_from(c) {
            if q.to_bytes() != c.to_be_bytes() || q.byte_size() != 2 {
                return Err(format!("question type {c} is written as {}", hex(&q.to_bytes())));
            }
        }
        // the top bit of a class field belongs to mDNS, not to the class
        let low = c & 0x7fff;
        if QClass::try_from(c).ok() != qclass(low) {
            return Err(format!("question class {c:#x} converts to {:?}", QClass::try_from(c)));
        }
        if let Ok(q) = QClass::try_from(c) {
            if q.to_bytes() != low.to_be_bytes() || q.byte_size() != 2 {
                return Err(format!("question class {c} is written as {}", hex(&q.to_bytes())));
            }
        }
        let r = RecordClass::from(c);
        if r.to_bytes() != low.to_be_bytes() || r.byte_size() != 2 || r != rclass(low, false) {
            return Err(format!("class {c} is written as {}", hex(&r.to_bytes())));
        }
    }
    cx.sample(|| "complete 8 and 16 bit code spaces of every public conversion".into());
    Ok(())
}
/// Codes of types that cannot be named outside of the library: through the RDATA that carries them.
fn c18_inside(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    crate::rt::tls().budget = u64::MAX / 2;
    let through = |cx: &mut Cx, what: &str, code: u16, b: &[u8], valid: bool, shows: Option<String>| -> Result<(), String> {
        cx.count("codes");
        cx.nontrivial(hash(&(what, b)));
        match parse_rdata(code, b) {
            Ok(d) if valid => {
                if d.to_bytes() != b {
                    return Err(format!("{what}: RDATA {} is written back as {}", hex(b), hex(&d.to_bytes())));
                }
                if let Some(s) = shows {
                    if !format!("{d:?}").contains(&s) {
                        return Err(format!("{what}: RDATA {} reads as {d:?}, should contain {s}", hex(b)));
                    }
                }
                Ok(())
            }
            Ok(d) => Err(format!("{what}: unsupported code accepted in RDATA {} as {d:?}", hex(b))),
            Err(_) if !valid => Ok(()),
            Err(e) => Err(format!("{what}: RDATA {} rejected with {e}", hex(b))),
        }
    };
    let keys = ["Mandatory", "Alpn", "NoDefaultAlpn", "Port", "IpV4Hint", "Ech", "IpV6Hint"];
    for c in 0..=65535u16 {
        let k = c.to_be_bytes();
        // as a key with a value the key accepts
        let v: &[u8] = match c {
            0 | 1 | 2 | 5 | 65535 => &[],
            3 => &[1, 2],
            4 => &[192, 0, 2, 7],
            6 => &[1; 16],
            _ => &[9],
        };
        let mut b = vec![0, 1, 0, k[0], k[1], 0, v.len() as u8];
        b.extend(v);
        let valid = c <= 6 || c >= 65280;
        let name = match c {
            0..=6 => Some(keys[c as usize].to_string()),
            65280..=65534 => Some(format!("Private {{ num: {c}")),
            65535 => Some("Invalid".into()),
            _ => None,
        };
        through(cx, "SVCB key", 64, &b, valid, name)?;
        let name = match c {
            0..=6 => Some(format!("Mandatory({{{}}})", keys[c as usize])),
            65280..=65534 => Some(format!("Mandatory({{Private({c})}})")),
            65535 => Some("Mandatory({Invalid})".into()),
            _ => None,
        };
        through(cx, "SVCB mandatory key", 64, &[0, 1, 0, 0, 0, 0, 2, k[0], k[1]], valid, name)?;
        through(cx, "CSYNC flags", 62, &[0, 0, 0, 1, k[0], k[1]], c < 4, None)?;
        through(cx, "DHCID identifier type", 49, &[k[0], k[1], 1, 5], c < 3, None)?;
        through(cx, "TKEY mode", 249, &[0, 0, 0, 0, 0, 0, 0, 0, 0, k[0], k[1], 0, 0, 0, 0, 0, 0], c != 0 && c != 65535, None)?;
        through(cx, "TKEY error", 249, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, k[0], k[1], 0, 0, 0, 0], c <= 21, None)?;
        through(cx, "TSIG error", 250, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, k[0], k[1], 0, 0], [0, 16, 17, 18, 22].contains(&c), None)?;
        through(cx, "APL family", 42, &[k[0], k[1], 8, 4, 1, 2, 3, 4], c == 1, None).or_else(|e| if c == 2 { Ok(()) } else { Err(e) })?;
        let info = type_info(c).filter(|t| DNSSEC || !t.dnssec).is_some();
        if DNSSEC {
            let mut b = vec![k[0], k[1], 8, 2];
            b.extend([0; 14]);
            b.extend([0, 7]);
            through(cx, "RRSIG type covered", 46, &b, info, None)?;
        }
    }
    for c in 0..=255u8 {
        through(cx, "SSHFP algorithm", 44, &[c, 1, 9], c <= 5, None)?;
        through(cx, "SSHFP fingerprint type", 44, &[1, c, 9], c <= 1, None)?;
        through(cx, "TLSA usage", 52, &[c, 0, 0, 9], c <= 3, None)?;
        through(cx, "TLSA selector", 52, &[0, c, 0, 9], c <= 1, None)?;
        through(cx, "TLSA matching type", 52, &[0, 0, c, 9], c <= 2, None)?;
        through(cx, "IPSECKEY gateway type", 45, &[1, c, 2, 9, 9, 9, 9], [1].contains(&c), None).or_else(|e| if [0, 2, 3].contains(&c) { Ok(()) } else { Err(e) })?;
        through(cx, "IPSECKEY algorithm", 45, &[1, 1, c, 9, 9, 9, 9, 7], c <= 5, None)?;
        through(cx, "HIP algorithm", 55, &[1, c, 0, 1, 7, 8], c <= 5, None)?;
        through(cx, "DHCID digest type", 49, &[0, 0, c, 5], c == 1, None)?;
        if DNSSEC {
            const A: [(u8, &str); 12] = [(1, "RSA_MD5"), (3, "DSA_SHA1"), (5, "RSA_SHA1"), (8, "RSA_SHA256"), (10, "RSA_SHA512"), (13, "ECDSA_P256"), (14, "ECDSA_P384"), (15, "ED25519"), (16, "ED448"), (252, "Indirect"), (253, "PrivateDns"), (254, "PrivateOid")];
            let a = A.iter().find(|x| x.0 == c).map(|x| format!("algorithm: {},", x.1));
            for (what, code, b) in [("DS algorithm", 43u16, vec![0u8, 1, c, 2, 7]), ("CDS algorithm", 59, vec![0, 1, c, 2, 7]), ("DNSKEY algorithm", 48, vec![1, 0, 3, c, 7]), ("CDNSKEY algorithm", 60, vec![1, 0, 3, c, 7])] {
                through(cx, what, code, &b, a.is_some(), a.clone())?;
            }
            let mut b = vec![0, 1, c, 2];
            b.extend([0; 14]);
            b.extend([0, 7]);
            through(cx, "RRSIG algorithm", 46, &b, a.is_some(), None)?;
            const D: [(u8, &str); 4] = [(1, "SHA1"), (2, "SHA256"), (4, "SHA384"), (5, "SHA512")];
            let d = D.iter().find(|x| x.0 == c).map(|x| format!("digest_type: {},", x.1));
            through(cx, "DS digest type", 43, &[0, 1, 8, c, 7], d.is_some(), d.clone())?;
            through(cx, "CDS digest type", 59, &[0, 1, 8, c, 7], d.is_some(), d)?;
        }
    }
    cx.sample(|| "every 8 and 16 bit code inside RDATA of SVCB, CSYNC, DHCID, TKEY, TSIG, APL, SSHFP, TLSA, IPSECKEY, HIP, RRSIG, DS, DNSKEY".into());
    Ok(())
}

// ---- C29 -----------------------------------------------------------------------------------------------
/// What the value says its type is, and the record data it converts into.
fn self_type(d: &RecordData) -> (RecordType, RecordData) {
    macro_rules! each {
        ($($n:ident)* ; $($dn:ident)*) => {
            match d {
                $(RecordData::$n(x) => (x.record_type(), x.clone().into_record_data()),)*
                $(#[cfg(feature = "dnssec")] RecordData::$dn(x) => (x.record_type(), x.clone().into_record_data()),)*
            }
        };
    }
    each!(A NS CNAME SOA NULL WKS PTR HINFO MINFO MX TXT AAAA LOC SRV NAPTR OPT APL SSHFP IPSECKEY DHCID TLSA HIP OPENPGPKEY CSYNC SVCB EUI48 EUI64 TKEY TSIG URI CAA; DS RRSIG NSEC DNSKEY CDS CDNSKEY)
}
fn bytes_of(f: &F) -> Vec<u8> {
    match f {
        F::Raw(v) | F::Rest(v) | F::Str(v) | F::Lp16(v) => v.clone(),
        _ => panic!("field kind"),
    }
}
/// Writes field k of m into d through mutable access; None: that field cannot be edited.
fn edit_field(d: &mut RecordData, k: usize, m: &[F], other: &RecordData) -> Option<Vec<F>> {
    let nm = |f: &F| match f {
        F::Name(n) => name_to(n),
        _ => panic!("field kind"),
    };
    let u = |f: &F| match f {
        F::U(_, v) => *v,
        _ => panic!("field kind"),
    };
    let f = m.get(k)?;
    match (d, k) {
        (RecordData::A(a), 0) => {
            let v = bytes_of(f);
            *a.inner_mut() = Ipv4Addr::new(v[0], v[1], v[2], v[3]);
        }
        (RecordData::AAAA(a), 0) => {
            let v: [u8; 16] = bytes_of(f).try_into().ok()?;
            *a.inner_mut() = Ipv6Addr::from(v);
        }
        (RecordData::PTR(a), 0) => *a.inner_mut() = nm(f),
        (RecordData::NS(a), 0) => a.nsdname = nm(f),
        (RecordData::CNAME(a), 0) => a.cname = nm(f),
        (RecordData::SOA(a), 0) => a.mname = nm(f),
        (RecordData::SOA(a), 1) => a.rname = nm(f),
        (RecordData::SOA(a), 2) => a.serial = u(f) as u32,
        (RecordData::SOA(a), 3) => a.refresh = u(f) as u32,
        (RecordData::SOA(a), 4) => a.retry = u(f) as u32,
        (RecordData::SOA(a), 5) => a.expire = u(f) as u32,
        (RecordData::SOA(a), 6) => a.minimum = u(f) as u32,
        (RecordData::NULL(a), 0) => a.anything = bytes_of(f),
        (RecordData::WKS(a), 1) => a.protocol = u(f) as u8,
        (RecordData::WKS(a), 2) => a.bitmap = bytes_of(f),
        (RecordData::HINFO(a), 0) => a.cpu = bytes_of(f),
        (RecordData::HINFO(a), 1) => a.os = bytes_of(f),
        (RecordData::MINFO(a), 0) => a.rmailbx = nm(f),
        (RecordData::MINFO(a), 1) => a.emailbx = nm(f),
        (RecordData::MX(a), 0) => a.preference = u(f) as u16,
        (RecordData::MX(a), 1) => a.exchange = nm(f),
        (RecordData::LOC(a), 0) => a.version = u(f) as u8,
        (RecordData::LOC(a), 1) => a.size = u(f) as u8,
        (RecordData::LOC(a), 2) => a.horiz_pre = u(f) as u8,
        (RecordData::LOC(a), 3) => a.vert_pre = u(f) as u8,
        (RecordData::LOC(a), 4) => a.latitude = u(f) as u32,
        (RecordData::LOC(a), 5) => a.longitude = u(f) as u32,
        (RecordData::LOC(a), 6) => a.altitude = u(f) as u32,
        (RecordData::SRV(a), 0) => a.priority = u(f) as u16,
        (RecordData::SRV(a), 1) => a.weight = u(f) as u16,
        (RecordData::SRV(a), 2) => a.port = u(f) as u16,
        (RecordData::SRV(a), 3) => a.target = nm(f),
        (RecordData::SSHFP(a), 2) => a.fingerprint = bytes_of(f),
        (RecordData::IPSECKEY(a), 1) => a.public_key = bytes_of(f),
        (RecordData::DHCID(a), 2) => a.digest = bytes_of(f),
        (RecordData::TLSA(a), 3) => a.associated_data = bytes_of(f),
        (RecordData::OPENPGPKEY(a), 0) => a.0 = bytes_of(f),
        (RecordData::CSYNC(a), 0) => a.soa_serial = u(f) as u32,
        (RecordData::CSYNC(a), 1) => {
            a.flags.set_immediate(u(f) & 1 != 0);
            a.flags.set_soa_minimum(u(f) & 2 != 0);
        }
        (RecordData::CSYNC(a), 2) => match other {
            RecordData::CSYNC(o) => a.types = o.types.clone(),
            _ => return None,
        },
        (RecordData::SVCB(a), 0) => a.priority = u(f) as u16,
        (RecordData::SVCB(a), 1) => a.target_name = nm(f),
        (RecordData::TKEY(a), 0) => a.algorithm = nm(f),
        (RecordData::TKEY(a), 1) => a.inception = u(f) as u32,
        (RecordData::TKEY(a), 2) => a.expiration = u(f) as u32,
        (RecordData::TKEY(a), 3) => a.mode = tkey_mode(u(f) as u16),
        (RecordData::TKEY(a), 4) => a.error = tkey_err(u(f) as u16),
        (RecordData::TKEY(a), 5) => a.key_data = bytes_of(f),
        (RecordData::TKEY(a), 6) => a.other_data = bytes_of(f),
        (RecordData::TSIG(a), 0) => a.algorithm = nm(f),
        (RecordData::TSIG(a), 1) => a.time_signed = u(f),
        (RecordData::TSIG(a), 2) => a.fudge = u(f) as u16,
        (RecordData::TSIG(a), 3) => a.mac = bytes_of(f),
        (RecordData::TSIG(a), 4) => a.original_id = u(f) as u16,
        (RecordData::TSIG(a), 5) => a.error = tsig_err(u(f) as u16),
        (RecordData::TSIG(a), 6) => a.other_data = bytes_of(f),
        (RecordData::URI(a), 0) => a.priority = u(f) as u16,
        (RecordData::URI(a), 1) => a.weight = u(f) as u16,
        (RecordData::URI(a), 2) => a.target = bytes_of(f),
        (RecordData::CAA(a), 1) => a.value = bytes_of(f),
        #[cfg(feature = "dnssec")]
        (RecordData::DS(a), 0) | (RecordData::CDS(a), 0) => a.key_tag = u(f) as u16,
        #[cfg(feature = "dnssec")]
        (RecordData::DS(a), 3) | (RecordData::CDS(a), 3) => a.digest = bytes_of(f),
        #[cfg(feature = "dnssec")]
        (RecordData::DNSKEY(a), 3) | (RecordData::CDNSKEY(a), 3) => a.public_key = bytes_of(f),
        #[cfg(feature = "dnssec")]
        (RecordData::NSEC(a), 0) => a.next_domain_name = nm(f),
        _ => return None,
    }
    Some(vec![f.clone()])
}
fn c29_values(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let ti = *g.pick(types());
    let mut pool = vec![];
    let o = crate::model::Opt { max_blob: 40, ..Default::default() };
    let mut m = gen_rdata(g, ti, &mut pool, &o);
    let mut d = rdata_to(ti.code, &m)?;
    cx.count("values");
    cx.nontrivial(hash(&(ti.code, &m)));
    cx.sample(|| format!("{} {m:?}", ti.name));
    let check = |d: &RecordData, m: &Vec<F>| -> Result<(), String> {
        let got = rdata_of(d)?;
        if got != *m {
            return Err(format!("{} holds {got:?}, should hold {m:?}", ti.name));
        }
        if data_code(d) != ti.code {
            return Err(format!("{} is data of type {}", ti.name, data_code(d)));
        }
        let (t, r) = self_type(d);
        // CDS and CDNSKEY records carry the data types of DS and DNSKEY
        let code = match ti.code {
            59 => 43,
            60 => 48,
            c => c,
        };
        if rcode(t) != code || data_code(&r) != code {
            return Err(format!("{} data says it is {t:?} and converts into data of type {}", ti.name, data_code(&r)));
        }
        if rdata_of(&r)? != *m {
            return Err(format!("{} data {m:?} converts into {r:?}", ti.name));
        }
        if code == ti.code && r != *d {
            return Err(format!("{} data converted is not equal to itself", ti.name));
        }
        Ok(())
    };
    check(&d, &m)?;
    for _ in 0..g.below(3) {
        let n = gen_rdata(g, ti, &mut pool, &o);
        let other = rdata_to(ti.code, &n)?;
        let k = g.ix(m.len());
        let before = d.clone();
        if let Some(v) = edit_field(&mut d, k, &n, &other) {
            cx.count("edits");
            let changed = m[k] != v[0];
            m[k] = v[0].clone();
            check(&d, &m).map_err(|e| format!("after setting field {k}: {e}"))?;
            if (before == d) == changed {
                return Err(format!("{} data with field {k} {} compares {}", ti.name, if changed { "changed" } else { "kept" }, before == d));
            }
        }
    }
    Ok(())
}
fn c29_convert(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let k = g.below(5);
    match k {
        0 => {
            cx.count("A");
            let v = g.u32();
            let o = v.to_be_bytes();
            let ip = Ipv4Addr::new(o[0], o[1], o[2], o[3]);
            for (how, a) in [("u32", A::from(v)), ("Ipv4Addr", A::from(ip)), ("new", A::new(ip))] {
                if *a.inner() != ip || a.to_bytes() != o || a.byte_size() != 4 || u32::from(a.clone()) != v || a.clone().into_inner() != ip || a.record_type() != RecordType::A {
                    return Err(format!("A from {how} {v:#010x} is {a:?}, {} as a number", u32::from(a.clone())));
                }
            }
            cx.nontrivial(hash(&v));
            cx.sample(|| format!("A {ip}"));
        }
        1 => {
            cx.count("AAAA");
            let v = (g.int(u64::MAX - 1) as u128) << 64 | g.int(u64::MAX - 1) as u128;
            let o = v.to_be_bytes();
            let ip = Ipv6Addr::from(o);
            for (how, a) in [("u128", Aaaa::from(v)), ("Ipv6Addr", Aaaa::from(ip)), ("new", Aaaa::new(ip))] {
                if *a.inner() != ip || a.to_bytes() != o || a.byte_size() != 16 || u128::from(&a) != v || a.clone().into_inner() != ip || a.record_type() != RecordType::AAAA {
                    return Err(format!("AAAA from {how} {v:#034x} is {a:?}, {:#x} as a number", u128::from(&a)));
                }
            }
            cx.nontrivial(hash(&v));
            cx.sample(|| format!("AAAA {ip}"));
        }
        2 => {
            cx.count("text");
            let o = g.bytes(4);
            let t = format!("{}.{}.{}.{}", o[0], o[1], o[2], o[3]);
            let a = A::try_from(t.as_str()).map_err(|e| format!("{t} refused: {e}"))?;
            if a.to_bytes() != o {
                return Err(format!("A from text {t} is {a:?}"));
            }
            let o = g.bytes(16);
            let mut w: Vec<String> = o.chunks(2).map(|c| format!("{:x}", u16::from_be_bytes([c[0], c[1]]))).collect();
            let a = Aaaa::try_from(w.join(":").as_str()).map_err(|e| format!("{} refused: {e}", w.join(":")))?;
            if a.to_bytes() != o {
                return Err(format!("AAAA from text {} is {a:?}", w.join(":")));
            }
            // shortened form
            let (i, n) = (g.ix(7), 1 + g.ix(3));
            let mut z = o.clone();
            for k in i..(i + n).min(8) {
                w[k] = String::new();
                z[2 * k] = 0;
                z[2 * k + 1] = 0;
            }
            let (x, y) = (w[..i].join(":"), w[(i + n).min(8)..].join(":"));
            let t2 = format!("{x}::{y}");
            if let Ok(want) = t2.parse::<Ipv6Addr>() {
                let a = Aaaa::try_from(t2.as_str()).map_err(|e| format!("{t2} refused: {e}"))?;
                if *a.inner() != want || a.to_bytes() != z {
                    return Err(format!("AAAA from text {t2} is {a:?}"));
                }
            }
            cx.nontrivial(hash(&(t, t2)));
        }
        3 => {
            // broken text
            let mut t = if g.flip() { format!("{}.{}.{}.{}", g.u8(), g.u8(), g.u8(), g.u8()) } else { "2001:db8::1:2".to_string() };
            let i = g.ix(t.len() + 1);
            match g.below(7) {
                4 => t.insert_str(0, *g.pick(&["::ffff:", "::", "0x", "[", "0", "00", "+", " ", "\t", "inet ", "64:ff9b::", "::FFFF:0:"])),
                5 => t.push_str(*g.pick(&["]", "/32", "/128", ":53", "%1", "%eth0", " ", "\n", ".", "\0", ".in-addr.arpa", "::"])),
                6 => t = (*g.pick(&["localhost", "", "0", "1", "127.1", "0x7f000001", "2130706433", "::", "::1.2.3.4", "::ffff:192.0.2.1", "017.0.0.1", "1.2.3", "1.2.3.4.5", "any", "*"])).to_string(),
                0 => t.insert(i, *g.pick(&['.', ':', ' ', '0', '9', 'g', '/', '%', '-'])),
                1 => t.truncate(i),
                2 => t.push_str(&g.text(4)),
                _ => t = g.text(16),
            }
            let (a, b) = (A::try_from(t.as_str()).ok(), Aaaa::try_from(t.as_str()).ok());
            if a.map(|a| *a.inner()) != t.parse::<Ipv4Addr>().ok() || b.map(|a| *a.inner()) != t.parse::<Ipv6Addr>().ok() {
                return Err(format!("text {t:?} is read as another address"));
            }
            if t.parse::<std::net::IpAddr>().is_err() {
                cx.count("text refused");
            }
            cx.nontrivial(hash(&t));
        }
        _ => {
            cx.count("DHCID");
            let id = g.blob(80);
            let n = gen_name(g, &mut vec![]);
            let code = *g.pick(&[dhcid::IdentifierType::ChaddrOfDhcpRequest, dhcid::IdentifierType::ClientIdentifierOption, dhcid::IdentifierType::DUID]);
            let d = Dhcid::new(code, &id, &name_to(&n));
            let mut x = id.clone();
            x.extend(n.wire());
            let want = ring::digest::digest(&ring::digest::SHA256, &x);
            if d.identifier_code != code || d.digest != want.as_ref() {
                return Err(format!("DHCID of {} and {n:?} is {d:?}", hex(&id)));
            }
            let b = d.to_bytes();
            if b.len() != 35 || b[2] != 1 || b[..2] != u16::from(code).to_be_bytes() {
                return Err(format!("DHCID written as {}", hex(&b)));
            }
            cx.nontrivial(hash(&(id, n)));
        }
    }
    Ok(())
}
/// Small spaces, completely.
fn c29_small(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    crate::rt::tls().budget = u64::MAX / 2;
    for p in 0..=65535u16 {
        cx.count("values");
        cx.nontrivial(p as u64);
        let s = Svcb { priority: p, target_name: FQDN::default(), params: Default::default() };
        // the mode type has no name outside of the library: Alias is its first variant
        let alias = mode_is_alias(&s);
        if alias != (p == 0) {
            return Err(format!("SVCB with priority {p} is in {} mode", if alias { "alias" } else { "service" }));
        }
        if let Ok(RecordData::CSYNC(c)) = parse_rdata(62, &[0, 0, 0, 9, (p >> 8) as u8, p as u8]) {
            if c.flags.immediate() != (p & 1 != 0) || c.flags.soa_minimum() != (p & 2 != 0) || u16::from(c.flags) != p {
                return Err(format!("CSYNC flags {p:#x} read as {:?}", c.flags));
            }
        }
    }
    for start in 0..4u16 {
        for ops in 0..4u32.pow(5) {
            let mut c = Csync::default();
            if u16::from(c.flags) != 0 || c.flags.immediate() || c.flags.soa_minimum() {
                return Err("the default CSYNC flags are not empty".into());
            }
            c.flags = start.try_into().map_err(|e: DnsError| format!("CSYNC flags {start} refused: {e}"))?;
            let mut m = start;
            let mut o = ops;
            for _ in 0..5 {
                cx.count("values");
                match o % 4 {
                    k @ (0 | 1) => {
                        c.flags.set_immediate(k == 1);
                        m = m & !1 | k as u16;
                    }
                    k => {
                        c.flags.set_soa_minimum(k == 3);
                        m = m & !2 | (k as u16 - 2) << 1;
                    }
                }
                o /= 4;
                if u16::from(c.flags) != m || c.flags.immediate() != (m & 1 != 0) || c.flags.soa_minimum() != (m & 2 != 0) {
                    return Err(format!("CSYNC flags are {:?} after operations {ops} on {start}, should be {m}", c.flags));
                }
            }
        }
    }
    #[cfg(feature = "dnssec")]
    {
        for a in [1u8, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254] {
            let k = DnsKey::new(a.try_into().map_err(|e: DnsError| format!("algorithm {a} refused: {e}"))?, vec![1, 2, 3]);
            let b = k.to_bytes();
            if k.protocol() != 3 || !k.valid_protocol() || b[2..] != [3, a, 1, 2, 3] || k.public_key != [1, 2, 3] {
                return Err(format!("a new DNSKEY with algorithm {a} is {k:?}, written {}", hex(&b)));
            }
            let want = (k.zone_key as u16) << 8 | k.secure_entry_point as u16;
            if b[..2] != want.to_be_bytes() {
                return Err(format!("flags of a new DNSKEY {k:?} are written {}", hex(&b)));
            }
        }
        for f in 0..=65535u16 {
            cx.count("values");
            let b = [(f >> 8) as u8, f as u8, (f % 7) as u8, 8, 1];
            let Ok(RecordData::DNSKEY(mut k)) = parse_rdata(48, &b) else { return Err(format!("DNSKEY flags {f:#06x} refused")) };
            if k.zone_key != (f & 0x100 != 0) || k.secure_entry_point != (f & 1 != 0) || k.protocol() != b[2] || k.valid_protocol() != (b[2] == 3) || k.to_bytes() != b {
                return Err(format!("DNSKEY {} reads as {k:?} and is written {}", hex(&b), hex(&k.to_bytes())));
            }
            k.zone_key = !k.zone_key;
            if k.to_bytes()[..2] != (f ^ 0x100).to_be_bytes() {
                return Err(format!("DNSKEY flags {f:#06x} with the zone key flag changed are written {}", hex(&k.to_bytes())));
            }
            k.secure_entry_point = !k.secure_entry_point;
            if k.to_bytes()[..2] != (f ^ 0x101).to_be_bytes() {
                return Err(format!("DNSKEY flags {f:#06x} with both flags changed are written {}", hex(&k.to_bytes())));
            }
        }
        let n = Nsec::new(FQDN::new("a.b"));
        if !n.types.is_empty() || n.next_domain_name != FQDN::new("a.b") {
            return Err(format!("a new NSEC is {n:?}"));
        }
    }
    cx.sample(|| "all SVCB priorities, CSYNC flag words and flag histories, DNSKEY flag words".into());
    Ok(())
}
/// Compares with the mode of a record that is known to be an alias.
fn mode_is_alias(s: &Svcb) -> bool {
    let alias = Svcb { priority: 0, target_name: FQDN::default(), params: Default::default() };
    std::mem::discriminant(&s.mode()) == std::mem::discriminant(&alias.mode())
}
