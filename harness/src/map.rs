//! Between the model and the library's public types. Conversions of codes use tables written here, not the
//! library's own conversion functions.
use crate::model::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::BTreeSet;
use std::net::{Ipv4Addr, Ipv6Addr};

macro_rules! type_table {
    ($($c:literal $n:ident;)* @ $($dc:literal $dn:ident;)* @ $($qc:literal $qn:ident;)*) => {
        pub fn rtype(c: u16) -> Option<RecordType> {
            match c {
                $($c => Some(RecordType::$n),)*
                $(#[cfg(feature = "dnssec")] $dc => Some(RecordType::$dn),)*
                _ => None,
            }
        }
        pub fn rcode(t: RecordType) -> u16 {
            match t {
                $(RecordType::$n => $c,)*
                $(#[cfg(feature = "dnssec")] RecordType::$dn => $dc,)*
            }
        }
        pub fn qtype(c: u16) -> Option<QType> {
            match c {
                $($c => Some(QType::$n),)*
                $(#[cfg(feature = "dnssec")] $dc => Some(QType::$dn),)*
                $($qc => Some(QType::$qn),)*
                _ => None,
            }
        }
        pub fn qcode(t: QType) -> u16 {
            match t {
                $(QType::$n => $c,)*
                $(#[cfg(feature = "dnssec")] QType::$dn => $dc,)*
                $(QType::$qn => $qc,)*
            }
        }
        /// record type that a record data value belongs to, by its variant
        pub fn data_code(d: &RecordData) -> u16 {
            match d {
                $(RecordData::$n(_) => $c,)*
                $(#[cfg(feature = "dnssec")] RecordData::$dn(_) => $dc,)*
            }
        }
    };
}
type_table! {
    1 A; 2 NS; 5 CNAME; 6 SOA; 10 NULL; 11 WKS; 12 PTR; 13 HINFO; 14 MINFO; 15 MX; 16 TXT; 28 AAAA; 29 LOC; 33 SRV;
    35 NAPTR; 41 OPT; 42 APL; 44 SSHFP; 45 IPSECKEY; 49 DHCID; 52 TLSA; 55 HIP; 61 OPENPGPKEY; 62 CSYNC; 64 SVCB;
    108 EUI48; 109 EUI64; 249 TKEY; 250 TSIG; 256 URI; 257 CAA;
    @ 43 DS; 46 RRSIG; 47 NSEC; 48 DNSKEY; 59 CDS; 60 CDNSKEY;
    @ 252 AXFR; 253 MAILB; 254 MAILA; 255 ANY;
}
pub fn qclass(c: u16) -> Option<QClass> {
    Some(match c {
        1 => QClass::IN,
        2 => QClass::CS,
        3 => QClass::CH,
        4 => QClass::HS,
        254 => QClass::NONE,
        255 => QClass::ANY,
        _ => return None,
    })
}
pub fn qclass_code(c: QClass) -> u16 {
    match c {
        QClass::IN => 1,
        QClass::CS => 2,
        QClass::CH => 3,
        QClass::HS => 4,
        QClass::NONE => 254,
        QClass::ANY => 255,
    }
}
pub fn rclass(c: u16, opt: bool) -> RecordClass {
    match c {
        _ if opt => RecordClass::UdpPayloadSize(c),
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        _ => RecordClass::UdpPayloadSize(c),
    }
}
pub fn rclass_code(c: RecordClass) -> u16 {
    match c {
        RecordClass::IN => 1,
        RecordClass::CS => 2,
        RecordClass::CH => 3,
        RecordClass::HS => 4,
        RecordClass::UdpPayloadSize(n) => n,
    }
}
pub const RCODES: [ResponseCode; 11] = [
    ResponseCode::NoError,
    ResponseCode::FormatError,
    ResponseCode::ServerFailure,
    ResponseCode::NameError,
    ResponseCode::NotImplemented,
    ResponseCode::Refused,
    ResponseCode::YXDomain,
    ResponseCode::YXRRSet,
    ResponseCode::NXRRSet,
    ResponseCode::NotAuth,
    ResponseCode::NotZone,
];
pub fn response_num(r: ResponseCode) -> u8 {
    RCODES.iter().position(|x| *x == r).unwrap_or(99) as u8
}
pub const OPCODES: [OpCode; 4] = [OpCode::StandardQuery, OpCode::InverseQuery, OpCode::ServerStatusRequest, OpCode::Reserved];
pub fn opcode_num(o: OpCode) -> u8 {
    OPCODES.iter().position(|x| *x == o).unwrap() as u8
}
fn alg(v: u8) -> Algorithm {
    [Algorithm::Reserved, Algorithm::RSA, Algorithm::DSA, Algorithm::ECDSA, Algorithm::Ed25519, Algorithm::Ed448][v as usize]
}
pub fn alg_code(a: Algorithm) -> u8 {
    match a {
        Algorithm::Reserved => 0,
        Algorithm::RSA => 1,
        Algorithm::DSA => 2,
        Algorithm::ECDSA => 3,
        Algorithm::Ed25519 => 4,
        Algorithm::Ed448 => 5,
    }
}
#[cfg(feature = "dnssec")]
pub fn dalg_code(a: &impl std::fmt::Debug) -> u64 {
    // the enum cannot be named outside of the library
    match format!("{a:?}").as_str() {
        "RSA_MD5" => 1,
        "DSA_SHA1" => 3,
        "RSA_SHA1" => 5,
        "RSA_SHA256" => 8,
        "RSA_SHA512" => 10,
        "ECDSA_P256" => 13,
        "ECDSA_P384" => 14,
        "ED25519" => 15,
        "ED448" => 16,
        "Indirect" => 252,
        "PrivateDns" => 253,
        "PrivateOid" => 254,
        _ => 999,
    }
}
#[cfg(feature = "dnssec")]
pub fn digest_code(a: &impl std::fmt::Debug) -> u64 {
    match format!("{a:?}").as_str() {
        "SHA1" => 1,
        "SHA256" => 2,
        "SHA384" => 4,
        "SHA512" => 5,
        _ => 999,
    }
}
pub fn tkey_mode(v: u16) -> tkey::Mode {
    match v {
        1 => tkey::Mode::ServerAssignment,
        2 => tkey::Mode::DiffieHellmanExchange,
        3 => tkey::Mode::GssApiNegotiation,
        4 => tkey::Mode::ResolverAssignment,
        5 => tkey::Mode::KeyDeletion,
        _ => tkey::Mode::Available(v),
    }
}
pub fn tkey_mode_code(m: tkey::Mode) -> u16 {
    match m {
        tkey::Mode::ServerAssignment => 1,
        tkey::Mode::DiffieHellmanExchange => 2,
        tkey::Mode::GssApiNegotiation => 3,
        tkey::Mode::ResolverAssignment => 4,
        tkey::Mode::KeyDeletion => 5,
        tkey::Mode::Available(v) => v,
    }
}
pub fn tkey_err(v: u16) -> tkey::Error {
    match v {
        0 => tkey::Error::None,
        16 => tkey::Error::BadSig,
        17 => tkey::Error::BadKey,
        18 => tkey::Error::BadTime,
        19 => tkey::Error::BadMode,
        20 => tkey::Error::BadName,
        21 => tkey::Error::BadAlg,
        _ => tkey::Error::NonExtendedRcode(v),
    }
}
pub fn tkey_err_code(e: tkey::Error) -> u16 {
    match e {
        tkey::Error::None => 0,
        tkey::Error::NonExtendedRcode(v) => v,
        tkey::Error::BadSig => 16,
        tkey::Error::BadKey => 17,
        tkey::Error::BadTime => 18,
        tkey::Error::BadMode => 19,
        tkey::Error::BadName => 20,
        tkey::Error::BadAlg => 21,
    }
}
pub fn tsig_err(v: u16) -> tsig::Error {
    match v {
        0 => tsig::Error::None,
        16 => tsig::Error::BadSig,
        17 => tsig::Error::BadKey,
        18 => tsig::Error::BadTime,
        _ => tsig::Error::BadTrunc,
    }
}
pub fn tsig_err_code(e: tsig::Error) -> u16 {
    match e {
        tsig::Error::None => 0,
        tsig::Error::BadSig => 16,
        tsig::Error::BadKey => 17,
        tsig::Error::BadTime => 18,
        tsig::Error::BadTrunc => 22,
    }
}

pub fn name_to(n: &MName) -> FQDN {
    FQDN::from(n.0.clone())
}
pub fn name_of(n: &FQDN) -> MName {
    MName(n.iter().cloned().collect())
}
fn u(f: &F) -> u64 {
    match f {
        F::U(_, v) => *v,
        _ => panic!("field kind"),
    }
}
fn b(f: &F) -> Vec<u8> {
    match f {
        F::Raw(v) | F::Rest(v) | F::Str(v) | F::Lp16(v) => v.clone(),
        _ => panic!("field kind"),
    }
}
fn nm(f: &F) -> FQDN {
    match f {
        F::Name(n) => name_to(n),
        _ => panic!("field kind"),
    }
}
fn v4(v: &[u8]) -> Ipv4Addr {
    Ipv4Addr::new(v[0], v[1], v[2], v[3])
}
fn v6(v: &[u8]) -> Ipv6Addr {
    let mut a = [0u8; 16];
    a.copy_from_slice(v);
    Ipv6Addr::from(a)
}
fn tset(f: &F) -> BTreeSet<RecordType> {
    match f {
        F::Bitmap(t) => t.iter().map(|c| rtype(*c).unwrap()).collect(),
        _ => panic!("field kind"),
    }
}
fn st(v: Vec<u8>) -> String {
    String::from_utf8(v).expect("model text is UTF-8")
}
pub fn parse_rdata(code: u16, bytes: &[u8]) -> Result<RecordData, DnsError> {
    let mut buf = DnsBuffer::from(bytes);
    RecordData::from(rtype(code).unwrap(), &mut buf)
}

/// Builds the library value for RDATA. Err: a value that can only be obtained by parsing was refused.
pub fn rdata_to(code: u16, f: &[F]) -> Result<RecordData, String> {
    let via_parse = || parse_rdata(code, &encode_rdata(code, f)).map_err(|e| format!("well-formed RDATA of type {code} refused: {e}"));
    Ok(match code {
        1 => RecordData::A(A::new(v4(&b(&f[0])))),
        2 => RecordData::NS(Ns::new(nm(&f[0]))),
        5 => RecordData::CNAME(Cname::new(nm(&f[0]))),
        6 => RecordData::SOA(Soa::new(nm(&f[0]), nm(&f[1]), u(&f[2]) as u32, u(&f[3]) as u32, u(&f[4]) as u32, u(&f[5]) as u32, u(&f[6]) as u32)),
        10 => RecordData::NULL(Null::new(b(&f[0]))),
        11 => RecordData::WKS(Wks::new(v4(&b(&f[0])), u(&f[1]) as u8, b(&f[2]))),
        12 => RecordData::PTR(Ptr::new(nm(&f[0]))),
        13 => RecordData::HINFO(Hinfo::new(b(&f[0]), b(&f[1]))),
        14 => RecordData::MINFO(Minfo::new(nm(&f[0]), nm(&f[1]))),
        15 => RecordData::MX(Mx::new(u(&f[0]) as u16, nm(&f[1]))),
        16 => match &f[0] {
            F::StrList(l) => RecordData::TXT(Txt::new(l.iter().cloned().map(st).collect())),
            _ => panic!(),
        },
        28 => RecordData::AAAA(Aaaa::new(v6(&b(&f[0])))),
        29 => RecordData::LOC(Loc { version: u(&f[0]) as u8, size: u(&f[1]) as u8, horiz_pre: u(&f[2]) as u8, vert_pre: u(&f[3]) as u8, latitude: u(&f[4]) as u32, longitude: u(&f[5]) as u32, altitude: u(&f[6]) as u32 }),
        33 => RecordData::SRV(Srv::new(u(&f[0]) as u16, u(&f[1]) as u16, u(&f[2]) as u16, nm(&f[3]))),
        35 => RecordData::NAPTR(Naptr::new(
            u(&f[0]) as u16,
            u(&f[1]) as u16,
            b(&f[2])
                .iter()
                .map(|c| match c {
                    b'S' => naptr::Flag::S,
                    b'A' => naptr::Flag::A,
                    b'U' => naptr::Flag::U,
                    _ => naptr::Flag::P,
                })
                .collect(),
            b(&f[3]),
            st(b(&f[4])),
            nm(&f[5]),
        )),
        41 => match &f[0] {
            F::Opts(m) => RecordData::OPT(Opt(m.iter().map(|(k, v)| (*k, v.clone())).collect())),
            _ => panic!(),
        },
        42 => match &f[0] {
            F::Apl(_, p, n, _) => match via_parse()? {
                RecordData::APL(a) => RecordData::APL(Apl::new(*p, *n, a.afd_part)),
                _ => return Err("APL RDATA parsed to another type".into()),
            },
            _ => panic!(),
        },
        44 => RecordData::SSHFP(Sshfp::new(alg(u(&f[0]) as u8), if u(&f[1]) == 0 { sshfp::FingerprintType::Reserved } else { sshfp::FingerprintType::SHA1 }, b(&f[2]))),
        45 => match &f[0] {
            F::Gw(p, t, a, addr, n) => RecordData::IPSECKEY(IpSecKey {
                precedence: *p,
                algorithm: alg(*a),
                gateway: match t {
                    0 => ipseckey::Gateway::None,
                    1 => ipseckey::Gateway::IpV4(v4(addr)),
                    2 => ipseckey::Gateway::IpV6(v6(addr)),
                    _ => ipseckey::Gateway::Domain(name_to(n)),
                },
                public_key: b(&f[1]),
            }),
            _ => panic!(),
        },
        49 => {
            let code = [dhcid::IdentifierType::ChaddrOfDhcpRequest, dhcid::IdentifierType::ClientIdentifierOption, dhcid::IdentifierType::DUID][u(&f[0]) as usize];
            RecordData::DHCID(Dhcid { identifier_code: code, digest: b(&f[2]) })
        }
        52 => RecordData::TLSA(Tlsa::new(
            [tlsa::CertUsage::Ca, tlsa::CertUsage::ServiceCertificateConstraint, tlsa::CertUsage::TrustAnchor, tlsa::CertUsage::DomainIssuedCertificate][u(&f[0]) as usize],
            [tlsa::Selector::Full, tlsa::Selector::SubjectPublicKeyInfo][u(&f[1]) as usize],
            [tlsa::MatchingType::ExactMatch, tlsa::MatchingType::SHA256, tlsa::MatchingType::SHA512][u(&f[2]) as usize],
            b(&f[3]),
        )),
        55 => match &f[0] {
            F::Hip(hit, a, pk, rs) => RecordData::HIP(Hip {
                public_key_algorithm: alg(*a),
                hit: hit.clone(),
                public_key: pk.clone(),
                rendevous_server: if rs.is_empty() { None } else { Some(rs.iter().map(name_to).collect()) },
            }),
            _ => panic!(),
        },
        61 => RecordData::OPENPGPKEY(OpenPgpKey(b(&f[0]))),
        62 => RecordData::CSYNC(Csync::new(u(&f[0]) as u32, (u(&f[1]) as u16).try_into().map_err(|e| format!("CSYNC flags refused: {e}"))?, tset(&f[2]))),
        64 => match &f[2] {
            F::Params(m) if m.is_empty() => RecordData::SVCB(Svcb { priority: u(&f[0]) as u16, target_name: nm(&f[1]), params: Default::default() }),
            F::Params(_) => match via_parse()? {
                RecordData::SVCB(s) => RecordData::SVCB(Svcb { priority: u(&f[0]) as u16, target_name: nm(&f[1]), params: s.params }),
                _ => return Err("SVCB RDATA parsed to another type".into()),
            },
            _ => panic!(),
        },
        108 | 109 => via_parse()?,
        249 => RecordData::TKEY(Tkey {
            algorithm: nm(&f[0]),
            inception: u(&f[1]) as u32,
            expiration: u(&f[2]) as u32,
            mode: tkey_mode(u(&f[3]) as u16),
            error: tkey_err(u(&f[4]) as u16),
            key_data: b(&f[5]),
            other_data: b(&f[6]),
        }),
        250 => RecordData::TSIG(Tsig {
            algorithm: nm(&f[0]),
            time_signed: u(&f[1]),
            fudge: u(&f[2]) as u16,
            mac: b(&f[3]),
            original_id: u(&f[4]) as u16,
            error: tsig_err(u(&f[5]) as u16),
            other_data: b(&f[6]),
        }),
        256 => RecordData::URI(Uri::new(u(&f[0]) as u16, u(&f[1]) as u16, b(&f[2]))),
        257 => match &f[0] {
            F::Caa(c, t) => RecordData::CAA(Caa::new(*c, st(t.clone()), b(&f[1]))),
            _ => panic!(),
        },
        #[cfg(feature = "dnssec")]
        43 | 59 => {
            let d = Ds::new(
                u(&f[0]) as u16,
                (u(&f[1]) as u8).try_into().map_err(|e| format!("algorithm refused: {e}"))?,
                (u(&f[2]) as u8).try_into().map_err(|e| format!("digest type refused: {e}"))?,
                b(&f[3]),
            );
            if code == 43 { RecordData::DS(d) } else { RecordData::CDS(d) }
        }
        #[cfg(feature = "dnssec")]
        46 => RecordData::RRSIG(Rrsig::new(
            rtype(u(&f[0]) as u16).unwrap(),
            (u(&f[1]) as u8).try_into().map_err(|e| format!("algorithm refused: {e}"))?,
            u(&f[2]) as u8,
            u(&f[3]) as u32,
            u(&f[4]) as u32,
            u(&f[5]) as u32,
            u(&f[6]) as u16,
            nm(&f[7]),
            b(&f[8]),
        )),
        #[cfg(feature = "dnssec")]
        47 => RecordData::NSEC(Nsec::with_types(nm(&f[0]), tset(&f[1]))),
        #[cfg(feature = "dnssec")]
        48 | 60 => {
            let flags = u(&f[0]);
            let k = if flags & !0x101 == 0 && u(&f[1]) == 3 {
                let mut k = DnsKey::new((u(&f[2]) as u8).try_into().map_err(|e| format!("algorithm refused: {e}"))?, b(&f[3]));
                k.zone_key = flags & 0x100 != 0;
                k.secure_entry_point = flags & 1 != 0;
                k
            } else {
                match parse_rdata(48, &encode_rdata(48, f)).map_err(|e| format!("well-formed DNSKEY RDATA refused: {e}"))? {
                    RecordData::DNSKEY(k) => k,
                    _ => return Err("DNSKEY RDATA parsed to another type".into()),
                }
            };
            if code == 48 { RecordData::DNSKEY(k) } else { RecordData::CDNSKEY(k) }
        }
        _ => panic!("no such type {code}"),
    })
}

/// Reads a library value back into the model through its public fields and accessors (through its serialisation
/// where it has none).
pub fn rdata_of(d: &RecordData) -> Result<Vec<F>, String> {
    let code = data_code(d);
    let ti = type_info(code).ok_or("type not supported in this configuration")?;
    let via_bytes = |bytes: Vec<u8>| {
        let mut x = Dec::new(&bytes, 0);
        x.rdata(ti).map_err(|e| format!("{} serialised to RDATA that is not well formed ({e:?}): {}", ti.name, hex(&bytes)))
    };
    let uu = |w: u8, v: u64| F::U(w, v);
    let n = |x: &FQDN| F::Name(name_of(x));
    Ok(match d {
        RecordData::A(a) => vec![F::Raw(a.inner().octets().to_vec())],
        RecordData::AAAA(a) => vec![F::Raw(a.inner().octets().to_vec())],
        RecordData::NS(x) => vec![n(&x.nsdname)],
        RecordData::CNAME(x) => vec![n(&x.cname)],
        RecordData::PTR(x) => vec![n(x.inner())],
        RecordData::SOA(s) => vec![n(&s.mname), n(&s.rname), uu(4, s.serial as u64), uu(4, s.refresh as u64), uu(4, s.retry as u64), uu(4, s.expire as u64), uu(4, s.minimum as u64)],
        RecordData::NULL(x) => vec![F::Rest(x.anything.clone())],
        RecordData::WKS(w) => vec![F::Raw(w.address.octets().to_vec()), uu(1, w.protocol as u64), F::Rest(w.bitmap.clone())],
        RecordData::HINFO(h) => vec![F::Str(h.cpu.clone()), F::Str(h.os.clone())],
        RecordData::MINFO(m) => vec![n(&m.rmailbx), n(&m.emailbx)],
        RecordData::MX(m) => vec![uu(2, m.preference as u64), n(&m.exchange)],
        RecordData::TXT(t) => vec![F::StrList(t.0.iter().map(|s| s.clone().into_bytes()).collect())],
        RecordData::LOC(l) => vec![
            uu(1, l.version as u64),
            uu(1, l.size as u64),
            uu(1, l.horiz_pre as u64),
            uu(1, l.vert_pre as u64),
            uu(4, l.latitude as u64),
            uu(4, l.longitude as u64),
            uu(4, l.altitude as u64),
        ],
        RecordData::SRV(s) => vec![uu(2, s.priority as u64), uu(2, s.weight as u64), uu(2, s.port as u64), n(&s.target)],
        RecordData::NAPTR(x) => via_bytes(x.to_bytes())?,
        RecordData::OPT(o) => vec![F::Opts(o.0.iter().map(|(k, v)| (*k, v.clone())).collect())],
        RecordData::APL(a) => {
            let addr = a.afd_part.to_bytes();
            let fam = if format!("{:?}", a.afd_part).starts_with("IpV4") { 1 } else { 2 };
            vec![F::Apl(fam, a.prefix, a.n, addr)]
        }
        RecordData::SSHFP(s) => vec![
            uu(1, alg_code(s.algorithm) as u64),
            uu(
                1,
                match s.fingerprint_type {
                    sshfp::FingerprintType::Reserved => 0,
                    sshfp::FingerprintType::SHA1 => 1,
                },
            ),
            F::Rest(s.fingerprint.clone()),
        ],
        RecordData::IPSECKEY(k) => {
            let (t, a, nn) = match &k.gateway {
                ipseckey::Gateway::None => (0, vec![], MName::default()),
                ipseckey::Gateway::IpV4(a) => (1, a.octets().to_vec(), MName::default()),
                ipseckey::Gateway::IpV6(a) => (2, a.octets().to_vec(), MName::default()),
                ipseckey::Gateway::Domain(x) => (3, vec![], name_of(x)),
            };
            vec![F::Gw(k.precedence, t, alg_code(k.algorithm), a, nn), F::Rest(k.public_key.clone())]
        }
        RecordData::DHCID(x) => vec![
            uu(
                2,
                match x.identifier_code {
                    dhcid::IdentifierType::ChaddrOfDhcpRequest => 0,
                    dhcid::IdentifierType::ClientIdentifierOption => 1,
                    dhcid::IdentifierType::DUID => 2,
                },
            ),
            uu(1, 1),
            F::Rest(x.digest.clone()),
        ],
        RecordData::TLSA(t) => vec![
            uu(
                1,
                match t.cert_usage {
                    tlsa::CertUsage::Ca => 0,
                    tlsa::CertUsage::ServiceCertificateConstraint => 1,
                    tlsa::CertUsage::TrustAnchor => 2,
                    tlsa::CertUsage::DomainIssuedCertificate => 3,
                },
            ),
            uu(
                1,
                match t.selector {
                    tlsa::Selector::Full => 0,
                    tlsa::Selector::SubjectPublicKeyInfo => 1,
                },
            ),
            uu(
                1,
                match t.matching_type {
                    tlsa::MatchingType::ExactMatch => 0,
                    tlsa::MatchingType::SHA256 => 1,
                    tlsa::MatchingType::SHA512 => 2,
                },
            ),
            F::Rest(t.associated_data.clone()),
        ],
        RecordData::HIP(h) => vec![F::Hip(h.hit.clone(), alg_code(h.public_key_algorithm), h.public_key.clone(), h.rendevous_server.iter().flatten().map(name_of).collect())],
        RecordData::OPENPGPKEY(k) => vec![F::Rest(k.0.clone())],
        RecordData::CSYNC(c) => {
            let fl = c.flags.immediate() as u64 | (c.flags.soa_minimum() as u64) << 1;
            vec![uu(4, c.soa_serial as u64), uu(2, fl), F::Bitmap(c.types.iter().map(|t| rcode(*t)).collect())]
        }
        RecordData::SVCB(s) => {
            let mut m = std::collections::BTreeMap::new();
            for p in &s.params {
                let x = p.to_bytes();
                if x.len() < 4 || x.len() - 4 != u16::from_be_bytes([x[2], x[3]]) as usize {
                    return Err(format!("SVCB param serialised inconsistently: {}", hex(&x)));
                }
                if m.insert(u16::from_be_bytes([x[0], x[1]]), x[4..].to_vec()).is_some() {
                    return Err("SVCB holds a key twice".into());
                }
            }
            vec![uu(2, s.priority as u64), n(&s.target_name), F::Params(m)]
        }
        RecordData::EUI48(x) => via_bytes(x.to_bytes())?,
        RecordData::EUI64(x) => via_bytes(x.to_bytes())?,
        RecordData::TKEY(t) => vec![
            n(&t.algorithm),
            uu(4, t.inception as u64),
            uu(4, t.expiration as u64),
            uu(2, tkey_mode_code(t.mode) as u64),
            uu(2, tkey_err_code(t.error) as u64),
            F::Lp16(t.key_data.clone()),
            F::Lp16(t.other_data.clone()),
        ],
        RecordData::TSIG(t) => vec![
            n(&t.algorithm),
            uu(6, t.time_signed),
            uu(2, t.fudge as u64),
            F::Lp16(t.mac.clone()),
            uu(2, t.original_id as u64),
            uu(2, tsig_err_code(t.error) as u64),
            F::Lp16(t.other_data.clone()),
        ],
        RecordData::URI(x) => vec![uu(2, x.priority as u64), uu(2, x.weight as u64), F::Rest(x.target.clone())],
        RecordData::CAA(c) => vec![F::Caa(c.issuer_critical, c.tag.clone().into_bytes()), F::Rest(c.value.clone())],
        #[cfg(feature = "dnssec")]
        RecordData::DS(d) | RecordData::CDS(d) => vec![uu(2, d.key_tag as u64), uu(1, dalg_code(&d.algorithm)), uu(1, digest_code(&d.digest_type)), F::Rest(d.digest.clone())],
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(r) => {
            let f = via_bytes(r.to_bytes())?;
            if f[6] != F::U(2, r.key_tag() as u64) || f[8] != F::Rest(r.signature().to_vec()) {
                return Err("RRSIG accessors disagree with its serialisation".into());
            }
            f
        }
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(x) => vec![n(&x.next_domain_name), F::Bitmap(x.types.iter().map(|t| rcode(*t)).collect())],
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(k) | RecordData::CDNSKEY(k) => {
            let raw = k.to_bytes();
            if raw.len() < 4 {
                return Err("DNSKEY serialised to less than four octets".into());
            }
            let flags = (u16::from_be_bytes([raw[0], raw[1]]) & !0x101) | (k.zone_key as u16) << 8 | k.secure_entry_point as u16;
            vec![uu(2, flags as u64), uu(1, k.protocol() as u64), uu(1, dalg_code(&k.algorithm)), F::Rest(k.public_key.clone())]
        }
    })
}

pub fn question_to(q: &MQuestion) -> Question {
    #[allow(unused_mut)]
    let mut x = Question::new(name_to(&q.name), qtype(q.qtype).unwrap(), qclass(q.class).unwrap());
    #[cfg(feature = "mdns")]
    x.set_unicast_response(q.unicast);
    x
}
pub fn question_of(q: &Question) -> MQuestion {
    MQuestion {
        name: name_of(q.name()),
        qtype: qcode(*q.query_type()),
        class: qclass_code(*q.class()),
        #[cfg(feature = "mdns")]
        unicast: q.unicast_response(),
        #[cfg(not(feature = "mdns"))]
        unicast: false,
    }
}
pub fn record_to(r: &MRecord) -> Result<ResourceRecord, String> {
    #[allow(unused_mut)]
    let mut x = ResourceRecord::new(name_to(&r.name), rtype(r.rtype).unwrap(), rclass(r.class, r.rtype == 41), r.ttl, rdata_to(r.rtype, &r.rdata)?);
    #[cfg(feature = "mdns")]
    x.set_cache_flush(r.flush);
    Ok(x)
}
pub fn record_of(r: &ResourceRecord) -> Result<MRecord, String> {
    let t = rcode(*r.record_type());
    if data_code(r.data()) != t {
        return Err(format!("record of type {t} holds data of type {}", data_code(r.data())));
    }
    Ok(MRecord {
        name: name_of(r.name()),
        rtype: t,
        class: rclass_code(*r.class()),
        #[cfg(feature = "mdns")]
        flush: r.cache_flush(),
        #[cfg(not(feature = "mdns"))]
        flush: false,
        ttl: r.time_to_live(),
        rdata: rdata_of(r.data())?,
    })
}
pub fn header_to(h: &MHeader) -> Header {
    let mut x = if h.qr { Header::new_reply(0, OpCode::StandardQuery) } else { Header::new_query(0, false) };
    header_set(h, &mut x);
    x
}
fn header_set(h: &MHeader, x: &mut Header) {
    x.set_query_response(h.qr);
    x.set_opcode(OPCODES[h.opcode.min(3) as usize]);
    x.set_authoritative_answer(h.aa);
    x.set_truncation(h.tc);
    x.set_recursion_desired(h.rd);
    if h.ra {
        x.set_recursion_available(true);
    }
    if h.rcode != 0 {
        x.set_response_code(RCODES[h.rcode as usize]);
    }
}
/// Header as readable through accessors; z is not observable.
pub fn header_of(p: &Packet) -> MHeader {
    MHeader {
        id: p.id(),
        qr: p.query_response(),
        opcode: opcode_num(p.opcode()),
        aa: p.authoritative_answer(),
        tc: p.truncation(),
        rd: p.recursion_desired(),
        ra: p.recursion_available(),
        z: 0,
        rcode: response_num(p.response_code()),
    }
}
/// What the accessors show for a header on the wire.
pub fn visible(h: &MHeader) -> MHeader {
    MHeader { z: 0, opcode: h.opcode.min(3), ..h.clone() }
}
pub fn packet_to(m: &MMsg) -> Result<Packet, String> {
    let mut p = if m.h.qr { Packet::new_reply(m.h.id) } else { Packet::new_query(m.h.id, m.h.rd) };
    p.set_opcode(OPCODES[m.h.opcode.min(3) as usize]);
    p.set_authoritative_answer(m.h.aa);
    p.set_truncation(m.h.tc);
    p.set_recursion_desired(m.h.rd);
    if m.h.ra {
        p.set_recursion_available(true);
    }
    if m.h.rcode != 0 {
        p.set_response_code(RCODES[m.h.rcode as usize]);
    }
    for q in &m.q {
        p.add_question(question_to(q));
    }
    for r in &m.s[0] {
        p.add_answer(record_to(r)?);
    }
    for r in &m.s[1] {
        p.add_authority(record_to(r)?);
    }
    for r in &m.s[2] {
        p.add_additional(record_to(r)?);
    }
    Ok(p)
}
pub fn packet_of(p: &Packet) -> Result<MMsg, String> {
    let rs = |l: &[ResourceRecord]| l.iter().map(record_of).collect::<Result<Vec<_>, _>>();
    Ok(MMsg { h: header_of(p), q: p.questions().iter().map(question_of).collect(), s: [rs(p.answers())?, rs(p.authorities())?, rs(p.additionals())?] })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(4000) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 4000 {
        s.push_str("...");
    }
    s
}
/// Describes the first difference of two messages.
pub fn diff(a: &MMsg, b: &MMsg) -> String {
    if a.h != b.h {
        return format!("header {:?} vs {:?}", a.h, b.h);
    }
    if a.q.len() != b.q.len() {
        return format!("{} vs {} questions", a.q.len(), b.q.len());
    }
    for (i, (x, y)) in a.q.iter().zip(&b.q).enumerate() {
        if x != y {
            return format!("question {i}: {x:?} vs {y:?}");
        }
    }
    for s in 0..3 {
        if a.s[s].len() != b.s[s].len() {
            return format!("section {s}: {} vs {} records", a.s[s].len(), b.s[s].len());
        }
        for (i, (x, y)) in a.s[s].iter().zip(&b.s[s]).enumerate() {
            if x != y {
                return format!("section {s} record {i}: {x:?} vs {y:?}");
            }
        }
    }
    "equal".into()
}
