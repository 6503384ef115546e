//! Checks about parsing: C01, C02, C03, C08, C09, C13, C14, C19, C26.
use crate::gen::Gen;
use crate::map::*;
use crate::model::*;
use crate::rt;
use crate::wire::*;
use crate::{hash, Cx, Workload};
use maybe_dns::*;

pub fn workloads(v: &mut Vec<Workload>) {
    v.push(Workload::new("C01", "c01_message", c01_message, 700_000, true, &["accepted", "rejected"]));
    v.push(Workload::new("C01", "c01_part", c01_part, 700_000, true, &["accepted", "rejected", "header", "question", "record", "name", "rdata"]));
    v.push(Workload::new("C01", "c01_large", c01_large, 1_600, false, &["accepted", "rejected"]).deep(30));
    v.push(Workload::new("C02", "c02_message", c02_message, 160_000, true, &["accepted", "records", "non-UTF-8 name shown"]));
    v.push(Workload::new("C02", "c02_large", c02_large, 500, false, &["accepted", "written out over 65535 octets"]).deep(20));
    v.push(Workload::new("C02", "c02_part", c02_part, 200_000, true, &["accepted"]));
    v.push(Workload::new("C03", "c03_memory", c03_memory, 400_000, true, &["accepted", "rejected"]));
    v.push(Workload::new("C03", "c03_counts", c03_counts, 60_000, false, &["rejected"]));
    v.push(Workload::new("C03", "c03_expand", c03_expand, 1_200, false, &["accepted"]).deep(20));
    v.push(Workload::new("C03", "c03_scaling", c03_scaling, 2_400, false, &["doubled"]).deep(20));
    v.push(Workload::new("C03", "c03_inside", c03_inside, 2_000, false, &["doubled"]).deep(20));
    v.push(Workload::new("C08", "c08_wellformed", c08_wellformed, 160_000, true, &["accepted", "pointers"]));
    v.push(Workload::new("C08", "c08_accepted", c08_accepted, 400_000, true, &["accepted and compared"]));
    v.push(Workload::new("C08", "c08_rdata", c08_rdata, 400_000, true, &["accepted and compared"]));
    v.push(Workload::new("C08", "c08_large", c08_large, 3_000, false, &["accepted", "very many elements"]).deep(30));
    v.push(Workload::new("C09", "c09_prefix", c09_prefix, 4_000, false, &["prefixes"]));
    v.push(Workload::new("C09", "c09_malformed", c09_malformed, 500_000, true, &["malformed"]));
    v.push(Workload::new("C09", "c09_codes", c09_codes, 200_000, false, &["malformed"]));
    v.push(Workload::new("C09", "c09_rdata", c09_rdata, 500_000, true, &["malformed"]));
    v.push(Workload::new("C13", "c13_after", c13_after, 100_000, true, &["pairs"]));
    v.push(Workload::new("C13", "c13_longer", c13_longer, 100_000, true, &["longer"]));
    v.push(Workload::new("C13", "c13_shorter", c13_shorter, 200_000, true, &["shorter"]));
    v.push(Workload::new("C13", "c13_context", c13_context, 200_000, true, &["pairs"]));
    v.push(Workload::new("C14", "c14_names", c14_names, 700_000, true, &["accepted", "rejected", "compressed"]));
    v.push(Workload::new("C14", "c14_good", c14_good, 100_000, true, &["accepted", "compressed"]));
    v.push(Workload::new("C19", "c19_reserialise", c19_reserialise, 130_000, true, &["accepted"]));
    v.push(Workload::new("C19", "c19_large", c19_large, 900, false, &["accepted", "written out over 65535 octets"]).deep(20));
    v.push(Workload::new("C19", "c19_foreign", c19_foreign, 70_000, true, &["accepted"]));
    v.push(Workload::new("C26", "c26_history", c26_history, 250_000, true, &["operations", "refused"]));
    v.push(Workload::new("C26", "c26_large", c26_large, 8_000, false, &["operations", "refused"]));
}

// ---- C01 -----------------------------------------------------------------------------------------------
/// Displays an error and walks its sources.
pub fn walk(e: &DnsError) -> Result<(), String> {
    let (a, b) = (format!("{e}"), format!("{e:?}"));
    if std::str::from_utf8(a.as_bytes()).is_err() || std::str::from_utf8(b.as_bytes()).is_err() {
        return Err("an error is shown as invalid UTF-8".into());
    }
    let mut s: Option<&dyn std::error::Error> = std::error::Error::source(e);
    let mut n = 0;
    while let Some(x) = s {
        let _ = format!("{x} {x:?}");
        s = x.source();
        n += 1;
        if n > 16 {
            return Err(format!("the source chain of the error {b} does not end"));
        }
    }
    Ok(())
}
fn verdict<T>(cx: &mut Cx, r: &Result<T, DnsError>) -> Result<(), String> {
    match r {
        Ok(_) => cx.count("accepted"),
        Err(e) => {
            cx.count("rejected");
            walk(e)?;
        }
    }
    Ok(())
}
fn c01_message(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = hostile(g);
    if b.len() > 12 {
        cx.nontrivial(hash(&b));
    }
    let r = Packet::try_from(&b[..]);
    cx.sample(|| format!("{} -> {}", hex(&b), if r.is_ok() { "accepted" } else { "rejected" }));
    verdict(cx, &r)?;
    let mut buf = DnsBuffer::from(&b[..]);
    let p = g.ix(b.len() + 1);
    if buf.set_position(p).is_ok() {
        let r2 = Packet::try_from(&mut buf);
        verdict(cx, &r2)?;
    }
    Ok(())
}
/// Offsets and lengths of large inputs.
fn c01_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = large(g);
    cx.max("bytes", b.len() as u64);
    cx.nontrivial(hash(&b));
    let r = Packet::try_from(&b[..]);
    verdict(cx, &r)?;
    if let Ok(p) = r {
        let _ = p.to_bytes_compressed();
    }
    Ok(())
}
/// A message whose names, written out, take much more room than their pointers.
pub fn expanding(g: &mut Gen) -> Vec<u8> {
    let mut pool = vec![];
    let mut long = MName::default();
    while long.wire_len() < 180 {
        let l = gen_label(g);
        if !l.is_empty() && long.wire_len() + 1 + l.len() <= 255 {
            long.0.push(l);
        }
    }
    let o = Opt { max_blob: 12, ..Default::default() };
    let mut m = MMsg { h: gen_header(g, &o), ..Default::default() };
    m.q.push(MQuestion { name: long.clone(), ..gen_question(g, &mut pool) });
    let n = g.range(50, 700);
    let mut kinds: Vec<MRecord> = (0..g.range(1, 4)).map(|_| if g.flip() { gen_namey_record(g, &mut pool, &o) } else { gen_record(g, &mut pool, &o) }).collect();
    for k in &mut kinds {
        k.name = long.clone();
        rdata_names(&mut k.rdata, &mut |x| *x = long.clone());
    }
    for i in 0..n as usize {
        let k = g.ix(3);
        m.s[k].push(kinds[i % kinds.len()].clone());
    }
    encode(&m, &mut Comp::Random(g)).bytes
}
/// RDATA that takes more than 65535 octets when its names are written out.
fn expanding_inside(g: &mut Gen) -> Vec<u8> {
    let mut m = MMsg::default();
    let labels = g.range(2, 4);
    let long = MName((0..labels).map(|_| vec![b'a' + g.below(3) as u8; 62]).collect());
    m.q.push(MQuestion { name: long.clone(), qtype: 1, class: 1, unicast: false });
    let mut b = encode(&m, &mut Comp::None).bytes;
    b[7] = 1;
    let (hit, key) = (g.blob(30), g.blob(30));
    let n = g.range(200, 2000) as usize;
    let rdlen = 4 + hit.len() + key.len() + 2 * n;
    b.extend([0, 0, 55, 0, 1, 0, 0, 0, 9]);
    b.extend((rdlen as u16).to_be_bytes());
    b.extend([hit.len() as u8, 2]);
    b.extend((key.len() as u16).to_be_bytes());
    b.extend(hit);
    b.extend(key);
    for _ in 0..n {
        b.extend([0xC0, 12]);
    }
    b
}
fn c02_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = match g.below(8) {
        0 => expanding_inside(g),
        1..=4 => expanding(g),
        _ => large(g),
    };
    if let Ok(p) = Packet::try_from(&b[..]) {
        cx.count("accepted");
        cx.nontrivial(hash(&b));
        if p.to_bytes().len() > 65535 {
            cx.count("written out over 65535 octets");
        }
        use_packet(cx, &p).map_err(|e| format!("{e}; message {}", hex(&b)))?;
    }
    Ok(())
}
pub fn large(g: &mut Gen) -> Vec<u8> {
    match g.below(6) {
        0 | 1 => {
            let o = small_opt(g);
            let m = gen_big_msg(g, &o);
            let mut e = encode(&m, &mut Comp::Random(g));
            for _ in 0..g.below(3) {
                corrupt(g, &mut e);
            }
            e.bytes
        }
        2 => {
            // long chain of pointers, then many names using it
            let mut b = header_bytes(g, [0; 4]);
            b.extend_from_slice(&[0, 0, 10, 0, 1, 0, 0, 0, 0, 0, 0]);
            let at = b.len();
            b.extend_from_slice(b"\x01a\x00");
            let k = g.range(1, 1500);
            let mut p = at;
            for _ in 0..k {
                let h = b.len();
                b.extend_from_slice(&(0xC000 | p as u16).to_be_bytes());
                p = h;
            }
            let l = (b.len() - at) as u16;
            put16(&mut b, at - 2, l);
            put16(&mut b, 6, 1);
            let n = g.range(1, 300);
            for _ in 0..n {
                b.extend_from_slice(&(0xC000 | p as u16).to_be_bytes());
                b.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 1, 0, 4, 1, 2, 3, 4]);
            }
            put16(&mut b, 8, n as u16);
            b
        }
        3 => {
            // many tiny questions
            let n = g.range(1, 12_000);
            let mut b = header_bytes(g, [n as u16, 0, 0, 0]);
            for _ in 0..n {
                b.extend_from_slice(&[0, 0, 1, 0, 1]);
            }
            b
        }
        4 => {
            let n = g.range(1_000, 65_000) as usize;
            let c = [g.u16(), g.u16(), g.u16(), g.u16()];
            let mut b = header_bytes(g, c);
            let v = g.bytes(64);
            b.extend(v.iter().cycle().take(n));
            b
        }
        _ => {
            // one record with large RDATA of any type
            let ti = *g.pick(types());
            let mut b = header_bytes(g, [0, 1, 0, 0]);
            b.push(0);
            b.extend_from_slice(&ti.code.to_be_bytes());
            b.extend_from_slice(&[0, 1, 0, 0, 0, 9]);
            let unit = rdata_bytes(g, ti);
            let n = g.int(65535) as usize;
            b.extend_from_slice(&(n as u16).to_be_bytes());
            if g.flip() {
                // repeat only the tail: lists
                let k = g.ix(unit.len() + 1);
                b.extend_from_slice(&unit[..k.min(n)]);
                let tail = if k < unit.len() { unit[k..].to_vec() } else { vec![0xC0, 0x0C] };
                let have = b.len();
                b.extend(tail.iter().cycle().take(n.saturating_sub(k.min(n))));
                let _ = have;
            } else {
                let u = if unit.is_empty() { vec![1] } else { unit };
                b.extend(u.iter().cycle().take(n));
            }
            b
        }
    }
}
pub fn enum_conversions(v: u16) {
    let _ = QType::try_from(v);
    let _ = QClass::try_from(v);
    let _ = RecordType::try_from(v);
    let _ = RecordClass::from(v);
    let _ = OpCode::from(v as u8);
    let _ = ResponseCode::try_from(v as u8);
}
fn c01_part(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    match g.below(10) {
        0 => {
            cx.count("header");
            let b = g.blob(20);
            let r = Header::try_from(&mut DnsBuffer::from(&b[..]));
            verdict(cx, &r)?;
            cx.nontrivial(hash(&(0, &b)));
        }
        1 => {
            cx.count("question");
            let (mut b, p) = name_buffer(g);
            let t = g.blob(8);
            b.extend(t);
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(p);
            let r = Question::try_from(&mut buf);
            verdict(cx, &r)?;
            cx.nontrivial(hash(&(1, &b, p)));
        }
        2 | 3 => {
            cx.count("record");
            let mut b = if g.flip() { name_buffer(g).0 } else { vec![] };
            let p = b.len();
            let mut pool = vec![];
            let r = gen_record(g, &mut pool, &Opt { max_blob: 30, ..Default::default() });
            let mut e = Encoded { bytes: encode_record(&r), marks: vec![], bounds: vec![], pointers: 0 };
            for _ in 0..g.below(3) {
                corrupt(g, &mut e);
            }
            b.extend(e.bytes);
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(p);
            let r = ResourceRecord::try_from(&mut buf);
            verdict(cx, &r)?;
            cx.nontrivial(hash(&(2, &b, p)));
        }
        4 | 5 => {
            cx.count("name");
            let (b, p) = name_buffer(g);
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(p);
            let r = FQDN::try_from(&mut buf);
            verdict(cx, &r)?;
            cx.nontrivial(hash(&(3, &b, p)));
        }
        _ => {
            cx.count("rdata");
            let ti = *g.pick(types());
            let mut b = if g.chance(1, 4) { name_buffer(g).0 } else { vec![] };
            let p = b.len();
            let d = rdata_bytes(g, ti);
            b.extend(&d);
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(p);
            let n = g.ix(d.len() + 3);
            let r = match buf.sub_buffer(if g.flip() { d.len() } else { n }) {
                Ok(mut s) => RecordData::from(rtype(ti.code).unwrap(), &mut s),
                Err(e) => Err(e),
            };
            verdict(cx, &r)?;
            cx.nontrivial(hash(&(4, ti.code, &b)));
            cx.sample(|| format!("{} RDATA {} -> {}", ti.name, hex(&d), if r.is_ok() { "accepted" } else { "rejected" }));
        }
    }
    enum_conversions(g.u16());
    Ok(())
}

// ---- C02 -----------------------------------------------------------------------------------------------
pub const NO_TEXT: &str = "text that is not valid UTF-8";
pub fn text_ok(s: &str) -> Result<(), String> {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return Err(format!("a value holds {NO_TEXT}: {}", hex(s.as_bytes())));
    }
    Ok(())
}
fn shown(s: String) -> Result<(), String> {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        return Err(format!("a value is shown as {NO_TEXT}"));
    }
    Ok(())
}
pub fn use_name(cx: &mut Cx, n: &FQDN) -> Result<(), String> {
    shown(n.to_string())?;
    shown(format!("{n:?}"))?;
    let c = n.clone();
    if c != *n || c.cmp(n) != std::cmp::Ordering::Equal {
        return Err("the clone of a name is not equal to it".into());
    }
    if n.iter().any(|l| std::str::from_utf8(l).is_err()) {
        cx.count("non-UTF-8 name shown");
    }
    let _ = (n.len(), n.label_count(), n.is_empty(), n.is_root(), n.is_link_local(), n.byte_size());
    if c.to_bytes() != n.to_bytes() {
        return Err("the clone of a name serialises differently".into());
    }
    let k: usize = (&c).into_iter().map(|l| l.len()).sum::<usize>();
    if c.into_iter().map(|l| l.len()).sum::<usize>() != k {
        return Err("iterating over a name is inconsistent".into());
    }
    Ok(())
}
pub fn use_data(d: &RecordData) -> Result<(), String> {
    match d {
        RecordData::TXT(t) => t.0.iter().try_for_each(|s| text_ok(s))?,
        RecordData::CAA(c) => text_ok(&c.tag)?,
        _ => {}
    }
    shown(format!("{d:?}"))?;
    let c = d.clone();
    if c != *d {
        return Err(format!("the clone of record data is not equal to it: {d:?}"));
    }
    let _ = d.byte_size();
    if c.to_bytes() != d.to_bytes() {
        return Err("the clone of record data serialises differently".into());
    }
    if !cfg!(miri) {
        let _ = rdata_of(d);
    }
    match d {
        RecordData::SVCB(s) => {
            let _ = s.mode();
            for p in &s.params {
                let _ = (p.byte_size(), p.to_bytes());
            }
        }
        RecordData::CSYNC(s) => {
            let mut f = s.flags;
            f.set_immediate(!f.immediate());
            f.set_soa_minimum(!f.soa_minimum());
        }
        RecordData::APL(a) => {
            let _ = (a.afd_part.byte_size(), a.afd_part.to_bytes());
        }
        RecordData::IPSECKEY(k) => {
            let _ = k.gateway.gateway_type();
        }
        RecordData::AAAA(a) => {
            let _ = u128::from(a);
        }
        RecordData::A(a) => {
            let _ = u32::from(a.clone());
        }
        #[cfg(feature = "dnssec")]
        RecordData::DS(d) | RecordData::CDS(d) => shown(d.hex_digest())?,
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(k) | RecordData::CDNSKEY(k) => {
            shown(k.base64_public_key())?;
            let _ = (k.protocol(), k.valid_protocol(), k.algorithm.len());
            if cfg!(miri) {
                // the digest is computed by foreign code
            } else if let Ok(t) = 2u8.try_into() {
                let _ = maybe_dns::rdata::Ds::try_from_dnskey(&FQDN::new("a.b"), k, t);
            }
        }
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(r) => {
            shown(r.base64_signature())?;
            let _ = (r.key_tag(), r.signature());
        }
        _ => {}
    }
    Ok(())
}
pub fn use_record(cx: &mut Cx, r: &ResourceRecord) -> Result<(), String> {
    use_name(cx, r.name())?;
    use_data(r.data())?;
    shown(format!("{r:?}"))?;
    let c = r.clone();
    if c != *r {
        return Err("the clone of a record is not equal to it".into());
    }
    let _ = (r.byte_size(), r.data_raw(), r.class(), r.record_type().compression_allowed(), r.time_to_live());
    if c.to_bytes() != r.to_bytes() {
        return Err("the clone of a record serialises differently".into());
    }
    let set = ResourceRecordSet::new(r.name(), *r.record_type(), *r.class(), r.time_to_live(), vec![r.data(), c.data()]);
    let mut s2 = set.clone();
    s2.canonical_reorder();
    let _ = (set.byte_size(), set.to_bytes(), s2.to_bytes(), format!("{set:?}"));
    let mut c2 = c.clone();
    c2.set_data(c.take_data());
    Ok(())
}
pub fn use_packet(cx: &mut Cx, p: &Packet) -> Result<(), String> {
    shown(format!("{p:?}"))?;
    let c = p.clone();
    if c != *p {
        return Err("the clone of a message is not equal to it".into());
    }
    let _ = (header_of(p), p.header().clone(), p.byte_size(), p.header().byte_size(), p.header().to_bytes());
    if !cfg!(miri) {
        let _ = packet_of(p);
    }
    for q in p.questions() {
        use_name(cx, q.name())?;
        shown(format!("{q:?}"))?;
        if q.clone() != *q || q.clone().to_bytes() != q.to_bytes() {
            return Err("the clone of a question differs from it".into());
        }
        let _ = (q.byte_size(), q.query_type(), q.class());
    }
    for s in [p.answers(), p.authorities(), p.additionals()] {
        for r in s {
            cx.count("records");
            use_record(cx, r)?;
        }
    }
    if c.to_bytes() != p.to_bytes() {
        return Err("the clone of a message serialises differently".into());
    }
    if c.to_bytes_compressed() != p.to_bytes_compressed() {
        return Err("the clone of a message serialises differently with compression".into());
    }
    let mut t = c;
    let n = t.take_questions().len() + t.take_answers().len() + t.take_authorities().len() + t.take_additionals().len();
    if n != p.questions().len() + p.answers().len() + p.authorities().len() + p.additionals().len() {
        return Err("taking all elements out of a message does not give all of them".into());
    }
    let _ = (t.to_bytes(), t.to_bytes_compressed());
    Ok(())
}
fn c02_message(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = if g.chance(1, 3) { good(g).1.bytes } else { hostile(g) };
    if let Ok(p) = Packet::try_from(&b[..]) {
        cx.count("accepted");
        cx.nontrivial(hash(&b));
        cx.sample(|| hex(&b));
        use_packet(cx, &p).map_err(|e| format!("{e}; message {}", hex(&b)))?;
    }
    Ok(())
}
fn c02_part(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    if g.chance(1, 4) {
        let (b, p) = name_buffer(g);
        let mut buf = DnsBuffer::from(&b[..]);
        let _ = buf.set_position(p);
        if let Ok(n) = buf.extract_fqdn() {
            cx.count("accepted");
            cx.nontrivial(hash(&(&b, p)));
            use_name(cx, &n).map_err(|e| format!("{e}; name at {p} in {}", hex(&b)))?;
        }
        return Ok(());
    }
    let ti = *g.pick(types());
    let b = rdata_bytes(g, ti);
    if let Ok(d) = parse_rdata(ti.code, &b) {
        cx.count("accepted");
        cx.nontrivial(hash(&(ti.code, &b)));
        cx.sample(|| format!("{} {}", ti.name, hex(&b)));
        use_data(&d).map_err(|e| format!("{e}; {} RDATA {}", ti.name, hex(&b)))?;
    }
    Ok(())
}

// ---- C03 -----------------------------------------------------------------------------------------------
pub fn memory_bound(n: usize) -> u64 {
    65536 + 4096 * n as u64
}
fn mem_check(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    let (r, c) = rt::measured(|| Packet::try_from(b).map(|p| p.questions().len() + p.answers().len() + p.authorities().len() + p.additionals().len()));
    cx.count(if r.is_ok() { "accepted" } else { "rejected" });
    cx.max("peak bytes", c.peak);
    cx.max("peak bytes per input byte (above 64 KiB)", c.peak.saturating_sub(65536) / (b.len() as u64).max(1));
    if c.peak > memory_bound(b.len()) {
        return Err(format!("parsing {} bytes used {} bytes of memory, more than the bound of {}: {}", b.len(), c.peak, memory_bound(b.len()), hex(b)));
    }
    let pointers = b.windows(2).filter(|w| w[0] & 0xC0 == 0xC0).count() as u64;
    // every name follows at most every pointer once; a name has at most 127 labels
    let n = b.len() as u64 + 16;
    let bound = 100_000 + 2_000 * n + 400 * n * (pointers + 1);
    if c.steps > bound {
        return Err(format!("parsing {} bytes took {} steps, more than the bound of {bound}: {}", b.len(), c.steps, hex(b)));
    }
    Ok(())
}
fn c03_memory(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = hostile(g);
    if b.len() > 12 {
        cx.nontrivial(hash(&b));
    }
    cx.sample(|| hex(&b));
    mem_check(cx, &b)
}
fn c03_counts(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    // large counts and lengths, little data
    let c = [g.u16(), g.u16(), g.u16(), g.u16()];
    let mut b = header_bytes(g, c);
    match g.below(4) {
        0 => {}
        1 => {
            let k = g.below(6);
            for _ in 0..k {
                b.extend_from_slice(&[0, 0, 1, 0, 1]);
            }
        }
        _ => {
            put16(&mut b, 4, 0);
            b.push(0);
            let ti = *g.pick(types());
            b.extend_from_slice(&ti.code.to_be_bytes());
            b.extend_from_slice(&[0, 1, 0, 0, 0, 9]);
            let f = gen_rdata(g, ti, &mut vec![], &Opt { max_blob: 10, ..Default::default() });
            let c = encode_rdata(ti.code, &f);
            let mut e = c;
            // lengths inside become huge
            for _ in 0..g.below(3) {
                if e.len() >= 2 {
                    let i = g.ix(e.len() - 1);
                    let v = if g.flip() { 0xffff } else { g.u16() };
                    put16(&mut e, i, v);
                }
            }
            let l = if g.flip() { e.len() as u16 } else { g.u16() };
            b.extend_from_slice(&l.to_be_bytes());
            b.extend(e);
        }
    }
    cx.nontrivial(hash(&b));
    cx.sample(|| hex(&b));
    mem_check(cx, &b)
}
/// Small inputs that expand as much as the format allows.
fn c03_expand(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let mut b = header_bytes(g, [0; 4]);
    b[3] &= 0xf0;
    // one name with the most labels
    let labels = g.range(1, 127);
    let at = b.len();
    for _ in 0..labels {
        b.extend_from_slice(b"\x01a");
    }
    b.push(0);
    b.extend_from_slice(&[0, 1, 0, 1]);
    put16(&mut b, 4, 1);
    let p = (0xC000 | at as u16).to_be_bytes();
    let n = g.range(1, 6000);
    match g.below(3) {
        0 => {
            for _ in 0..n {
                b.extend_from_slice(&p);
                b.extend_from_slice(&[0, 1, 0, 1]);
            }
            put16(&mut b, 4, 1 + n as u16);
        }
        1 => {
            // HIP: list of names
            b.extend_from_slice(&[0, 0, 55, 0, 1, 0, 0, 0, 0]);
            b.extend_from_slice(&(4 + 2 * n as u16).to_be_bytes());
            b.extend_from_slice(&[0, 1, 0, 0]);
            for _ in 0..n {
                b.extend_from_slice(&p);
            }
            put16(&mut b, 6, 1);
        }
        _ => {
            for _ in 0..n {
                b.extend_from_slice(&p);
                b.extend_from_slice(&[0, 2, 0, 1, 0, 0, 0, 0, 0, 2]);
                b.extend_from_slice(&p);
            }
            put16(&mut b, 6, n as u16);
        }
    }
    cx.nontrivial(hash(&b));
    mem_check(cx, &b)
}
/// Twice the elements must not cost more than about twice the work.
fn c03_scaling(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = Opt { max_blob: 40, ..Default::default() };
    let mut pool = vec![];
    let kind = g.below(4);
    let fresh = g.flip();
    let ti = *g.pick(types());
    let mut unit: Vec<MRecord> = vec![gen_record_of(g, ti, &mut pool, &o)];
    for _ in 0..g.below(3) {
        let r = gen_namey_record(g, &mut pool, &o);
        unit.push(r);
    }
    let uq = gen_question(g, &mut pool);
    let many = g.chance(1, 16);
    let n = if many { 1500 } else { *g.pick(&[40usize, 100, 300]) };
    if many {
        // one record with short names
        unit.truncate(1);
        unit[0].name.0.truncate(3);
        rdata_names(&mut unit[0].rdata, &mut |x| x.0.truncate(3));
    }
    let build = |k: usize| {
        let mut m = MMsg { h: MHeader { qr: true, ..Default::default() }, ..Default::default() };
        for i in 0..k {
            // different owner names, or the same ones over and over
            let name = |base: &MName| {
                if fresh {
                    let mut l = vec![format!("n{:06}", i).into_bytes()];
                    l.extend(base.0.iter().take(3).filter(|x| x.len() < 60).cloned());
                    MName(l)
                } else {
                    base.clone()
                }
            };
            if kind == 0 {
                m.q.push(MQuestion { name: name(&uq.name), ..uq.clone() });
            } else {
                for u in &unit {
                    m.s[(kind - 1) as usize].push(MRecord { name: name(&u.name), ..u.clone() });
                }
            }
        }
        m
    };
    let (a, b) = (build(n), build(2 * n));
    let mut cost = vec![];
    for m in [&a, &b] {
        let p = packet_to(m)?;
        let (raw, c1) = rt::measured(|| p.to_bytes());
        let (comp, c2) = rt::measured(|| p.to_bytes_compressed());
        let (r1, c3) = rt::measured(|| Packet::try_from(&raw[..]).is_ok());
        let (r2, c4) = rt::measured(|| Packet::try_from(&comp[..]).is_ok());
        if !r1 || !r2 {
            return Ok(()); // not this property
        }
        cost.push([c1, c2, c3, c4]);
    }
    cx.count("doubled");
    cx.nontrivial(hash(&(a, fresh)));
    for (i, what) in ["serialising", "serialising compressed", "parsing", "parsing compressed"].iter().enumerate() {
        let (x, y) = (cost[0][i], cost[1][i]);
        cx.max("steps ratio x100", y.steps * 100 / x.steps.max(1));
        cx.max("moved ratio x100", if y.moved > 300_000 { y.moved * 100 / x.moved.max(1) } else { 0 });
        if y.steps > x.steps * 27 / 10 + 20_000 || y.total > x.total * 27 / 10 + 200_000 || y.moved > x.moved * 33 / 10 + 400_000 {
            return Err(format!(
                "{what} does not scale: {n} times {} took {} steps, {} allocated and {} moved bytes, {} times took {} steps, {} and {} bytes",
                if kind == 0 { "a question".to_string() } else { format!("records of types {:?}", unit.iter().map(|u| u.rtype).collect::<Vec<_>>()) },
                x.steps,
                x.total,
                x.moved,
                2 * n,
                y.steps,
                y.total,
                y.moved
            ));
        }
    }
    Ok(())
}
/// Twice the items inside the data of one record must not cost more than about twice the work either.
fn c03_inside(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let kinds: Vec<&TypeInfo> = types()
        .iter()
        .copied()
        .filter(|t| t.schema.iter().any(|s| matches!(s, S::StrList | S::Opts | S::Params | S::Hip | S::Rest | S::Lp16 | S::Apl)))
        .collect();
    let ti = *g.pick(&kinds);
    let mut pool = vec![];
    let o = Opt { max_blob: 4, ..Default::default() };
    let base = gen_rdata(g, ti, &mut pool, &o);
    let size = *g.pick(&[0usize, 1, 3, 9, 40]);
    let n = (25_000 / (size + 5)).min(*g.pick(&[500usize, 2000, 5000]));
    let names: Vec<MName> = (0..4).map(|_| gen_name(g, &mut pool)).collect();
    let mode = g.below(4);
    let fresh = g.flip();
    // all items alike, or all different
    let item = |i: usize| -> Vec<u8> { if fresh { format!("{i:05}").into_bytes().into_iter().rev().chain(std::iter::repeat(b'x')).take(size).collect() } else { vec![b'x'; size] } };
    let grow = |k: usize| -> Option<Vec<F>> {
        let mut f = base.clone();
        for x in f.iter_mut().rev() {
            match x {
                F::StrList(l) => {
                    *l = (0..k).map(item).collect();
                    return Some(f);
                }
                F::Opts(m) => {
                    *m = (0..k).map(|i| (i as u16, item(i))).collect();
                    return Some(f);
                }
                F::Params(m) => {
                    *m = match mode {
                        // one list of many application protocols
                        0 => {
                            let mut v = vec![];
                            for i in 0..k {
                                v.push(size.max(1) as u8);
                                v.extend_from_slice(if size == 0 { b"h".to_vec() } else { item(i) }.as_slice());
                            }
                            [(1u16, v)].into_iter().collect()
                        }
                        1 => [(4u16, vec![192; k * 4])].into_iter().collect(),
                        2 => [(6u16, vec![32; (k / 4).max(1) * 16])].into_iter().collect(),
                        // many private keys
                        _ => (0..k.min(254)).map(|i| (65280 + i as u16, vec![7; size])).collect(),
                    };
                    return Some(f);
                }
                F::Hip(h, _, pk, l) => {
                    if mode == 0 {
                        *pk = vec![9; k * 5];
                    } else {
                        *l = (0..(k / 4).max(1))
                            .map(|i| {
                                let mut n = names[i % 4].clone();
                                if fresh {
                                    n.0.truncate(1);
                                    n.0.insert(0, format!("{i:04}").into_bytes());
                                }
                                n
                            })
                            .collect();
                    }
                    let _ = h;
                    return Some(f);
                }
                F::Rest(v) | F::Lp16(v) => {
                    *v = vec![b'a'; k * 5];
                    return Some(f);
                }
                _ => {}
            }
        }
        None
    };
    let (Some(a), Some(b)) = (grow(n), grow(2 * n)) else { return Ok(()) };
    let mut cost = vec![];
    for f in [&a, &b] {
        let r = MRecord { name: MName(vec![b"h".to_vec()]), rtype: ti.code, class: 1, flush: false, ttl: 1, rdata: f.clone() };
        let m = MMsg { h: MHeader { qr: true, ..Default::default() }, s: [vec![r], vec![], vec![]], ..Default::default() };
        if encode_rdata(ti.code, f).len() > 65535 {
            return Ok(());
        }
        let wire = encode(&m, &mut Comp::None).bytes;
        let (p, c1) = rt::measured(|| Packet::try_from(&wire[..]));
        let Ok(p) = p else { return Ok(()) }; // not this property
        let (_, c2) = rt::measured(|| p.to_bytes());
        let (_, c3) = rt::measured(|| p.to_bytes_compressed());
        let (_, c4) = rt::measured(|| p.byte_size());
        cost.push([c1, c2, c3, c4]);
    }
    cx.count("doubled");
    cx.nontrivial(hash(&(ti.code, &a)));
    cx.sample(|| format!("{} {n} items of {size}", ti.name));
    for (i, what) in ["parsing", "serialising", "serialising compressed", "measuring"].iter().enumerate() {
        let (x, y) = (cost[0][i], cost[1][i]);
        cx.max("steps ratio x100", if y.steps > 20_000 { y.steps * 100 / x.steps.max(1) } else { 0 });
        cx.max("moved ratio x100", if y.moved > 300_000 { y.moved * 100 / x.moved.max(1) } else { 0 });
        cx.max("memory ratio x100", if y.total > 100_000 { y.total * 100 / x.total.max(1) } else { 0 });
        if y.steps > x.steps * 27 / 10 + 20_000 || y.total > x.total * 27 / 10 + 100_000 || y.moved > x.moved * 33 / 10 + 400_000 {
            return Err(format!(
                "{what} does not scale inside {} data: {n} items of {size} octets took {} steps, {} allocated and {} moved bytes, {} took {} steps, {} and {} bytes",
                ti.name,
                x.steps,
                x.total,
                x.moved,
                2 * n,
                y.steps,
                y.total,
                y.moved
            ));
        }
    }
    Ok(())
}

// ---- C08 / C09 -----------------------------------------------------------------------------------------
/// Compares what the library made of the bytes with the message they spell.
pub fn same(p: &Packet, m: &MMsg) -> Result<(), String> {
    let got = packet_of(p)?;
    let want = MMsg { h: visible(&m.h), q: m.q.clone(), s: m.s.clone() };
    if got != want {
        return Err(format!("got vs expected: {}", diff(&got, &want)));
    }
    Ok(())
}
fn c08_wellformed(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (m, e) = good(g);
    cx.add("pointers", e.pointers as u64);
    c08_expect(cx, &m, &e.bytes)
}
fn c08_expect(cx: &mut Cx, m: &MMsg, b: &[u8]) -> Result<(), String> {
    let p = Packet::try_from(b).map_err(|x| format!("well-formed message rejected with {x}: {}", hex(b)))?;
    cx.count("accepted");
    if !m.q.is_empty() || m.s.iter().any(|s| !s.is_empty()) {
        cx.nontrivial(hash(&b));
    }
    cx.sample(|| hex(b));
    same(&p, m).map_err(|x| format!("{x}; message {}", hex(b)))
}
fn c08_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    if g.chance(1, 30) {
        cx.count("very many elements");
        let m = gen_many(g);
        let e = encode(&m, &mut Comp::Random(g));
        return c08_expect(cx, &m, &e.bytes);
    }
    if g.chance(1, 3) {
        // sections with many elements
        let n = *g.pick(&[255usize, 256, 257, 1000]);
        let mut pool = vec![];
        let q = gen_question(g, &mut pool);
        let mut m = MMsg { h: gen_header(g, &Opt { raw_flags: true, ..Default::default() }), ..Default::default() };
        let o = Opt { max_blob: 10, ..Default::default() };
        let rs: Vec<MRecord> = (0..6).map(|_| gen_record(g, &mut pool, &o)).collect();
        let k = g.ix(4);
        if k == 0 {
            m.q = vec![q; n];
        } else {
            m.s[k - 1] = (0..n).map(|i| MRecord { ttl: i as u32, ..rs[i % 6].clone() }).collect();
        }
        let e = encode(&m, &mut Comp::Random(g));
        return c08_expect(cx, &m, &e.bytes);
    }
    if g.chance(1, 3) {
        let m = crate::c_ser::gen_large(g, cx);
        if m.s.iter().flatten().all(|r| encode_rdata(r.rtype, &r.rdata).len() <= 65535) {
            let e = encode(&m, &mut Comp::Random(g));
            return c08_expect(cx, &m, &e.bytes);
        }
    }
    let o = small_opt(g);
    let m = gen_big_msg(g, &o);
    let e = encode(&m, &mut Comp::Random(g));
    c08_expect(cx, &m, &e.bytes)
}
pub const KF_TXT: &str = "txt-not-utf8";
fn c08_accepted(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = hostile(g);
    let (m, notes, _) = decode(&b);
    let p = Packet::try_from(&b[..]);
    match (p, m) {
        (Ok(p), Ok(m)) => {
            if notes.lossy {
                if !cx.is_known(KF_TXT) {
                    return Err(format!("octets of a TXT record are replaced: {}", hex(&b)));
                }
            }
            cx.count("accepted and compared");
            cx.nontrivial(hash(&b));
            cx.sample(|| hex(&b));
            same(&p, &m).map_err(|x| format!("{x}; bytes {}", hex(&b)))
        }
        (Err(e), Ok(_)) if !notes.may_reject => Err(format!("well-formed message rejected with {e}: {}", hex(&b))),
        _ => Ok(()),
    }
}
fn c08_rdata(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let ti = *g.pick(types());
    let b = rdata_bytes(g, ti);
    let mut x = Dec::new(&b, 0);
    let m = x.rdata(ti);
    let d = parse_rdata(ti.code, &b);
    match (d, m) {
        (Ok(d), Ok(m)) => {
            if x.n.lossy && !cx.is_known(KF_TXT) {
                return Err(format!("octets of a TXT record are replaced: {}", hex(&b)));
            }
            if ti.code == 45 && b[1] == 0 && ipsec_placeholder() && !cx.is_known(crate::c_ser::KF_IPSEC) {
                return Err(format!("an octet of the IPSECKEY public key is taken for a gateway: {}", hex(&b)));
            }
            cx.count("accepted and compared");
            cx.nontrivial(hash(&(ti.code, &b)));
            cx.sample(|| format!("{} {}", ti.name, hex(&b)));
            if data_code(&d) != ti.code {
                return Err(format!("RDATA of type {} parsed to data of type {}", ti.code, data_code(&d)));
            }
            let got = rdata_of(&d)?;
            if got != m {
                return Err(format!("{} RDATA {}: got {got:?}, expected {m:?}", ti.name, hex(&b)));
            }
            Ok(())
        }
        (Err(e), Ok(_)) if !x.n.may_reject => Err(format!("well-formed {} RDATA rejected with {e}: {}", ti.name, hex(&b))),
        _ => Ok(()),
    }
}
fn c09_prefix(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (m, e) = if g.flip() {
        good(g)
    } else {
        let o = small_opt(g);
        let m = gen_msg(g, &o);
        let b = packet_to(&m)?;
        let b = if g.flip() { b.to_bytes() } else { b.to_bytes_compressed() };
        (m, Encoded { bytes: b, marks: vec![], bounds: vec![], pointers: 0 })
    };
    let b = e.bytes;
    if Packet::try_from(&b[..]).is_err() {
        return Ok(()); // another property
    }
    let mut n: Vec<usize> = (0..b.len()).collect();
    if n.len() > 700 {
        let lo = g.ix(b.len() - 300);
        n = (lo..lo + 300).chain(b.len() - 60..b.len()).collect();
    }
    for k in n {
        cx.count("prefixes");
        if Packet::try_from(&b[..k]).is_ok() {
            return Err(format!("the first {k} of {} bytes are accepted as a message: {}", b.len(), hex(&b)));
        }
    }
    let _ = m;
    cx.nontrivial(hash(&b));
    cx.sample(|| hex(&b));
    Ok(())
}
fn must_reject(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    let (m, _, _) = decode(b);
    if let Err(Bad::Reject) = m {
        cx.count("malformed");
        if b.len() > 12 {
            cx.nontrivial(hash(&b));
        }
        cx.sample(|| hex(b));
        if Packet::try_from(b).is_ok() {
            return Err(format!("malformed message accepted: {}", hex(b)));
        }
    }
    Ok(())
}
fn c09_malformed(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = hostile(g);
    // the library runs on every input, so that coverage guides all of them
    let _ = Packet::try_from(&b[..]).is_ok();
    must_reject(cx, &b)
}
/// One field of a well-formed message gets a value outside of its domain.
fn c09_codes(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (_, mut e) = good(g);
    let ms: Vec<Mark> = e.marks.iter().filter(|m| m.len > 0 && !matches!(m.k, K::Ttl | K::RData | K::Class)).cloned().collect();
    let m = g.pick(&ms).clone();
    match m.k {
        K::Flags => e.bytes[m.off + 1] = e.bytes[m.off + 1] & 0xf0 | g.range(11, 15) as u8,
        K::Type | K::QType | K::QClass => {
            let v = g.u16();
            put16(&mut e.bytes, m.off, v)
        }
        K::Name => e.bytes[m.off] = if g.flip() { g.range(0x40, 0xbf) as u8 } else { g.range(0xc0, 0xff) as u8 },
        K::Field => {
            if m.len == 1 {
                e.bytes[m.off] = g.u8()
            } else {
                let i = g.ix(m.len);
                e.bytes[m.off + i] = g.u8();
            }
        }
        K::RdLen | K::Count => {
            let v = g.u16();
            put16(&mut e.bytes, m.off, v)
        }
        _ => {}
    }
    must_reject(cx, &e.bytes)
}
fn c09_rdata(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let ti = *g.pick(types());
    let b = rdata_bytes(g, ti);
    let mut x = Dec::new(&b, 0);
    let m = x.rdata(ti);
    let d = parse_rdata(ti.code, &b);
    if let Err(Bad::Reject) = m {
        cx.count("malformed");
        cx.nontrivial(hash(&(ti.code, &b)));
        cx.sample(|| format!("{} {}", ti.name, hex(&b)));
        if d.is_ok() {
            return Err(format!("malformed {} RDATA accepted: {}", ti.name, hex(&b)));
        }
    }
    Ok(())
}

// ---- C13 -----------------------------------------------------------------------------------------------
/// Header with counts such that only the first k elements are announced.
fn announce(b: &[u8], m: &MMsg, mut k: usize) -> Vec<u8> {
    let mut o = b.to_vec();
    for (i, n) in [m.q.len(), m.s[0].len(), m.s[1].len(), m.s[2].len()].iter().enumerate() {
        let t = k.min(*n);
        put16(&mut o, 4 + 2 * i, t as u16);
        k -= t;
    }
    o
}
fn first(m: &MMsg, mut k: usize) -> MMsg {
    let mut r = m.clone();
    let t = k.min(r.q.len());
    r.q.truncate(t);
    k -= t;
    for s in r.s.iter_mut() {
        let t = k.min(s.len());
        s.truncate(t);
        k -= t;
    }
    r
}
fn c13_after(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (m, e) = good(g);
    let total = m.q.len() + m.s.iter().map(|s| s.len()).sum::<usize>();
    let k = g.ix(total + 1);
    let end = e.bounds[k];
    let base = announce(&e.bytes, &m, k);
    let mut other = base[..end].to_vec();
    if g.flip() {
        let t = g.blob(120);
        other.extend(t);
    } else {
        let mut tail = base[end..].to_vec();
        for _ in 0..g.range(1, 6) {
            if !tail.is_empty() {
                let i = g.ix(tail.len());
                tail[i] = g.u8();
            }
        }
        other.extend(tail);
    }
    let a = Packet::try_from(&base[..]).map_err(|x| format!("message followed by further bytes rejected with {x}: {}", hex(&base)))?;
    let b = Packet::try_from(&other[..]).map_err(|x| format!("accepted {} but rejects ({x}) {} which differs only behind offset {end}", hex(&base), hex(&other)))?;
    cx.count("pairs");
    if k > 0 {
        cx.nontrivial(hash(&(&base, &other)));
    }
    cx.sample(|| format!("{} / {} (equal up to {end})", hex(&base), hex(&other)));
    if a != b || packet_of(&a)? != packet_of(&b)? {
        return Err(format!("bytes behind offset {end} changed the result: {} vs {}", hex(&base), hex(&other)));
    }
    same(&a, &first(&m, k)).map_err(|x| format!("{x}; {}", hex(&base)))
}
/// RDATA that is longer than its type needs; the following records are not affected.
fn c13_longer(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = small_opt(g);
    let mut m = gen_msg(g, &o);
    // records whose format has a definite end
    let fixed: Vec<&TypeInfo> = types().iter().copied().filter(|t| !matches!(t.schema.last(), Some(S::Rest | S::StrList | S::Opts | S::Bitmap | S::Hip | S::Params | S::Apl))).collect();
    let ti = *g.pick(&fixed);
    let mut pool: Vec<MName> = m.s.iter().flatten().map(|r| r.name.clone()).take(5).collect();
    let r = gen_record_of(g, ti, &mut pool, &o);
    let s = g.ix(3);
    let i = g.ix(m.s[s].len() + 1);
    m.s[s].insert(i, r);
    let k = m.q.len() + m.s[..s].iter().map(|x| x.len()).sum::<usize>() + i + 1;
    let junk = match g.below(24) {
        0 => g.range(41, 700),
        1 => g.range(700, 9000),
        2 if g.chance(1, 4) => *g.pick(&[256u64, 16384, 32768, 60000]),
        _ => g.range(1, 40),
    } as usize;
    let mut junk = if junk > 64 {
        let v = g.bytes(16);
        v.into_iter().cycle().take(junk).collect()
    } else {
        g.bytes(junk)
    };
    junk.truncate(65000 - encode_rdata(ti.code, &m.s[s][i].rdata).len().min(64999));
    // no pointers here: inserted octets would move their targets
    let e = encode(&m, &mut Comp::None);
    let end = e.bounds[k];
    let mut b = e.bytes.clone();
    b.splice(end..end, junk.iter().copied());
    let at = e.marks.iter().filter(|x| x.k == K::RdLen && x.off < end).next_back().expect("mark").off;
    let l = get16(&b, at) + junk.len() as u16;
    put16(&mut b, at, l);
    cx.count("longer");
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{} +{} octets: {}", ti.name, junk.len(), hex(&b)));
    let p = Packet::try_from(&b[..]).map_err(|x| format!("{} record with {} more RDATA octets than needed rejected with {x}: {}", ti.name, junk.len(), hex(&b)))?;
    same(&p, &m).map_err(|x| format!("{} record with {} more RDATA octets than needed: {x}; {}", ti.name, junk.len(), hex(&b)))
}
/// RDLENGTH smaller than the fields inside; octets of the next record are right behind.
fn c13_shorter(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = small_opt(g);
    let ti = *g.pick(types());
    let mut pool = vec![];
    let f = gen_rdata(g, ti, &mut pool, &o);
    let full = encode_rdata(ti.code, &f);
    if full.is_empty() {
        return Ok(());
    }
    let cut = if g.flip() { full.len() - 1 - g.ix(full.len().min(4)) } else { g.ix(full.len()) };
    let mut b = header_bytes(g, [0, 1, 0, 0]);
    b[3] &= 0xf0;
    b.push(0);
    b.extend_from_slice(&ti.code.to_be_bytes());
    b.extend_from_slice(&[0, 1, 0, 0, 0, 9]);
    b.extend_from_slice(&(cut as u16).to_be_bytes());
    b.extend_from_slice(&full);
    let mut short = b.clone();
    short.truncate(b.len() - (full.len() - cut));
    let (m, notes, _) = decode(&b);
    let p = Packet::try_from(&b[..]);
    let q = Packet::try_from(&short[..]);
    cx.count("shorter");
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{} cut to {cut} of {}: {}", ti.name, full.len(), hex(&b)));
    match (&p, &q) {
        (Ok(a), Ok(c)) if a == c => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("octets behind the RDATA matter: {} with RDLENGTH {cut} is {} but without the octets behind it is {}", hex(&b), p.is_ok(), q.is_ok())),
    }
    match (p, m) {
        (Ok(_), Err(Bad::Reject)) => Err(format!("{} RDATA whose fields reach beyond its RDLENGTH {cut} is accepted: {}", ti.name, hex(&b))),
        (Ok(p), Ok(m)) if !notes.lossy => same(&p, &m).map_err(|x| format!("{x}; {}", hex(&b))),
        _ => Ok(()),
    }
}
/// The same RDATA with different surroundings.
fn c13_context(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let ti = *g.pick(types());
    let d = rdata_bytes(g, ti);
    if d.iter().any(|b| b & 0xC0 == 0xC0) {
        return Ok(()); // may contain pointers into what precedes
    }
    let run = |pre: &[u8], post: &[u8]| {
        let mut b = pre.to_vec();
        b.extend(&d);
        b.extend(post);
        let mut buf = DnsBuffer::from(&b[..]);
        buf.set_position(pre.len())?;
        let mut s = buf.sub_buffer(d.len())?;
        RecordData::from(rtype(ti.code).unwrap(), &mut s)
    };
    let (x, y) = (g.blob(20), g.blob(40));
    let a = run(&[], &[]);
    let c = run(&[], &y);
    let e = run(&x, &y);
    cx.count("pairs");
    cx.nontrivial(hash(&(ti.code, &d, &x, &y)));
    let eq = |p: &Result<RecordData, DnsError>, q: &Result<RecordData, DnsError>| match (p, q) {
        (Ok(p), Ok(q)) => p == q,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !eq(&a, &c) || !eq(&a, &e) {
        return Err(format!("{} RDATA {} is read differently depending on the octets around it", ti.name, hex(&d)));
    }
    Ok(())
}

// ---- C14 -----------------------------------------------------------------------------------------------
fn c14_one(cx: &mut Cx, b: &[u8], p: usize, end: usize) -> Result<(), String> {
    let mut buf = DnsBuffer::from(b);
    let sub;
    let mut own;
    let buf: &mut DnsBuffer = if end < b.len() && p <= end {
        buf.set_position(p).map_err(|e| format!("set_position: {e}"))?;
        sub = buf.sub_buffer(end - p).map_err(|e| format!("sub_buffer: {e}"))?;
        own = sub;
        &mut own
    } else {
        buf.set_position(p).map_err(|e| format!("set_position: {e}"))?;
        &mut buf
    };
    let end = buf.as_slice().len();
    let mut d = Dec::new(b, p);
    d.end = end;
    let want = d.name();
    let got = buf.extract_fqdn();
    if d.n.pointers > 0 {
        cx.count("compressed");
        cx.nontrivial(hash(&(b, p)));
        cx.max("pointers followed for one name", d.n.max_hops as u64);
    }
    cx.sample(|| format!("at {p} in {} -> {want:?}", hex(b)));
    match (got, want) {
        (Ok(n), Ok(w)) => {
            cx.count("accepted");
            if name_of(&n) != w {
                return Err(format!("name at {p} in {}: got {:?}, expected {:?}", hex(b), name_of(&n), w));
            }
            if buf.position() != d.pos {
                return Err(format!("after the name at {p} in {} the cursor is at {}, expected {}", hex(b), buf.position(), d.pos));
            }
            Ok(())
        }
        (Err(e), Ok(w)) => Err(format!("name {w:?} at {p} in {} rejected with {e}", hex(b))),
        (Ok(n), Err(Bad::Reject)) => Err(format!("malformed name at {p} in {} accepted as {:?}", hex(b), name_of(&n))),
        _ => {
            cx.count("rejected");
            Ok(())
        }
    }
}
fn c14_names(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (b, p) = name_buffer(g);
    let end = if g.chance(1, 4) { p + g.ix(b.len() - p + 1) } else { b.len() };
    c14_one(cx, &b, p, end)
}
/// All names of a well-formed message, at their places.
fn c14_good(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (_, e) = good(g);
    let at: Vec<usize> = e.marks.iter().filter(|m| m.k == K::Name).map(|m| m.off).collect();
    for p in at {
        c14_one(cx, &e.bytes, p, e.bytes.len())?;
    }
    Ok(())
}

// ---- C19 -----------------------------------------------------------------------------------------------
fn c19_check(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    let Ok(p) = Packet::try_from(b) else { return Ok(()) };
    let raw: Vec<_> = [p.answers(), p.authorities(), p.additionals()].iter().flat_map(|s| s.iter()).map(|r| r.data_raw().len()).collect();
    if raw.iter().any(|n| *n > 65535) {
        cx.count("RDATA too long when written out");
        return Ok(());
    }
    let (_, notes, _) = decode(b);
    if notes.lossy && cx.is_known(KF_TXT) {
        return Ok(());
    }
    cx.count("accepted");
    cx.nontrivial(hash(&b));
    cx.sample(|| hex(b));
    for (what, c) in [("", false), ("compressed ", true)] {
        let ser = |p: &Packet| if c { p.to_bytes_compressed() } else { p.to_bytes() };
        let o = ser(&p);
        let q = Packet::try_from(&o[..]).map_err(|e| format!("accepted {} but its {what}serialisation is rejected with {e}: {}", hex(b), hex(&o)))?;
        if q != p {
            return Err(format!("accepted {} but its {what}serialisation parses to another message: {}; {}", hex(b), hex(&o), diff(&packet_of(&p)?, &packet_of(&q)?)));
        }
        let o2 = ser(&q);
        if o2 != o {
            return Err(format!("accepted {}; serialising its {what}serialisation again gives other bytes: {} vs {}", hex(b), hex(&o), hex(&o2)));
        }
    }
    Ok(())
}
fn c19_reserialise(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = hostile(g);
    c19_check(cx, &b)
}
fn c19_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = if g.flip() { expanding(g) } else { large(g) };
    if Packet::try_from(&b[..]).is_ok_and(|p| p.to_bytes().len() > 65535) {
        cx.count("written out over 65535 octets");
    }
    c19_check(cx, &b)
}
fn c19_foreign(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (m, e) = good(g);
    c19_check(cx, &e.bytes)?;
    // well-formed messages come out as they went in, apart from how names are compressed
    if let Ok(p) = Packet::try_from(&e.bytes[..]) {
        let want = encode(&m, &mut Comp::None).bytes;
        let got = p.to_bytes();
        if got != want {
            return Err(format!("{} is written as {}, without compression it is {}", hex(&e.bytes), hex(&got), hex(&want)));
        }
    }
    Ok(())
}

// ---- C26 -----------------------------------------------------------------------------------------------
fn c26_ops(cx: &mut Cx, g: &mut Gen, data: &[u8], buf: &mut DnsBuffer, pos0: usize, end: usize, depth: u32) -> Result<(), String> {
    let mut pos = pos0;
    let n = g.range(1, 14);
    for _ in 0..n {
        let left = end - pos;
        std::hint::black_box(buf.as_slice().last().copied()); // a view that is too long is a read beyond the data
        if buf.position() != pos || buf.remaining() != left || buf.as_slice() != &data[..end] {
            return Err(format!("position {} remaining {}, expected {pos} and {left}", buf.position(), buf.remaining()));
        }
        cx.count("operations");
        let k = match g.below(8) {
            0 => left,
            1 => left + 1,
            2 => g.u16() as usize,
            3 => *g.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - pos, usize::MAX / 2, (usize::MAX - pos).wrapping_add(1), usize::MAX - end]),
            _ => g.ix(left + 2),
        };
        let fits = k <= left;
        let be = |w: usize| data[pos..pos + w].iter().fold(0u64, |a, b| a << 8 | *b as u64);
        macro_rules! expect {
            ($what:expr, $got:expr, $want:expr) => {{
                let (got, want) = ($got, $want);
                match (&got, &want) {
                    (Ok(a), Some(b)) if a == b => {}
                    (Err(_), None) => cx.count("refused"),
                    _ => return Err(format!("{} at {pos} of {end}: got {:?}, expected {:?}", $what, got.ok(), want)),
                }
            }};
        }
        match g.below(13) {
            0 => {
                expect!(format!("peek_bytes({k})"), buf.peek_bytes(k).map(|s| s.to_vec()), fits.then(|| data[pos..pos + k].to_vec()));
            }
            1 => {
                expect!(format!("extract_bytes({k})"), buf.extract_bytes(k).map(|s| s.to_vec()), fits.then(|| data[pos..pos + k].to_vec()));
                if fits {
                    pos += k;
                }
            }
            2 => {
                expect!(format!("advance({k})"), buf.advance(k), fits.then_some(()));
                if fits {
                    pos += k;
                }
            }
            3 => {
                let to = match g.below(5) {
                    0 => end,
                    1 => end + 1,
                    2 => k,
                    _ => g.ix(end + 2),
                };
                expect!(format!("set_position({to})"), buf.set_position(to), (to <= end).then_some(()));
                if to <= end {
                    pos = to;
                }
            }
            4 => {
                expect!("extract_u8", buf.extract_u8(), (left >= 1).then(|| be(1) as u8));
                if left >= 1 {
                    pos += 1;
                }
            }
            5 => {
                expect!("extract_u16", buf.extract_u16(), (left >= 2).then(|| be(2) as u16));
                if left >= 2 {
                    pos += 2;
                }
            }
            6 => {
                expect!("extract_u32", buf.extract_u32(), (left >= 4).then(|| be(4) as u32));
                if left >= 4 {
                    pos += 4;
                }
            }
            7 => {
                // reads the octets even if the value is no known type
                let want = if left >= 2 { rtype(be(2) as u16) } else { None };
                let got = buf.extract_u16_as::<RecordType>();
                if got.as_ref().ok() != want.as_ref() {
                    return Err(format!("extract_u16_as at {pos}: got {got:?}, expected {want:?}"));
                }
                if left >= 2 && want.is_some() {
                    pos += 2;
                } else {
                    // where the cursor stands after a refused value is not specified
                    if buf.position() != pos && buf.position() != pos + 2 {
                        return Err(format!("after a failed extract_u16_as at {pos} the cursor is at {}", buf.position()));
                    }
                    if left < 2 && buf.position() != pos {
                        return Err(format!("extract_u16_as beyond the end moved the cursor from {pos} to {}", buf.position()));
                    }
                    pos = buf.position();
                }
            }
            8 => {
                let want = if left >= 1 && 1 + be(1) as usize <= left { Some(data[pos + 1..pos + 1 + be(1) as usize].to_vec()) } else { None };
                let got = buf.extract_character_string();
                if got.as_ref().ok() != want.as_ref() {
                    return Err(format!("extract_character_string at {pos} of {end}: got {got:?}, expected {want:?}"));
                }
                match want {
                    Some(w) => pos += 1 + w.len(),
                    None => {
                        if buf.position() != pos {
                            return Err(format!("extract_character_string beyond the end moved the cursor from {pos} to {}", buf.position()));
                        }
                    }
                }
            }
            9 => {
                let raw = if left >= 1 && 1 + be(1) as usize <= left { Some(data[pos + 1..pos + 1 + be(1) as usize].to_vec()) } else { None };
                let want = raw.clone().and_then(|r| String::from_utf8(r).ok());
                let got = buf.extract_string();
                if got.as_ref().ok() != want.as_ref() {
                    return Err(format!("extract_string at {pos} of {end}: got {got:?}, expected {want:?}"));
                }
                match want {
                    Some(w) => pos += 1 + w.len(),
                    None => {
                        // text that is not UTF-8 may have been consumed
                        let lim = pos + raw.map(|r| 1 + r.len()).unwrap_or(0);
                        if !(pos..=end.min(lim)).contains(&buf.position()) {
                            return Err(format!("after a failed extract_string at {pos} the cursor is at {}", buf.position()));
                        }
                        pos = buf.position();
                    }
                }
            }
            10 => {
                let mut d = Dec::new(data, pos);
                d.end = end;
                let want = d.name();
                let got = buf.extract_fqdn();
                match (got, want) {
                    (Ok(a), Ok(w)) => {
                        if name_of(&a) != w || buf.position() != d.pos {
                            return Err(format!("extract_fqdn at {pos} of {end}: {:?} and position {}, expected {w:?} and {}", name_of(&a), buf.position(), d.pos));
                        }
                        pos = d.pos;
                    }
                    _ => {
                        // where the cursor stands after a refused name is not specified
                        if buf.position() > end || buf.remaining() != end - buf.position() {
                            return Err("cursor outside of the data after a refused name".into());
                        }
                        buf.set_position(pos).map_err(|e| format!("set_position({pos}) of {end} refused: {e}"))?;
                    }
                }
            }
            _ => {
                let want = fits;
                match buf.sub_buffer(k) {
                    Ok(mut s) => {
                        if !want {
                            return Err(format!("sub_buffer({k}) at {pos} of {end} accepted"));
                        }
                        if depth < 3 {
                            cx.count("sub-views");
                            c26_ops(cx, g, data, &mut s, pos, pos + k, depth + 1).map_err(|e| format!("in a sub-view of {k} octets at {pos}: {e}"))?;
                        }
                    }
                    Err(_) => {
                        if want {
                            return Err(format!("sub_buffer({k}) at {pos} of {end} refused"));
                        }
                        cx.count("refused");
                    }
                }
            }
        }
    }
    std::hint::black_box(buf.as_slice().last().copied());
    if buf.position() != pos || buf.remaining() != end - pos || buf.as_slice() != &data[..end] {
        return Err(format!("position {} remaining {}, expected {pos} and {}", buf.position(), buf.remaining(), end - pos));
    }
    Ok(())
}
fn c26_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let n = *g.pick(&[16_384usize, 65_535, 65_536, 70_000, 131_072, 200_000]) + if g.flip() { 0 } else { g.ix(20) };
    let v = g.bytes(64);
    let data: Box<[u8]> = v.iter().cycle().take(n).copied().collect();
    let mut buf = DnsBuffer::from(&data[..]);
    cx.nontrivial(hash(&(n, &v)));
    c26_ops(cx, g, &data, &mut buf, 0, n, 0).map_err(|e| format!("{e}; data of {n} octets"))
}
fn c26_history(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let data = match g.below(4) {
        0 => g.blob(12),
        1 => g.blob(300),
        2 => name_buffer(g).0,
        _ => {
            let mut b = vec![];
            for _ in 0..g.range(1, 4) {
                let t = g.text(20);
                b.push(t.len() as u8);
                b.extend(t.as_bytes());
            }
            b
        }
    }
    .into_boxed_slice(); // reading beyond the end is reading beyond the allocation
    let mut buf = DnsBuffer::from(&data[..]);
    let before = g.tape.len();
    let r = c26_ops(cx, g, &data, &mut buf, 0, data.len(), 0).map_err(|e| format!("{e}; data {}", hex(&data)));
    cx.nontrivial(hash(&(&data, &g.tape[before..])));
    cx.sample(|| format!("data {} ops {:?}", hex(&data), &g.tape[before..]));
    r
}
