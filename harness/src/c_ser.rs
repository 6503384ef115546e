//! Checks about serialising: C04, C05, C06, C07, C10, C22, C25, C27.
use crate::c_parse::same;
use crate::gen::Gen;
use crate::map::*;
use crate::model::*;
use crate::wire::*;
use crate::{hash, Cx, Workload};
use maybe_dns::*;
use std::collections::{BTreeSet, HashMap};

pub fn workloads(v: &mut Vec<Workload>) {
    v.push(Workload::new("C04", "c04_message", c04_message, 120_000, true, &["messages"]));
    v.push(Workload::new("C04", "c04_part", c04_part, 500_000, true, &["question", "record", "rdata", "name"]));
    v.push(Workload::new("C04", "c04_large", c04_large, 3_000, false, &["RDATA of 65535 octets", "messages", "sections of 32768 or more"]).deep(20));
    v.push(Workload::new("C05", "c05_message", c05_message, 100_000, true, &["messages", "with pointers"]));
    v.push(Workload::new("C05", "c05_odd", c05_odd, 50_000, true, &["messages", "with pointers"]));
    v.push(Workload::new("C05", "c05_big", c05_big, 3_000, false, &["messages", "names beyond 16383"]).deep(20));
    v.push(Workload::new("C05", "c05_many", c05_many, 8, false, &["suffixes"]).deep(8));
    v.push(Workload::new("C06", "c06_structure", c06_structure, 100_000, true, &["pointers", "repeated names"]));
    v.push(Workload::new("C06", "c06_suffixes", c06_suffixes, 150, false, &["pointers", "repeated names"]).deep(8));
    v.push(Workload::new("C06", "c06_big", c06_big, 3_000, false, &["pointers", "names beyond 16383"]).deep(20));
    v.push(Workload::new("C07", "c07_message", c07_message, 120_000, true, &["messages"]));
    v.push(Workload::new("C07", "c07_part", c07_part, 500_000, true, &["question", "record", "rdata", "name"]));
    v.push(Workload::new("C07", "c07_odd", c07_odd, 40_000, false, &["messages"]));
    v.push(Workload::new("C07", "c07_large", c07_large, 3_000, false, &["RDATA of 65535 octets", "sections of 32768 or more"]).deep(20));
    v.push(Workload::new("C10", "c10_built", c10_built, 120_000, true, &["messages", "records"]));
    v.push(Workload::new("C10", "c10_parsed", c10_parsed, 100_000, true, &["messages", "records"]));
    v.push(Workload::new("C10", "c10_parts", c10_parts, 300_000, true, &["rdata", "name", "record set"]));
    v.push(Workload::new("C10", "c10_odd", c10_odd, 16_000, false, &["messages", "records"]));
    v.push(Workload::new("C10", "c10_large", c10_large, 2_000, false, &["messages", "parsed"]).deep(20));
    v.push(Workload::new("C22", "c22_order", c22_order, 150_000, true, &["sets", "with equal records", "with prefixes"]));
    v.push(Workload::new("C22", "c22_large", c22_large, 600, false, &["sets"]).deep(10));
    v.push(Workload::new("C25", "c25_sets", c25_sets, 300_000, true, &["sets", "two windows"]));
    v.push(Workload::new("C25", "c25_pairs", c25_pairs, 1, false, &["sets"]));
    v.push(Workload::new("C25", "c25_bitmaps", c25_bitmaps, 400_000, true, &["accepted", "rejected"]));
    v.push(Workload::new("C27", "c27_classes", c27_classes, 1, false, &["classes"]));
    v.push(Workload::new("C27", "c27_messages", c27_messages, 100_000, true, &["flags", "OPT"]));
}
pub const KF_SVCB: &str = "svcb-size";
pub const KF_IPSEC: &str = "ipseckey-none";

pub fn parse_all<'a, T: TryFrom<&'a mut DnsBuffer<'a>, Error = DnsError>>(_b: &'a mut DnsBuffer<'a>) -> Result<T, DnsError> {
    T::try_from(_b)
}
fn opt_for(g: &mut Gen) -> Opt {
    Opt { max_blob: *g.pick(&[4usize, 24, 80, 300, 3000]), ..Default::default() }
}
/// RDATA must fit its length field.
pub fn fits16(m: &MMsg) -> bool {
    m.s.iter().flatten().all(|r| encode_rdata(r.rtype, &r.rdata).len() <= 65535)
}

// ---- C04 -----------------------------------------------------------------------------------------------
fn round_trip(cx: &mut Cx, m: &MMsg) -> Result<(), String> {
    let p = packet_to(m)?;
    let b = p.to_bytes();
    cx.count("messages");
    if !m.q.is_empty() || m.s.iter().any(|s| !s.is_empty()) {
        cx.nontrivial(hash(&b));
    }
    cx.max("bytes", b.len() as u64);
    cx.sample(|| hex(&b));
    let q = Packet::try_from(&b[..]).map_err(|e| format!("the serialisation of a message is rejected with {e}: {} of {m:?}", hex(&b)))?;
    same(&q, m).map_err(|e| format!("after a round trip: {e}; bytes {}", hex(&b)))?;
    if q.questions() != p.questions() || q.answers() != p.answers() || q.authorities() != p.authorities() || q.additionals() != p.additionals() {
        return Err(format!("after a round trip the elements are not equal: {p:?} vs {q:?}"));
    }
    Ok(())
}
fn c04_message(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = opt_for(g);
    let m = gen_msg(g, &o);
    round_trip(cx, &m)
}
/// RDATA of exactly the largest size, where the type allows.
fn full_size(g: &mut Gen, ti: &TypeInfo, pool: &mut Vec<MName>, total: usize) -> Option<Vec<F>> {
    let o = Opt { max_blob: 4, ..Default::default() };
    let mut f = gen_rdata(g, ti, pool, &o);
    let have = encode_rdata(ti.code, &f).len();
    let seed = g.bytes(16);
    let mk = |n: usize| -> Vec<u8> { seed.iter().copied().cycle().enumerate().map(|(i, b)| b.wrapping_add((i >> 8) as u8)).take(n).collect() };
    let need = total.checked_sub(have).filter(|n| *n >= 4)?;
    for x in f.iter_mut().rev() {
        match x {
            F::Rest(v) | F::Lp16(v) => {
                let n = v.len() + need;
                *v = mk(n);
                return Some(f);
            }
            F::Hip(_, _, pk, _) => {
                *pk = mk(pk.len() + need);
                return Some(f);
            }
            F::StrList(l) => {
                let mut left = need;
                while left > 256 {
                    l.push(vec![b'x'; 255]);
                    left -= 256;
                }
                if left > 0 {
                    l.push(vec![b'y'; left - 1]);
                }
                return Some(f);
            }
            F::Opts(m) => {
                let mut k = 1000u16;
                while m.contains_key(&k) {
                    k += 1;
                }
                m.insert(k, mk(need - 4));
                return Some(f);
            }
            F::Params(m) => {
                let mut k = 65281u16;
                while m.contains_key(&k) {
                    k += 1;
                }
                m.insert(k, mk(need - 4));
                return Some(f);
            }
            _ => {}
        }
    }
    None
}
pub fn gen_large(g: &mut Gen, cx: &mut Cx) -> MMsg {
    if g.chance(1, 120) {
        let m = gen_many(g);
        if m.q.len() >= 32768 || m.s.iter().any(|s| s.len() >= 32768) {
            cx.count("sections of 32768 or more");
        }
        return m;
    }
    match g.below(5) {
        0 => {
            let o = small_opt(g);
            let mut m = gen_big_msg(g, &Opt { raw_flags: false, ..o });
            m.h = gen_header(g, &Opt::default());
            m
        }
        1 => {
            let o = Opt { max_blob: 16_000, ..Default::default() };
            loop {
                let m = gen_msg(g, &o);
                if fits16(&m) {
                    return m;
                }
            }
        }
        2 => {
            // many elements in one section
            let n = *g.pick(&[255usize, 256, 257, 300]);
            let mut pool = vec![];
            let o = Opt { max_blob: 10, ..Default::default() };
            let mut m = MMsg { h: gen_header(g, &Opt::default()), ..Default::default() };
            let rs: Vec<MRecord> = (0..5).map(|_| gen_record(g, &mut pool, &o)).collect();
            let q = gen_question(g, &mut pool);
            let k = g.ix(4);
            if k == 0 {
                m.q = vec![q; n];
            } else {
                m.s[k - 1] = (0..n).map(|i| MRecord { ttl: i as u32, ..rs[i % 5].clone() }).collect();
            }
            m
        }
        _ => {
            let mut pool = vec![];
            let mut m = MMsg { h: gen_header(g, &Opt::default()), ..Default::default() };
            let ti = *g.pick(types());
            let total = *g.pick(&[65535usize, 65534, 65535, 65535, 32768, 32767, 256, 255, 257, 65280]);
            let total = total.max(600);
            let mut r = gen_record_of(g, ti, &mut pool, &Opt { max_blob: 4, ..Default::default() });
            if let Some(f) = full_size(g, ti, &mut pool, total) {
                r.rdata = f;
                if encode_rdata(ti.code, &r.rdata).len() == 65535 {
                    cx.count("RDATA of 65535 octets");
                }
            }
            m.s[g.ix(3)].push(r);
            let n = g.below(3);
            for _ in 0..n {
                let r = gen_namey_record(g, &mut pool, &Opt { max_blob: 10, ..Default::default() });
                m.s[2].push(r);
            }
            m
        }
    }
}
fn c04_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let m = gen_large(g, cx);
    if !fits16(&m) {
        return Ok(());
    }
    round_trip(cx, &m)
}
fn c04_part(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = opt_for(g);
    let mut pool = vec![];
    // at another position than 0: nothing may depend on where the part lies
    let pre = if g.chance(1, 3) { g.blob(30) } else { vec![] };
    let place = |b: Vec<u8>| {
        let mut v = pre.clone();
        v.extend(b);
        v
    };
    match g.below(8) {
        0 => {
            cx.count("question");
            let m = gen_question(g, &mut pool);
            let q = question_to(&m);
            let b = place(q.to_bytes());
            cx.nontrivial(hash(&b));
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(pre.len());
            let r = Question::try_from(&mut buf).map_err(|e| format!("the serialisation of question {q:?} is rejected with {e}: {}", hex(&b)))?;
            if r != q || question_of(&r) != m || buf.remaining() != 0 {
                return Err(format!("question {q:?} comes back as {r:?}, {} octets left", buf.remaining()));
            }
        }
        1 => {
            cx.count("name");
            let m = gen_name(g, &mut pool);
            let n = name_to(&m);
            let b = place(n.to_bytes());
            cx.nontrivial(hash(&b));
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(pre.len());
            let r = FQDN::try_from(&mut buf).map_err(|e| format!("the serialisation of name {m:?} is rejected with {e}: {}", hex(&b)))?;
            if r != n || name_of(&r) != m || buf.remaining() != 0 {
                return Err(format!("name {m:?} comes back as {:?}", name_of(&r)));
            }
        }
        2..=4 => {
            cx.count("record");
            let m = gen_record(g, &mut pool, &o);
            let r = record_to(&m)?;
            let b = place(r.to_bytes());
            cx.nontrivial(hash(&b));
            cx.sample(|| hex(&b));
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(pre.len());
            let x = ResourceRecord::try_from(&mut buf).map_err(|e| format!("the serialisation of record {r:?} is rejected with {e}: {}", hex(&b)))?;
            let got = record_of(&x)?;
            if x != r || got != m || buf.remaining() != 0 {
                return Err(format!("record {m:?} comes back as {got:?}, {} octets left", buf.remaining()));
            }
        }
        _ => {
            cx.count("rdata");
            let ti = *g.pick(types());
            let f = gen_rdata(g, ti, &mut pool, &o);
            let d = rdata_to(ti.code, &f)?;
            let b = d.to_bytes();
            cx.nontrivial(hash(&(ti.code, &b)));
            cx.sample(|| format!("{} {}", ti.name, hex(&b)));
            let x = parse_rdata(ti.code, &b).map_err(|e| format!("the serialisation of {} data {d:?} is rejected with {e}: {}", ti.name, hex(&b)))?;
            let got = rdata_of(&x)?;
            if x != d || got != f {
                return Err(format!("{} data {f:?} comes back as {got:?}", ti.name));
            }
        }
    }
    Ok(())
}

// ---- C05 -----------------------------------------------------------------------------------------------
fn compressed_same(cx: &mut Cx, p: &Packet) -> Result<Vec<u8>, String> {
    let (plain, comp) = (p.to_bytes(), p.to_bytes_compressed());
    cx.count("messages");
    if plain.len() != comp.len() {
        cx.count("with pointers");
        cx.nontrivial(hash(&comp));
    }
    cx.sample(|| hex(&comp));
    let a = Packet::try_from(&plain[..]);
    let b = Packet::try_from(&comp[..]);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (packet_of(&a)?, packet_of(&b)?);
            if x != y || a != b {
                return Err(format!("uncompressed vs compressed: {}; compressed bytes {}", diff(&x, &y), hex(&comp)));
            }
            Ok(comp)
        }
        (Ok(_), Err(e)) => Err(format!("the compressed form is rejected with {e}: {}; uncompressed {}", hex(&comp), hex(&plain))),
        (Err(e), Ok(_)) => Err(format!("only the compressed form is accepted, the uncompressed one is rejected with {e}: {}", hex(&plain))),
        (Err(_), Err(_)) => {
            cx.count("rejected both");
            Ok(comp)
        }
    }
}
fn c05_message(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = Opt { max_blob: *g.pick(&[4usize, 24, 80, 300]), ..Default::default() };
    let m = gen_msg(g, &o);
    let p = packet_to(&m)?;
    let c = compressed_same(cx, &p)?;
    let q = Packet::try_from(&c[..]).map_err(|e| format!("compressed form rejected with {e}: {}", hex(&c)))?;
    same(&q, &m).map_err(|e| format!("compressed form: {e}; {}", hex(&c)))
}
/// Puts empty labels into a name.
fn with_empty(g: &mut Gen, n: &MName) -> FQDN {
    let mut l = n.0.clone();
    for _ in 0..g.below(3) {
        let i = g.ix(l.len() + 1);
        l.insert(i, vec![]);
    }
    FQDN::from(l)
}
/// Names with empty labels (they are skipped), built by different constructors.
fn c05_odd(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = Opt { max_blob: 12, ..Default::default() };
    let m = gen_msg(g, &o);
    let mut odd = m.clone();
    add_empty_labels(g, &mut odd);
    let p = packet_to(&odd)?;
    let c = compressed_same(cx, &p)?;
    let q = Packet::try_from(&c[..]).map_err(|e| format!("compressed form rejected with {e}: {}", hex(&c)))?;
    same(&q, &m).map_err(|e| format!("compressed form: {e}; {}", hex(&c)))
}
fn c05_big(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = small_opt(g);
    let mut m = if g.chance(1, 150) { gen_many(g) } else { gen_big_msg(g, &Opt { raw_flags: false, ..o }) };
    m.h = gen_header(g, &Opt::default());
    let p = packet_to(&m)?;
    let c = compressed_same(cx, &p)?;
    if c.len() > 0x4000 {
        cx.count("names beyond 16383");
    }
    cx.max("bytes", c.len() as u64);
    let q = Packet::try_from(&c[..]).map_err(|e| format!("compressed form rejected with {e}: {}", hex(&c)))?;
    same(&q, &m).map_err(|e| format!("compressed form: {e}; {}", hex(&c)))
}
/// Thousands of remembered suffixes and millions of other ones: suffixes must not be confused.
fn c05_many(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    crate::rt::tls().budget = u64::MAX / 2;
    let mut r = crate::gen::Rng(g.int(u64::MAX - 1));
    let mut p = Packet::new_query(1, false);
    let mut want: Vec<MName> = vec![];
    let n = 6_000;
    for i in 0..n {
        // short labels for the names whose suffixes are remembered, longer and unequal ones later
        let l: Labels = if i < 64 {
            let mut l: Labels = (0..121).map(|_| vec![r.below(256) as u8]).collect();
            l.push(format!("{i:08}").into_bytes());
            l
        } else {
            let mut l: Labels = (0..118).map(|_| vec![r.below(256) as u8]).collect();
            l.push(format!("{:014}", r.next() % 100_000_000_000_000).into_bytes());
            l
        };
        want.push(MName(l));
        p.add_question(Question::new(name_to(&want[i]), QType::A, QClass::IN));
    }
    let c = p.to_bytes_compressed();
    cx.add("suffixes", want.iter().map(|n| n.0.len() as u64).sum());
    cx.max("bytes", c.len() as u64);
    cx.nontrivial(hash(&c));
    let q = Packet::try_from(&c[..]).map_err(|e| format!("compressed form of a message with {n} names rejected with {e}"))?;
    for (i, (a, b)) in want.iter().zip(q.questions()).enumerate() {
        if *a != name_of(b.name()) {
            return Err(format!("name {i} of {n}: {:?} became {:?}", a, name_of(b.name())));
        }
    }
    if q.questions().len() != n {
        return Err("questions lost".into());
    }
    Ok(())
}

// ---- C06 -----------------------------------------------------------------------------------------------
fn structure(cx: &mut Cx, m: &MMsg) -> Result<(), String> {
    let p = packet_to(m)?;
    let (plain, c) = (p.to_bytes(), p.to_bytes_compressed());
    cx.nontrivial(hash(&c));
    cx.sample(|| hex(&c));
    let at = |s: String| format!("{s}; compressed bytes {}", hex(&c));
    if c.len() > plain.len() {
        return Err(at(format!("compressed form has {} octets, uncompressed {}", c.len(), plain.len())));
    }
    let mut d = Dec::new(&c, 0);
    let got = d.msg().map_err(|e| at(format!("not well formed ({e:?})")))?;
    if d.n.may_reject || d.pos != c.len() {
        return Err(at(format!("pointers, lengths or counts do not match the bytes (walk ended at {} of {})", d.pos, c.len())));
    }
    let want = MMsg { h: visible(&m.h), q: m.q.clone(), s: m.s.clone() };
    if (MMsg { h: visible(&got.h), ..got.clone() }) != want {
        return Err(at(format!("the structure spells another message: {}", diff(&got, &want))));
    }
    let plain_names: BTreeSet<usize> = d.plain.iter().map(|x| x.0).collect();
    let mut starts: BTreeSet<usize> = BTreeSet::new();
    for (i, (s, e, ptr)) in d.names.iter().enumerate() {
        if let Some((pp, t)) = ptr {
            cx.count("pointers");
            if plain_names.contains(&i) {
                let ty = d.plain.iter().find(|x| x.0 == i).unwrap().1;
                return Err(at(format!("name at {s} in RDATA of type {ty} is compressed")));
            }
            if !starts.contains(t) || *t >= 0x4000 || t >= pp {
                return Err(at(format!("pointer at {pp} to {t}, which is not the start of a label of an earlier name")));
            }
        }
        // label starts of this name, in place
        let mut k = *s;
        while k < *e && c[k] != 0 && c[k] & 0xC0 == 0 {
            starts.insert(k);
            k += 1 + c[k] as usize;
        }
        if *s >= 0x4000 {
            cx.count("names beyond 16383");
        }
    }
    // repeated question and owner names
    let owners: Vec<&MName> = m.q.iter().map(|q| &q.name).chain(m.s.iter().flatten().map(|r| &r.name)).collect();
    let mut seen: HashMap<&MName, usize> = HashMap::new();
    for (n, ix) in owners.iter().zip(&d.owners) {
        let (s, e, _) = d.names[*ix];
        if !n.0.is_empty() {
            if let Some(f) = seen.get(*n) {
                if *f < 0x4000 {
                    cx.count("repeated names");
                    if e - s != 2 {
                        return Err(at(format!("name {n:?} at {s} repeats the one at {f} but takes {} octets", e - s)));
                    }
                }
            }
        }
        seen.entry(*n).or_insert(s);
    }
    Ok(())
}
fn c06_structure(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = Opt { max_blob: *g.pick(&[4usize, 24, 80, 300]), ..Default::default() };
    let m = gen_msg(g, &o);
    structure(cx, &m)
}
fn c06_big(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = small_opt(g);
    let mut m = if g.chance(1, 150) { gen_many(g) } else { gen_big_msg(g, &Opt { raw_flags: false, ..o }) };
    m.h = gen_header(g, &Opt::default());
    structure(cx, &m)
}
fn c06_suffixes(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let m = gen_suffixes(g);
    structure(cx, &m)
}

// ---- C07 -----------------------------------------------------------------------------------------------
/// Octet for octet; APL addresses may be written with or without trailing zero octets.
fn exact_rdata(cx: &mut Cx, code: u16, f: &[F], got: &[u8]) -> Result<(), String> {
    if code == 42 {
        let mut d = Dec::new(got, 0);
        let r = d.rdata(type_info(42).unwrap());
        return if r.as_deref() == Ok(f) && d.pos == got.len() { Ok(()) } else { Err(format!("APL {f:?} written as {}", hex(got))) };
    }
    if let Some(F::Gw(_, 0, ..)) = f.first() {
        if ipsec_placeholder() && !cx.is_known(KF_IPSEC) {
            return Err(format!("IPSECKEY without gateway written with an extra octet: {}", hex(got)));
        }
    }
    let want = encode_rdata(code, f);
    if want != got {
        return Err(format!("RDATA of type {code} {f:?} written as {}, expected {}", hex(got), hex(&want)));
    }
    Ok(())
}
fn exact(cx: &mut Cx, m: &MMsg) -> Result<(), String> {
    let p = packet_to(m)?;
    let b = p.to_bytes();
    cx.count("messages");
    cx.nontrivial(hash(&b));
    cx.sample(|| hex(&b));
    for (r, l) in m.s.iter().flatten().zip([p.answers(), p.authorities(), p.additionals()].into_iter().flatten()) {
        exact_rdata(cx, r.rtype, &r.rdata, &l.data().to_bytes())?;
    }
    if m.s.iter().flatten().any(|r| r.rtype == 42) {
        let mut d = Dec::new(&b, 0);
        let got = d.msg().map_err(|e| format!("not well formed ({e:?}): {}", hex(&b)))?;
        if got != *m || d.pos != b.len() || d.n.pointers > 0 {
            return Err(format!("{}; bytes {}", diff(&got, m), hex(&b)));
        }
        return Ok(());
    }
    let want = encode(m, &mut Comp::None).bytes;
    if b != want {
        let i = b.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(b.len().min(want.len()));
        return Err(format!("differs at offset {i}: {} expected {}", hex(&b), hex(&want)));
    }
    Ok(())
}
fn c07_message(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = opt_for(g);
    let m = gen_msg(g, &o);
    exact(cx, &m)
}
/// Names with empty labels are written without them.
fn c07_odd(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = Opt { max_blob: 12, ..Default::default() };
    let m = gen_msg(g, &o);
    let mut odd = m.clone();
    add_empty_labels(g, &mut odd);
    let b = packet_to(&odd)?.to_bytes();
    cx.nontrivial(hash(&odd));
    cx.count("messages");
    let mut d = Dec::new(&b, 0);
    let got = d.msg().map_err(|e| format!("not well formed ({e:?}): {} of {odd:?}", hex(&b)))?;
    if got != m || d.pos != b.len() || d.n.pointers > 0 {
        return Err(format!("with empty labels in names: {}; bytes {}", diff(&got, &m), hex(&b)));
    }
    Ok(())
}
fn c07_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let m = gen_large(g, cx);
    if !fits16(&m) {
        return Ok(());
    }
    exact(cx, &m)
}
fn c07_part(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = opt_for(g);
    let mut pool = vec![];
    let eq = |what: String, got: Vec<u8>, want: Vec<u8>| if got == want { Ok(()) } else { Err(format!("{what} written as {}, expected {}", hex(&got), hex(&want))) };
    match g.below(8) {
        0 => {
            cx.count("question");
            let m = gen_question(g, &mut pool);
            cx.nontrivial(hash(&m));
            eq(format!("{m:?}"), question_to(&m).to_bytes(), encode_question(&m))
        }
        1 => {
            cx.count("name");
            let m = gen_name(g, &mut pool);
            cx.nontrivial(hash(&m));
            eq(format!("{m:?}"), name_to(&m).to_bytes(), m.wire())
        }
        2 => {
            cx.count("header");
            let h = gen_header(g, &Opt::default());
            cx.nontrivial(hash(&h));
            let mut x = header_to(&h);
            let mut w = encode(&MMsg { h: h.clone(), ..Default::default() }, &mut Comp::None).bytes;
            // the id of a bare header is fixed when it is created
            let id = x.to_bytes();
            w[0] = id[0];
            w[1] = id[1];
            x.set_truncation(h.tc);
            eq(format!("{h:?}"), id, w)
        }
        3 | 4 => {
            cx.count("record");
            let m = gen_record(g, &mut pool, &o);
            let r = record_to(&m)?;
            let b = r.to_bytes();
            cx.nontrivial(hash(&b));
            exact_rdata(cx, m.rtype, &m.rdata, &r.data_raw())?;
            if m.rtype == 42 {
                return Ok(());
            }
            eq(format!("{m:?}"), b, encode_record(&m))
        }
        _ => {
            cx.count("rdata");
            let ti = *g.pick(types());
            let f = gen_rdata(g, ti, &mut pool, &o);
            let d = rdata_to(ti.code, &f)?;
            let b = d.to_bytes();
            cx.nontrivial(hash(&(ti.code, &b)));
            cx.sample(|| format!("{} {}", ti.name, hex(&b)));
            exact_rdata(cx, ti.code, &f, &b)
        }
    }
}

// ---- C10 -----------------------------------------------------------------------------------------------
fn svcb_params(d: &RecordData) -> usize {
    match d {
        RecordData::SVCB(s) => s.params.len(),
        _ => 0,
    }
}
/// extra: number of SVCB params inside (known finding: each counts four octets too many)
fn size_is(cx: &mut Cx, what: &dyn Fn() -> String, announced: usize, written: usize, extra: usize) -> Result<(), String> {
    if announced == written {
        return Ok(());
    }
    if extra > 0 && announced == written + 4 * extra && cx.is_known(KF_SVCB) {
        return Ok(());
    }
    let what = what();
    Err(format!("{what} announces {announced} octets but writes {written}"))
}
fn sizes_record(cx: &mut Cx, r: &ResourceRecord) -> Result<(), String> {
    cx.count("records");
    let b = r.to_bytes();
    let x = svcb_params(r.data());
    size_is(cx, &|| format!("record {r:?}"), r.byte_size(), b.len(), x)?;
    let d = r.data().to_bytes();
    size_is(cx, &|| format!("data {:?}", r.data()), r.data().byte_size(), d.len(), x)?;
    if r.data_raw() != d {
        return Err(format!("the raw data of {r:?} is {} but {} is written", hex(&r.data_raw()), hex(&d)));
    }
    let n = r.name().to_bytes();
    size_is(cx, &|| format!("name {:?}", r.name()), r.name().byte_size(), n.len(), 0)?;
    size_is(cx, &|| "record type".into(), r.record_type().byte_size(), r.record_type().to_bytes().len(), 0)?;
    size_is(cx, &|| "record class".into(), r.class().byte_size(), r.class().to_bytes().len(), 0)?;
    // RDLENGTH
    if b.len() != n.len() + 10 + d.len() || b[n.len() + 10..] != d[..] {
        return Err(format!("record {r:?} is not its name, ten octets and its data: {}", hex(&b)));
    }
    if get16(&b, n.len() + 8) as usize != d.len() {
        return Err(format!("RDLENGTH {} for {} octets of RDATA: {}", get16(&b, n.len() + 8), d.len(), hex(&b)));
    }
    Ok(())
}
fn sizes_packet(cx: &mut Cx, p: &Packet) -> Result<(), String> {
    cx.count("messages");
    let b = p.to_bytes();
    cx.nontrivial(hash(&b));
    cx.sample(|| hex(&b));
    let rs: Vec<&ResourceRecord> = [p.answers(), p.authorities(), p.additionals()].into_iter().flatten().collect();
    let x = rs.iter().map(|r| svcb_params(r.data())).sum();
    size_is(cx, &|| "message".into(), p.byte_size(), b.len(), x).map_err(|e| format!("{e}: {}", hex(&b)))?;
    size_is(cx, &|| "header".into(), p.header().byte_size(), p.header().to_bytes().len(), 0)?;
    for q in p.questions() {
        size_is(cx, &|| format!("{q:?}"), q.byte_size(), q.to_bytes().len(), 0)?;
        size_is(cx, &|| "question name".into(), q.name().byte_size(), q.name().to_bytes().len(), 0)?;
        size_is(cx, &|| "question type".into(), q.query_type().byte_size(), q.query_type().to_bytes().len(), 0)?;
        size_is(cx, &|| "question class".into(), q.class().byte_size(), q.class().to_bytes().len(), 0)?;
    }
    for r in &rs {
        sizes_record(cx, r)?;
    }
    // RDLENGTH and counts of the compressed form, by walking it
    let c = p.to_bytes_compressed();
    let mut d = Dec::new(&c, 0);
    let m = d.msg();
    if m.is_err() || d.n.may_reject && !d.n.lossy || d.pos != c.len() || d.rdatas.len() != rs.len() {
        return Err(format!("in the compressed form lengths do not match the bytes ({:?}, ended at {} of {}): {}", m.err(), d.pos, c.len(), hex(&c)));
    }
    Ok(())
}
fn c10_built(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = opt_for(g);
    let m = gen_msg(g, &o);
    sizes_packet(cx, &packet_to(&m)?)
}
fn c10_odd(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = Opt { max_blob: 12, ..Default::default() };
    let mut m = gen_msg(g, &o);
    add_empty_labels(g, &mut m);
    sizes_packet(cx, &packet_to(&m)?)
}
fn c10_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    if g.chance(1, 4) {
        let b = if g.flip() { crate::c_parse::expanding(g) } else { crate::c_parse::large(g) };
        return match Packet::try_from(&b[..]) {
            Ok(p) if within_limits(&p) => {
                cx.count("parsed");
                sizes_packet(cx, &p).map_err(|e| format!("{e}; parsed from {}", hex(&b)))
            }
            _ => Ok(()),
        };
    }
    let m = gen_large(g, cx);
    if !fits16(&m) {
        return Ok(());
    }
    sizes_packet(cx, &packet_to(&m)?)
}
/// Does everything written for this message fit its 16 bit lengths and 8 bit string lengths?
pub fn within_limits(p: &Packet) -> bool {
    [p.answers(), p.authorities(), p.additionals()].into_iter().flatten().all(|r| {
        r.data_raw().len() <= 65535
            && match r.data() {
                RecordData::TXT(t) => t.0.iter().all(|s| s.len() <= 255),
                _ => true,
            }
    })
}
fn c10_parsed(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = if g.chance(1, 3) { good(g).1.bytes } else { hostile(g) };
    match Packet::try_from(&b[..]) {
        Ok(p) if within_limits(&p) => sizes_packet(cx, &p).map_err(|e| format!("{e}; parsed from {}", hex(&b))),
        _ => Ok(()),
    }
}
fn inner_size(d: &RecordData) -> (usize, Vec<u8>) {
    macro_rules! go { ($($v:ident)*; $($s:ident)*) => {
        match d {
            $(RecordData::$v(x) => (x.byte_size(), x.to_bytes()),)*
            $(#[cfg(feature = "dnssec")] RecordData::$s(x) => (x.byte_size(), x.to_bytes()),)*
        }
    } }
    go!(A NS CNAME SOA NULL WKS PTR HINFO MINFO MX TXT AAAA LOC SRV NAPTR OPT APL SSHFP IPSECKEY DHCID TLSA HIP OPENPGPKEY CSYNC SVCB EUI48 EUI64 TKEY TSIG URI CAA; DS RRSIG NSEC DNSKEY CDS CDNSKEY)
}
fn c10_parts(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = opt_for(g);
    let mut pool = vec![];
    match g.below(6) {
        0 => {
            cx.count("name");
            let m = gen_name(g, &mut pool);
            let n = with_empty(g, &m);
            let b = n.to_bytes();
            cx.nontrivial(hash(&b));
            size_is(cx, &|| format!("name {:?}", name_of(&n)), n.byte_size(), b.len(), 0)?;
            if b != m.wire() {
                return Err(format!("name {:?} written as {}", name_of(&n), hex(&b)));
            }
            Ok(())
        }
        1 => {
            cx.count("record set");
            let ti = *g.pick(types());
            let mut n = gen_name(g, &mut pool);
            if g.chance(1, 4) {
                empty_labels(g, &mut n);
            }
            let n = name_to(&n);
            let k = g.below(6);
            let ds = (0..k).map(|_| gen_rdata(g, ti, &mut pool, &o)).map(|f| rdata_to(ti.code, &f)).collect::<Result<Vec<_>, _>>()?;
            let s = ResourceRecordSet::new(&n, rtype(ti.code).unwrap(), RecordClass::IN, g.u32(), ds.iter().collect());
            let b = s.to_bytes();
            cx.nontrivial(hash(&b));
            let x = ds.iter().map(svcb_params).sum();
            size_is(cx, &|| format!("record set {s:?}"), s.byte_size(), b.len(), x)
        }
        _ => {
            cx.count("rdata");
            let ti = *g.pick(types());
            let d = if g.flip() {
                let mut f = gen_rdata(g, ti, &mut pool, &o);
                if g.chance(1, 4) {
                    rdata_names(&mut f, &mut |n| empty_labels(g, n));
                }
                let mut d = rdata_to(ti.code, &f)?;
                if let RecordData::HIP(h) = &mut d {
                    // an empty list of servers instead of none
                    if h.rendevous_server.is_none() && g.flip() {
                        let none = h.to_bytes();
                        h.rendevous_server = Some(vec![]);
                        if h.to_bytes() != none {
                            return Err(format!("HIP with an empty list of servers is written as {}, without one as {}", hex(&h.to_bytes()), hex(&none)));
                        }
                    }
                }
                d
            } else {
                let b = rdata_bytes(g, ti);
                match parse_rdata(ti.code, &b) {
                    Ok(d) => d,
                    Err(_) => return Ok(()),
                }
            };
            let b = d.to_bytes();
            cx.nontrivial(hash(&(ti.code, &b)));
            let x = svcb_params(&d);
            size_is(cx, &|| format!("data {d:?}"), d.byte_size(), b.len(), x)?;
            let (n, ib) = inner_size(&d);
            if ib != b {
                return Err(format!("{} data writes {} itself but {} as record data", ti.name, hex(&ib), hex(&b)));
            }
            size_is(cx, &|| format!("{} {d:?}", ti.name), n, ib.len(), x)?;
            match &d {
                RecordData::SVCB(s) => {
                    for p in &s.params {
                        let n = p.to_bytes().len();
                        size_is(cx, &|| "SVCB parameter".into(), p.byte_size(), n, 1)?;
                    }
                }
                RecordData::APL(a) => size_is(cx, &|| "APL address".into(), a.afd_part.byte_size(), a.afd_part.to_bytes().len(), 0)?,
                RecordData::IPSECKEY(_) | RecordData::CSYNC(_) => {}
                _ => {}
            }
            Ok(())
        }
    }
}

// ---- C22 -----------------------------------------------------------------------------------------------
fn c22_order(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    ordered(cx, g, false)
}
fn c22_large(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    ordered(cx, g, true)
}
fn ordered(cx: &mut Cx, g: &mut Gen, large: bool) -> Result<(), String> {
    let mut pool = vec![];
    let ti = *g.pick(types());
    let fat = large && g.chance(1, 3);
    let o = Opt { max_blob: if fat { *g.pick(&[2_000usize, 9_000, 30_000]) } else { *g.pick(&[3usize, 3, 12, 60, 300]) }, ..Default::default() };
    let name = gen_name(g, &mut pool);
    let n = name_to(&name);
    let mut fs: Vec<Vec<F>> = vec![];
    let k = match g.below(10) {
        _ if fat => g.range(2, 12),
        0 if large => g.range(700, 5000),
        _ if large => g.range(200, 700),
        0 => g.range(8, 30),
        _ => g.range(0, 7),
    };
    for _ in 0..k {
        let f = match g.below(5) {
            0 if !fs.is_empty() => g.pick(&fs).clone(),
            1 | 2 if !fs.is_empty() => {
                // a close relative of another record
                let mut f = g.pick(&fs).clone();
                let i = g.ix(f.len());
                match &mut f[i] {
                    F::Rest(v) | F::Lp16(v) => {
                        if g.flip() {
                            v.push(g.u8())
                        } else {
                            v.pop();
                        }
                    }
                    F::Raw(v) => {
                        let j = g.ix(v.len());
                        v[j] = g.u8();
                    }
                    F::U(_, v) if ti.schema.iter().any(|s| matches!(s, S::U(_, D::Any))) => {
                        if let S::U(w, D::Any) = ti.schema[i] {
                            *v = g.int((1u64 << (8 * w as u32)) - 1)
                        }
                    }
                    F::StrList(l) => l.push(g.text(4).into_bytes()),
                    F::Name(n) => *n = gen_name(g, &mut pool),
                    _ => {}
                }
                f
            }
            _ => gen_rdata(g, ti, &mut pool, &o),
        };
        fs.push(f);
    }
    let ds = fs.iter().map(|f| rdata_to(ti.code, f)).collect::<Result<Vec<_>, _>>()?;
    let mut raw: Vec<Vec<u8>> = ds.iter().map(|d| d.to_bytes()).collect();
    raw.sort();
    cx.count("sets");
    if raw.windows(2).any(|w| w[0] == w[1]) {
        cx.count("with equal records");
    }
    if raw.windows(2).any(|w| w[0] != w[1] && w[1].starts_with(&w[0])) {
        cx.count("with prefixes");
    }
    let class = if g.chance(1, 4) { rclass(g.u16(), true) } else { rclass(g.range(1, 4) as u16, false) };
    let ttl = g.u32();
    let mut want = vec![];
    for r in &raw {
        want.extend(name.wire());
        want.extend(ti.code.to_be_bytes());
        want.extend(rclass_code(class).to_be_bytes());
        want.extend(ttl.to_be_bytes());
        want.extend((r.len() as u16).to_be_bytes());
        want.extend(r);
    }
    if k > 1 {
        cx.nontrivial(hash(&want));
    }
    cx.sample(|| hex(&want));
    for round in 0..3 {
        let mut refs: Vec<&RecordData> = ds.iter().collect();
        match round {
            0 => {}
            1 => refs.reverse(),
            _ => {
                for i in (1..refs.len()).rev() {
                    let j = g.ix(i + 1);
                    refs.swap(i, j);
                }
            }
        }
        let given: Vec<*const RecordData> = refs.iter().map(|r| *r as *const _).collect();
        let mut s = ResourceRecordSet::new(&n, rtype(ti.code).unwrap(), class, ttl, refs);
        let order = |s: &ResourceRecordSet| s.records().iter().map(|r| *r as *const RecordData).collect::<Vec<_>>();
        let got = s.to_bytes();
        if got != want {
            return Err(format!("record set of {k} {} records (order {round}) written as {}, expected {}", ti.name, hex(&got), hex(&want)));
        }
        if order(&s) != given || s.to_bytes() != want {
            return Err("serialising changed the record set".into());
        }
        if s.name() != &n || s.set_type() != rtype(ti.code).unwrap() || s.set_class() != class || s.ttl() != ttl {
            return Err("the record set reports other attributes than it was given".into());
        }
        s.canonical_reorder();
        let now: Vec<Vec<u8>> = s.records().iter().map(|r| r.to_bytes()).collect();
        if now != raw {
            return Err(format!("canonical order of {} records: got {:?}, expected {:?}", ti.name, now.iter().map(|x| hex(x)).collect::<Vec<_>>(), raw.iter().map(|x| hex(x)).collect::<Vec<_>>()));
        }
        let (mut a, mut b) = (order(&s), given.clone());
        a.sort();
        b.sort();
        if a != b {
            return Err("canonical reordering lost or duplicated a record".into());
        }
        if s.to_bytes() != want || s.name() != &n || s.set_type() != rtype(ti.code).unwrap() || s.set_class() != class || s.ttl() != ttl {
            return Err("canonical reordering changed the serialisation or the attributes".into());
        }
    }
    Ok(())
}

// ---- C25 -----------------------------------------------------------------------------------------------
fn bitmap_types() -> Vec<u16> {
    if DNSSEC { vec![62, 47] } else { vec![62] }
}
fn bitmap_set(cx: &mut Cx, code: u16, pre: &[F], set: &BTreeSet<u16>) -> Result<(), String> {
    let mut f = pre.to_vec();
    f.push(F::Bitmap(set.clone()));
    let d = rdata_to(code, &f)?;
    let b = d.to_bytes();
    let head = encode_rdata(code, pre).len();
    cx.count("sets");
    if set.iter().any(|t| *t > 255) && set.iter().any(|t| *t < 256) {
        cx.count("two windows");
    }
    let want = encode_bitmap(set);
    if b.len() < head || b[head..] != want[..] {
        return Err(format!("types {set:?} of a record of type {code} are written as {}, expected {}", hex(&b[head.min(b.len())..]), hex(&want)));
    }
    size_is(cx, &|| format!("record of type {code} with types {set:?}"), d.byte_size(), b.len(), 0)?;
    let back = parse_rdata(code, &b).map_err(|e| format!("bitmap {} rejected with {e}", hex(&want)))?;
    if back != d || rdata_of(&back)?.last() != Some(&F::Bitmap(set.clone())) {
        return Err(format!("types {set:?} come back as {back:?}"));
    }
    Ok(())
}
fn pre_for(code: u16) -> Vec<F> {
    if code == 62 { vec![F::U(4, 7), F::U(2, 3)] } else { vec![F::Name(MName(vec![b"a".to_vec()]))] }
}
fn c25_sets(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let code = *g.pick(&bitmap_types());
    let mut pool = vec![];
    let pre = if code == 62 { vec![F::U(4, g.u32() as u64), F::U(2, g.below(4))] } else { vec![F::Name(gen_name(g, &mut pool))] };
    let mut set = gen_types(g);
    if g.chance(1, 3) {
        // each type with probability one half
        set = types().iter().map(|t| t.code).filter(|_| g.flip()).collect();
    }
    cx.nontrivial(hash(&(code, &set)));
    cx.sample(|| format!("type {code}: {set:?}"));
    bitmap_set(cx, code, &pre, &set)
}
/// All sets of up to three types, and their complements.
fn c25_pairs(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    let all: Vec<u16> = types().iter().map(|t| t.code).collect();
    for code in bitmap_types() {
        let pre = pre_for(code);
        let mut sets: BTreeSet<BTreeSet<u16>> = BTreeSet::new();
        for a in &all {
            for b in &all {
                for c in &all {
                    sets.insert([*a, *b, *c].into());
                }
            }
        }
        sets.insert(BTreeSet::new());
        for s in &sets {
            bitmap_set(cx, code, &pre, s)?;
            cx.nontrivial(hash(&(code, s)));
            let inv: BTreeSet<u16> = all.iter().copied().filter(|t| !s.contains(t)).collect();
            bitmap_set(cx, code, &pre, &inv)?;
        }
    }
    Ok(())
}
fn c25_bitmaps(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let code = *g.pick(&bitmap_types());
    let mut bm = match g.below(6) {
        0 => g.blob(60),
        1 => {
            // windows with chosen bits
            let mut v = vec![];
            for _ in 0..g.range(1, 4) {
                let w = if g.chance(3, 4) { g.below(2) as u8 } else { g.u8() };
                let n = if g.chance(3, 4) { g.range(1, 32) as usize } else { g.range(0, 255) as usize };
                v.push(w);
                v.push(n as u8);
                let mut x = vec![0u8; n];
                for _ in 0..g.below(4) {
                    let t = g.pick(types()).code as usize & 255;
                    if t / 8 < n {
                        x[t / 8] |= 0x80 >> (t % 8);
                    }
                }
                if g.chance(1, 4) && n > 0 {
                    let i = g.ix(n);
                    x[i] = g.u8();
                }
                v.extend(x);
            }
            v
        }
        _ => encode_bitmap(&gen_types(g)),
    };
    for _ in 0..g.below(3) {
        if bm.is_empty() {
            break;
        }
        let i = g.ix(bm.len());
        match g.below(5) {
            0 => bm[i] ^= 1 << g.below(8),
            1 => bm[i] = g.u8(),
            2 => bm.truncate(i),
            3 => {
                let v = g.u8();
                bm.insert(i, v)
            }
            _ => bm.push(0),
        }
    }
    let mut b = encode_rdata(code, &pre_for(code));
    let head = b.len();
    b.extend(&bm);
    let mut d = Dec::new(&b, head);
    let want = d.bitmap();
    let got = parse_rdata(code, &b);
    cx.nontrivial(hash(&(code, &bm)));
    cx.sample(|| format!("type {code}: {}", hex(&bm)));
    match (got, want) {
        (Ok(x), Ok(w)) => {
            cx.count("accepted");
            if rdata_of(&x)?.last() != Some(&F::Bitmap(w.clone())) {
                return Err(format!("bitmap {} read as {x:?}, expected {w:?}", hex(&bm)));
            }
            Ok(())
        }
        (Ok(x), Err(Bad::Reject)) => Err(format!("invalid bitmap {} accepted as {x:?}", hex(&bm))),
        (Err(e), Ok(w)) if !d.n.may_reject => Err(format!("valid bitmap {} of {w:?} rejected with {e}", hex(&bm))),
        _ => {
            cx.count("rejected");
            Ok(())
        }
    }
}

// ---- C27 -----------------------------------------------------------------------------------------------
/// Every value of the class field, in questions and records, read and written.
fn c27_classes(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    let name = MName(vec![b"a".to_vec()]);
    for c in 0..=65535u16 {
        cx.count("classes");
        cx.nontrivial(c as u64);
        let low = c & 0x7fff;
        let mut b = name.wire();
        b.extend([0, 1]);
        b.extend(c.to_be_bytes());
        let q = Question::try_from(&mut DnsBuffer::from(&b[..]));
        match (&q, qclass(low)) {
            (Ok(x), Some(w)) => {
                if *x.class() != w {
                    return Err(format!("question class {c:#06x} read as {:?}", x.class()));
                }
                #[cfg(feature = "mdns")]
                {
                    if x.unicast_response() != (c >> 15 == 1) {
                        return Err(format!("question class {c:#06x}: unicast-response flag {}", x.unicast_response()));
                    }
                    if x.to_bytes() != b {
                        return Err(format!("question {} written as {}", hex(&b), hex(&x.to_bytes())));
                    }
                    let mut y = x.clone();
                    y.set_unicast_response(!x.unicast_response());
                    let mut t = b.clone();
                    t[5] ^= 0x80;
                    if y.to_bytes() != t || y.class() != x.class() || y.name() != x.name() || y.query_type() != x.query_type() || y.unicast_response() == x.unicast_response() {
                        return Err(format!("switching the unicast-response flag of {x:?} gives {y:?}"));
                    }
                    y.set_class(qclass(1).unwrap());
                    if y.unicast_response() == x.unicast_response() {
                        return Err("setting the class of a question changed its unicast-response flag".into());
                    }
                }
            }
            (Err(_), None) => {}
            (Ok(x), None) => return Err(format!("question class {c:#06x} accepted as {:?}", x.class())),
            (Err(e), Some(_)) => return Err(format!("question class {c:#06x} rejected with {e}")),
        }
        for opt in [false, true] {
            let mut b = name.wire();
            b.extend([0, if opt { 41 } else { 1 }]);
            b.extend(c.to_be_bytes());
            b.extend([0, 0, 0, 5, 0, if opt { 0 } else { 4 }]);
            if !opt {
                b.extend([1, 2, 3, 4]);
            }
            let r = ResourceRecord::try_from(&mut DnsBuffer::from(&b[..])).map_err(|e| format!("record with class {c:#06x} rejected with {e}"))?;
            if opt {
                if *r.class() != RecordClass::UdpPayloadSize(c) || r.to_bytes() != b {
                    return Err(format!("OPT record with class field {c:#06x} read as {:?}, written as {}", r.class(), hex(&r.to_bytes())));
                }
                #[cfg(feature = "mdns")]
                if r.cache_flush() {
                    return Err(format!("OPT record with class field {c:#06x} has the cache-flush flag"));
                }
                continue;
            }
            if *r.class() != rclass(low, false) {
                return Err(format!("record class {c:#06x} read as {:?}", r.class()));
            }
            #[cfg(feature = "mdns")]
            {
                if r.cache_flush() != (c >> 15 == 1) || r.to_bytes() != b {
                    return Err(format!("record with class field {c:#06x}: cache-flush {}, written as {}", r.cache_flush(), hex(&r.to_bytes())));
                }
                let mut y = r.clone();
                y.set_cache_flush(!r.cache_flush());
                let mut t = b.clone();
                t[5] ^= 0x80;
                if y.to_bytes() != t || y.class() != r.class() || y.data() != r.data() || y.time_to_live() != r.time_to_live() || y.cache_flush() == r.cache_flush() {
                    return Err(format!("switching the cache-flush flag of {r:?} gives {y:?}"));
                }
                y.set_class(RecordClass::CH);
                if y.cache_flush() == r.cache_flush() || *y.class() != RecordClass::CH {
                    return Err("setting the class of a record changed its cache-flush flag".into());
                }
            }
            #[cfg(not(feature = "mdns"))]
            {
                let mut t = b.clone();
                t[3 + 2] &= 0x7f;
                if r.to_bytes() != t {
                    return Err(format!("record with class field {c:#06x} written as {}", hex(&r.to_bytes())));
                }
            }
        }
    }
    Ok(())
}
/// Flags in messages: parsed from foreign bytes, written plain and compressed, and switched.
fn c27_messages(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let o = Opt { max_blob: 12, ..Default::default() };
    let mut m = gen_msg(g, &o);
    m.h = gen_header(g, &Opt::default());
    let opt = type_info(41).unwrap();
    if g.flip() {
        let mut pool = vec![];
        let r = gen_record_of(g, opt, &mut pool, &o);
        m.s[2].push(r);
    }
    cx.add("OPT", m.s.iter().flatten().filter(|r| r.rtype == 41).count() as u64);
    // without mDNS: what the peer sends may still have the bit
    let mut bytes = encode(&m, &mut Comp::Random(g));
    let mut sent = 0;
    if !MDNS {
        let marks: Vec<Mark> = bytes.marks.iter().filter(|k| matches!(k.k, K::QClass | K::Class)).cloned().collect();
        for k in marks {
            if k.rtype != 41 && g.flip() {
                bytes.bytes[k.off] |= 0x80;
                sent += 1;
            }
        }
    }
    let n = m.q.iter().filter(|q| q.unicast).count() + m.s.iter().flatten().filter(|r| r.flush).count() + sent;
    cx.add("flags", n as u64);
    if n > 0 {
        cx.nontrivial(hash(&bytes.bytes));
    }
    cx.sample(|| hex(&bytes.bytes));
    let p = Packet::try_from(&bytes.bytes[..]).map_err(|e| format!("rejected with {e}: {}", hex(&bytes.bytes)))?;
    same(&p, &m).map_err(|e| format!("{e}; {}", hex(&bytes.bytes)))?;
    for b in [p.to_bytes(), p.to_bytes_compressed()] {
        let (d, _, _) = decode(&b);
        let d = d.map_err(|e| format!("written form is not well formed ({e:?}): {}", hex(&b)))?;
        if (MMsg { h: visible(&d.h), ..d.clone() }) != (MMsg { h: visible(&m.h), ..m.clone() }) {
            return Err(format!("written as another message: {}; {}", diff(&d, &m), hex(&b)));
        }
    }
    #[cfg(feature = "mdns")]
    {
        // switching one flag changes exactly that bit of the plain form
        let mut p = packet_to(&m)?;
        for (s, got) in m.s.iter().zip([p.answers(), p.authorities(), p.additionals()]) {
            for (w, r) in s.iter().zip(got) {
                let mut r = r.clone();
                let plain = r.to_bytes();
                let want = encode_record(w);
                if plain != want {
                    return Err(format!("record {w:?} built by the setters is written as {}, expected {}", hex(&plain), hex(&want)));
                }
                if w.rtype == 41 {
                    continue;
                }
                cx.count("record flags switched");
                r.set_cache_flush(!w.flush);
                let after = r.to_bytes();
                let at = w.name.wire().len() + 2;
                let mut want = want;
                want[at] ^= 0x80;
                if after != want || r.cache_flush() == w.flush {
                    return Err(format!("switching the cache-flush flag of record {w:?} gives {} and reads {}, expected {}", hex(&after), r.cache_flush(), hex(&want)));
                }
                r.set_cache_flush(w.flush);
                if r.to_bytes() != plain || r.cache_flush() != w.flush {
                    return Err(format!("switching the cache-flush flag of record {w:?} back does not restore it"));
                }
            }
        }
        if !m.q.is_empty() {
            let i = g.ix(m.q.len());
            let before = p.to_bytes();
            p.questions_mut()[i].set_unicast_response(!m.q[i].unicast);
            let e = encode(&m, &mut Comp::None);
            let at = e.marks.iter().filter(|k| k.k == K::QClass).nth(i).unwrap().off;
            let mut want = before.clone();
            want[at] ^= 0x80;
            let after = p.to_bytes();
            if after != want {
                return Err(format!("switching the flag of question {i}: {} became {}", hex(&before), hex(&after)));
            }
        }
    }
    Ok(())
}
