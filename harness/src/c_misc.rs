use crate::c_parse::KF_TXT;
use crate::c_ser::{KF_IPSEC, KF_SVCB};
use crate::map::*;
use crate::model::*;
use crate::wire::*;
use crate::gen::Gen;
use crate::{hash, Cx, Workload};
use maybe_dns::*;
use std::collections::{HashMap, HashSet};

pub fn workloads(v: &mut Vec<Workload>) {
    v.push(Workload::new("C16", "c16_pure", c16_pure, 20_000, false, &["accepted", "rejected", "messages"]));
    v.push(Workload::new("C16", "c16_equal", c16_equal, 50_000, false, &["equal values"]));
    v.push(Workload::new("C16", "c16_threads", c16_threads, 600, false, &["concurrent results"]));
    v.push(Workload::new("C16", "c16_repeat", c16_repeat, 32, false, &["repeated parses", "repeated serialisations"]).deep(8));
    v.push(Workload::new("C28", "c28_parse", c28_parse, 60_000, false, &["accepted", "rejected"]));
    v.push(Workload::new("C28", "c28_build", c28_build, 16_000, false, &["messages"]));
    v.push(Workload::new("C28", "c28_parts", c28_parts, 80_000, false, &["rdata", "name", "cursor", "header"]));
}
/// C15 runs the check functions of other properties; only sanitizers and interpreters judge.
const REUSED: &[(&str, &str, u64)] = &[
    ("c15_message", "c01_message", 60_000),
    ("c15_part", "c01_part", 60_000),
    ("c15_use", "c02_message", 30_000),
    ("c15_use_part", "c02_part", 40_000),
    ("c15_build", "c04_message", 8_000),
    ("c15_build_part", "c04_part", 40_000),
    ("c15_compress", "c05_message", 6_000),
    ("c15_odd_names", "c05_odd", 3_000),
    ("c15_sizes", "c10_parts", 20_000),
    ("c15_history", "c11_history", 2_000),
    ("c15_record", "c11_record", 8_000),
    ("c15_header", "c12_history", 30_000),
    ("c15_names", "c17_names", 30_000),
    ("c15_text", "c17_text", 30_000),
    ("c15_order", "c22_order", 8_000),
    ("c15_bitmaps", "c25_bitmaps", 20_000),
    ("c15_sets", "c25_sets", 20_000),
    ("c15_cursor", "c26_history", 20_000),
    ("c15_large", "c02_large", 100),
    ("c15_large_cursor", "c26_large", 2_000),
    ("c15_large_build", "c04_large", 200),
    ("c15_mdns", "c27_messages", 8_000),
    ("c15_values", "c29_values", 20_000),
    ("c15_sign", "c20_sign", 1_000),
    ("c15_hostile_keys", "c21_hostile_keys", 10_000),
    ("c15_hostile_private", "c21_hostile_private", 1_000),
];
pub fn derived(v: &mut Vec<Workload>) {
    v.push(Workload { quiet: true, ..Workload::new("C15", "c15_raw", c15_raw, 150_000, true, &[]).deep(20) });
    for (name, of, n) in REUSED {
        let Some(w) = v.iter().find(|w| w.name == *of).copied() else { continue };
        v.push(Workload { prop: "C15", name, quick: *n, deep: 20, quiet: true, need: &[], ..w });
    }
}

/// Inputs are recorded as plain bytes: executing them again needs none of the generators.
fn c15_raw(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let (kind, b) = match g.below(12) {
        8 | 9 => {
            let ti = *g.pick(types());
            (ti.code as u64, cut_rdata(g, ti))
        }
        10 | 11 => (NAME_OF_LABELS, labels_bytes(g)),
        0..=2 => (0, hostile(g)),
        3 => (0, good(g).1.bytes),
        4 => {
            let (b, p) = name_buffer(g);
            (100_000 + p as u64, b)
        }
        _ => {
            let ti = *g.pick(types());
            (ti.code as u64, rdata_bytes(g, ti))
        }
    };
    if b.len() <= 600 {
        cx.raw = Some(format!("{kind} {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
    }
    cx.nontrivial(hash(&(kind, &b)));
    exercise(cx, kind, &b)
}
const NAME_OF_LABELS: u64 = 99_999;
/// RDATA that ends inside an element whose length says so: the last thing in its allocation is too short.
fn cut_rdata(g: &mut Gen, ti: &TypeInfo) -> Vec<u8> {
    let mut pool = vec![];
    let o = Opt { max_blob: *g.pick(&[6usize, 20, 60]), ..Default::default() };
    let f = gen_rdata(g, ti, &mut pool, &o);
    let (mut b, marks) = encode_rdata_marks(ti.code, &f);
    let m: Vec<&Mark> = marks.iter().filter(|m| m.k == K::Field && (m.len == 1 || m.len == 2) && m.off + m.len <= b.len()).collect();
    if m.is_empty() {
        let k = g.ix(b.len() + 1);
        b.truncate(k);
        return b;
    }
    let m = m[g.ix(m.len())];
    let at = m.off + m.len;
    let left = b.len() - at;
    let n = match g.below(4) {
        0 => g.ix(left.min(4) + 1),
        1 => left - g.ix(left.min(4) + 1),
        _ => g.ix(left + 1),
    };
    b.truncate(at + n);
    if m.len == 1 {
        b[m.off] = n as u8;
    } else {
        b[m.off..at].copy_from_slice(&(n as u16).to_be_bytes());
    }
    b
}
fn labels_bytes(g: &mut Gen) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..g.range(1, 5) {
        let n = match g.below(4) {
            0 => *g.pick(&[0usize, 1, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255, 256, 257, 300]),
            _ => g.len(20),
        };
        let l = g.bytes(n);
        b.extend((n as u16).to_be_bytes());
        b.extend(l);
    }
    b
}
/// kind: 0 message, 99999: labels of a name, 100000 + offset: name, otherwise RDATA of that type
fn exercise(cx: &mut Cx, kind: u64, b: &[u8]) -> Result<(), String> {
    let b = &*Box::<[u8]>::from(b); // reading beyond the end is reading beyond the allocation
    match kind {
        0 => match Packet::try_from(b) {
            Ok(p) => {
                cx.count("accepted");
                crate::c_parse::use_packet(cx, &p)
            }
            Err(e) => {
                cx.count("rejected");
                let _ = (e.to_string(), format!("{e:?}"));
                Ok(())
            }
        },
        NAME_OF_LABELS => {
            // a name made of any octets: length of a label in two octets, then the label
            let (mut l, mut r) = (vec![], b);
            while r.len() >= 2 {
                let n = (u16::from_be_bytes([r[0], r[1]]) as usize).min(r.len() - 2);
                l.push(r[2..2 + n].to_vec());
                r = &r[2 + n..];
            }
            let n = FQDN::from(l);
            let q = Question::new(n.clone(), QType::A, maybe_dns::QClass::IN);
            let mut p = Packet::new_query(1, false);
            p.add_question(q.clone());
            p.add_question(q);
            crate::c_parse::use_name(cx, &n)?;
            crate::c_parse::use_packet(cx, &p)
        }
        100_000.. => {
            let mut buf = DnsBuffer::from(b);
            let _ = buf.set_position(kind as usize - 100_000);
            let n = buf.extract_fqdn().map_err(|e| e.to_string())?;
            crate::c_parse::use_name(cx, &n)
        }
        k => {
            let d = parse_rdata(k as u16, b).map_err(|e| e.to_string())?;
            crate::c_parse::use_data(&d)
        }
    }
}
/// A recorded input: kind and hexadecimal bytes.
pub fn exercise_recorded(cx: &mut Cx, kind: &str, h: &str) {
    let b: Vec<u8> = h.as_bytes().chunks(2).map(|c| (c[0] as char).to_digit(16).unwrap_or(0) as u8 * 16 + (c[1] as char).to_digit(16).unwrap_or(0) as u8).collect();
    let k = kind.parse().unwrap_or(0);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exercise(cx, k, &b)));
}

fn ipsec_none() -> Vec<u8> {
    rdata_to(45, &[F::Gw(1, 0, 1, vec![], MName::default()), F::Rest(vec![0xAA])]).map(|d| d.to_bytes()).unwrap_or_default()
}
/// Which of the two forms of IPSECKEY without gateway does the library use? (known finding)
pub fn probe_startup() {
    let b = std::panic::catch_unwind(ipsec_none).unwrap_or_default();
    IPSEC_PLACEHOLDER.store(b != [1, 0, 1, 0xAA], std::sync::atomic::Ordering::Relaxed);
}
/// The listed findings of this property that the library still has.
pub fn known_probes(p: &str, k: &HashSet<String>) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut put = |key: &str, props: &[&str], f: fn() -> Option<String>| {
        if k.contains(key) && props.contains(&p) {
            if let Ok(Some(t)) = std::panic::catch_unwind(f) {
                v.push((key.to_string(), t));
            }
        }
    };
    put(KF_SVCB, &["C10"], || {
        let b = [0, 1, 0, 0, 3, 0, 2, 1, 187];
        let d = parse_rdata(64, &b).ok()?;
        (d.byte_size() != d.to_bytes().len()).then(|| format!("SVCB 1 . port=443 announces {} octets and writes {}", d.byte_size(), d.to_bytes().len()))
    });
    put(KF_TXT, &["C08", "C19"], || {
        let d = parse_rdata(16, &[1, 0xff]).ok()?;
        (d.to_bytes() != [1, 0xff]).then(|| format!("TXT RDATA 01ff is read as {}", hex(&d.to_bytes())))
    });
    put(KF_IPSEC, &["C07", "C08"], || {
        let b = ipsec_none();
        (b != [1, 0, 1, 0xAA]).then(|| format!("IPSECKEY 1 0 1 . with key aa is written as {}", hex(&b)))
    });
    v
}

// ---- digests of observable results ------------------------------------------------------------------------
fn d_name(n: &FQDN) -> u64 {
    hash(&(n.to_string(), n.label_count(), n.len(), n.is_empty(), n.is_root(), n.is_link_local(), n.byte_size(), n.to_bytes(), n.iter().map(|l| l.to_vec()).collect::<Vec<_>>()))
}
fn d_data(d: &RecordData) -> u64 {
    hash(&(data_code(d), d.to_bytes(), d.byte_size(), rdata_of(d)))
}
fn d_packet(p: &Packet) -> u64 {
    let mut v = vec![hash(&packet_of(p)), hash(&p.to_bytes()), hash(&p.to_bytes_compressed()), p.byte_size() as u64];
    for q in p.questions() {
        v.extend([d_name(q.name()), hash(&q.to_bytes()), q.byte_size() as u64]);
    }
    for s in [p.answers(), p.authorities(), p.additionals()] {
        for r in s {
            v.extend([d_name(r.name()), d_data(r.data()), hash(&r.to_bytes()), r.byte_size() as u64, hash(&r.data_raw()), r.record_type().compression_allowed() as u64]);
        }
    }
    hash(&v)
}
/// with_error: also how it was rejected
fn d_bytes(b: &[u8], with_error: bool) -> (bool, u64) {
    match Packet::try_from(b) {
        Ok(p) => (true, d_packet(&p)),
        Err(e) if with_error => (false, hash(&(format!("{e:?}"), e.to_string()))),
        Err(_) => (false, 0),
    }
}

// ---- C16 --------------------------------------------------------------------------------------------------
fn c16_pure(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = if g.flip() { good(g).1.bytes } else { hostile(g) };
    let copy = b.clone();
    let (ok, first) = d_bytes(&b, true);
    cx.count(if ok { "accepted" } else { "rejected" });
    cx.nontrivial(hash(&b));
    cx.sample(|| hex(&b));
    // something else in between
    let o = small_opt(g);
    let m = gen_msg(g, &o);
    let p = packet_to(&m)?;
    let before = p.clone();
    let (x, y, z) = (p.to_bytes(), p.to_bytes_compressed(), p.byte_size());
    cx.count("messages");
    let _ = d_bytes(&x, true);
    if g.flip() {
        let o = hostile(g);
        let _ = d_bytes(&o, true);
    }
    let (_, second) = d_bytes(&b, true);
    if b != copy {
        return Err(format!("parsing changed its input {}", hex(&copy)));
    }
    if first != second {
        return Err(format!("parsing {} a second time gives another result", hex(&b)));
    }
    // where in memory the bytes lie is no argument
    let at = hash(&b) as usize;
    let mut room = vec![0x5au8; b.len() + 16];
    for k in 0..if b.len() < 150 { 16 } else { 4 } {
        let k = (at + k) % 16;
        room[k..k + b.len()].copy_from_slice(&b);
        let same = match (Packet::try_from(&room[k..k + b.len()]), Packet::try_from(&b[..])) {
            (Ok(x), Ok(y)) => x == y,
            (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
            _ => false,
        };
        if !same {
            return Err(format!("parsing {} gives another result at another place in memory", hex(&b)));
        }
        cx.count("parsed elsewhere in memory");
    }
    if p != before {
        return Err("serialising changed the message".into());
    }
    if (p.to_bytes(), p.to_bytes_compressed(), p.byte_size()) != (x.clone(), y.clone(), z) {
        return Err(format!("serialising a message again gives another result: {}", hex(&x)));
    }
    // the same message made independently
    let q = packet_to(&m)?;
    if q == p && (q.to_bytes(), q.to_bytes_compressed(), q.byte_size()) != (x.clone(), y.clone(), z) {
        return Err(format!("two equal messages serialise differently: {} {}", hex(&y), hex(&q.to_bytes_compressed())));
    }
    cx.log(hash(&(first, x, y, z)));
    Ok(())
}
fn c16_equal(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let mut pool = vec![];
    let o = Opt { max_blob: 40, ..Default::default() };
    let ti = *g.pick(types());
    let f = gen_rdata(g, ti, &mut pool, &o);
    let a = rdata_to(ti.code, &f)?;
    let b = rdata_to(ti.code, &f)?;
    let c = parse_rdata(ti.code, &encode_rdata(ti.code, &f));
    let d = a.clone();
    let bytes = a.to_bytes();
    cx.nontrivial(hash(&(ti.code, &bytes)));
    cx.sample(|| format!("{} {}", ti.name, hex(&bytes)));
    for (k, v) in [Some(&b), c.as_ref().ok(), Some(&d)].into_iter().enumerate() {
        let Some(v) = v else { continue };
        if *v == a {
            cx.count("equal values");
            if v.to_bytes() != bytes || v.byte_size() != a.byte_size() {
                return Err(format!("two equal {} values ({k}) serialise differently: {} {}", ti.name, hex(&bytes), hex(&v.to_bytes())));
            }
        }
    }
    if a != d {
        return Err(format!("serialising changed the record data {bytes:02x?}"));
    }
    // names
    let n = gen_name(g, &mut pool);
    let (x, y) = (name_to(&n), name_to(&n));
    let w = n.wire();
    let z = FQDN::try_from(&mut DnsBuffer::from(&w[..]));
    for v in [Some(&y), z.as_ref().ok()].into_iter().flatten() {
        if *v == x && (v.to_bytes() != x.to_bytes() || v.byte_size() != x.byte_size() || v.to_string() != x.to_string()) {
            return Err(format!("two equal names serialise differently: {n:?}"));
        }
    }
    cx.log(hash(&(bytes, a.byte_size(), x.to_bytes())));
    Ok(())
}
/// Thousands of repetitions in one process: what a counter or a filling cache changes comes late.
fn c16_repeat(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    crate::rt::tls().budget = u64::MAX / 2;
    let o = small_opt(g);
    let mut bs = vec![];
    while bs.len() < 4 {
        let b = if g.chance(2, 3) { good(g).1.bytes } else { hostile(g) };
        if b.len() <= 300 {
            bs.push(b);
        }
    }
    let text = |r: &Result<Packet, DnsError>| r.as_ref().err().map(|e| format!("{e:?}"));
    let first: Vec<_> = bs.iter().map(|b| Packet::try_from(&b[..])).collect();
    let mut ps = vec![];
    for _ in 0..40 {
        if ps.len() == 3 {
            break;
        }
        let p = packet_to(&gen_msg(g, &o))?;
        if p.byte_size() <= 400 {
            ps.push(p);
        }
    }
    let forms: Vec<_> = ps.iter().map(|p| (p.to_bytes(), p.to_bytes_compressed(), p.byte_size())).collect();
    cx.nontrivial(hash(&bs));
    for round in 0..4000 {
        for (b, f) in bs.iter().zip(&first) {
            let r = Packet::try_from(&b[..]);
            let same = match (&r, f) {
                (Ok(x), Ok(y)) => x == y,
                (Err(_), Err(_)) => text(&r) == text(f),
                _ => false,
            };
            if !same {
                return Err(format!("after {round} repetitions parsing {} gives another result", hex(b)));
            }
        }
        for (p, f) in ps.iter().zip(&forms) {
            if p.byte_size() != f.2 || p.to_bytes() != f.0 || p.to_bytes_compressed() != f.1 {
                return Err(format!("after {round} repetitions a message is serialised differently: {}", hex(&f.0)));
            }
        }
        cx.add("repeated parses", bs.len() as u64);
        cx.add("repeated serialisations", ps.len() as u64);
    }
    Ok(())
}
/// Shared between threads whether or not the compiler agrees; what is not Sync is reported before it is used.
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
fn c16_threads(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let mut bs = vec![];
    let mut ps = vec![];
    for _ in 0..3 {
        bs.push(if g.chance(2, 3) { good(g).1.bytes } else { hostile(g) });
        let o = small_opt(g);
    let m = gen_msg(g, &o);
        ps.push(packet_to(&m)?);
    }
    let want: Vec<(u64, u64)> = bs.iter().zip(&ps).map(|(b, p)| (d_bytes(b, true).1, d_packet(p))).collect();
    let data = Shared((bs, ps));
    let gate = std::sync::Barrier::new(4);
    let bad = std::sync::Mutex::new(None);
    let budget = crate::rt::tls().budget;
    std::thread::scope(|s| {
        for t in 0..4usize {
            let (data, want, gate, bad) = (&data, &want, &gate, &bad);
            s.spawn(move || {
                crate::rt::init_thread();
                crate::rt::begin_case();
                crate::rt::tls().budget = budget;
                gate.wait();
                for round in 0..2 {
                    for k in 0..3 {
                        let i = (k + t) % 3;
                        let (bs, ps) = data.get();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d_bytes(&bs[i], true).1, d_packet(&ps[i]))));
                        match r {
                            Ok(x) if x == want[i] => {}
                            Ok(_) => *bad.lock().unwrap() = Some(format!("thread {t}, round {round}: another result than alone for {} or message {}", hex(&bs[i]), hex(&ps[i].to_bytes()))),
                            Err(_) => *bad.lock().unwrap() = Some(format!("thread {t}: panic {:?}", crate::rt::take_panic())),
                        }
                    }
                }
                crate::rt::end_case();
                crate::rt::drop_thread();
            });
        }
    });
    cx.add("concurrent results", 24);
    cx.nontrivial(hash(&want));
    cx.log(hash(&want));
    match bad.into_inner().unwrap() {
        Some(m) => Err(m),
        None => Ok(()),
    }
}

// ---- C28 --------------------------------------------------------------------------------------------------
fn c28_parse(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let b = match g.below(3) {
        0 => good(g).1.bytes,
        1 => {
            let mut e = good(g).1;
            corrupt(g, &mut e);
            e.bytes
        }
        _ if g.chance(1, 150) => crate::c_parse::large(g),
        _ => hostile(g),
    };
    let (r, n, _) = decode(&b);
    if n.special || r == Err(Bad::Unspec) {
        cx.count("left out");
        return Ok(());
    }
    let (ok, d) = d_bytes(&b, false);
    cx.count(if ok { "accepted" } else { "rejected" });
    if ok {
        cx.nontrivial(hash(&b));
        cx.sample(|| hex(&b));
    }
    cx.log(hash(&(&b, ok, d)));
    Ok(())
}
fn c28_build(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let big = g.chance(1, 200);
    let o = small_opt(g);
    let m = if big { gen_big_msg(g, &o) } else { gen_msg(g, &o) };
    let p = packet_to(&m)?;
    cx.count("messages");
    let d = d_packet(&p);
    cx.nontrivial(d);
    cx.log(hash(&(&m, d, d_bytes(&p.to_bytes(), false), d_bytes(&p.to_bytes_compressed(), false))));
    Ok(())
}
fn c28_parts(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let mut v: Vec<u64> = vec![];
    match g.below(5) {
        0 | 1 => {
            cx.count("rdata");
            let ti = *g.pick(types());
            let b = rdata_bytes(g, ti);
            let mut d = Dec::new(&b, 0);
            let r = d.rdata(ti);
            if d.n.special || r == Err(Bad::Unspec) {
                return Ok(());
            }
            v.push(ti.code as u64);
            v.push(match parse_rdata(ti.code, &b) {
                Ok(d) => d_data(&d),
                Err(_) => 0,
            });
            v.push(hash(&b));
        }
        2 => {
            cx.count("name");
            let (b, p) = name_buffer(g);
            let mut buf = DnsBuffer::from(&b[..]);
            let _ = buf.set_position(p);
            let r = buf.extract_fqdn();
            v.push(match &r {
                Ok(n) => hash(&(d_name(n), buf.position(), buf.remaining())),
                Err(_) => 0,
            });
            let t = g.text(80);
            let n = FQDN::new(&t);
            v.push(d_name(&n));
            if let Ok(m) = r {
                v.push(hash(&(n.cmp(&m) as i8, n == m)));
            }
        }
        3 => {
            cx.count("cursor");
            let b = g.blob(60);
            let mut buf = DnsBuffer::from(&b[..]);
            for _ in 0..g.range(1, 12) {
                let x = match g.below(6) {
                    0 => buf.extract_u8().ok().map(|x| x as u64),
                    1 => buf.extract_u16().ok().map(|x| x as u64),
                    2 => buf.extract_u32().ok().map(|x| x as u64),
                    3 => {
                        let n = g.ix(20);
                        buf.extract_bytes(n).ok().map(|b| hash(&b))
                    }
                    4 => {
                        let n = g.ix(70);
                        buf.set_position(n).ok().map(|_| 0)
                    }
                    _ => {
                        let n = g.ix(40);
                        buf.sub_buffer(n).ok().map(|s| hash(&(s.position(), s.remaining())))
                    }
                };
                v.push(hash(&(x, buf.position(), buf.remaining())));
            }
        }
        _ => {
            cx.count("header");
            let h = gen_header(g, &Opt { raw_flags: false, ..Default::default() });
            let l = header_to(&h);
            v.push(hash(&(l.to_bytes(), l.byte_size())));
        }
    }
    cx.nontrivial(hash(&v));
    cx.log(hash(&v));
    Ok(())
}

// ---- C15: values shared between threads, for the data race detector ---------------------------------------
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    const SHARED: bool = false;
    const SENT: bool = false;
}
impl<T: ?Sized> No for Probe<T> {}
struct Probe2<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> No for Probe2<T> {}
impl<T: ?Sized + Sync> Probe<T> {
    const SHARED: bool = true;
}
impl<T: ?Sized + Send> Probe2<T> {
    const SENT: bool = true;
}
macro_rules! thread_safe {
    ($($t:ty),*) => { [$((stringify!($t), <Probe<$t>>::SHARED, <Probe2<$t>>::SENT)),*] };
}
/// seed: what to build, rounds: how often. Reports to `out`.
pub fn shared_mode(o: &HashMap<String, String>) -> i32 {
    let num = |k: &str, d: u64| o.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    crate::rt::init_thread();
    let bad: Vec<String> = thread_safe!(Packet, Question, ResourceRecord, RecordData, FQDN, Header, ResourceRecordSet<'static>, DnsBuffer<'static>, DnsError, RecordType, RecordClass, QType, QClass)
        .iter()
        .filter(|x| !x.1 || !x.2)
        .map(|x| format!("{} cannot be {} threads", x.0, if x.1 { "sent to other" } else { "shared between" }))
        .collect();
    let mut report = format!("types {}\n", bad.join("; "));
    if bad.is_empty() {
        let dict = crate::gen::Dict::default();
        let mut n = 0;
        for k in 0..num("rounds", 4) {
            let mut g = crate::gen::Gen::new(&[], num("seed", 1) * 1000 + k, &dict, &[]);
            // small messages: three record types at a time, all of them in turn
            let mut p = Packet::new_query(k as u16, true);
            p.add_question(Question::new(FQDN::new("a.example.local"), QType::A, QClass::IN));
            let mut pool = vec![];
            let all = types();
            for j in 0..3 {
                let ti = all[((num("seed", 1) * num("rounds", 4) + k) as usize * 3 + j) % all.len()];
                for _ in 0..8 {
                    let f = gen_rdata(&mut g, ti, &mut pool, &Opt { max_blob: 8, constructible: false, raw_flags: true });
                    if encode_rdata(ti.code, &f).len() > 80 {
                        continue;
                    }
                    let (Ok(d), Ok(t)) = (rdata_to(ti.code, &f), RecordType::try_from(ti.code)) else { continue };
                    let r = ResourceRecord::new(FQDN::new("b.example.local"), t, RecordClass::IN, 7, d);
                    match j {
                        0 => p.add_answer(r),
                        1 => p.add_authority(r),
                        _ => p.add_additional(r),
                    };
                    break;
                }
            }
            let bytes = p.to_bytes_compressed();
            let mut evil = bytes.clone();
            let at = g.ix(evil.len());
            evil[at] ^= 1 << g.below(8);
            let data = Shared((p, bytes, evil));
            let start = std::sync::Barrier::new(2);
            std::thread::scope(|s| {
                for t in 0..2 {
                    let (data, start) = (&data, &start);
                    s.spawn(move || {
                        start.wait();
                        let (p, b, e) = data.get();
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            if t == 0 {
                                let _ = (p.to_bytes(), p.to_bytes_compressed(), p.byte_size());
                            }
                            for s in [p.answers(), p.authorities(), p.additionals()] {
                                for r in s {
                                    let _ = (r.name().to_string(), r.data_raw(), r.byte_size(), r.time_to_live(), *r.class(), *r.record_type());
                                    let set = ResourceRecordSet::new(r.name(), *r.record_type(), *r.class(), 1, vec![r.data(), r.data()]);
                                    let _ = set.to_bytes();
                                }
                            }
                            let c = p.clone();
                            let _ = c == *p;
                            let _ = format!("{p:?}");
                            let _ = (Packet::try_from(&b[..]), Packet::try_from(&e[..]));
                            let _ = (p.to_bytes(), p.to_bytes_compressed(), p.byte_size());
                        }));
                    });
                }
            });
            n += 1;
        }
        report.push_str(&format!("rounds {n}\n"));
    }
    match o.get("out").map(|p| std::fs::write(p, &report)) {
        Some(Ok(())) => 0,
        _ => 2,
    }
}
