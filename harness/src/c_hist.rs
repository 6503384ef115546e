//! Histories of operations on messages (C11) and headers (C12), checked step by step against reference state.
use crate::gen::Gen;
use crate::map::*;
use crate::model::*;
use crate::wire::*;
use crate::{hash, Cx, Workload};
use maybe_dns::*;
use std::convert::TryFrom;

pub fn workloads(v: &mut Vec<Workload>) {
    v.push(Workload::new("C11", "c11_history", c11_history, 24_000, true, &["operations", "serialised", "questions_mut", "taken", "header replaced"]));
    v.push(Workload::new("C11", "c11_long", c11_long, 3_000, false, &["operations", "serialised", "taken", "started long"]).deep(10));
    v.push(Workload::new("C11", "c11_record", c11_record, 80_000, true, &["operations"]));
    v.push(Workload::new("C11", "c11_counts", c11_counts, 200, false, &["sections of 65535", "sections of 256 or more"]).deep(10));
    v.push(Workload::new("C12", "c12_step", c12_step, 1, false, &["steps", "words accepted", "words refused"]));
    v.push(Workload::new("C12", "c12_history", c12_history, 150_000, true, &["operations"]));
}

// ---- C11 -----------------------------------------------------------------------------------------------
fn sec(p: &Packet, i: usize) -> &[ResourceRecord] {
    match i {
        0 => p.answers(),
        1 => p.authorities(),
        _ => p.additionals(),
    }
}
fn add(p: &mut Packet, i: usize, r: ResourceRecord) {
    match i {
        0 => p.add_answer(r),
        1 => p.add_authority(r),
        _ => p.add_additional(r),
    }
}
fn set(p: &mut Packet, i: usize, r: Vec<ResourceRecord>) {
    match i {
        0 => p.set_answers(r),
        1 => p.set_authorities(r),
        _ => p.set_additionals(r),
    }
}
fn take(p: &mut Packet, i: usize) -> Vec<ResourceRecord> {
    match i {
        0 => p.take_answers(),
        1 => p.take_authorities(),
        _ => p.take_additionals(),
    }
}
fn seen(m: &MMsg) -> MMsg {
    MMsg { h: visible(&m.h), ..m.clone() }
}
fn shape(p: &Packet, m: &MMsg) -> Result<(), String> {
    if header_of(p) != visible(&m.h) {
        return Err(format!("header reads {:?}, should be {:?}", header_of(p), m.h));
    }
    let l = [p.questions().len(), p.answers().len(), p.authorities().len(), p.additionals().len()];
    let w = [m.q.len(), m.s[0].len(), m.s[1].len(), m.s[2].len()];
    if l != w {
        return Err(format!("sections have {l:?} elements, should have {w:?}"));
    }
    Ok(())
}
/// stored: the counts stored in the header are meaningful (nothing bypassed them)
fn agree(cx: &mut Cx, p: &Packet, m: &MMsg, stored: bool) -> Result<(), String> {
    shape(p, m)?;
    let r = packet_of(p)?;
    if r != seen(m) {
        return Err(format!("reads back differently: {}", diff(&r, &seen(m))));
    }
    cx.count("serialised");
    for (b, how) in [(p.to_bytes(), "plain"), (p.to_bytes_compressed(), "compressed")] {
        let (d, _, end) = decode(&b);
        let d = d.map_err(|e| format!("{how} serialisation is not well formed ({e:?}): {}", hex(&b)))?;
        if d != *m {
            return Err(format!("{how} serialisation differs: {}; {}", diff(&d, m), hex(&b)));
        }
        if end != b.len() {
            return Err(format!("{how} serialisation has {} octets beyond its announced elements: {}", b.len() - end, hex(&b)));
        }
    }
    if stored {
        let b = p.header().to_bytes();
        let c = [4, 6, 8, 10].map(|i| get16(&b, i) as usize);
        let w = [m.q.len(), m.s[0].len(), m.s[1].len(), m.s[2].len()];
        if c != w {
            return Err(format!("the header announces {c:?}, the sections have {w:?}"));
        }
    }
    Ok(())
}
fn edit_question(g: &mut Gen, q: &mut Question, m: &mut MQuestion, pool: &mut Vec<MName>) {
    let n = gen_question(g, pool);
    match g.below(4) {
        0 => {
            q.set_name(name_to(&n.name));
            m.name = n.name;
        }
        1 => {
            q.set_query_type(qtype(n.qtype).unwrap());
            m.qtype = n.qtype;
        }
        2 => {
            q.set_class(qclass(n.class).unwrap());
            m.class = n.class;
        }
        _ => {
            #[cfg(feature = "mdns")]
            {
                q.set_unicast_response(n.unicast);
                m.unicast = n.unicast;
            }
        }
    }
}
/// Edits that keep record type and data together.
fn edit_record(g: &mut Gen, r: &mut ResourceRecord, m: &mut MRecord, pool: &mut Vec<MName>) -> Result<(), String> {
    let o = Opt { max_blob: 12, ..Default::default() };
    let ti = type_info(m.rtype).unwrap();
    let n = gen_record_of(g, ti, pool, &o);
    match g.below(6) {
        0 => {
            r.set_name(name_to(&n.name));
            m.name = n.name;
        }
        1 => {
            r.set_class(rclass(n.class, n.rtype == 41));
            m.class = n.class;
        }
        2 => {
            r.set_time_to_live(n.ttl);
            m.ttl = n.ttl;
        }
        3 => {
            r.set_data(rdata_to(n.rtype, &n.rdata)?);
            m.rdata = n.rdata;
        }
        4 => {
            *r.data_mut() = rdata_to(n.rtype, &n.rdata)?;
            m.rdata = n.rdata;
        }
        _ => {
            #[cfg(feature = "mdns")]
            {
                r.set_cache_flush(n.flush);
                m.flush = n.flush;
            }
        }
    }
    Ok(())
}
fn start(g: &mut Gen, pool: &mut Vec<MName>) -> Result<(Packet, MMsg), String> {
    let mut m = MMsg::default();
    m.h.id = g.u16();
    Ok(match g.below(6) {
        0 => {
            m.h.rd = g.flip();
            (Packet::new_query(m.h.id, m.h.rd), m)
        }
        1 => {
            m.h.qr = true;
            (Packet::new_reply(m.h.id), m)
        }
        2 => {
            m.h.rd = g.flip();
            m.q = (0..g.below(4)).map(|_| gen_question(g, pool)).collect();
            repeat_question(g, &mut m.q);
            (Packet::with_questions(m.h.id, m.h.rd, m.q.iter().map(question_to).collect()), m)
        }
        3 => {
            m.h.id = 0;
            (Packet::default(), m)
        }
        _ => {
            let m = gen_msg(g, &Opt { max_blob: 12, raw_flags: true, ..Default::default() });
            let b = encode(&m, &mut Comp::None).bytes;
            let p = Packet::try_from(&b[..]).map_err(|e| format!("well-formed message rejected with {e}: {}", hex(&b)))?;
            for n in m.q.iter().map(|q| &q.name).chain(m.s.iter().flatten().map(|r| &r.name)).take(6) {
                pool.push(n.clone());
            }
            (p, m)
        }
    })
}
fn header_op(g: &mut Gen, p: &mut Packet, h: &mut MHeader) -> String {
    let k = g.below(8);
    let b = g.flip();
    match k {
        0 => {
            let v = g.u16();
            p.set_id(v);
            h.id = v;
            format!("set_id {v}")
        }
        1 => {
            p.set_recursion_desired(b);
            h.rd = b;
            format!("set_recursion_desired {b}")
        }
        2 => {
            p.set_truncation(b);
            h.tc = b;
            format!("set_truncation {b}")
        }
        3 => {
            p.set_authoritative_answer(b);
            h.aa = b;
            format!("set_authoritative_answer {b}")
        }
        4 => {
            let v = g.below(4) as u8;
            p.set_opcode(OPCODES[v as usize]);
            h.opcode = v;
            format!("set_opcode {v}")
        }
        5 => {
            p.set_query_response(b);
            want_qr(h, b);
            format!("set_query_response {b}")
        }
        6 => {
            let v = g.below(11) as u8;
            p.set_response_code(RCODES[v as usize]);
            want_rcode(h, v);
            format!("set_response_code {v}")
        }
        _ => {
            p.set_recursion_available(b);
            want_ra(h, b);
            format!("set_recursion_available {b}")
        }
    }
}
fn want_qr(h: &mut MHeader, b: bool) {
    h.qr = b;
    if !b {
        h.ra = false;
        h.rcode = 0;
    }
}
fn want_rcode(h: &mut MHeader, v: u8) {
    h.rcode = v;
    h.qr |= v != 0;
}
fn want_ra(h: &mut MHeader, b: bool) {
    h.ra = b;
    h.qr |= b;
}
fn c11_history(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    history(cx, g, false)
}
/// The same with sections of up to several hundred elements.
fn c11_long(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    history(cx, g, true)
}
fn start_long(g: &mut Gen, pool: &mut Vec<MName>) -> Result<(Packet, MMsg), String> {
    let mut m = MMsg::default();
    m.h.id = g.u16();
    m.h.qr = true;
    let name = gen_name(g, pool);
    let mut size = || match g.below(4) {
        0 => g.ix(3),
        1 => g.ix(40),
        2 => g.ix(140),
        _ => g.ix(330),
    };
    let n = [size(), size(), size(), size()];
    m.q = (0..n[0]).map(|i| MQuestion { name: name.clone(), qtype: qtypes()[i % qtypes().len()], class: QCLASSES[i % QCLASSES.len()], unicast: false }).collect();
    for k in 0..3 {
        m.s[k] = (0..n[k + 1]).map(|i| MRecord { name: name.clone(), rtype: 1, class: 1, flush: false, ttl: i as u32, rdata: vec![F::Raw(vec![192, 0, k as u8, i as u8])] }).collect();
    }
    let p = if g.flip() {
        packet_to(&m)?
    } else {
        let b = encode(&m, &mut Comp::None).bytes;
        Packet::try_from(&b[..]).map_err(|e| format!("well-formed message rejected with {e}: {}", hex(&b)))?
    };
    Ok((p, m))
}
fn history(cx: &mut Cx, g: &mut Gen, long: bool) -> Result<(), String> {
    let mut pool = vec![];
    if long {
        cx.count("started long");
    }
    let (mut p, mut m) = if long { start_long(g, &mut pool)? } else { start(g, &mut pool)? };
    let mut stored = true;
    let mut trace: Vec<String> = vec![];
    let mut forks: Vec<(Packet, MMsg, bool)> = vec![];
    let o = Opt { max_blob: 12, ..Default::default() };
    let steps = match g.below(8) {
        0 => g.range(20, 60),
        _ => g.range(1, 14),
    };
    let all = g.chance(1, 4);
    let mut mutations = 0;
    for _ in 0..steps {
        cx.count("operations");
        let i = g.ix(3);
        let op = g.below(24);
        mutations += 1;
        let what = match op {
            0..=2 => {
                let q = if op == 0 && !m.q.is_empty() { m.q[g.ix(m.q.len())].clone() } else { gen_question(g, &mut pool) };
                p.add_question(question_to(&q));
                m.q.push(q);
                "add_question".to_string()
            }
            3 => {
                m.q = (0..g.below(4)).map(|_| gen_question(g, &mut pool)).collect();
                repeat_question(g, &mut m.q);
                p.set_questions(m.q.iter().map(question_to).collect());
                format!("set_questions {}", m.q.len())
            }
            4 => {
                cx.count("taken");
                let t: Vec<MQuestion> = p.take_questions().iter().map(question_of).collect();
                if t != m.q {
                    return Err(format!("take_questions returned {t:?}, should be {:?} after {trace:?}", m.q));
                }
                m.q.clear();
                "take_questions".to_string()
            }
            5 | 6 => {
                cx.count("questions_mut");
                let n = m.q.len();
                let v = p.questions_mut();
                if v.len() != n {
                    return Err(format!("questions_mut has {} elements, should have {n} after {trace:?}", v.len()));
                }
                let k = if n == 0 { 0 } else { g.below(6) };
                match k {
                    0 => {
                        let q = gen_question(g, &mut pool);
                        let at = g.ix(n + 1);
                        v.insert(at, question_to(&q));
                        m.q.insert(at, q);
                        stored = false;
                    }
                    1 => {
                        let at = g.ix(n);
                        v.remove(at);
                        m.q.remove(at);
                        stored = false;
                    }
                    2 => {
                        let (a, b) = (g.ix(n), g.ix(n));
                        v.swap(a, b);
                        m.q.swap(a, b);
                    }
                    _ => {
                        let at = g.ix(n);
                        edit_question(g, &mut v[at], &mut m.q[at], &mut pool);
                    }
                }
                format!("questions_mut {k}")
            }
            7..=10 => {
                // now and then one that is there already, in this or another section
                let j = g.ix(3);
                let r = if op == 7 && !m.s[j].is_empty() { m.s[j][g.ix(m.s[j].len())].clone() } else { gen_record(g, &mut pool, &o) };
                add(&mut p, i, record_to(&r)?);
                m.s[i].push(r);
                format!("add to section {i}")
            }
            11 => {
                m.s[i] = (0..g.below(4)).map(|_| gen_record(g, &mut pool, &o)).collect();
                repeat_record(g, &mut m.s[i]);
                set(&mut p, i, m.s[i].iter().map(record_to).collect::<Result<_, _>>()?);
                format!("set section {i} to {}", m.s[i].len())
            }
            12 => {
                cx.count("taken");
                let t = take(&mut p, i).iter().map(record_of).collect::<Result<Vec<_>, _>>()?;
                if t != m.s[i] {
                    return Err(format!("taking section {i} returned {t:?}, should be {:?} after {trace:?}", m.s[i]));
                }
                m.s[i].clear();
                format!("take section {i}")
            }
            13 | 14 if !m.s[i].is_empty() => {
                // take, edit one record, put back (possibly elsewhere)
                let mut v = take(&mut p, i);
                if v.len() != m.s[i].len() {
                    return Err(format!("taking section {i} returned {} records, should be {} after {trace:?}", v.len(), m.s[i].len()));
                }
                if !sec(&p, i).is_empty() {
                    return Err(format!("section {i} is not empty after it was taken; after {trace:?}"));
                }
                let mut w = std::mem::take(&mut m.s[i]);
                let at = g.ix(v.len());
                edit_record(g, &mut v[at], &mut w[at], &mut pool)?;
                if g.chance(1, 3) {
                    v.reverse();
                    w.reverse();
                }
                let j = if g.chance(1, 3) { g.ix(3) } else { i };
                set(&mut p, j, v);
                m.s[j] = w;
                format!("edit record {at} of section {i} into section {j}")
            }
            15..=19 => header_op(g, &mut p, &mut m.h),
            20 => {
                cx.count("header replaced");
                let h = gen_header(g, &o);
                let new = match g.below(3) {
                    0 => {
                        m.h = MHeader { id: h.id, rd: h.rd, ..Default::default() };
                        Header::new_query(h.id, h.rd)
                    }
                    1 => {
                        m.h = MHeader { id: h.id, qr: true, opcode: h.opcode, ..Default::default() };
                        Header::new_reply(h.id, OPCODES[h.opcode as usize])
                    }
                    _ => {
                        let keep = p.header().clone();
                        if g.flip() {
                            let mut x = header_to(&h);
                            x = Header::clone(&x);
                            m.h = MHeader { id: 0, ..h };
                            stored = false;
                            x
                        } else {
                            keep
                        }
                    }
                };
                stored = false;
                p.set_header(new);
                "set_header".to_string()
            }
            21 => {
                mutations -= 1;
                forks.push((p.clone(), m.clone(), stored));
                "clone".to_string()
            }
            22 if !forks.is_empty() => {
                let k = g.ix(forks.len());
                std::mem::swap(&mut p, &mut forks[k].0);
                std::mem::swap(&mut m, &mut forks[k].1);
                std::mem::swap(&mut stored, &mut forks[k].2);
                format!("swap with fork {k}")
            }
            _ => {
                mutations -= 1;
                let b = p.to_bytes();
                let c = p.to_bytes_compressed();
                if c.len() > b.len() {
                    return Err(format!("compressed form longer than plain after {trace:?}"));
                }
                if g.chance(1, 3) {
                    p = Packet::try_from(&c[..]).map_err(|e| format!("own serialisation rejected with {e} after {trace:?}: {}", hex(&c)))?;
                    stored = true;
                }
                "serialise".to_string()
            }
        };
        trace.push(what);
        let r = if all { agree(cx, &p, &m, stored) } else { shape(&p, &m) };
        r.map_err(|e| format!("{e}; after {trace:?}"))?;
    }
    agree(cx, &p, &m, stored).map_err(|e| format!("{e}; after {trace:?}"))?;
    for (p, m, stored) in &forks {
        agree(cx, p, m, *stored).map_err(|e| format!("a clone: {e}; after {trace:?}"))?;
    }
    if mutations >= 2 {
        cx.nontrivial(hash(&(&trace, &m)));
    }
    cx.sample(|| format!("{trace:?}"));
    Ok(())
}
/// One record edited freely, also with a type that is not the one of its data.
fn c11_record(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let mut pool = vec![];
    let o = Opt { max_blob: 24, ..Default::default() };
    let mut m = gen_record(g, &mut pool, &o);
    let mut dcode = m.rtype;
    let mut r = record_to(&m)?;
    let other = gen_record(g, &mut pool, &o);
    let mut trace = vec![];
    for _ in 0..g.range(1, 10) {
        cx.count("operations");
        let k = g.below(7);
        match k {
            0..=3 => {
                let n = gen_record(g, &mut pool, &o);
                match k {
                    0 => {
                        r.set_record_type(rtype(n.rtype).unwrap());
                        m.rtype = n.rtype;
                    }
                    1 => {
                        r.set_data(rdata_to(n.rtype, &n.rdata)?);
                        dcode = n.rtype;
                        m.rdata = n.rdata;
                    }
                    2 => {
                        *r.data_mut() = rdata_to(n.rtype, &n.rdata)?;
                        dcode = n.rtype;
                        m.rdata = n.rdata;
                    }
                    _ => {
                        r.set_name(name_to(&n.name));
                        m.name = n.name;
                    }
                }
            }
            4 => {
                let t = g.u32();
                r.set_time_to_live(t);
                m.ttl = t;
            }
            5 => {
                let c = g.int(0x7fff) as u16;
                r.set_class(rclass(c, m.rtype == 41));
                m.class = c;
            }
            _ => {
                #[cfg(feature = "mdns")]
                {
                    let b = g.flip();
                    r.set_cache_flush(b);
                    m.flush = b;
                }
            }
        }
        trace.push(k);
        let bad = |s: String| format!("{s}; after {trace:?} on {m:?}");
        if name_of(r.name()) != m.name || rcode(*r.record_type()) != m.rtype || rclass_code(*r.class()) != m.class || r.time_to_live() != m.ttl {
            return Err(bad(format!("record reads {r:?}")));
        }
        #[cfg(feature = "mdns")]
        if r.cache_flush() != m.flush {
            return Err(bad(format!("cache flush reads {}", r.cache_flush())));
        }
        if data_code(r.data()) != dcode || rdata_of(r.data())? != m.rdata {
            return Err(bad(format!("data reads {:?}", r.data())));
        }
        let d = encode_rdata(dcode, &m.rdata);
        if dcode != 42 {
            let mut w = m.name.wire();
            w.extend(m.rtype.to_be_bytes());
            w.extend((m.class | if m.flush && m.rtype != 41 { 0x8000 } else { 0 }).to_be_bytes());
            w.extend(m.ttl.to_be_bytes());
            w.extend((d.len() as u16).to_be_bytes());
            w.extend(&d);
            let b = r.to_bytes();
            if m.rtype != 41 && b != w {
                return Err(bad(format!("written as {}, expected {}", hex(&b), hex(&w))));
            }
            if r.data_raw() != d {
                return Err(bad(format!("raw data {}, expected {}", hex(&r.data_raw()), hex(&d))));
            }
        }
    }
    let c = r.clone();
    if c != r {
        return Err(format!("a clone differs from {r:?}"));
    }
    let x = record_to(&other)?;
    if record_of(&x)? != other {
        return Err("another record changed".into());
    }
    cx.nontrivial(hash(&(&trace, &m)));
    cx.sample(|| format!("{trace:?} -> {m:?}"));
    if data_code(&c.take_data()) != dcode {
        return Err(format!("take_data of {r:?} gives other data"));
    }
    Ok(())
}
/// Large sections.
fn c11_counts(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let huge = g.chance(1, 8);
    let mut p = Packet::new_reply(7);
    let mut want = [0usize; 4];
    let a = rdata_to(1, &encode_a([192, 0, 2, 1]))?;
    for i in 0..4 {
        let n = if huge && i == g.ix(4) { 65535 } else { *g.pick(&[0usize, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024]) };
        want[i] = n;
        if n == 65535 {
            cx.count("sections of 65535");
        }
        if n >= 256 {
            cx.count("sections of 256 or more");
        }
        let rec = |k: usize| ResourceRecord::new(FQDN::default(), RecordType::A, RecordClass::IN, k as u32, a.clone());
        let ques = |_: usize| Question::new(FQDN::default(), QType::A, QClass::IN);
        if g.flip() {
            for k in 0..n {
                if i == 0 {
                    p.add_question(ques(k));
                } else {
                    add(&mut p, i - 1, rec(k));
                }
            }
        } else if i == 0 {
            if g.flip() {
                p = Packet::with_questions(7, false, (0..n).map(ques).collect());
                p.set_query_response(true);
            } else {
                p.set_questions((0..n).map(ques).collect());
            }
        } else {
            set(&mut p, i - 1, (0..n).map(rec).collect());
        }
    }
    for (b, how, stepq, stepr) in [(p.to_bytes(), "plain", 5, 15), (p.to_bytes_compressed(), "compressed", 5, 15)] {
        let c = [4, 6, 8, 10].map(|i| get16(&b, i) as usize);
        if c != want {
            return Err(format!("{how}: section counts {c:?}, should be {want:?}"));
        }
        let l = 12 + want[0] * stepq + (want[1] + want[2] + want[3]) * stepr;
        if b.len() != l {
            return Err(format!("{how}: {} octets, should be {l} for {want:?}", b.len()));
        }
        let q = Packet::try_from(&b[..]).map_err(|e| format!("{how}: rejected with {e} for {want:?}"))?;
        for i in 0..3 {
            for (k, r) in sec(&q, i).iter().enumerate() {
                if r.time_to_live() != k as u32 {
                    return Err(format!("{how}: record {k} of section {i} is record {}", r.time_to_live()));
                }
            }
        }
        if [q.questions().len(), q.answers().len(), q.authorities().len(), q.additionals().len()] != want {
            return Err(format!("{how}: parsed sections differ from {want:?}"));
        }
    }
    cx.nontrivial(hash(&(want, &g.tape)));
    cx.sample(|| format!("{want:?}"));
    let hb = p.header().to_bytes();
    let c = [4, 6, 8, 10].map(|i| get16(&hb, i) as usize);
    if c != want {
        return Err(format!("the header announces {c:?}, the sections have {want:?}"));
    }
    Ok(())
}
fn encode_a(o: [u8; 4]) -> Vec<F> {
    let mut d = Dec::new(&o, 0);
    d.rdata(type_info(1).unwrap()).unwrap()
}

// ---- C12 -----------------------------------------------------------------------------------------------
const STEPS: u64 = 27;
/// The k-th header operation, on the library's header and on the reference.
fn step(k: u64, x: &mut Header, h: &mut MHeader) -> String {
    let b = k % 2 == 1;
    match k {
        0 | 1 => {
            x.set_recursion_desired(b);
            h.rd = b;
            format!("set_recursion_desired({b})")
        }
        2 | 3 => {
            x.set_truncation(b);
            h.tc = b;
            format!("set_truncation({b})")
        }
        4 | 5 => {
            x.set_authoritative_answer(b);
            h.aa = b;
            format!("set_authoritative_answer({b})")
        }
        6 | 7 => {
            x.set_query_response(b);
            want_qr(h, b);
            format!("set_query_response({b})")
        }
        8 | 9 => {
            x.set_recursion_available(b);
            want_ra(h, b);
            format!("set_recursion_available({b})")
        }
        10..=13 => {
            let v = (k - 10) as u8;
            x.set_opcode(OPCODES[v as usize]);
            h.opcode = v;
            format!("set_opcode({v})")
        }
        _ => {
            let v = (k - 14).min(10) as u8;
            x.set_response_code(RCODES[v as usize]);
            want_rcode(h, v);
            format!("set_response_code({v})")
        }
    }
}
fn hdr_bytes(h: &MHeader, c: [u16; 4]) -> Vec<u8> {
    let mut b = h.id.to_be_bytes().to_vec();
    b.extend(h.flags().to_be_bytes());
    for x in c {
        b.extend(x.to_be_bytes());
    }
    b
}
fn hdr_is(x: &Header, h: &MHeader, c: [u16; 4]) -> Result<(), String> {
    let got = (
        x.query_response(),
        opcode_num(x.opcode()),
        x.authoritative_answer(),
        x.truncation(),
        x.recursion_desired(),
        x.recursion_available(),
        response_num(x.response_code()),
    );
    if got != (h.qr, h.opcode.min(3), h.aa, h.tc, h.rd, h.ra, h.rcode) {
        return Err(format!("(qr, opcode, aa, tc, rd, ra, rcode) reads {got:?}, should be {h:?}"));
    }
    let b = x.to_bytes();
    if b != hdr_bytes(h, c) {
        return Err(format!("written as {}, expected {}", hex(&b), hex(&hdr_bytes(h, c))));
    }
    if x.byte_size() != 12 {
        return Err(format!("announces {} octets", x.byte_size()));
    }
    Ok(())
}
/// Every operation from every flag word: the complete transition relation.
fn c12_step(cx: &mut Cx, _g: &mut Gen) -> Result<(), String> {
    crate::rt::tls().budget = u64::MAX / 2;
    for f in 0..=0xffffu16 {
        let id = f.wrapping_mul(40503);
        let c = [f, !f, f.rotate_left(3), f ^ 0x5555];
        let h = MHeader::from_flags(id, f);
        let b = hdr_bytes(&h, c);
        let x = Header::try_from(&mut DnsBuffer::from(&b[..]));
        if h.rcode > 10 {
            if x.is_ok() {
                return Err(format!("flags {f:#06x} with an unknown response code are accepted"));
            }
            cx.count("words refused");
            continue;
        }
        let x = x.map_err(|e| format!("flags {f:#06x} rejected with {e}"))?;
        cx.count("words accepted");
        cx.nontrivial(f as u64);
        hdr_is(&x, &h, c).map_err(|e| format!("flags {f:#06x}: {e}"))?;
        for k in 0..STEPS - 2 {
            let (mut y, mut m) = (x.clone(), h.clone());
            let what = step(k, &mut y, &mut m);
            cx.count("steps");
            hdr_is(&y, &m, c).map_err(|e| format!("flags {f:#06x}, {what}: {e}"))?;
        }
    }
    for id in 0..=0xffffu16 {
        for rd in [false, true] {
            let m = MHeader { id, rd, ..Default::default() };
            hdr_is(&Header::new_query(id, rd), &m, [0; 4])?;
        }
        let o = (id % 4) as u8;
        let m = MHeader { id, qr: true, opcode: o, ..Default::default() };
        hdr_is(&Header::new_reply(id, OPCODES[o as usize]), &m, [0; 4])?;
        let mut p = Packet::new_query(!id, true);
        p.set_id(id);
        if p.id() != id || p.to_bytes()[..2] != id.to_be_bytes() {
            return Err(format!("id {id} reads back as {} and is written {}", p.id(), hex(&p.to_bytes()[..2])));
        }
    }
    cx.sample(|| "flags 0x0000..=0xffff, every setter with every argument".into());
    Ok(())
}
/// Histories on a stand-alone header and on the header of a message.
fn c12_history(cx: &mut Cx, g: &mut Gen) -> Result<(), String> {
    let mut h = gen_header(g, &Opt { raw_flags: true, ..Default::default() });
    let b = hdr_bytes(&h, [0; 4]);
    let mut p = Packet::try_from(&b[..]).map_err(|e| format!("header {} rejected with {e}", hex(&b)))?;
    let mut x = Header::try_from(&mut DnsBuffer::from(&b[..])).map_err(|e| format!("header {} rejected with {e}", hex(&b)))?;
    let mut trace = vec![];
    let mut hp = h.clone();
    for _ in 0..g.range(1, 24) {
        cx.count("operations");
        trace.push(header_op(g, &mut p, &mut hp));
        let k = g.below(STEPS - 2);
        trace.push(format!("[header] {}", step(k, &mut x, &mut h)));
        if header_of(&p) != visible(&hp) {
            return Err(format!("message header reads {:?}, should be {hp:?} after {trace:?}", header_of(&p)));
        }
        if p.to_bytes() != hdr_bytes(&hp, [0; 4]) || p.to_bytes_compressed() != p.to_bytes() {
            return Err(format!("message written as {}, expected {} after {trace:?}", hex(&p.to_bytes()), hex(&hdr_bytes(&hp, [0; 4]))));
        }
        hdr_is(&x, &h, [0; 4]).map_err(|e| format!("{e} after {trace:?}"))?;
        if g.chance(1, 4) {
            let b = p.to_bytes();
            let q = Packet::try_from(&b[..]).map_err(|e| format!("own header {} rejected with {e}", hex(&b)))?;
            if q != p {
                return Err(format!("after serialising and parsing {q:?} is not {p:?}"));
            }
            p = q;
        }
        if g.chance(1, 6) {
            p.set_header(x.clone());
            hp = h.clone();
            trace.push("set_header".into());
        }
    }
    cx.nontrivial(hash(&(&hp, &h, &trace)));
    cx.sample(|| format!("{trace:?}"));
    Ok(())
}
