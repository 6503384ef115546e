#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements can be edited in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "state": state or [], "observe_at": observe or [], "hook_needed": None}})
ALLRD = ["src/rdata/*.rs", "src/buffer.rs", "src/packet.rs", "src/question.rs", "src/resource.rs", "src/header.rs", "src/fqdn.rs"]

p("C01", "Parsing arbitrary bytes never panics, aborts or hangs",
  "Parsing any byte sequence, as a complete message or as any single part (header, question, resource record, name, the RDATA of any record type), terminates and returns either a value or an error; it never panics, overflows arithmetic or the stack, aborts the process or loops for ever. Every returned error can be displayed, debug-printed and walked along its source chain, which is finite.",
  ["inputs"], "every byte string (empty to far beyond 64 KiB) and every start offset, for every public parsing entry point",
  "The tests parse about two dozen captured or hand-written inputs, nearly all well formed; truncations, lying counts, pointer cycles and corrupt RDATA are inputs they do not reach.",
  ALLRD + ["src/error.rs"], [("bounds-checked cursor", "src/buffer.rs: DnsBuffer::extract_*"), ("backward-only compression pointers and the 255 octet limit", "src/buffer.rs: extract_fqdn"), ("fallible conversions of every code point", "src/*.rs: TryFrom impls")])

p("C02", "Every accepted value can be used: read, shown, cloned, compared, serialised",
  "Any message, question, record, record data or name that parsing accepted can afterwards be read through every accessor, displayed and debug-printed, cloned, compared, measured and serialised with and without compression, without panicking. Displaying a name always yields valid UTF-8 text, and a clone is equal to its original and serialises to the same bytes.",
  ["inputs", "histories"], "every accepted byte string and every public read or serialise operation on the result, in any order",
  "The tests use accepted values only from well-formed inputs with ASCII labels and known codes; values built from odd but accepted bytes are never driven through the accessors.",
  ALLRD, [("values are validated when they are parsed so accessors can be infallible", "src/header.rs: response_code; src/fqdn.rs: Display; src/rdata/*.rs")])

p("C03", "Parsing cost stays proportional to the input",
  "The memory that parsing a byte sequence uses at any moment is bounded by a fixed constant plus a fixed factor times the number of input bytes (64 KiB plus 4096 bytes per input byte), whatever the header counts or length fields announce. Parsing does no unbounded work: resolving one name follows each pointer at most once, and a message whose names use at most one pointer each is parsed and serialised in work proportional to its size.",
  ["inputs"], "every byte string, in particular short ones that announce large counts or lengths, and long ones full of pointers",
  "No test looks at allocation or work; a 12 byte message announcing 65535 records passes or fails the same way however much it allocates.",
  ["src/packet.rs", "src/buffer.rs", "src/rdata/*.rs"], [("sections grow as elements are parsed", "src/packet.rs: TryFrom<&mut DnsBuffer>"), ("lengths are checked against the remaining bytes before copying", "src/buffer.rs"), ("names are limited to 255 octets", "src/buffer.rs: extract_fqdn")])

p("C04", "Parsing a serialised message gives the message back",
  "Serialising any message built through the API without compression and parsing the bytes yields a message with the same header id and flags, and the same questions and records in the same sections and order, with equal names, types, classes, TTLs and record data. The same holds for every question, record and record data value on its own.",
  ["inputs"], "every message within the limits of the format: labels of 1 to 63 octets, names of at most 255, character strings of at most 255, RDATA and section counts of at most 65535; every record type, boundary values of every field",
  "The tests round-trip a handful of fixed messages and do not vary field values, lengths or combinations; several record types are never serialised by a test at all.",
  ALLRD, [("to_bytes and TryFrom<&mut DnsBuffer> of every type are inverse", "src/**")])

p("C05", "The compressed form of a message means the same as the uncompressed form",
  "Parsing the compressed serialisation of any message yields exactly the message that parsing its uncompressed serialisation yields: same header, same elements, same names octet for octet including letter case. This holds wherever names are placed, whichever suffixes they share, and for messages larger than 16 KiB.",
  ["inputs"], "every message within the limits of the format, in particular ones with many names sharing suffixes, names nested in RDATA, and names near and beyond offset 16383",
  "The tests compress three small messages; offsets inside RDATA, suffix collisions and the 14 bit limit of pointers depend on layouts they do not sample.",
  ["src/packet.rs", "src/fqdn.rs", "src/util.rs", "src/question.rs", "src/resource.rs", "src/rdata/*.rs"],
  [("offset of each name suffix remembered while serialising", "src/fqdn.rs: to_bytes_compressed"), ("RDATA serialisers pass on the offset of their names", "src/rdata/{soa,minfo,mx,srv,naptr,ns,cname,ptr,dnssec}.rs")])

p("C06", "Compressed output is well formed and really compressed",
  "In the compressed serialisation every pointer points strictly backwards to the start of a label of an earlier name, fits 14 bits, and every RDLENGTH and section count matches the bytes that follow; pointers occur only where names occur. The compressed form is never longer than the uncompressed form, and a non-root question or owner name equal to an earlier question or owner name that starts below offset 16384 is written as a single two octet pointer. Names in RDATA whose specification forbids compression (RRSIG, SVCB, TKEY, TSIG, IPSECKEY, HIP) are written out.",
  ["inputs"], "every message within the limits of the format",
  "The tests compare fixed byte strings for a few messages; the structure of the output for other messages is not examined.",
  ["src/packet.rs", "src/fqdn.rs", "src/resource.rs", "src/question.rs", "src/util.rs", "src/rdata/*.rs"],
  [("only the suffix offsets below 0x4000 are remembered", "src/fqdn.rs: to_bytes_compressed"), ("RDLENGTH is taken from the bytes written", "src/resource.rs: to_bytes_compressed")])

p("C07", "Serialisation writes the exact wire format of every record type",
  "The uncompressed serialisation of a message is, octet for octet, what the DNS specifications prescribe for its content: header flag positions, network byte order, name labels, record fields in specified order and width, length prefixes, character strings, type bitmaps, SVCB parameters in ascending key order. It carries each value the caller put in, unmodified.",
  ["inputs"], "every message within the limits of the format, for all supported record types",
  "A round trip through the same code hides symmetric mistakes, and the tests compare against fixed bytes for only some types and values.",
  ALLRD, [("to_bytes of every type", "src/**")])

p("C08", "Parsing well-formed messages yields exactly their content",
  "Every well-formed message is accepted and every field, name and section of the result equals what the message says, whether names are written out or compressed in any legal way (pointers to whole names, to suffixes, through other pointers, in questions, owners and RDATA). Whenever any byte sequence is accepted, the values obtained are the ones encoded at their place in the bytes.",
  ["inputs"], "every well-formed message with supported types and every legal choice of compression pointers; every other byte string that happens to be accepted",
  "The tests decode captured messages of a few record types; other encoders' compression choices and field values are not sampled.",
  ALLRD, [("TryFrom<&mut DnsBuffer> of every type", "src/**"), ("pointer resolution", "src/buffer.rs: extract_fqdn")])

p("C09", "Malformed messages are rejected",
  "A byte sequence is rejected with an error when it ends before its header, announced questions and records are complete, when RDATA is shorter than its record type requires, when a length inside it exceeds it or is not the one the value has to have (as for the address, port and flag parameters of SVCB), or when it contains an unsupported record type, question type, question class, response code, RDATA code point, or a malformed name (reserved label type, pointer not pointing backwards, more than 255 octets). In particular every strict prefix of a serialised message is rejected.",
  ["inputs"], "every well-formed message and every way of truncating it or corrupting one of its structural fields",
  "The tests feed malformed input in only a few places; accepting a truncated or inconsistent message silently is invisible to them.",
  ALLRD, [("length checks of the cursor", "src/buffer.rs"), ("fallible conversions", "TryFrom<u8>/TryFrom<u16> impls")])

p("C10", "Announced sizes equal the bytes written",
  "For every value, the announced serialised size equals the number of bytes its serialisation produces: messages, headers, questions, records, record sets, names, and the record data of every type. In every serialised record the RDLENGTH field equals the number of RDATA bytes that follow, and raw record data equals those bytes.",
  ["inputs"], "every value that can be built or parsed within the limits of the format",
  "The size is only compared in a few tests; sizes of values with unusual content (bitmap windows, empty lists, root names) are not sampled.",
  ["src/byteconvertible.rs", "src/resource.rs", "src/packet.rs", "src/resource_record_set.rs", "src/fqdn.rs", "src/rdata/*.rs"],
  [("byte_size mirrors to_bytes", "src/**: ByteConvertible impls"), ("RDLENGTH from written RDATA", "src/resource.rs: to_bytes")])

p("C11", "Messages behave as header plus four lists under any history of edits",
  "After any sequence of adding, setting, taking and editing questions, answers, authorities and additionals, changing header fields, and editing single questions and records, reading a message back and serialising it give exactly the elements that the sequence of operations leaves, in order, and each section count written equals the number of elements written. Operations on one section or one element never change another.",
  ["histories"], "every finite sequence of public mutating operations on messages, questions and records, from every constructor and from parsed messages, including sections of thousands of elements",
  "The tests build messages with a few add calls; taking, replacing and mixing operations, and their effect on the counts, depend on the history.",
  ["src/packet.rs", "src/header.rs", "src/question.rs", "src/resource.rs"],
  [("counts derive from the sections when serialising", "src/packet.rs: header_bytes"), ("take_*/set_*/add_*", "src/packet.rs")],
  [{"name": "header counts", "meaning": "number of elements per section", "where": "src/header.rs: ques_count, ans_count, auth_count, add_count"}])

p("C12", "Header flags follow their setters and keep queries and responses consistent",
  "After any sequence of header operations each flag reads back as last set, except that setting the message to be a query clears recursion-available and the response code, and setting recursion-available or a response code other than NoError makes the message a response; no operation changes anything else. The id and flags survive serialisation and parsing, with each flag at its specified bit.",
  ["histories", "inputs"], "every sequence of setter calls on headers and messages, and every accepted value of the two flag octets",
  "The tests set a flag or two; the coupling between flags depends on the order of calls.",
  ["src/header.rs", "src/packet.rs"], [("coupled setters", "src/header.rs: set_query_response, set_response_code, set_recursion_available"), ("bit layout", "src/header.rs: FlagBitfield")])

p("C13", "Record data is confined to its RDLENGTH",
  "The data of a record depends only on the bytes inside its RDLENGTH and on earlier bytes reached through compression pointers, never on bytes after it; the next record starts exactly RDLENGTH octets later, even when the RDATA is longer than its type needs. Bytes following the last announced record do not affect the result, and fields inside RDATA cannot reach beyond its end.",
  ["inputs"], "every record type, every RDLENGTH, and every content of the bytes after the RDATA or after the message",
  "The tests have no RDATA with spare or missing bytes and nothing following the message.",
  ["src/resource.rs", "src/buffer.rs", "src/rdata/*.rs"], [("sub buffer limited to the RDATA", "src/buffer.rs: sub_buffer; src/resource.rs: try_from"), ("advance by RDLENGTH", "src/resource.rs: try_from")])

p("C14", "Names are decompressed by the rules and leave the cursor behind them",
  "Extracting a name follows compression pointers only strictly backwards, and yields exactly the labels spelled out by the label sequence and the pointers; the cursor then stands right after the name as written in place: after its zero octet, or after its first pointer. Names over 255 octets, reserved label types, labels or pointers running out of the buffer, and pointers to themselves, forwards or into a cycle are errors.",
  ["inputs"], "every byte string and every start offset, in particular chains of pointers, names of exactly 255 and 256 octets, and labels of 63 octets",
  "The tests resolve a few single pointers; chains, limits and malformed names need inputs that they do not contain.",
  ["src/buffer.rs", "src/fqdn.rs"], [("extract_fqdn", "src/buffer.rs")])

p("C15", "No undefined behaviour or data race for any use through the safe API",
  "No sequence of calls through the public API, on any input and from any number of threads sharing values by reference, causes undefined behaviour: no access out of bounds, to freed, misaligned or uninitialised memory, no invalid enum, bool or string value, no data race. Messages, questions, records, record data, names, errors and cursors can be sent to and shared between threads.",
  ["inputs", "histories", "schedules"], "every input and call sequence of the safe API, every interleaving of threads that share parsed values",
  "Undefined behaviour usually leaves the observed result intact, so assertions in tests do not see it, and the tests run without sanitizers or an interpreter.",
  ["src/header.rs", "src/fqdn.rs", "src/packet.rs", "src/buffer.rs", "src/rdata/*.rs"], [("transmutes of bool and enums into bit fields", "src/header.rs: set_*"), ("safe Rust elsewhere", "src/**")])

p("C16", "Results depend only on the arguments: no hidden state, order, time or output",
  "Parsing and serialising are pure: the same bytes or value give the same result every time, in any process, on any thread, whatever was parsed or serialised before or is being processed concurrently; equal values serialise to equal bytes. Parsing, serialising and measuring never modify the input or the value and write nothing to standard output or standard error.",
  ["histories", "schedules", "configurations"], "every pair of runs, histories and thread schedules around the same call",
  "Each test runs one call in one process; dependence on hash seeds, earlier calls or other threads cannot show up.",
  ["src/rdata/opt.rs", "src/packet.rs", "src/fqdn.rs", "src/util.rs", "src/rdata/tsig.rs"], [("sorted OPT options", "src/rdata/opt.rs: to_bytes"), ("per call compression table", "src/packet.rs: to_bytes_compressed")])

p("C17", "The text form of names and the name queries are consistent",
  "A name built from text has exactly the dot-separated non-empty parts of the text as labels, and displaying a name of valid UTF-8 labels gives its labels joined by dots. Label count, length, emptiness, root, link-local (last label is `local`), iteration, label edits, appending, equality and ordering (label by label, left to right) agree with that list of labels, and empty labels are never serialised.",
  ["inputs", "histories"], "every text, every list of labels, every sequence of label edits",
  "The tests try a few lower-case ASCII names.",
  ["src/fqdn.rs"], [("FQDN::new, Display, iter, append_label, is_root, is_link_local", "src/fqdn.rs")])

p("C18", "Code point tables are exact and inverse in both directions",
  "Every numeric code (record type, question type, class as the lower fifteen bits of its field, opcode, response code, algorithm, digest, certificate and fingerprint kinds, modes, errors, NAPTR flags, SVCB keys) converts to the item the registries assign to it or is refused, distinct codes give distinct items, and converting back yields the same code; record types and question types agree on the codes they share.",
  ["inputs"], "all 65536 (or 256) values of every code field, through direct conversion and through parsing",
  "The tests touch a few codes; an entry missing from or swapped in one direction of one table is only visible for that code.",
  ["src/question.rs", "src/resource.rs", "src/header.rs", "src/rdata/*.rs"], [("pairs of TryFrom/From impls", "src/**")])

p("C19", "Re-serialising an accepted message preserves it",
  "If bytes are accepted as a message, serialising the message gives bytes that are accepted again and parse to an equal message, with and without compression; serialising that again gives the same bytes, and the names and values in them are those of the input. This holds also for inputs that were not produced by this library, as long as the data of each record, written out, fits its 16 bit length.",
  ["inputs"], "every accepted byte string whose content does not contain data the representation documents as dropped",
  "The tests re-serialise only a few captured messages.",
  ALLRD, [("parse and serialise are inverse on accepted values", "src/**")])

p("C20", "Created signatures verify, for every supported algorithm",
  "For each supported DNSSEC algorithm (RSA with MD5, SHA-1, SHA-256 and SHA-512, DSA, ECDSA P-256 and P-384, Ed25519, Ed448), signing any record set with a valid private key succeeds and verifying the result with the matching public key and the same records, in any order and also after both signature and key went over the wire, returns true. The signature record states the record set's type, TTL and label count, the key's algorithm and tag, the owner as signer, and the given times in seconds since 1970.",
  ["inputs", "histories"], "every record set, key pair of the supported algorithms, and validity period between 1970 and 2106",
  "The tests verify one fixed signature for some algorithms; signing and the other hash/padding combinations are hardly run.",
  ["src/rdata/dnssec.rs", "src/resource_record_set.rs"], [("Rrsig::from_dnskey, Rrsig::verify, Algorithm::sign_data", "src/rdata/dnssec.rs")])

p("C21", "Verification never accepts tampered data and survives hostile keys",
  "If anything that a signature covers is changed after signing (any bit of the signature, of the record data, of the owner name, of the set's type or class, of any field of the signature record, of the public key) or a record is added or removed, verification does not return true. Verification and signing with arbitrary malformed keys and signatures return false or an error and never panic.",
  ["inputs", "fault_sequences"], "every signed record set, every single change to it, every malformed key or signature",
  "The tests only contain valid signatures.",
  ["src/rdata/dnssec.rs", "src/resource_record_set.rs"], [("Rrsig::verify", "src/rdata/dnssec.rs")])

p("C22", "Record sets serialise canonically, independent of record order",
  "The serialisation of a record set lists its records in ascending order of their RDATA octets, each with the set's owner, type, class, TTL and exact RDLENGTH, and is the same for every order in which the records were given; nothing is lost or duplicated. Canonical reordering sorts the records in that order and changes nothing else.",
  ["inputs", "histories"], "every set of records of any type and every permutation of it, including records whose RDATA is a prefix of another's or equal to it",
  "The tests use one or two records in one order.",
  ["src/resource_record_set.rs"], [("sorted insertion", "src/resource_record_set.rs: to_bytes"), ("canonical_reorder", "src/resource_record_set.rs")])

p("C23", "Key tags and DS digests match RFC 4034",
  "For every DNSKEY and owner name, a DS record created from them carries the key's algorithm, the key tag of RFC 4034 Appendix B (including the RSA/MD5 rule) and the chosen digest over owner name and DNSKEY RDATA; the key tag in signatures is the same. The hexadecimal and base64 texts of digests, keys and signatures are exact.",
  ["inputs"], "every key of every algorithm, flags and length, every owner name, every digest type",
  "The tests check one or two published examples; carries in the key tag sum and odd lengths depend on the key.",
  ["src/rdata/dnssec.rs"], [("compute_key_tag, Ds::try_from_dnskey, hash_data", "src/rdata/dnssec.rs")])

p("C24", "Signatures interoperate with other DNSSEC implementations",
  "For record sets in canonical form (lower case names, original TTL, no duplicates, no wildcard owner) the bytes that are signed and verified are those of RFC 4034 (signature RDATA without the signature, then the records in canonical order), and keys and signatures use the encodings of RFC 3110, 2536, 6605 and 8080: a signature made by an independent implementation over such data verifies, and a signature made here is accepted by an independent implementation. Published test vectors verify.",
  ["inputs"], "every record set and key of the supported algorithms",
  "Signing and verifying with the same code hides shared deviations from the standard.",
  ["src/rdata/dnssec.rs", "src/resource_record_set.rs"], [("signed data", "src/rdata/dnssec.rs: calculate_signature, verify"), ("key formats", "src/rdata/dnssec.rs: verify")])

p("C25", "Type bitmaps encode exactly their set of types",
  "The type bitmaps of NSEC and CSYNC records encode exactly the given set of record types: windows ascending, no empty window, no trailing zero octet, one bit per type, and parsing yields the same set. Any valid bitmap is parsed to exactly the types whose bits are set; windows longer than 32 octets, truncated windows and unsupported types are rejected.",
  ["inputs"], "every set of supported record types (including both windows and the empty set), and every encoded bitmap",
  "The tests encode two or three sets.",
  ["src/rdata/csync.rs", "src/rdata/dnssec.rs"], [("bitmap loops", "src/rdata/csync.rs, src/rdata/dnssec.rs: Nsec")])

p("C26", "The read cursor is exact under any sequence of operations",
  "For any sequence of cursor operations, every read returns exactly the bytes at the current position in network byte order and moves the position by exactly their number, peeking moves nothing, a read, jump or sub-view beyond the end is an error that leaves position and remaining count unchanged, and position plus remaining always equals the length of the data. A sub-view sees the same bytes at the same positions, ends where requested, and does not move its parent.",
  ["histories", "inputs"], "every byte string and every sequence of operations with every argument up to the maximum integer",
  "The tests call each operation at most once or twice with small arguments.",
  ["src/buffer.rs"], [("length checks before moving", "src/buffer.rs")], [{"name": "position", "meaning": "index of the next byte to read", "where": "src/buffer.rs: DnsBuffer.pos"}])

p("C27", "mDNS bits share the class field without disturbing it",
  "With mDNS support, the top bit of a question's class is its unicast-response flag and the top bit of a record's class is its cache-flush flag: parsing and serialising (plain and compressed) map them exactly, independent of the class in the lower bits, and setting or clearing one never changes the class or anything else. OPT records keep all sixteen bits as UDP payload size, and without mDNS support the top bit never changes how the class is understood.",
  ["inputs", "configurations"], "every class value, both flag values, every record type, with and without the mDNS feature",
  "The tests set the flags in one or two messages of class IN.",
  ["src/question.rs", "src/resource.rs"], [("MDNS_UNICAST_RESPONSE, MDNS_ENABLE_CACHE_FLUSH", "src/question.rs, src/resource.rs")])

p("C28", "All feature combinations agree on what they share",
  "For every input and message that only uses features common to all builds (no DNSSEC record types, no mDNS bits), the library gives the same acceptance, values, sizes and bytes whether built with or without mDNS and DNSSEC support.",
  ["configurations", "inputs"], "the four combinations of cargo features and every input",
  "A test run sees one combination of features at a time and never compares them.",
  ["src/question.rs", "src/resource.rs", "src/rdata/mod.rs", "Cargo.toml"], [("cfg(feature) branches", "src/question.rs, src/resource.rs, src/rdata/mod.rs")])

p("C29", "Constructors and conversions keep the values they are given",
  "Record data built by constructors or conversions (addresses from integers, text and address types, DHCID from identifier and name, flags of CSYNC, SVCB mode, DNSKEY protocol) holds exactly the given or specified values, reports the record type it belongs to, converts into record data of that type, and edits through mutable access change exactly the edited field.",
  ["inputs", "histories"], "every argument value and every sequence of field edits",
  "The tests construct values of some types with one argument each.",
  ["src/rdata/*.rs"], [("new, From, RData impls", "src/rdata/*.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
