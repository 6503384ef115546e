"""Per property: how cases are made and what makes one non-trivial (goes into the evidence)."""
ASSUME = [
    "the reference codec and state machines in /verif/harness/src (model.rs, c_*.rs) state the specification correctly",
    "executions beyond the generated ones are not decided",
]
G = " Cases are made by tape generators under coverage guidance (edges and comparison operands of the instrumented library), from VERIF_SEED."
RULES = {
    "C01": "Hostile bytes (random, mutated, structured, truncated, corrupted messages and parts) parsed by every entry point; non-trivial: distinct inputs that were accepted or got past the header." + G,
    "C02": "Hostile and odd but accepted bytes; every accessor, formatter, clone, comparison and serialiser is called on the result; non-trivial: distinct accepted inputs." + G,
    "C03": "Inputs with lying counts and lengths and pointer-heavy inputs; allocator peak and executed library edges compared with bounds; non-trivial: distinct inputs." + G,
    "C04": "Messages and parts built through the API from a reference value, serialised and parsed back; non-trivial: distinct serialisations." + G,
    "C05": "Messages built through the API; compressed and plain forms parsed and compared; non-trivial: distinct compressed outputs containing a pointer." + G,
    "C06": "Compressed outputs walked octet by octet by an independent structural checker; non-trivial: distinct compressed outputs." + G,
    "C07": "Messages and parts built through the API, bytes compared with an independent encoder; non-trivial: distinct outputs." + G,
    "C08": "Bytes written by an independent encoder with random legal compression, and hostile bytes; the parsed value compared with an independent decoder; non-trivial: distinct inputs with a verdict of the reference." + G,
    "C09": "Strict prefixes, corruptions and bad code points; non-trivial: distinct inputs the reference calls malformed." + G,
    "C10": "Built and parsed values, sizes compared with the bytes written; non-trivial: distinct values." + G,
    "C11": "Histories of API edits run against a list model; non-trivial: distinct histories with at least two mutating operations." + G,
    "C12": "Histories of header operations against a record model, and all 65536 flag words; non-trivial: distinct states reached." + G,
    "C13": "Pairs of messages that differ only after a record's RDATA or in its slack; non-trivial: distinct pairs." + G,
    "C14": "Label sequences and pointer graphs at arbitrary offsets against a reference resolver; non-trivial: distinct inputs." + G,
    "C15": "A coverage guided corpus of API calls is recorded natively, then executed again under AddressSanitizer and, sharded, under Miri (one thread and several threads sharing values); non-trivial: distinct corpus entries executed under an interpreter or sanitizer.",
    "C16": "The same cases executed repeatedly, interleaved, on several threads and in several processes; logs of result digests compared offline; non-trivial: distinct cases whose digests were compared." + G,
    "C17": "Names built from text and labels and edited, against a list-of-labels model; non-trivial: distinct names." + G,
    "C18": "All codes of all tables (complete enumeration of 8 and 16 bit spaces); non-trivial: distinct (table, code) pairs.",
    "C19": "Accepted hostile or foreign bytes; serialise, parse, compare, serialise again; non-trivial: distinct accepted inputs." + G,
    "C20": "Record sets signed with keys of every algorithm and verified; non-trivial: distinct signed sets." + G,
    "C21": "Signed sets changed in one covered place, and hostile keys and signatures; non-trivial: distinct tampered inputs." + G,
    "C22": "Record sets in several orders, against a sorting model; non-trivial: distinct sets." + G,
    "C23": "Keys and owner names, against independently computed tags, digests and texts; non-trivial: distinct keys." + G,
    "C24": "Signatures made and verified by independent code over independently built data, and published vectors; non-trivial: distinct signatures." + G,
    "C25": "Sets of types and raw bitmaps against a set model; non-trivial: distinct sets and bitmaps." + G,
    "C26": "Histories of cursor operations against a position model; non-trivial: distinct histories." + G,
    "C27": "All 65536 class values and generated messages with flags; non-trivial: distinct messages." + G,
    "C28": "The same inputs executed by the four feature builds, logs of results compared offline; non-trivial: distinct inputs compared.",
    "C29": "Constructor arguments and edits against the specified values; non-trivial: distinct values." + G,
}
