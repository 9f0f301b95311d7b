"""What each check runs and claims."""

BYTES = ('byte buffers (`bytes::Bytes`/`BytesMut`) are replaced by the storage model in models/bytes (the Buf/BufMut '
         'traits and adaptors are the registry source); counterexamples are replayed with the real crate')
MEM = 'memory safety of unsafe code is not checked (binate itself has none); allocation never fails'
COMMON = [BYTES, MEM, 'rustc MIR inlining (GVN and destination propagation off) and Kani/CBMC/CaDiCaL/cvc5 are trusted']
FIELDS = ['--max-field-sensitivity-array-size', '512']
PLAIN = '-Zmir-opt-level=1'
MAP = 'dashmap is replaced by a small association list (models/dashmap); it is taken to be linearizable'
RACE = 'interference is by whole calls of the other caller between the atomic operations of the one examined; weaker ' \
       'memory orders than sequential consistency are not explored'
TASKS = 'tokio is replaced by models/tokio: tasks are polled one at a time by the harness, in the order in which they ' \
        'were spawned, and timers go off only when time is moved; counterexamples are replayed with the real tokio'
DROP = 'what an Arc holds is leaked when its last owner goes (Arc::drop_slow is stubbed)'
MACHINE = dict(crate='kani_m', native='native_m', mir=PLAIN, cbmc=FIELDS, flags=['-Z', 'restrict-vtable'])
LEN = 'every field value; metadata 0..2^24-1 bytes, data 1..2^25 bytes, resume token 0..65535 bytes, MIME types ' \
      '0..255 bytes, all with arbitrary contents'
INPUT = 'every input of up to 2^25 bytes with arbitrary contents'


def p(harnesses, covers, bounds, **kw):
    d = dict(harnesses=harnesses, covers=covers, bounds=bounds, assumes=COMMON + kw.pop('assumes', []))
    d.update(kw)
    return d


PROPS = {
    'C01': p(['c01::'], 'Round trip: every frame of every type, with every choice of optional parts, is encoded and '
             'decoded again symbolically and must compare equal; the entry point Frame::decode is checked against the '
             'reference decoder on every well-formed input.', LEN + '; ' + INPUT, expect=60),
    'C02': p(['c02::'], 'Every panic reachable in Frame::decode or in the decoder of a frame type is an assertion; the '
             'solver shows none is reachable, for input in one piece and in three pieces cut anywhere.',
             INPUT + '; three pieces cut at any two positions', expect=29),
    'C03': p(['c03::'], 'len() of every frame against the bytes actually encoded, also behind bytes already in the '
             'buffer.', LEN, expect=40),
    'C04': p(['c04::'], 'Encoded bytes against a layout written from the protocol specification, at an arbitrary '
             'position (a solver variable).', LEN, expect=64),
    'C05': p(['c05::'], 'Stream ID rules of connection-level and ERROR frames on arbitrary input and of encoded '
             'frames.', INPUT, expect=21),
    'C06': p(['c06::'], 'Frame::decode against the reference decoder in harness/src/spec.rs on arbitrary input of each '
             'frame type, reserved bits and truncation included.', INPUT, expect=15),
    'C07': p(['c07::'], 'decode, encode, decode of arbitrary input; byte identity for well-formed input.',
             'every body of up to 2^20 bytes with arbitrary contents; the second decoding of SETUP bodies with metadata or '
             'token only in the thorough tier', expect=40),
    'C08': p(['c08::'], 'All 65536 type and flag codes symbolically, and Frame::decode on arbitrary input of known and '
             'unknown types.', 'all 16-bit codes; ' + INPUT, expect=33),
    'C09': p(['c09::'], 'Accessors of a frame built from arbitrary values.', LEN + '; MIME type text up to 3 bytes',
             expect=24),
    'C10': p(['c10::'], '24-bit numbers and versions over all values.', 'all 32-bit and 64-bit integers, all pairs of '
             'versions', expect=8),
    'C11': p(['c11::'], 'Constructors with arbitrary integers, debug assertions off, against the wire layout.',
             'every 32-bit or 64-bit argument', expect=14, release=True),
    'C12': p(['c12::'], 'Two values of each frame type and of Payload, built from independent arbitrary parts: == against '
             'the equality of what they were built from.', 'every value of every field; parts up to 2 bytes', expect=17),
    'P01': p(['p01::'], 'The chunk iterator is run on arbitrary payloads; every chunk is compared with the slice of the '
             'payload it must be.', 'every part length and contents up to 2^40 bytes, every chunk size up to 2^40; at '
             'most 4 chunks (3 with both parts; thorough: 8)', expect=5),
    'P02': p(['p02::'], 'The announced count against the chunks still to come, at every step, and in closed form.',
             'chunk sizes 1..15 with parts up to 255 bytes; chunk sizes 1, 3, 64, 1000, 4096, 65535, 2^24-1 with '
             'parts up to 2^16-1, 2^24-1 or 2^28-1 bytes; stepping: up to 3 chunks (thorough: 6)', expect=16),
    'P03': p(['p03::'], 'Payloads of arbitrary contents are chunked, framed, encoded, collected and reassembled '
             'symbolically.', 'one data fragment of any length up to 2^25; up to 4 fragments of the listed lengths (0 to 500 '
             'bytes, harness/src/p03.rs) with any contents and stream ID; every frame type that carries a payload', expect=19, cbmc=FIELDS),
    'P04': p(['p04::'], 'Payload builder and accessors on arbitrary parts; text of up to 2 bytes against the UTF-8 '
             'definition.', 'parts of up to 2^25 bytes; text up to 2 bytes', expect=9),
    'B01': p(['b01::'], 'Reads from a list of arbitrary buffers against the same read from their concatenation.',
             'chunk, remaining, advance, chunks_vectored: up to 3 buffers of up to 2^25 bytes each, any position (slices: 3 buffers unread, 2 read to any position); two reads in a row; '
             'copy_to_bytes and numbers: 2 or 3 buffers of the listed lengths (1 to 300 bytes, harness/src/b01.rs), any '
             'contents', expect=32, cbmc=FIELDS),
    'B02': p(['b02::'], 'Every decoder on arbitrary bytes in one piece and in three, results compared; and on the '
             'connection\'s list of buffers.', 'every body of up to 2^20 bytes, cut at any two positions; list: four types, one '
             'cut inside a field', expect=24, cbmc=FIELDS),
    'W01': p(['w01::'], 'Name tables: all types, and arbitrary text.', 'all 48 types; every text of up to 44 bytes',
             expect=17),
    'T01': p(['t01::'], 'The SETUP builder with arbitrary values.', 'tokens up to 65535 bytes accepted and up to 2^20 '
             'refused, MIME types up to 255 bytes accepted and up to 511 refused', expect=7),
    'S01': p(['s01::'], 'Stream IDs given out from an arbitrary state of the counter and with arbitrary IDs in use; '
             'and by two callers at once, where the other caller\'s calls are inserted before any atomic operation, '
             'wherever the solver likes.', 'sequential: any counter state, any 3 IDs in use, 3 calls; concurrent: any '
             'counter state, 1 ID in use, one call overlapped by up to two calls of another caller, sequentially '
             'consistent', expect=6, mir=PLAIN, crate='kani_m', native='native_m', assumes=[MAP, RACE]),
    'R01': p(['r01::'], 'A history of arbitrary additions and uses of permits against plain arithmetic; and one '
             'operation overlapped by up to two of another caller at any atomic operation.', 'histories of 3 '
             'operations (thorough: 8) with any 32-bit arguments; overlap: one operation against up to two, amounts '
             'below 2^28, sequentially consistent', expect=3, mir=PLAIN, crate='kani_m', native='native_m',
             assumes=[RACE]),
    'M01': p(['m01::'], 'A requester sends a request over a connection that checks every frame it is given against '
             'the payload, and refuses the frame with an arbitrary number.', 'parts of up to 2^25 bytes of any contents; '
             'no chunking or any chunk size up to 2^24-1; at most 3 fragments of one part, 2 of both, and the first two fragments of any number; two '
             'requests in a row', expect=14, assumes=[MAP, TASKS, DROP], **MACHINE),
    'M02': p(['m02::'], 'The watch of a connection is woken at arbitrary times under an arbitrary timeout.',
             'every timeout of 1 ms to 2^31 ms (whole ms); 1 to 3 wake-ups, each any time up to 2^32 ms after the one '
             'before; all 9 patterns of timers that go off or not listed in harness/src/m02.rs', expect=10,
             assumes=[MAP, TASKS, DROP], **MACHINE),
    'M03': p(['m03::'], 'The task that follows the connection status is run on arbitrary sequences of statuses and '
             'pauses.', 'up to 3 statuses or pauses in the 11 arrangements of harness/src/m03.rs, each status any of the '
             'five, then the end', expect=11, assumes=[MAP, TASKS, DROP], **MACHINE),
    'E01': p(['e01::'], 'Every kind of error, with and without a cause: its classification and its text; errors made from decode and I/O errors.',
             'all 12 kinds; a cause of two bytes; every decode error (text of stream IDs up to 65535)', expect=12, flags=['-Z', 'restrict-vtable'], mir=PLAIN),
}

NOT_APPLICABLE = {}
