import os
# Which harness functions decide which property, with their bounds.
def R(*a): return list(range(*a))
COMMON = 'src/decoders/common/src/'; OEM = 'src/decoders/oem/src/'
MODULES = {
 'crc': dict(harness='crc.cpp', srcs=[]),
}
PROPS = {}
def prop(pid, claim, parts, bounds, outside='', **k): PROPS[pid] = dict(claim=claim, parts=parts, bounds=bounds, outside=outside, **k)

prop('C01', 'block, text and byte-wise CRC equal the bit-serial definition', [dict(module='crc', jobs={
   'c01_step': R(16), 'c01_smt': R(16 * 3), 'c01_block': dict(quick=[c + 16 * n for n in list(range(0, 26)) + [40, 64, 100] for c in range(16)], thorough=[c + 16 * n for n in range(0, 140) for c in range(16)]),
   'c01_crc32_api': dict(quick=R(0, 30), thorough=R(0, 200))})],
   dict(quick='16 width/polynomial/bit-order configurations; one byte step from any state; any buffer of 0..25, 40, 64, 100 bytes from any initial value', thorough='as quick with every length 0..139'),
   'other polynomials; longer buffers (each is a composition of the proved byte/8-byte steps)')
prop('C02', 'CRC of consecutive pieces equals CRC of the whole', [dict(module='crc', jobs={
   'c02_smt': R(32), 'c02_split': dict(quick=[c + 16 * n for n in (3, 9, 17, 26) for c in range(16)], thorough=[c + 16 * n for n in range(0, 60) for c in range(16)]),
   'c02_oem_split': dict(quick=[0, 1, 8, 47, 48, 49, 50, 57, 64, 97, 110], thorough=R(0, 260))})],
   dict(quick='every 2-way cut and a grid of 3-way cuts of any content at lengths 3, 9, 17, 26 (16 configurations) and of the receiver CRC at lengths up to 110, any initial value', thorough='lengths 0..59 and 0..259'), 'longer buffers')
prop('C03', 'receiver CRC equals reflected CRC-32 by the bit-serial definition', [dict(module='crc', jobs={
   'c03_smt': R(0, 3), 'c03_oem': dict(quick=R(0, 140) + [200], thorough=R(0, 280)), 'c03_long': dict(quick=[141, 255, 256, 300, 511, 512, 513, 1100], thorough=R(141, 700) + [1024, 2000, 4100]), 'c03_text': dict(quick=R(0, 40, 3) + [64], thorough=R(0, 200))})],
   dict(quick='every length 0..139 and 200, 256, 300, 511..513; any content; any initial value', thorough='every length 0..699, 1024 and 2000'), 'longer buffers')

CMN = COMMON + 'common.cpp'
MODULES['core'] = dict(harness='core.cpp', srcs=['src/common/src/common.cpp', CMN])
prop('C04', 'ring buffer equals a FIFO model', [dict(module='core', jobs={'c04_step': dict(quick=R(0, 7), thorough=R(0, 11)), 'c04_history': dict(quick=[14, 24, 34], thorough=[15, 25, 35, 44]), 'c04_args': [0], 'c04_large': [0, 1], 'c04_read': [0]})],
   dict(quick='capacities 0..6: every reachable (offset, size) state with any content, then any one operation (two for capacities up to 3); every history of 4 operations for capacities 1..3; every length argument; capacities 300 and 70000 on one long history', thorough='capacities 0..10, histories of 5'),
   'other capacities (the code does not compare the capacity with constants); the state step is inductive, so histories are unbounded for the capacities covered')
prop('C05', 'search equals the first (possibly end-cut) match', [dict(module='core', jobs={'c05_search': dict(quick=R(0, 24), thorough=R(0, 36)), 'c05_stale': [0], 'c05_long': [0]})],
   dict(quick='every content of up to 5 live bytes, every offset, start, count and pattern of 1..4 bytes', thorough='up to 8 live bytes'), 'longer contents except the two-candidate case at 300 bytes')
prop('C06', 'moving transfers the content', [dict(module='core', jobs={'c06_move': dict(quick=R(2, 10), thorough=R(2, 14))})],
   dict(quick='capacities 1..4, every (offset, size) state, any content, one following operation', thorough='capacities 1..6'), 'larger capacities')
prop('C07', 'message counts equal the number of increments', [dict(module='core', jobs={'c07_history': dict(quick=[40, 41, 42, 33], thorough=[50, 51, 52, 43]), 'c07_many': dict(quick=[300, 66000], thorough=[300, 66000, 140000]), 'c07_hash': [0]})],
   dict(quick='every history of 4 operations over any 16-bit, 64-bit, OEM (id, format, sibling) keys, 3 operations over text keys; 66000 repeats of any key', thorough='5 operations; 140000 repeats'), 'longer histories; bucket count is fixed to 1 so every pair of keys is compared')
prop('C08', 'tolerant comparison and digit conversion', [dict(module='core', jobs={'c08_isequal': R(5), 'c08_digit': [0]})], 'every triple of 64-bit floating-point values; every digit character', 'nothing')
prop('C09', 'identifier packing round trip', [dict(module='core', jobs={'c09_pack': [0], 'c09_unpack': [0]})], 'every 32-bit value of every argument', 'nothing')
prop('C10', 'output helpers stay inside the room given and write exact bytes', [dict(module='core', jobs={
   'c10_int': dict(quick=[r * 10 + t for r in (0, 1, 2, 3, 4) for t in (0, 1, 2, 3)] + [52, 62, 63], thorough=[r * 10 + t for r in range(0, 8) for t in range(4)]), 'c10_int_wide': R(56),
   'c10_hex': [w * 100 + r * 4 + t for w in (0, 2, 4, 8) for t, r in ((0, 1), (0, 2), (0, 4), (1, 3), (1, 4), (1, 9), (2, 7), (2, 8), (2, 9), (3, 16))], 'c10_copy': R(0, 10), 'c10_all': [0, 2, 3, 5, 8, 9, 10, 11, 12, 13, 14, 16]})],
   dict(quick='every integer of 8/16-bit types and every 32/64-bit integer in 128-value windows around 14 boundary constants (powers of ten, type limits); hex of 8..64-bit values at widths 0, 2, 4, 8; texts and binaries of up to 8 bytes; remaining room 0..16', thorough='more rooms'), 'floating-point text (library conversion); longer texts')

OS = 'src/decoders/oem/src/'
FRAMERS = [COMMON + 'framer.cpp', OS + 'framer.cpp', OS + 'framer_ascii.cpp', OS + 'framer_ascii_short.cpp', OS + 'framer_binary.cpp', OS + 'framer_binary_short.cpp', OS + 'framer_abb_ascii.cpp', COMMON + 'framer_manager.cpp', COMMON + 'common.cpp', 'src/common/src/common.cpp']
MODULES['framer'] = dict(harness='framer.cpp', srcs=FRAMERS)
# (framer, frame kind) pairs: OEM with every kind, each single-format framer with its own
OWN = [(0, k) for k in range(8)] + [(6, 8), (1, 3), (2, 4), (3, 0), (4, 1), (5, 6), (5, 7)]
_SH = {0: [(1, 0, 0), (2, 1, 1)], 1: [(1, 0, 0), (2, 1, 1)], 2: [(1, 0, 0)], 3: [(1, 0, 0), (1, 1, 1)], 4: [(1, 0, 0), (1, 1, 1)], 5: [(6, 0, 0), (6, 1, 1)], 6: [(1, 0, 2), (2, 1, 3)], 7: [(1, 0, 0), (2, 1, 2)], 8: [(1, 0, 0), (3, 1, 1)]}
_SHT = {0: [(3, 0, 0), (5, 2, 0), (4, 0, 2)], 1: [(3, 0, 0), (5, 2, 0), (4, 0, 2)], 2: [(2, 0, 0), (3, 1, 1)], 3: [(2, 0, 0), (1, 2, 0), (3, 0, 1)], 4: [(2, 0, 0), (1, 2, 0), (3, 0, 1)], 5: [(7, 0, 0), (6, 2, 0)], 6: [(3, 0, 2), (2, 2, 3)], 7: [(2, 2, 0), (4, 0, 2)], 8: [(2, 0, 2), (5, 0, 0)]}
def FR(extra=False, only=None): return [s * 10000 + k * 1000 + p * 100 + b * 10 + a for s, k in OWN for p, b, a in _SH[k] + (_SHT[k] if extra else []) if not only or only(s, k, p, b, a)]
def ANY(n): return [s * 100 + i for s in range(7) for i in range(1, n + 1)]
def QT(q, t): return dict(quick=q, thorough=t)
_SHX = {0: [(7, 0, 3), (9, 1, 1)], 1: [(7, 0, 3), (9, 1, 1)], 2: [(5, 1, 1), (9, 0, 0)], 3: [(2, 1, 1), (5, 0, 0), (3, 0, 2)], 4: [(2, 1, 1), (5, 0, 0), (3, 0, 2)], 5: [(9, 0, 0), (7, 1, 2)], 6: [(5, 0, 2), (3, 3, 2)], 7: [(5, 2, 2), (7, 0, 0)], 8: [(4, 2, 2), (7, 0, 1)]}
_slow = lambda s, k, p, b, a: not (k in (3, 4) and (p, b, a) in ((3, 0, 1), (1, 2, 0), (2, 0, 0)) and s in (1, 2) or k in (3, 4) and (p, b, a) == (3, 0, 1) or (k, p, b) == (6, 2, 2))
Q1 = FR(True, only=_slow); T1 = FR(True) + [s * 10000 + k * 1000 + p * 100 + b * 10 + a for s, k in OWN for p, b, a in _SHX[k]]
FB = 'every input of up to %s bytes to each of the seven framers (combined, combined with JSON, and the five single-format ones); and for every message kind of each framer one message (every header byte other than the sync and every payload and checksum byte unconstrained, payloads of 1 to 5 bytes) between up to two unconstrained bytes before and up to three after'
FBT = 'as quick with inputs of up to %s bytes and payloads of up to 9'
FO = 'larger payloads and longer arbitrary inputs; several interleaved malformed messages'
def fprop(pid, claim, jobs, q=None, t=None, **k): prop(pid, claim, [dict(module='framer', jobs=jobs)], dict(quick=q or FB % 6, thorough=t or FBT % 7), k.pop('outside', FO), mem=4000, **k)
fprop('F01', 'a message returned as valid satisfies the framing rules and checksum of its format', {'f01_any': QT(ANY(6), ANY(7)), 'f01_frame': QT(Q1, T1), 'f01_first': QT(Q1, T1)})
fprop('F02', 'output equals input, in order, nothing lost, duplicated or altered', {'f02_any': QT(ANY(6), ANY(7)), 'f02_frame': QT(Q1, T1)})
fprop('F03', 'a valid message is found after junk, after a message cut short, at its true length and format', {
   'f03_junk': QT(FR(True) + [3902, 3502], T1 + [3902, 3502]),
   'f03_long': QT([s * 10000 + k * 1000 + r for s, k in OWN for r in (254, 255, 256, 257, 300)], [s * 10000 + k * 1000 + r for s, k in OWN for r in (254, 255, 256, 257, 258, 300, 511, 512, 513, 700)]),
   'f03_cut': QT([k * 1000 + p * 100 + b * 10 + a for k in (0, 1, 3, 4, 5) for a in (0, 1, 3, 4, 6, 7) for b in ((0, 1, 4, 9) if k < 2 else (0,)) for p in (1,)] + [13103, 24104, 30100, 41101], [s * 10000 + k * 1000 + p * 100 + b * 10 + a for s in (0,) for k in (0, 1, 3, 4, 5) for a in (0, 1, 3, 4, 6, 7) for b in (R(10) if k < 2 else (0,)) for p in (1, 3)])},
   'junk of up to two unconstrained bytes (and 254..300 bytes of junk with the bytes at the look-ahead border unconstrained) before every kind of valid message with unconstrained contents; a binary, short binary, ASCII, short ASCII or NMEA message (binary: announcing a payload of 0, 10, 40 or 90 bytes) cut short at every byte followed by a complete message', 'larger messages, runs of 254..700, announced payloads 0..90', outside=FO + '; NMEA sentences of exactly 11 bytes, which the receiver never sends and the framer treats as noise')
fprop('F04', 'the same messages are returned however the input is cut into writes', {'f04_any': QT(ANY(4), ANY(5)), 'f04_frame': QT(FR(True, only=lambda s, k, p, b, a: (k, p, b) != (6, 2, 2)), T1), 'f04_bytes': QT(FR(True, only=lambda s, k, p, b, a: (b, a) == (0, 0)) + [6100, 56200, 6400], FR(True, only=lambda s, k, p, b, a: (b, a) == (0, 0)) + [6100, 56200, 6400]) },
   'every two-way and three-way cut of every input of up to 4 bytes; every cut of one message of every kind with unconstrained contents between up to two bytes before and three after; one byte at a time; the same or a new metadata object per call', 'inputs of 5 bytes, larger messages')
fprop('F05', 'a too small output buffer is reported, the message stays available and nothing is written past it', {'f05_any': QT(ANY(4), ANY(6)), 'f05_frame': QT(Q1, T1), 'f05_bad': QT(Q1, FR(True)), 'f05_run': R(7)},
   'every output size from 0 to the input length, for inputs of up to 4 bytes and one message of every kind, valid or with a bad checksum; 600 bytes of junk with 9 output sizes', 'inputs of up to 6 bytes')
fprop('F06', 'no byte outside the given buffers is read or written, and every call makes progress', {'f06_any': QT(ANY(6), ANY(7)), 'f06_frame': QT(Q1, T1)})
fprop('F07', 'flushing returns the bytes held, then the framer behaves like new', {'f07_cut': [s * 10000 + k * 1000 + 100 + a for s, k in OWN if k != 5 for a in (R(8) if s == 0 else [k])] + [5600 + a for a in R(8)], 'f07_any': QT([s * 100 + n * 10 + k for s, k in OWN for n in (1, 2, 3)], [s * 100 + n * 10 + k for s, k in OWN for n in (1, 2, 3, 4)])},
   'every prefix of one message of every kind, and every input of 1 to 3 bytes, flushed at once or in two steps, then a valid message of any kind', 'inputs of 4 bytes')
fprop('F08', 'payload-only framing returns exactly the payload', {'f08_payload': QT([k1 * 1000 + p1 * 100 + k2 * 10 + p2 for k1 in R(3) for p1 in (0, 1, 2, 5) for k2 in R(8) if k2 != 6 for p2 in ((1, 3) if k2 != 5 else (6,))], [k1 * 1000 + p1 * 100 + k2 * 10 + p2 for k1 in R(5) for p1 in (0, 1, 2, 5, 9) for k2 in (0, 1, 2, 3, 4) for p2 in (0, 1, 3, 8)])},
   'two consecutive messages, the first binary, short binary or proprietary, the second of any kind, payloads of 0..5 unconstrained bytes, exact and larger output buffers')
fprop('F10', 'an abbreviated log is its header line and its body lines; responses and lone lines', {'f10_log': QT([f * 1000 + l * 100 + t * 10 + b for f in (0, 5) for l in (1, 2, 3) for t in (1, 3, 4) for b in (0, 1, 2)], [f * 1000 + l * 100 + t * 10 + b for f in (0, 5) for l in (1, 2, 3, 4, 5) for t in R(1, 10) for b in (0, 1, 2, 3)]), 'f10_resp': QT([f * 100 + w * 10 + t for f in (0, 5) for w in (0, 1) for t in (0, 1, 2, 4)], [f * 100 + w * 10 + t for f in (0, 5) for w in (0, 1) for t in R(10)]), 'f10_alone': [0, 5]},
   'one to three body lines of up to 4 unconstrained characters, any 3-letter header name, anything after; responses with up to 4 characters', 'up to five lines of up to 9')
fprop('F11', 'reported format, length and response flag come from the frame itself', {'f11_two': [a * 100 + b * 10 + p for a in R(8) for b in R(8) for p in ((6, 7) if 5 in (a, b) else (1, 2, 4))], 'f11_after_bad': [a * 10 + b for a in R(5) for b in R(8)]},
   'every ordered pair of message kinds with unconstrained contents through the combined framer, with one or a new metadata object; every kind after a rejected message', outside='longer sequences; payloads other than those listed')
def _f09(cfgs, ks, bs, fr): return [c * 10000 + k * 1000 + (6 if k == 5 else 1) * 100 + b * 10 for c in cfgs for k in ks for b in bs if (c, k) not in ((2, 1), (3, 0)) and not (fr and c == 1 and k < 2)]
fprop('F09', 'the manager delivers every byte once, reports registered formats and leaves others unknown', {
   'f09_any': QT([c * 100 + n for c in R(7) for n in R(1, 5)], [c * 100 + n for c in R(7) for n in R(1, 7)]), 'f09_lone': QT([f * 100 + n for f in R(6) for n in (2, 4, 5)], [f * 100 + n for f in R(6) for n in R(1, 7)]),
   'f09_found': _f09(R(6), [0, 1, 3, 4, 5, 6, 7], (0, 1), False), 'f09_frame': QT([x + 2 for x in _f09([1, 2, 3], [0, 1, 3, 4, 5, 6, 7], (0,), True)] + [3102, 4102, 5602, 6102, 7102, 100], [x + 2 for x in _f09(R(4), [0, 1, 3, 4, 5, 6, 7], (0, 1), False)]), 'f09_small': _f09(R(4), [0, 1, 3, 4, 5, 6, 7], (0,), False),
   'f09_cut': [100, 1100, 3100, 4100, 6102, 7101, 10100, 11100, 12100, 13100, 15600, 16102, 50100, 53101]},
   'seven sets of registered framers (all five single-format ones in two orders, the combined one, pairs, one, none): every input of up to 4 bytes; one message of each kind with unconstrained contents, after up to one and before up to two unconstrained bytes; every output size; every cut', 'inputs of up to 6 bytes',
   outside=FO + '; header and checksum bytes of binary messages are taken from those that start no other message')

# ---- filter
MODULES['filter'] = dict(harness='filter.cpp', srcs=[OS + 'filter.cpp', COMMON + 'common.cpp', 'src/common/src/common.cpp'])
def lprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='filter', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', 'message times with a fraction of a millisecond (the filter compares whole milliseconds)'), **k)
lprop('L01', 'a message passes exactly when its time lies inside the window (outside when inverted)', {'l01_time': R(32), 'l01_ms': QT([0, 1, 2, 324], R(0, 605, 9))}, 'every week, any whole-second bound and eight millisecond bounds, every message time, every combination of bounds and inversion; one-millisecond windows at 4000 bounds')
lprop('L02', 'identifier, name, status and response filters admit exactly the listed messages', {'l02_ids': [2, 3, 4, 5, 12, 13], 'l02_names': [2, 3, 4, 5, 12, 13], 'l02_status': [2, 3, 4, 5, 12, 13], 'l02_flags': [0], 'l02_combined': [0]}, 'lists of one and two arbitrary entries, given one by one or together, inverted or not; every message header; all filters combined')
lprop('L03', 'decimation passes exactly the multiples of the period and any period is safe', {'l03_ms': [0, 1], 'l03_any': [0], 'l03_small': [0, 1], 'l03_sec': [0]}, 'every period for safety; ten periods against every message time; every 16-bit period against times below 2^20 ms; periods given in seconds')
lprop('L04', 'after any history of additions, removals and clears only the filters then configured apply', {'l04_history': QT([200 + o for o in R(25)], [300 + o for o in R(25)]), 'l04_clear': [0], 'l04_remove': [0]}, 'every history of 2 operations (25 operations with variants and symbolic arguments) and every message header; clear after setting everything; removal of one of three arbitrary entries', 'every history of 3 operations')

# ---- headers
MDB = [COMMON + 'message_database.cpp', COMMON + 'common.cpp', 'src/common/src/common.cpp']
MODULES['header'] = dict(harness='header.cpp', srcs=[OS + 'header_decoder.cpp', OS + 'message_decoder.cpp', COMMON + 'message_decoder.cpp'] + MDB)
def hprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='header', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', ''), **k)
hprop('H01', 'binary headers decode to exactly the fields they carry', {'h01_long': [0], 'h01_short': [0], 'h01_layout': [0], 'h01_null': [0]}, 'every long and short binary header, decoded into structures holding any earlier message', outside='nothing')
_W = [(0, 1), (1, 1), (2, 5), (3, 5), (4, 1), (5, 8), (6, 8), (7, 5)]
hprop('H02', 'text headers decode to the values written', {'h02_long': [ab + 2 * s + 16 * w for ab in (0, 1) for s, n in _W for w in range(n)], 'h02_short': [ab + 2 * s + 16 * w for ab in (0, 1) for s, n in ((0, 1), (1, 5), (2, 1)) for w in range(n)], 'h02_json': [0, 40] + [s * 10 + w for s, n in ((1, 5), (2, 5), (3, 5), (5, 5), (6, 5), (7, 5)) for w in range(n)], 'h02_resp': [0]},
   'each field in turn over every value of every width (decimal numbers of 1 to 5 digits, hexadecimal ones of 1 to 8, six ports and time statuses, three names with suffixes and every sibling), nine times and six idle times', outside='other decimal fractions (library conversion); several fields varying at once (the fields are read independently)')
_G = [(0, 56), (1, 16), (2, 56), (3, 16)]
hprop('H03', 'malformed headers are rejected without reading past the header', {'h03_any': [n * 8 + k for k in (0, 1, 2, 3, 5, 6) for n in R(7)], 'h03_first': [0], 'h03_byte': [g * 100 + p for g, n in _G for p in R(n)], 'h03_cut': [g * 100 + p for g, n in _G for p in R(1, n)], 'h03_json': R(8)},
   'every text of up to 6 bytes after each leading character; any 28 bytes with an unknown beginning; every single-byte change and every cut of a well-formed header of each text form', outside='several changed bytes in one header')
hprop('H04', 'message counters advance exactly once per decoded message', {'h04_history': QT([111, 121, 222, 134, 136, 153, 335, 171, 1721, 3436, 5, 66336, 4444], [1111, 1212, 2222, 1134, 136, 153, 335, 171, 1721, 3436, 5, 66336, 4444, 12131, 33333333])}, 'histories of up to 5 messages of the binary, short binary, ASCII, short ASCII and abbreviated forms with any identifier below 4 and any type, failures and resets', outside='longer histories; the counter itself is C07')

# ---- definitions
MODULES['database'] = dict(harness='database.cpp', srcs=MDB)
def dprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='database', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', ''), **k)
_DOPS = [a * 10 + b for a in R(1, 10) for b in R(1, 10)]
dprop('D01', 'lookups return the latest definition added and not since removed', {'d01_history': QT([a for a in _DOPS if a != 66] + [111, 211, 131, 333, 433, 551, 755, 811, 921, 162], R(1, 10) + _DOPS + [a * 100 + b for a in R(1, 10) for b in (11, 33, 15, 21, 43, 61, 71, 81, 91, 25)]), 'd01_construct': [0], 'd01_alias': [0]}, 'every history of 2 and ten of 3 operations of 9 kinds, message identifiers unconstrained, three message names, two enumeration identifiers and three enumeration names; looked up under any identifier', 'ninety histories of 3 operations', outside='longer histories; other names')
dprop('D02', 'names and identifiers convert back and forth', {'d02_name': R(24), 'd02_id': [0], 'd02_text': QT(R(0, 6), R(0, 7))}, 'six known names (with an underscore, ending like a suffix, of one letter) with every suffix and every sibling; every 24-bit identifier; every text of up to 5 bytes against three known names', 'every text of up to 6 bytes', outside='identifiers whose response flag is set with a format other than ASCII, or with the unused format, which no name denotes')
dprop('D03', 'every field has its own aligned slot of its type', {'d03_layout': R(28), 'd03_store': R(28), 'd03_default': [k for k in R(28) if k != 13]}, 'every sequence of 3 (and a sample of those of 4) of 28 kinds of field, with and without the receiver alignment; any values stored in every field and element of three fields, one changed afterwards', outside='longer sequences (the layout of a field depends on the end of the previous one only)')
dprop('D04', 'copies are equal and independent', {'d04_copy': R(5), 'd04_enum': [0]}, 'copy, assignment, adding, merging and changing family of a definition with every kind of field; each of 26 attributes then changed on either side; enumerations with any two values', outside='changes of several attributes at once')

# ---- message bodies
CRC_CALL = ['-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'crc_call.h')]
MODULES['message'] = dict(harness='message.cpp', srcs=[OS + 'header_decoder.cpp', OS + 'message_decoder.cpp', OS + 'encoder.cpp', COMMON + 'message_decoder.cpp'] + MDB)
def mprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='message', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', ''), **k)
mprop('M01', 'each field gets the value at its declared position', {'m01_body': R(49), 'm01_counts': R(30, 49)}, 'every message of three fields, the first of each of 49 kinds (every scalar type, fixed, variable and text arrays, strings, arrays of records of three shapes, lengths held in other fields), the second of any kind; every value, every count up to 2 or 3, each byte of padding; structures used before', outside='messages of more fields (the position of a field depends on the end of the one before), longer arrays')
mprop('M02', 'decoding a binary message and encoding it again gives the same bytes', {'m02_same': R(49) + R(100, 149), 'm02_type': [0], 'm02_response': [0]}, 'every message of three fields as in M01, long and short header, every header byte but the milliseconds (4 values) free, every message type and sibling, output buffers of exactly the message length at 4 alignments; responses with texts up to 6 bytes', outside='milliseconds other than four values (the header keeps them as floating point), longer messages, message type bits 5 and 6 (reserved)')
mprop('M03', 'text encoding followed by decoding keeps every value, with the right checksum', {'m03_text': R(49) + R(100, 149), 'm03_pair': QT([5, 12, 27, 30, 31, 33, 34, 41, 43], [5, 12, 24, 27, 28, 30, 31, 33, 34, 35, 37, 41, 43]), 'm03_crc': R(16)}, 'every message of two fields, the first of each of 49 kinds; integers of five ranges each symbolic within one count of decimal digits, text of up to 2 free bytes, hexadecimal in full; checksum coverage for every such message, checksum value for 256 messages', 'additional pairs of arrays and strings', outside='floating-point fields (not claimed by the property), integers outside the ranges, UNKNOWN conversions without an encoder (%ucb), quote and asterisk inside STRING fields, which the format cannot express')
mprop('M04', 'nothing is written outside the buffer and a message that does not fit is reported', {'m04_sizes': [k * 10 + f for k in range(49) for f in range(5)], 'm04_body': [k * 10 + f for k in range(49) for f in range(5)], 'm04_header': R(10), 'm04_none': R(5), 'm04_response': R(5)}, 'messages of three fields (first of each of 49 kinds, smallest and largest values, empty and full arrays), their headers and bodies alone, messages without fields, responses; binary, ASCII, abbreviated, JSON and flattened output, long and short headers; every buffer size from 0 to 24 more than the message', outside='larger messages, values between the smallest and the largest')
mprop('M05', 'decoding a body reads only the bytes of the message and fails by status', {'m05_binary': QT([k + 100 * n for n in (0, 3, 7, 11, 16) for k in range(49)], [k + 100 * n for n in range(0, 25) for k in range(49)]), 'm05_cut': R(49), 'm05_text': QT([k + 1000 * n + 100 * a for n in (0, 1, 2, 3, 4) for a in (0, 1) for k in range(49)], [k + 1000 * n + 100 * a for n in range(7) for a in (0, 1) for k in range(49)]), 'm05_textcut': [k + 100 * a for a in (0, 1) for k in range(49)], 'm05_response': QT([0, 3, 4, 5, 10, 13, 16, 20, 23], [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 16, 18, 20, 23, 26, 28]), 'm05_json': R(49), 'm05_refused': [0]}, 'three-field definitions with each of 49 kinds first; every binary body of 0, 3, 7, 11 and 16 bytes, every cut of well-formed bodies, every text body of up to 4 characters (floating-point fields: 7 characters) before the end of an ASCII or abbreviated message, well-formed text with any one character replaced or cut anywhere, responses of up to 6 bytes, 21 shapes of JSON value; the message lies in a block of exactly its size', 'binary bodies of 0 to 24 bytes, text of up to 6 characters, longer responses', outside='longer arbitrary bodies, arbitrary JSON documents (the JSON reader itself is a third-party library, replaced by a stub)')
mprop('M06', 'names and values of enumerations correspond', {'m06_value': R(3), 'm06_name': QT([w + 10 * n + 100 * f for f in (0, 1, 2) for n in (1, 3, 4, 5, 6) for w in (0, 1, 2)], [w + 10 * n + 100 * f for f in (0, 1, 2) for n in range(1, 10) for w in (0, 1, 2)])}, 'enumerations of 1, 2 and 4 bytes with six values each, including those with the sign bit set: every value, in binary, ASCII, abbreviated and JSON output; every name of 1, 3, 4, 5 and 6 characters in ASCII, abbreviated and JSON input', 'every name of up to 9 characters', outside='enumerations whose largest value is the largest of their width, where no value is left for unknown names')
mprop('M07', 'JSON output is one valid document holding every field and value', {'m07_json': QT([k for k in range(49) if k != 40] + R(100, 149, 8), R(49) + R(100, 149)), 'm07_float': [0]}, 'every message of three fields as in M03, long and some short headers; numbers in ranges of one number of decimal digits, text below 0x80 free; infinities and NaN', 'every kind with short headers', outside='text bytes from 0x80 (the messages do not define their encoding), floating-point values beyond 9 examples')
mprop('M08', 'unknown messages are reported, unknown definitions fall back to the newest', {'m08_unknown': R(4), 'm08_response': [0]}, 'every identifier and definition checksum, in binary, ASCII, abbreviated and JSON metadata; a database of one message with two definitions and RXCONFIG')

# ---- range decompression
MODULES['range'] = dict(harness='range.cpp', srcs=[OS + 'rangecmp/range_decompressor.cpp', OS + 'rangecmp/channel_tracking_status.cpp', OS + 'filter.cpp', OS + 'header_decoder.cpp', OS + 'message_decoder.cpp', OS + 'encoder.cpp', COMMON + 'message_decoder.cpp'] + MDB)
def rprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='range', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', ''), **k)
rprop('R01', 'bit fields are exactly the addressed bits', {'r01_fixed': R(1, 65), 'r01_counted': R(1, 65), 'r01_sequence': R(18), 'r01_masks': [0]}, 'every width from 1 to 64 at each of 8 bit offsets, of every result type wide enough, with too few, just enough and more bytes; widths given at run time likewise; five fields in a row with 18 first and third widths; every content', outside='longer records (the cursor keeps only the bit offset and the bytes left)')
rprop('R02', 'malformed range messages cannot corrupt memory', {'r02_count': R(35), 'r02_cmp': [0, 20, 23, 24, 25, 47, 48], 'r02_cmp2': [0, 4, 36, 37, 38, 39, 40, 41, 84, 85, 86, 87, 88], 'r02_cmp4': QT([0, 21, 43, 29, 64, 38, 99, 119, 100], R(120)), 'r02_cmp5': QT([1, 22, 44, 29, 63, 38, 98, 118], R(120)), 'r02_many': R(4), 'r02_room': R(3), 'r02_skip': R(1, 53)},
      'any declared count with up to 6 bytes for all five forms; RANGECMP of up to two and RANGECMP2 of up to one observation with any content; RANGECMP4 and RANGECMP5 with any of five sets of satellites, four of signals, six of systems (a selection of the 120 in the quick run), every cut, any declared length; messages of more observations than fit; every size of output buffer; differential messages cut at every byte', 'all 120 structures of RANGECMP4 and RANGECMP5', outside='arbitrary satellite and signal masks; the header itself (H03) is well formed')
rprop('R03', 'compressed observations decode to the documented values', {'r03_cmp': R(35), 'r03_cmp2': R(35), 'r03_cmp4': R(70), 'r03_cmp5': R(70), 'r03_cmp4_diff': QT(R(35) + R(36, 70, 3), R(70))}, 'one observation (and one of a second signal) of each of 35 documented signals of 7 systems, every raw value of every field, every GLONASS channel; floating-point results compared bit for bit with the documented formula', 'the second signal of every differential pair', outside='signals and systems the documentation does not define; LBAND; slant of the documented scale factors themselves (constants of the specification, taken from the receiver documentation)')
rprop('R04', 'extended lock times follow the signal', {'r04_cmp2': QT([0, 6, 11, 12, 18, 27, 34], R(35)), 'r04_reset': [0], 'r04_cmp4': QT([0, 1, 3, 6, 9, 12, 13, 14, 15], R(16)), 'r04_cmp4_fall': R(16)}, 'three messages at any times in order (odd milliseconds of two weeks, across the end of the week or not), any reported values for RANGECMP2, classes consistent with a lock time below 700 s for RANGECMP4, and falls after up to two rises; another satellite and antenna in between', 'all 35 signals, all 16 first classes', outside='whole-second times (R05); reports in which the class stays behind the lock time')
rprop('R05', 'differential blocks use their own reference only', {'r05_match': QT([0, 6, 11, 18, 27], R(35)), 'r05_skip': R(8), 'r05_skip_signals': R(4)}, 'a reference with any identifier, one of six intervening events (none, reset, whole second of the same or the other antenna, another message, a replacement), a differential block with any identifier of the same or another satellite and antenna; up to three blocks in a message with any subset of references', 'all 35 signals', outside='longer histories')
rprop('R06', 'channel tracking status words survive', {'r06_word': [0], 'r06_prn': [0], 'r06_wavelength': R(35), 'r06_cmp2': R(35), 'r06_cmp4': R(35), 'r06_cmp5': R(35)}, 'every 32-bit word; every satellite number of every system; every header and block of each of 35 documented signals', outside='undocumented signals')
rprop('R07', 'tracking keys are distinct for distinct signals', {'r07_status': [0], 'r07_block': [0], 'r07_cmp2': QT([0, 6, 18], R(35)), 'r07_cmp4': QT([0, 6, 18], R(35))}, 'every pair of status words with satellites below 293 and of block keys with satellites 1 to 64, two antennas; stored state observed through pairs of RANGECMP2 and RANGECMP4 messages of any two of 35 signals', 'all 35 first signals')

# ---- commands
MODULES['commander'] = dict(harness='commander.cpp', srcs=[OS + 'commander.cpp', OS + 'header_decoder.cpp', OS + 'message_decoder.cpp', OS + 'encoder.cpp', COMMON + 'message_decoder.cpp'] + MDB)
def kprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='commander', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', ''), **k)
kprop('K01', 'commands convert to binary or text messages that decode to the same command',
      {'k01_binary': R(20) + [k for k in R(100, 120) if k != 117], 'k01_text': R(20) + [k for k in R(100, 120) if k != 117], 'k01_crc': R(20), 'k01_none': R(20), 'k01_few': R(20), 'k01_sizes': R(40), 'k01_any': QT([0, 1, 2, 3, 4] + [10000 + 100 * k + n for k in (0, 1, 5, 7, 8, 12, 17, 19) for n in (1, 2, 3, 4)], R(6) + [10000 + 100 * k + n for k in range(20) for n in range(1, 6)]), 'k01_name': R(7), 'k01_long': QT(R(6), R(9)), 'k01_args': [0]},
      'commands of one parameter of each of 20 kinds with any value (numbers of up to 4 free decimal or 1 free hexadecimal digits and near their limits, strings of up to 4 free characters, with and without quotes) or of two, the second with one value; binary bytes compared in full, ASCII by decoding and its checksum; commands without and with too few parameters; every size of the output buffer; any text of up to 4 characters alone and after a name; names of up to 6 characters; up to 70000 characters; the member and the static function, missing pointers and databases, every format', 'any text of up to 5 characters',
      outside='commands of three and more parameters with several free values; strings holding an asterisk in the ASCII form (there it ends the body); surplus parameters (ignored)')

# ---- configuration logs
MODULES['rxconfig'] = dict(harness='rxconfig.cpp', flags=CRC_CALL, srcs=[OS + 'rxconfig/rxconfig_handler.cpp', OS + 'header_decoder.cpp', OS + 'message_decoder.cpp', OS + 'encoder.cpp', COMMON + 'message_decoder.cpp'] + list(dict.fromkeys(MDB + FRAMERS)))
def xprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='rxconfig', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', ''), **k)
xprop('X01', 'RXCONFIG embeds and reproduces the original configuration log',
      {'x01_binary': QT(R(49) + R(100, 149, 4), R(49) + R(100, 149)), 'x01_ascii': QT([0, 2, 5, 7, 13, 14, 16, 20, 22, 24, 30, 31, 34, 36, 44, 48], [k for k in R(49) if k not in (9, 39)]), 'x01_forms': [k for k in R(49) if k not in (9, 10, 23, 28, 42, 45, 46)], 'x01_convert': [0, 5, 24, 34, 35]},
      'an embedded message of two fields, the first of each of 49 kinds with any value and up to two elements, every field of both binary headers (milliseconds of four values), long and short embedded headers, both identifiers; the raw representation and the re-encoded bytes and checksums in full; the text form against the encoder of plain messages with six checksums (three with leading zeros), values as in M03, the abbreviated form by repetition, the JSON form against that of the embedded message; the handler with its own framer in four output formats', 'the same for every kind',
      outside='the text checksum is a constant in the runs over texts (the function itself is decided by C01 to C06); embedded messages of three and more fields; unquoted characters < and * in the abbreviated form')
xprop('X02', 'malformed RXCONFIG messages cannot corrupt memory',
      {'x02_cut': [k * 3 + f for k in (0, 5, 24, 27, 31, 34, 36) for f in R(3)], 'x02_length': [0, 5, 24, 27, 31, 34, 35, 36, 44], 'x02_any': QT(R(0, 9) + [100 + n for n in (0, 3, 18, 19, 20, 21)] + [200 + n for n in R(5)], R(0, 11) + [100 + n for n in R(23)] + [200 + n for n in R(6)]), 'x02_header': QT([0, 1, 5, 8, 9, 10, 24, 25, 30, 36, 105, 109, 115, 120], R(0, 42) + R(100, 125)), 'x02_byte': QT(R(44) + R(1000, 1096, 3) + R(2000, 2096, 3), R(44) + R(1000, 1096) + R(2000, 2096)), 'x02_sizes': [k * 4 + f for k in (0, 8, 13, 24, 27, 31, 34, 36, 44) for f in R(4)], 'x02_args': [0]},
      'every cut of the body in three formats; any length in the embedded header; any payload of up to 8 (binary), 2 bytes before the checksums (ASCII) and 4 bytes (abbreviated); any embedded binary header with up to 36 bytes in all; any single changed byte; every size of the output buffer in four formats for nine kinds; any identifier, missing databases and pointers, other formats', 'payloads of any content one or two bytes longer, every changed byte',
      outside='several changed bytes in one text payload; payloads longer than those listed')

# ---- parser
MODULES['parser'] = dict(harness='parser.cpp', flags=CRC_CALL, srcs=list(dict.fromkeys([OS + 'parser.cpp'] + MODULES['range']['srcs'] + MODULES['rxconfig']['srcs'])))
def pprop(pid, claim, jobs, b, t=None, **k): prop(pid, claim, [dict(module='parser', jobs=jobs)], dict(quick=b, thorough=t or b), k.pop('outside', ''), **k)
_PP = [a * 100 + b for a in R(18) for b in R(18)]
pprop('P01', 'the parser returns each message of a stream as it would be returned alone',
      {'p01_pair': _PP, 'p01_options': R(18), 'p01_three': QT([a * 100 + b for a in R(18) for b in (a * 5 % 18, (a * 7 + 4) % 18)], _PP), 'p01_flush': QT([a * 100 + b for a in R(18) for b in (a * 7 % 18, (a * 5 + 9) % 18)], _PP), 'p01_cut': QT([a * 100 + a * 5 % 18 for a in R(18)], [a * 100 + b for a in R(18) for b in (0, 4, 7, 9, 14, 16, a * 5 % 18)]), 'p01_any': QT(R(1, 6), R(1, 7)), 'p01_intermediate': R(18)},
      'every ordered pair of 18 items (messages of every header form, RXCONFIG, responses, a range message to decompress, an unknown identifier, a message without a matching body, headers cut short, NMEA, JSON, a wrong checksum, two bytes of junk) with unconstrained values in the binary ones, four output formats; each item between two others with every combination of unknown bytes returned or not, responses skipped or not, decompression or not and no, an including and an excluding filter; three-item sequences with a cut header in the middle; every cut of a stream of two items into two writes; every cut of an item flushed before another; any input of up to 5 bytes', 'every such sequence and flush, seven cuts for each item, any input of up to 6 bytes',
      outside='streams of four and more items; messages that decode but cannot be encoded (they are passed over); several writes; JSON, which the parser does not frame')
pprop('P02', 'the file parser returns the results of the parser over the whole stream, whatever its chunks, and reads it again',
      {'p02_file': QT([a * 100 + b for a in R(18) for b in (a, a * 5 % 18, (a * 7 + 4) % 18, 4, 10)], _PP), 'p02_options': R(18), 'p02_chunk': R(18), 'p02_args': [0]},
      'streams of two of the 18 items of P01, read to the end, reset and read again; each item at the end of a stream with every combination of options; each item across the end of a read of the stream at up to twelve places, after 32768 bytes less those; no stream, an empty or ended one, one replaced by another', 'every pair of items',
      outside='files and the standard stream classes themselves: the stream is a stand-in of the harness with the semantics of the standard; streams longer than two reads')

# ---- definition files
MODULES['jsondb'] = dict(harness='jsondb.cpp', srcs=list(dict.fromkeys([COMMON + 'json_db_reader.cpp'] + MODULES['message']['srcs'])))
def dprop5(b, t): prop('D05', 'definition files load into exactly the definitions they describe', [dict(module='jsondb', jobs={
    'd05_fields': R(49), 'd05_texts': QT([p + 10 * n for n in (0, 1, 2) for p in R(10)], [p + 10 * n for n in (0, 1, 2, 3) for p in R(10)]), 'd05_numbers': QT([p + 10 * n for n in (1, 2, 3, 5, 10, 11) for p in R(8)], [p + 10 * n for n in range(1, 13) for p in R(8)]), 'd05_missing': R(9), 'd05_types': R(90), 'd05_cut': [0], 'd05_crc': [p + 10 * n for n in range(0, 5) for p in (0, 1)]})], dict(quick=b, thorough=t), 'the JSON reader itself (simdjson, replaced by a stand-in), schedules of the loading tasks (N02, run inline here), the text of the failure, array sizes whose product overflows, names of unknown types')
dprop5('documents of one message and one enumeration; the message has fields of each of 49 kinds (every scalar type, arrays, strings, enumerations, nested records of three shapes); any text of up to 2 characters in each of ten places; any number of up to 5 digits and of 10 and 11 digits near the limits in each of eight places; each member left out and replaced by a value of each of ten other types; the document cut at every byte; any checksum text of up to 4 characters',
       'texts of up to 3 characters, numbers of up to 12 digits')
