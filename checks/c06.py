"""C06 number encodings"""
from vlib.engine import Suite, check, eq
from vlib import ref

from pgp import utils
from pgp import crc24 as crcmod

suite = Suite('C06', 'Integers are drawn up to 4100 bits (some up to 65535) with a bias to 2^k-1, '
              '2^k, 2^k+1, single-zero-bit and small numbers, and placed at '
              'random offsets between random bytes; a case is non-trivial '
              'when the number or field is non-zero. The expected bytes come '
              'from int.to_bytes / a bitwise CRC written from the RFC.')


def number(d):
    if d.draw(30) == 0:
        # the largest there can be
        d.label('up to 65535 bits')
        k = d.edge_int(4000, 65535, (65528, 65529, 65534, 32768))
        return (1 << k) - 1 - d.draw(1 << 30) if d.bool() else \
            (1 << (k - 1)) + d.draw(1 << 30)
    return d.bigint(4100)


@suite.prop(quick=4000)
def mpi(d):
    n = number(d)
    d.note('n', hex(n))
    d.nontrivial(n > 0)
    if n & (n + 1) == 0:
        d.label('2^k-1')
    elif n & (n - 1) == 0:
        d.label('2^k')
    enc = utils.int_to_mpi(n)
    eq(bytes(enc), ref.mpi(n), 'MPI of %d-bit integer' % n.bit_length())
    pre = d.blob(0, 12)
    post = d.blob(0, 12)
    buf = bytearray(pre + bytes(enc) + post)
    eq(utils.mpi_length(buf, len(pre)), (n.bit_length() + 7) // 8,
       'MPI length')
    val, off = utils.mpi_to_int(buf, len(pre))
    eq(val, n, 'decoded MPI')
    eq(off, len(pre) + len(enc), 'offset after MPI')
    val, off = utils.mpi_to_int(bytes(buf), len(pre))
    eq((val, off), (n, len(pre) + len(enc)), 'decoded MPI (bytes)')


@suite.prop(quick=1500)
def mpi_sequence(d):
    ns = d.list(1, 6, lambda d: d.bigint(600))
    d.note('values', ns)
    d.nontrivial(len(ns) > 1)
    buf = b''.join(bytes(utils.int_to_mpi(n)) for n in ns)
    off = 0
    got = []
    while off < len(buf):
        v, off = utils.mpi_to_int(bytearray(buf), off)
        got.append(v)
    eq(got, ns, 'sequence of MPIs')


@suite.prop(quick=300)
def mpi_negative(d):
    n = -d.int(1, 1 << 70)
    d.note('n', n)
    d.nontrivial()
    try:
        r = utils.int_to_mpi(n)
    except ValueError:
        return
    check(False, 'negative integer encoded', n, r)


@suite.prop(quick=4000)
def int_bytes(d):
    n = number(d)
    d.note('n', hex(n))
    d.nontrivial(n > 0)
    width = (n.bit_length() + 7) // 8
    got = bytes(utils.int_to_bytes(n))
    eq(got, n.to_bytes(width, 'big'), 'big-endian bytes')
    pre = d.blob(0, 6)
    post = d.blob(0, 6)
    eq(utils.bytes_to_int(bytearray(pre + got + post), len(pre), len(got)), n,
       'integer from bytes')


@suite.prop(quick=3000)
def fixed_width(d):
    pre = d.blob(0, 5)
    post = d.blob(0, 5)
    w = d.choice([1, 2, 4, 8])
    n = d.edge_int(0, (1 << (8 * w)) - 1,
                   edges=[1 << k for k in range(0, 8 * w, 4)])
    d.note('n', n)
    d.note('w', w)
    d.nontrivial(n > 0)
    e = n.to_bytes(w, 'big')
    if w > 1:
        got = {2: utils.int_to_2byte, 4: utils.int_to_4byte,
               8: utils.int_to_8byte}[w](n)
        eq(bytes(got), e, '%d-octet form' % w)
    buf = bytearray(pre + e + post)
    if w != 8:
        f = {1: utils.byte_to_int, 2: utils.short_to_int,
             4: utils.long_to_int}[w]
        eq(f(buf, len(pre)), n, '%d-octet read' % w)
    eq(utils.bytes_to_int(buf, len(pre), w), n, '%d-octet bytes_to_int' % w)


@suite.prop(quick=3000)
def hex_forms(d):
    b = d.blob(0, 40, mean=10)
    pre = d.blob(0, 6)
    post = d.blob(0, 6)
    d.note('bytes', b)
    d.nontrivial(len(b) > 0)
    h = b.hex().upper()
    eq(utils.bytearray_to_hex(bytearray(b)), h, 'hex of whole')
    eq(utils.bytearray_to_hex(bytearray(pre + b), len(pre)), h,
       'hex from offset')
    if b:
        eq(utils.bytearray_to_hex(bytearray(pre + b + post), len(pre),
                                  2 * len(b)), h, 'hex of a field')
    eq(bytes(utils.hex_to_bytes(h)), b, 'bytes from hex')
    eq(bytes(utils.hex_to_bytes(h.lower())), b, 'bytes from lower-case hex')
    extra = d.int(0, 6)
    if b or extra:
        eq(bytes(utils.hex_to_bytes(h, len(b) + extra)), b'\0' * extra + b,
           'padded bytes from hex')
    n = int.from_bytes(b, 'big')
    eq(utils.int_to_hex(n), '%X' % n, 'hex of integer')
    size = d.int(1, 40)
    eq(utils.int_to_hex(n, size), ('%0*X' % (size, n))[-size:],
       'fixed-size hex of integer')


@suite.prop(quick=600)
def s2k_count(d):
    c = d.int(0, 255)
    d.note('octet', c)
    d.nontrivial()
    n = utils.s2k_count_to_int(c)
    eq(n, ref.s2k_decode_count(c), 'iteration count of octet %d' % c)
    eq(bytes(utils.int_to_s2k_count(n)), bytes([c]),
       'octet of iteration count %d' % n)


VALID_COUNTS = {ref.s2k_decode_count(c): c for c in range(256)}


@suite.prop(quick=2000)
def s2k_count_any(d):
    n = d.edge_int(0, 70000000, edges=sorted(VALID_COUNTS)[::5])
    d.note('count', n)
    d.nontrivial()
    try:
        r = bytes(utils.int_to_s2k_count(n))
    except ValueError:
        check(n not in VALID_COUNTS, 'representable count refused', n)
        return
    check(n in VALID_COUNTS, 'unrepresentable count encoded', n, r)
    eq(r, bytes([VALID_COUNTS[n]]), 'octet of count')


@suite.prop(quick=3000)
def length_fields(d):
    n = d.edge_int(0, 0xffffffff, edges=[192, 256, 8384, 65536, 1 << 24,
                                          1 << 31])
    d.note('length', n)
    d.nontrivial(n > 0)
    enc, rest = utils.new_packet_length_to_bytes(n, d.bool())
    eq(rest, 0, 'remaining length')
    eq(bytes(enc), ref.new_length(n), 'new-format length of %d' % n)
    pre = d.blob(0, 5)
    buf = bytearray(pre + bytes(enc) + b'\x99\x98')
    eq(tuple(utils.new_packet_length(buf, len(pre))),
       (len(pre) + len(enc), n, False), 'new-format length read')
    # any value of any width is read as the RFC says
    lt = d.choice([0, 1, 2])
    w = 1 << lt
    v = d.edge_int(0, (1 << (8 * w)) - 1)
    buf = bytearray(pre + bytes([0x80 | d.int(0, 15) << 2 | lt]) +
                    v.to_bytes(w, 'big') + b'zz')
    eq(tuple(utils.old_packet_length(buf, len(pre))),
       (len(pre) + 1 + w, v), 'old-format length read')
    e = d.int(0, 30)
    eq(tuple(utils.new_packet_length(bytearray(pre + bytes([224 + e])),
                                     len(pre))),
       (len(pre) + 1, 1 << e, True), 'partial length read')


@suite.prop(quick=1500)
def crc(d):
    b = d.blob(0, 600, mean=40)
    d.note('data', b)
    d.nontrivial(len(b) > 0)
    eq(crcmod.crc24(bytearray(b)), ref.crc24(b), 'CRC-24')
    eq(crcmod.crc24(b), ref.crc24(b), 'CRC-24 of bytes')
