"""C15 Compression"""
import bz2
import datetime
import zlib

from vlib.engine import Suite, check, eq, Violation
from vlib import ref

from pgp import message, utils
from pgp.packets import packets, parsers

suite = Suite('C15', 'Data of 0..20000 octets (runs, text, random octets, '
              'sizes around powers of two), all algorithms and levels, '
              'compressed and decompressed in random pieces. Non-trivial: at '
              'least 100 octets.')

LEVELS = {0: [None], 1: [None] + list(range(10)), 2: [None] + list(range(10)),
          3: [None] + list(range(1, 10))}


def data(d, hi=20000):
    k = d.draw(5)
    if k == 0:
        return d.blob(0, 64)
    if k == 1:
        # repeated phrases
        phrase = d.blob(1, 40)
        return phrase * d.int(1, hi // len(phrase))
    if k == 2:
        return b''.join(d.list(0, 12, lambda d: d.blob(0, hi // 12,
                                                       mean=300)))
    return d.blob(0, hi, mean=2000, edges=(255, 256, 4096, 16384))


def split(d, b):
    if d.bool(0.3):
        return [b]
    out, o = [], 0
    for _ in range(d.int(1, 6)):
        n = d.size(0, len(b) - o, max(1, len(b) // 4))
        out.append(b[o:o + n])
        o += n
    out.append(b[o:])
    return out


def ref_compress(d, alg, b):
    if alg == 0:
        return b
    if alg == 3:
        return bz2.compress(b, d.int(1, 9))
    level = d.int(0, 9)
    wbits = d.choice([15, 15, 9, 12])
    c = zlib.compressobj(level, zlib.DEFLATED, -wbits if alg == 1 else wbits,
                         d.choice([8, 1, 9]), d.choice([0, 1, 2, 3, 4]))
    out = b''
    for piece in split(d, b):
        out += c.compress(piece)
        if d.bool(0.2):
            out += c.flush(d.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
    return out + c.flush()


def ref_decompress(alg, b):
    """-> the data; the stream must be complete and nothing may follow"""
    if alg == 0:
        return b
    o = bz2.BZ2Decompressor() if alg == 3 else \
        zlib.decompressobj(-15 if alg == 1 else 15)
    out = o.decompress(b)
    check(o.eof, 'the compressed stream is not complete')
    check(not o.unused_data, 'octets after the compressed stream')
    return out


def run(obj, name, pieces):
    out = b''
    for p in pieces:
        out += bytes(getattr(obj, name)(p))
    return out + bytes(obj.flush())


def pick(d):
    alg = d.choice([1, 2, 3, 0])
    level = d.choice(LEVELS[alg])
    d.label('algorithm %d' % alg)
    return alg, level


@suite.prop(quick=4000, thorough=60000)
def streams(d):
    """The compressors against independent ones, in pieces, both ways."""
    alg, level = pick(d)
    b = data(d)
    d.note('data', b)
    d.note('algorithm, level', (alg, level))
    d.nontrivial(len(b) >= 100)
    c = run(utils.get_compression_instance(alg, level), 'compress',
            split(d, b))
    eq(ref_decompress(alg, c), b, 'data an independent decompressor reads')
    eq(run(utils.get_compression_instance(alg), 'decompress', split(d, c)),
       b, 'data decompressed again')
    c = ref_compress(d, alg, b)
    eq(run(utils.get_compression_instance(alg), 'decompress', split(d, c)),
       b, 'data of an independent compressor')



def literal(d):
    """-> packet octets, content"""
    b = data(d, 6000)
    name = d.bytes(d.draw(4))
    body = b'b' + bytes([len(name)]) + name + b'\x51\x02\x03\x04' + b
    return body, b


@suite.prop(quick=2500, thorough=40000)
def packet_sequences(d):
    """compress_packets and decompress_data are inverse to each other and
    agree with independent compressors."""
    alg, level = pick(d)
    n = d.int(1, 4)
    raw = []
    for _ in range(n):
        tag = d.choice([11, 10, 13, 60, 62])
        fmt = 'new' if tag > 15 else d.choice(['new', 'old'])
        body = literal(d)[0] if tag == 11 else data(d, 4000)
        raw.append(ref.packet(fmt, tag, body))
    whole = b''.join(raw)
    d.note('packets', [len(r) for r in raw])
    d.nontrivial(len(whole) >= 100)
    pkts = list(parsers.parse_binary_packet_data(bytearray(whole)))
    eq(len(pkts), n, 'number of packets')
    cls = packets.CompressedDataPacket
    c = bytes(cls.compress_packets(alg, level, pkts))
    eq(ref_decompress(alg, c), whole, 'octets compressed')
    give = d.choice([bytes, bytearray])
    for what, stream in (('own', c), ('foreign', ref_compress(d, alg,
                                                              whole))):
        back = cls.decompress_data(alg, give(stream))
        eq([bytes(p) for p in back], raw, 'packets from the %s stream' % what)
    d.label('%d packets' % n)


@suite.prop(quick=1500, thorough=20000)
def messages(d):
    """Messages survive compression, serialisation and parsing."""
    depth = d.int(1, 3)
    b = data(d, 6000)
    stamp = datetime.datetime(2014, 1, 2, 3, 4, 5)
    if d.bool():
        m = message.BinaryMessage(b, 'name', stamp)
        want = b
    else:
        want = b.decode('latin1').replace('\x00', ' ')
        m = message.TextMessage(want, 'name', stamp)
    d.nontrivial(len(b) >= 100)
    algs = []
    headers = [d.int(1, 2)]
    m.packet_header_type = headers[0]
    plain = b''.join(bytes(p) for p in m.to_packets())
    inner = [plain]
    for _ in range(depth):
        alg, level = pick(d)
        algs.append(alg)
        m = m.compress(alg, level)
        headers.append(d.int(1, 2))
        m.packet_header_type = headers[-1]
        inner.append(b''.join(bytes(p) for p in m.to_packets()))
        d.note('header formats', headers)
    d.note('algorithms', algs)
    octets = b''.join(bytes(p) for p in m.to_packets(
        d.choice([None, 1, 2])))
    # independent reading of the octets
    stream = octets
    for alg in reversed(algs):
        pk = ref.read_packets(stream)
        eq(len(pk), 1, 'number of packets')
        eq(pk[0][1], 8, 'packet type')
        eq(pk[0][2][0], alg, 'algorithm octet')
        stream = ref_decompress(alg, pk[0][2][1:])
        inner.pop()
        eq(stream, inner[-1], 'octets compressed')
    # and what an independent program would have written
    foreign = plain
    for alg in algs:
        body = bytes([alg]) + ref_compress(d, alg, foreign)
        k = d.draw(4)
        if k == 0:
            foreign = ref.old_packet(8, body, 3)
        elif k == 1 and len(body) > 600:
            foreign = ref.partial_packet(8, body, [9])
        else:
            foreign = ref.packet(d.choice(['new', 'old']), 8, body)
    for what, o in (('own', octets), ('foreign', foreign)):
        obj = message.open_pgp_message_from_packets(
            parsers.parse_binary_packet_data(bytearray(o)))
        for alg in reversed(algs):
            check(isinstance(obj, message.CompressedMessageWrapper),
                  'not a compressed message', obj)
            eq(obj.compression_algorithm, alg, 'algorithm')
            obj = obj.get_message()
        got = obj.data
        eq(bytes(got) if isinstance(want, bytes) else got, want,
           'content of the %s message' % what)


@suite.prop(quick=2000, thorough=30000)
def truncated(d):
    """A truncated stream is an error, not a shorter content."""
    alg = d.choice([1, 2, 3])
    body, b = literal(d)
    whole = ref.packet(d.choice(['new', 'old']), 11, body)
    c = ref_compress(d, alg, whole)
    cut = d.size(1, len(c), 20)
    c = c[:len(c) - cut]
    d.note('compressed', c)
    d.note('cut', cut)
    d.nontrivial(len(whole) >= 100)
    try:
        back = packets.CompressedDataPacket.decompress_data(alg, c)
    except Exception:
        return
    raise Violation('truncated data was decompressed to %d packets'
                    % len(back), [bytes(p) for p in back])
