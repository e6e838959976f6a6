"""C01 packet framing"""
import io

from vlib.engine import Suite, check, eq
from vlib import ref

from pgp.packets import constants as C
from pgp.packets import packets
from pgp.packets import parsers

suite = Suite('C01', 'Packets with bodies of 0..70000 octets (lengths biased to '
              'the length-encoding boundaries and +-1), both header formats, '
              'every tag, canonical and longer length forms, partial-length '
              'chunkings, sequences of up to 8; non-trivial: more than one '
              'packet, a body at a boundary, or a chunked body. Oracle: a '
              'framing reader/writer written from RFC 4880 section 4.2.')

EDGES = [0, 1, 191, 192, 255, 256, 8383, 8384, 65535, 65536]
FMT = {'new': C.NEW_PACKET_HEADER_TYPE, 'old': C.OLD_PACKET_HEADER_TYPE}
NAME = {v: k for k, v in FMT.items()}
# tags with no assigned body layout: any body is a well-formed one
FREE_OLD = [15]
FREE_NEW = [15] + list(range(20, 60)) + [62]
# known tags whose bodies are (nearly) opaque
OPAQUE = [8, 9, 18]


def gen_body(d, lo=0, hi=70000, mean=300):
    return d.blob(lo, hi, mean=mean, edges=[e for e in EDGES
                                            if lo <= e <= hi])


def gen_item(d):
    fmt = d.choice(['new', 'old'])
    if d.bool(0.3):
        tag = d.choice(OPAQUE if fmt == 'new' else OPAQUE[:2])
        body = gen_body(d, 1)
    else:
        tag = d.choice(FREE_NEW if fmt == 'new' else FREE_OLD)
        body = gen_body(d)
    return fmt, tag, body


def boundary(d, n):
    for e in EDGES:
        if abs(n - e) <= 1:
            d.label('length near %d' % e)
            if n > 1:
                d.nontrivial()
            return


def read_both(raw, d=None):
    """Parses with both readers, checks that they agree, returns packets."""
    a = list(parsers.parse_binary_packet_data(raw))
    fh = io.BytesIO(raw)
    b = list(parsers.parse_binary_packet_stream(fh))
    eq(fh.tell(), len(raw), 'stream position at the end')
    sa = [(NAME.get(p.header_format), p.type, bytes(p.content)) for p in a]
    sb = [(NAME.get(p.header_format), p.type, bytes(p.content)) for p in b]
    check(sa == sb, 'buffer and stream reader disagree', sa, sb)
    eq([type(p) for p in a], [type(p) for p in b], 'packet classes')
    return a, sa


@suite.prop(quick=2500)
def write_any_tag(d):
    """Header written for any tag, format and body length."""
    fmt = d.choice(['new', 'old'])
    tag = d.int(1, d.choice([63, 15]))
    body = gen_body(d)
    d.note('fmt', fmt)
    d.note('tag', tag)
    d.note('body', body)
    boundary(d, len(body))
    d.nontrivial(len(body) > 0)
    p = packets.Packet(FMT[fmt], tag, body)
    if tag > 15:
        # no old header can hold it
        fmt = 'new'
    eq(bytes(p), ref.packet(fmt, tag, body), 'serialised packet')
    eq(bytes(p), ref.packet(fmt, tag, body), 'serialised packet (again)')


@suite.prop(quick=1500)
def sequence_round_trip(d):
    items = d.list(1, 8, gen_item, mean=2)
    d.note('items', [(f, t, len(b)) for f, t, b in items])
    for f, t, b in items:
        boundary(d, len(b))
    d.nontrivial(len(items) > 1)
    d.label('%d packets' % len(items))
    raw = b''.join(ref.packet(*i) for i in items)
    ps, got = read_both(raw)
    check(got == items, 'packets read differ', got, items)
    out = [bytes(p) for p in ps]
    check(out == [ref.packet(*i) for i in items],
          'packets written differ from those read')
    # individually, at an offset
    off = 0
    for i, it in enumerate(items):
        off2, p = packets.packet_from_packet_data(raw, off)
        eq(off2, off + len(ref.packet(*it)), 'offset after packet %d' % i)
        eq(bytes(p), ref.packet(*it), 'packet %d' % i)
        off = off2
    fh = io.BytesIO(raw)
    pos = 0
    for i, it in enumerate(items):
        p = packets.packet_from_packet_stream(fh)
        pos += len(ref.packet(*it))
        eq(fh.tell(), pos, 'stream position after packet %d' % i)
        eq(bytes(p), ref.packet(*it), 'streamed packet %d' % i)


@suite.prop(quick=1200)
def longer_length_forms(d):
    """Lengths may be written in a wider form than needed."""
    items = []
    raw = b''
    for _ in range(d.int(1, 4)):
        fmt, tag, body = gen_item(d)
        if fmt == 'new':
            lf = 5
            raw += ref.new_packet(tag, body, lf)
        else:
            need = 0 if len(body) < 256 else 1 if len(body) < 65536 else 2
            lf = d.int(need, 2)
            raw += ref.old_packet(tag, body, lf)
        items.append((fmt, tag, body))
    d.note('items', [(f, t, len(b)) for f, t, b in items])
    d.nontrivial()
    ps, got = read_both(raw)
    check(got == items, 'packets read differ', got, items)
    check([bytes(p) for p in ps] == [ref.packet(*i) for i in items],
          're-written packets are not canonical')


def gen_chunks(d, lo=512, hi=40000):
    """RFC-conforming chunking: first chunk >= 512 octets."""
    exps = [d.choice([9, 9, 9, 10, 11, 12])]
    for _ in range(d.size(0, 6, 2)):
        exps.append(d.weighted([(3, d.int(0, 9)), (1, d.int(9, 13))]))
    tail = d.weighted([(1, 0), (2, d.int(1, 191)), (1, d.int(192, 8383)),
                       (1, d.choice([191, 192, 8383, 8384]))])
    return exps, tail


@suite.prop(quick=800)
def partial_lengths(d):
    """Chunked data packets, alone or amid other packets."""
    before = d.list(0, 2, gen_item, mean=1)
    after = d.list(0, 2, gen_item, mean=1)
    exps, tail = gen_chunks(d)
    tag = d.choice([8, 9, 18, 9, 9])
    body = d.bytes(sum(1 << e for e in exps) + tail)
    d.note('chunks', exps)
    d.note('tail', tail)
    d.note('neighbours', (len(before), len(after)))
    d.label('%d chunks' % len(exps))
    d.nontrivial()
    raw = b''.join(ref.packet(*i) for i in before) + \
        ref.partial_packet(tag, body, exps) + \
        b''.join(ref.packet(*i) for i in after)
    items = before + [('new', tag, body)] + after
    ps, got = read_both(raw)
    check(got == items, 'packets read differ',
          [(f, t, len(b)) for f, t, b in got],
          [(f, t, len(b)) for f, t, b in items])
    check([bytes(p) for p in ps] == [ref.packet(*i) for i in items],
          're-written packets differ')


@suite.prop(quick=64, thorough=400)
def large_chunks(d):
    """Chunks of up to a million octets and more."""
    exps = [d.int(9, d.choice([17, 17, 20, 22]))]
    for _ in range(d.int(0, 3)):
        exps.append(d.int(0, 17))
    tail = d.weighted([(1, 0), (1, d.int(1, 8384)), (1, d.int(8384, 70000))])
    body = d.bytes(sum(1 << e for e in exps) + tail)
    after = d.list(0, 2, gen_item, mean=1)
    d.note('chunks', exps)
    d.note('tail', tail)
    d.label('largest chunk 2^%d' % max(exps))
    d.nontrivial(max(exps) > 13)
    raw = ref.partial_packet(9, body, exps) + \
        b''.join(ref.packet(*i) for i in after)
    ps, got = read_both(raw)
    items = [('new', 9, body)] + after
    check(got == items, 'packets read differ',
          [(f, t, len(b)) for f, t, b in got],
          [(f, t, len(b)) for f, t, b in items])
    check([bytes(p) for p in ps] == [ref.packet(*i) for i in items],
          're-written packets differ')


@suite.prop(quick=500)
def partial_literal(d):
    """A chunked literal packet has the same fields as an unchunked one."""
    exps, tail = gen_chunks(d)
    name = d.text(0, 8, 'abc._')
    body = b'b' + bytes([len(name)]) + name.encode() + \
        ref.be(d.int(0, 0xffffffff), 4)
    data = d.bytes(sum(1 << e for e in exps) + tail - len(body)) \
        if sum(1 << e for e in exps) + tail > len(body) else b''
    body += data
    d.note('chunks', exps)
    d.nontrivial()
    a = list(parsers.parse_binary_packet_data(
        ref.partial_packet(11, body, exps)))
    b = list(parsers.parse_binary_packet_stream(
        io.BytesIO(ref.partial_packet(11, body, exps))))
    for ps in (a, b):
        eq(len(ps), 1, 'number of packets')
        eq(ps[0].filename, name, 'file name')
        eq(bytes(ps[0].data), data, 'data')


@suite.prop(quick=600)
def indeterminate_length(d):
    """Old-format indeterminate length: the body runs to the end."""
    before = d.list(0, 2, gen_item, mean=1)
    tag = d.choice([8, 9, 15])
    body = gen_body(d, 1)
    d.note('body', body)
    d.nontrivial()
    raw = b''.join(ref.packet(*i) for i in before) + \
        ref.old_packet(tag, body, 3)
    ps, got = read_both(raw)
    check(got == before + [('old', tag, body)], 'packets read differ',
          [(f, t, len(b)) for f, t, b in got])


@suite.prop(quick=600)
def input_types(d):
    """bytes and bytearray inputs give the same packets."""
    items = d.list(1, 4, gen_item, mean=2)
    d.nontrivial(len(items) > 1)
    d.note('items', [(f, t, len(b)) for f, t, b in items])
    raw = b''.join(ref.packet(*i) for i in items)
    for arg in (raw, bytearray(raw)):
        got = [(NAME.get(p.header_format), p.type, bytes(p.content))
               for p in parsers.parse_binary_packet_data(arg)]
        check(got == items, 'packets read from %s differ' %
              type(arg).__name__)


@suite.prop(quick=6, thorough=24)
def huge(d):
    """Bodies around 2^24 octets."""
    fmt = d.choice(['new', 'old'])
    n = (1 << 24) + d.choice([-1, 0, 1, 70000])
    body = d.bytes(n)
    d.note('fmt', fmt)
    d.note('n', n)
    d.nontrivial()
    tag = d.choice([9, 15])
    raw = bytes(packets.Packet(FMT[fmt], tag, body))
    check(raw == ref.packet(fmt, tag, body), 'serialised %d-octet body' % n)
    two = raw + ref.new_packet(60, b'tail')
    ps = list(parsers.parse_binary_packet_stream(io.BytesIO(two)))
    eq([p.type for p in ps], [tag, 60], 'tags')
    check(bytes(ps[0].content) == body, 'body read from stream')
    ps = list(parsers.parse_binary_packet_data(two))
    eq([p.type for p in ps], [tag, 60], 'tags')
    check(bytes(ps[0].content) == body, 'body read from buffer')
