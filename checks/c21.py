"""C21 Regular expressions are judged by the standard's grammar"""
from vlib.engine import Suite, Violation, check

from pgp.exceptions import RegexValueError
from pgp.regex import validate_subpacket_regex

suite = Suite('C21', 'Strings derived from the grammar of RFC 4880 section 8 '
              '(nested groups, ranges with ] and ^ and - at each place, '
              'escapes, empty branches), the same with one to four edits, '
              'random strings over the significant characters, every string '
              'of up to 4 (thorough: 6) such characters, and deep nesting. '
              'Non-trivial: at least one significant character. Oracle: a '
              'recogniser of our own. Not judged: an unescaped ] outside a '
              'range (the standard does not say whether it has significance).')

SIG = '|*+?()[]^$.-\\'


def recognise(s):
    """True: derivable, False: not, None: the standard does not say."""
    depth = 0
    i = 0
    n = len(s)
    operand = False             # the last piece may still take a * + or ?
    gray = False
    while i < n:
        c = s[i]
        i += 1
        if c == '|':
            operand = False
        elif c in '*+?':
            if not operand:
                return False
            operand = False
        elif c == '(':
            depth += 1
            operand = False
        elif c == ')':
            if not depth:
                return False
            depth -= 1
            operand = True
        elif c == '[':
            if i < n and s[i] == '^':
                i += 1
            if i < n and s[i] == ']':
                i += 1
            end = s.find(']', i)
            if end < 0:
                return False
            i = end + 1
            operand = True
        elif c == '\\':
            if i == n:
                return False
            i += 1
            operand = True
        else:
            if c == ']':
                gray = True
            operand = True
    if depth:
        return False
    return None if gray else True


def judge(s):
    try:
        got = validate_subpacket_regex(s)
    except RegexValueError as e:
        str(e)
        return False
    check(got is None, 'the validator answers by returning None or raising',
          got)
    return True


def agree(d, s):
    want = recognise(s)
    d.note('expression', s)
    if want is None:
        d.label('not judged: ] outside a range')
        judge(s)
        return
    d.label('valid' if want else 'invalid')
    got = judge(s)
    check(got == want, 'accepted although not derivable' if got else
          'refused although derivable', s)


def one(d):
    k = d.draw(6)
    if k < 3:
        return d.choice('abcxyz019 ')
    if k == 3:
        return d.choice('{}-,:=!<>@/"\'&~#%_;`')
    return d.char()


def literal(d):
    while True:
        c = one(d)
        if c not in SIG or c == '-':
            return c
        if d.prefix is not None:
            return 'a'


def brange(d):
    body = ''
    neg = d.bool(0.35)
    if d.bool(0.3):
        body += ']'
        d.label('range: ] first')
    if d.bool(0.2):
        body += '-'
    for _ in range(d.size(0, 5, 1)):
        k = d.draw(8)
        if k < 3:
            c = literal(d)
            body += c if c != ']' else 'a'
        elif k == 3:
            body += d.choice(['0-9', 'a-z', 'A-Z', '!-~'])
        elif k == 4:
            body += d.choice('[(|*+?).$')
            d.label('range: significant character')
        elif k == 5:
            body += '^'
        elif k == 6:
            body += '\\'
            d.label('range: backslash')
        else:
            body += d.choice(['[:alpha:', '[^', '\\\\', '(a', '|)'])
    if not neg:
        body = body.lstrip('^')
        # stripping may have brought a ] or nothing to the front
    if not body:
        body = literal(d)
    if ']' in body[1:]:
        body = body[0] + body[1:].replace(']', '')
    if d.bool(0.15):
        body += '-'
    return '[' + ('^' if neg else '') + body + ']'


def atom(d, depth):
    k = d.draw(10)
    if k < 3:
        return literal(d)
    if k == 3:
        return d.choice('.^$')
    if k == 4:
        d.label('escape')
        return '\\' + (d.choice(SIG) if d.bool() else one(d))
    if k < 7:
        return brange(d)
    if depth <= 0:
        return literal(d)
    d.label('group')
    return '(' + regexp(d, depth - 1) + ')'


def branch(d, depth):
    return ''.join(d.list(0, 5, lambda d: atom(d, depth) + d.choice(
        ['', '', '', '*', '+', '?']), mean=3))


def regexp(d, depth=4):
    return '|'.join(d.list(0 if d.bool(.2) else 1, 4, lambda d: branch(d, depth), mean=1))


@suite.prop(quick=24000)
def derived(d):
    s = regexp(d, d.int(0, 5))
    d.key = s
    want = recognise(s)
    if want is not True:
        raise Violation('harness: generator and recogniser disagree: %r' % s)
    d.nontrivial(any(c in s for c in SIG))
    agree(d, s)


@suite.prop(quick=24000)
def edited(d):
    s = regexp(d, d.int(0, 4))
    for _ in range(d.int(1, 4)):
        k = d.draw(4)
        p = d.draw(len(s) + 1)
        if k == 0:
            s = s[:p] + s[p + 1:]
        elif k == 1:
            s = s[:p] + d.choice(SIG) + s[p:]
        elif k == 2:
            s = s[:p] + d.choice(SIG) + s[p + 1:]
        else:
            s = s[:p]
    d.key = s
    d.nontrivial(any(c in s for c in SIG))
    agree(d, s)


@suite.prop(quick=24000)
def random_strings(d):
    s = d.text(0, 24, alphabet=SIG + 'a]\n', mean=8)
    d.key = s
    d.nontrivial(any(c in s for c in SIG))
    agree(d, s)


ALPHA = 'a|*([)]^\\-'


def small(n):
    """The n-th string over ALPHA in length order."""
    k = len(ALPHA)
    length = 0
    while n >= k ** length:
        n -= k ** length
        length += 1
    out = ''
    for _ in range(length):
        n, r = divmod(n, k)
        out += ALPHA[r]
    return out


@suite.prop(quick=450, thorough=9000)
def exhaustive(d):
    """One case is a block of 1000 successive strings of the enumeration of
    all strings of up to six characters."""
    b = d.draw(12) if d.bool(0.25) else d.draw(1112)
    d.key = b
    d.nontrivial()
    for n in range(b * 1000, b * 1000 + 1000):
        s = small(n)
        want = recognise(s)
        if want is None:
            continue
        got = judge(s)
        if got != want:
            raise Violation(('accepted although not derivable: %r' if got else
                             'refused although derivable: %r') % s)


@suite.prop(quick=12000)
def all_short(d):
    """Strings of up to four characters, one per case (so that a failure
    shrinks to the shortest)."""
    n = d.draw(11111)
    s = small(n)
    d.key = s
    d.nontrivial(len(s) > 0)
    agree(d, s)


@suite.prop(quick=60, timeout=60)
def deep_and_long(d):
    n = d.int(1, 3000)
    k = d.draw(7)
    inner = regexp(d, 2)
    s = ['(' * n + inner + ')' * n,
         '(' * n + inner + ')' * (n - 1),
         '(' * n + inner + ')' * (n + 1),
         '[' * n,
         '[' * n + ']',
         'a*' * n + inner,
         '|' * n + inner + '|'][k]
    if recognise(inner) is None:
        d.reject()
    d.label(['balanced', 'unterminated', 'one too many', 'open range',
             'range of brackets', 'many pieces', 'many branches'][k])
    d.key = (k, n, inner)
    d.nontrivial()
    want = recognise(s)
    if want is None:
        d.reject()
    got = judge(s)
    check(got == want, 'deep or long expression judged wrongly', k, n, inner,
          got)


@suite.prop(quick=2000)
def repeat_is_stable(d):
    """The answer for one expression does not depend on what was judged
    before it."""
    xs = [regexp(d, 2), d.text(0, 8, alphabet=SIG + 'a', mean=4)]
    first = [judge(x) for x in xs]
    for x in d.shuffle(xs * 2):
        judge(x)
    d.key = tuple(xs)
    d.nontrivial()
    check([judge(x) for x in xs] == first, 'another answer later', xs)
