#!/usr/bin/env python3
"""mutate2.py OUT.jsonl [--files a,b] [--n N] [--seed S] [--jobs J] [--par P]
Like mutate.py with other kinds of changes: lost octets, first or last items
left out, aliasing, dropped keyword arguments, exchanged order. Records which
checks notice them."""
import argparse, ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, as_completed
REPO = '/repo'
ORDER = {
 'pgp/armor.py': 'C03 C27 C25', 'pgp/crc24.py': 'C06 C03', 'pgp/db/gpg.py': 'C22 C28',
 'pgp/keyserver/hkp.py': 'C24', 'pgp/keyserver/__init__.py': 'C24', 'pgp/regex.py': 'C21',
 'pgp/s2k.py': 'C07 C05 C09', 'pgp/user_id.py': 'C23',
 'pgp/shortcuts.py': 'C27 C18 C26 C24 C12', 'pgp/packets/parsers.py': 'C01 C25 C29',
 'pgp/packets/user_attribute_subpackets.py': 'C02 C25 C18',
 'pgp/packets/signature_subpackets.py': 'C04 C17 C25',
 'pgp/packets/packets.py': 'C02 C01 C04 C05 C25 C09 C12 C13 C10 C15 C32 C26 C18',
 'pgp/message.py': 'C29 C26 C33 C12 C13 C14 C10 C15 C16 C11 C32',
 'pgp/signature.py': 'C17 C32 C33 C10 C11 C20 C04 C31',
 'pgp/transferrable_keys.py': 'C18 C19 C23 C20 C33 C31 C32 C11 C10 C05 C09 C17 C27',
 'pgp/utils.py': 'C06 C01 C05 C32 C10 C08 C15 C11 C12 C07 C16 C14 C13',
 'pgp/cipher/base.py': 'C08', 'pgp/cipher/aidea.py': 'C08',
 'pgp/signature_verification.py': 'C31',
 'pgp/pinentry/gpg_agent.py': 'C30', 'pgp/pinentry/getpass.py': 'C30',
}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def pos(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    def add(n, new, what):
        a, z = pos(n)
        new = new.encode()
        if b[a:z] != new:
            out.append((path, n.lineno, what, a, z, new))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__hash__'):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise) and n.exc is not None:
            skip.update(ast.walk(n.exc))
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith('warnings.'):
            skip.update(ast.walk(n))
    U = ast.unparse
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            s = n.slice
            for part in ('lower', 'upper'):
                v = getattr(s, part)
                if v is not None:
                    for d in ('+ 1', '- 1'):
                        m = ast.parse(U(n), mode='eval').body
                        w = '(%s) %s' % (U(v), d)
                        lo = U(s.lower) if s.lower else ''
                        up = U(s.upper) if s.upper else ''
                        if part == 'lower':
                            lo = w
                        else:
                            up = w
                        add(n, '%s[%s:%s]' % (U(n.value), lo, up), 'slice')
            if s.lower is None and s.upper is None:
                add(n, U(n.value), 'alias')
            elif s.lower is None or s.upper is None:
                add(n, U(n.value), 'noslice')
        elif isinstance(n, ast.Call):
            f = U(n.func)
            short = f.rsplit('.', 1)[-1]
            if short in ('bytes', 'bytearray', 'read', 'b64decode', 'unhexlify') and n.args:
                add(n, '%s.rstrip(b"\\0")' % U(n), 'rstrip0')
                add(n, '%s.lstrip(b"\\0")' % U(n), 'lstrip0')
                add(n, '%s.strip()' % U(n), 'strip')
            if short in ('decode', 'encode', 'format', 'join', 'group'):
                add(n, '%s.strip()' % U(n), 'strip')
            if short in ('decode', 'encode') and n.args:
                args = [U(n.args[0]), '"ignore"']
                add(n, '%s(%s)' % (f, ', '.join(args)), 'codec')
                add(n, '%s("latin-1", "replace")' % f, 'codec')
            if short in ('sorted', 'reversed', 'list', 'copy', 'deepcopy', 'set', 'int', 'abs') and n.args:
                add(n, U(n.args[0]), 'unwrap')
            if short in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'copy', 'replace') and isinstance(n.func, ast.Attribute):
                add(n, U(n.func.value), 'unwrap')
            if short == 'append':
                add(n, '%s.insert(0, %s)' % (U(n.func.value), U(n.args[0])), 'prepend')
            if short == 'max':
                add(n, 'min' + U(n)[3:], 'minmax')
            if short == 'min':
                add(n, 'max' + U(n)[3:], 'minmax')
            if short == 'get' and len(n.args) == 2:
                add(n, '%s(%s)' % (f, U(n.args[0])), 'nodefault')
            if short == 'range' and n.args:
                add(n, '%s[:-1]' % U(n), 'range')
                add(n, '%s[1:]' % U(n), 'range')
            for i, k in enumerate(n.keywords):
                if k.arg:
                    ks = [U(x) for x in n.args] + ['%s=%s' % (x.arg, U(x.value)) if x.arg else '**' + U(x.value)
                                                   for j, x in enumerate(n.keywords) if j != i]
                    add(n, '%s(%s)' % (f, ', '.join(ks)), 'nokw ' + k.arg)
            if len(n.args) > 2:
                for i in range(len(n.args) - 1):
                    xs = [U(x) for x in n.args]
                    xs[i], xs[i + 1] = xs[i + 1], xs[i]
                    add(n, '%s(%s)' % (f, ', '.join(xs + ['%s=%s' % (x.arg, U(x.value)) if x.arg else '**' + U(x.value) for x in n.keywords])), 'argswap')
        elif isinstance(n, ast.For):
            add(n.iter, 'list(%s)[:-1]' % U(n.iter), 'lastleft')
            add(n.iter, 'list(%s)[:1]' % U(n.iter), 'firstonly')
            add(n.iter, 'list(%s)[::-1]' % U(n.iter), 'reversed')
        elif isinstance(n, ast.Try) and n.finalbody:
            for st in n.finalbody:
                add(st, 'pass', 'nofinally')
        elif isinstance(n, (ast.FunctionDef,)):
            defs = n.args.defaults
            for dflt in defs:
                if isinstance(dflt, ast.Constant) and dflt.value in (None, True, False):
                    add(dflt, {None: 'True', True: 'False', False: 'True'}[dflt.value], 'default')
        elif isinstance(n, ast.If) and n.orelse and not isinstance(n.orelse[0], ast.If):
            # else branch does nothing
            a = pos(n.orelse[0])[0]
            z = pos(n.orelse[-1])[1]
            out.append((path, n.orelse[0].lineno, 'noelse', a, z, b'pass'))
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
            add(n, U(n.values[0]), 'orfirst')
        elif isinstance(n, ast.IfExp):
            add(n, U(n.body), 'ifexp')
            add(n, U(n.orelse), 'ifexp')
        elif isinstance(n, ast.AugAssign):
            add(n, '%s = %s' % (U(n.target), U(n.value)), 'augassign')
        elif isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            g = n.generators[0]
            if g.ifs:
                t = U(n)
                cond = ' if ' + U(g.ifs[0])
                if cond in t:
                    add(n, t.replace(cond, '', 1), 'nofilter')
            add(g.iter, 'list(%s)[:1]' % U(g.iter), 'firstonly')
        elif isinstance(n, ast.Constant) and type(n.value) is int and n.value > 3:
            for v in {n.value * 2, n.value // 2, n.value + 7} - {n.value}:
                add(n, str(v), 'const')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = {ast.Lt: '!=', ast.GtE: '==', ast.Gt: '!=', ast.LtE: '=='}.get(type(n.ops[0]))
            if o:
                add(n, '(%s %s %s)' % (U(n.left), o, U(n.comparators[0])), 'cmpeq')
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and U(n.comparators[0]) == 'None':
                add(n, ('not (%s)' if isinstance(n.ops[0], ast.Is) else 'bool(%s)') % U(n.left), 'truthy')
    return out


def run(i, m, jobs, scales):
    path, line, what, a, z, new = m
    root = '/tmp/mut/%d-%d' % (os.getpid(), i)
    shutil.copytree(REPO, root, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    try:
        p = os.path.join(root, path)
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:a] + new + b[z:])
        res = dict(killed=None, path=path, line=line, what=what, old=b[a:z].decode(), new=new.decode())
        try:
            ast.parse(open(p).read())
        except SyntaxError:
            return None
        t = time.time()
        for scale in scales:
            for c in ORDER[path].split():
                try:
                    r = subprocess.run(['/tmp/verifmut/run_check.sh', c, '--no-evidence', '--jobs', str(jobs), '--scale', str(scale)],
                                       env=dict(os.environ, VERIF_REPO=root), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc:
                    res['killed'] = c if rc == 1 else '%s rc %d' % (c, rc)
                    res['s'] = time.time() - t
                    return res
        res['s'] = time.time() - t
        return res
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--n', type=int, default=50)
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('--par', type=int, default=8); ap.add_argument('--scales', default='0.03,0.5')
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    os.makedirs('/tmp/mut', exist_ok=True)
    ms = [m for f in (a.files.split(',') if a.files else ORDER) for m in mutants(f)]
    random.Random(a.seed).shuffle(ms)
    print(len(ms), 'possible')
    if a.count:
        for m in ms[:a.n]:
            print(m)
        return
    ms = ms[:a.n]
    with ThreadPoolExecutor(a.par) as ex, open(a.out, 'a') as f:
        scales = [float(x) for x in a.scales.split(',')]
        fs = [ex.submit(run, i, m, a.jobs, scales)
              for i, m in enumerate(ms)]
        for r in as_completed(fs):
            r = r.result()
            if r:
                f.write(json.dumps(r) + '\n'); f.flush()
main()
