#!/usr/bin/env python3
"""mutate.py [--files a,b] [--n N] [--seed S] [--jobs J] OUT.jsonl
Makes random one-place changes to copies of /repo and records which checks
notice them (a help for finding blind spots; the copies live in /tmp/mut)."""
import argparse, ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
ORDER = {
 'pgp/armor.py': 'C03 C25', 'pgp/crc24.py': 'C06 C03', 'pgp/db/gpg.py': 'C22',
 'pgp/keyserver/hkp.py': 'C24', 'pgp/keyserver/__init__.py': 'C24', 'pgp/regex.py': 'C21',
 'pgp/s2k.py': 'C07 C05 C09', 'pgp/user_id.py': 'C23',
 'pgp/shortcuts.py': 'C18 C26 C24 C12', 'pgp/packets/parsers.py': 'C01 C25',
 'pgp/packets/user_attribute_subpackets.py': 'C02 C25 C18',
 'pgp/packets/signature_subpackets.py': 'C04 C17 C25',
 'pgp/packets/packets.py': 'C01 C02 C04 C05 C25 C09 C12 C13 C10 C15',
 'pgp/packets/constants.py': 'C02 C04 C10',
 'pgp/message.py': 'C26 C12 C13 C14 C10 C15 C16',
 'pgp/signature.py': 'C17 C10 C11 C20 C04',
 'pgp/transferrable_keys.py': 'C18 C19 C20 C10 C11 C05 C09 C23 C17',
 'pgp/utils.py': 'C06 C01 C05 C10 C08 C15 C11 C12 C07 C16',
 'pgp/cipher/base.py': 'C08', 'pgp/cipher/aidea.py': 'C08', 'pgp/cipher/camellia.py': 'C08',
 'pgp/cipher/twofish.py': 'C08', 'pgp/cipher/wrapper.py': 'C08', 'pgp/cipher/__init__.py': 'C08',
}
ALL = ['C%02d' % i for i in range(1, 27)]

def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    tree = ast.parse(src)
    out = []
    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def add(a, z, new, what, line):
        new = new.encode() if isinstance(new, str) else new
        if b[a:z] != new:
            out.append((path, line, what, a, z, new))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.add(n.body[0]); skip.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__hash__'):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith('warnings.'):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise) and n.exc is not None:
            skip.update(ast.walk(n.exc))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(n)
        if isinstance(n, ast.Assert):
            skip.update(ast.walk(n))
    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
           ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '+', ast.LShift: '>>',
           ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|'}
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        a, z = pos(n)
        L = n.lineno
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            add(a, z, '(%s %s %s)' % (ast.unparse(n.left), op, ast.unparse(n.comparators[0])), 'cmp', L)
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                add(a, z, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % ast.unparse(v) for v in vs), 'boolop drop', L)
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(a, z, '(%s)' % o.join('(%s)' % ast.unparse(v) for v in n.values), 'boolop', L)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or \
                isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(getattr(n.left, 'value', 0), int):
            add(a, z, '(%s %s %s)' % (ast.unparse(n.left), BIN[type(n.op)], ast.unparse(n.right)), 'binop', L)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(a, z, str(n.value + 1), 'const+1', L)
            if n.value:
                add(a, z, str(n.value - 1), 'const-1', L)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(a, z, str(not n.value), 'bool', L)
        elif isinstance(n, ast.Constant) and type(n.value) in (str, bytes) and n.value:
            add(a, z, repr(n.value + (b'x' if type(n.value) is bytes else 'x')), 'str', L)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(a, z, '(%s)' % ast.unparse(n.operand), 'not', L)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            add(a, z, 'pass', 'delete', L)
        elif isinstance(n, ast.Return) and n.value is not None:
            add(a, z, 'return None', 'return', L)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            ta, tz = pos(n.test)
            add(ta, tz, 'True' if not isinstance(n, ast.While) else 'False', 'cond', L)
            add(ta, tz, 'False', 'cond', L)
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            ta, tz = pos(n.type)
            add(ta, tz, 'ZeroDivisionError', 'except', L)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            add(a, z, '%s(%s, %s)' % (ast.unparse(n.func), ast.unparse(n.args[1]), ast.unparse(n.args[0])), 'swap', L)
    return out

def run(i, m, jobs, scale):
    path, line, what, a, z, new = m
    root = '/tmp/mut/%d-%d' % (os.getpid(), i)
    shutil.copytree(REPO, root, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    try:
        p = os.path.join(root, path)
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:a] + new + b[z:])
        try:
            ast.parse(open(p).read())
        except SyntaxError:
            return None
        first = ORDER.get(path, '').split()
        rest = [c for c in ALL if c not in first]
        t = time.time()
        for c in first + rest:
            for attempt in range(1):
                r = subprocess.run(['/verif/run_check.sh', c, '--no-evidence', '--jobs', str(jobs), '--scale', str(scale if c in first else scale / 2)],
                                   env=dict(os.environ, VERIF_REPO=root), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                return dict(killed=c, path=path, line=line, what=what, old=b[a:z].decode(), new=new.decode(), s=time.time() - t)
            if r.returncode not in (0, 1):
                return dict(killed='%s rc %d' % (c, r.returncode), path=path, line=line, what=what, old=b[a:z].decode(), new=new.decode(), s=time.time() - t)
        return dict(killed=None, path=path, line=line, what=what, old=b[a:z].decode(), new=new.decode(), s=time.time() - t)
    finally:
        shutil.rmtree(root, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--n', type=int, default=50)
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--par', type=int, default=4); ap.add_argument('--scale', type=float, default=0.5)
    ap.add_argument('--only-first', action='store_true')
    a = ap.parse_args()
    if a.only_first:
        ALL[:] = []
    os.makedirs('/tmp/mut', exist_ok=True)
    ms = [m for f in (a.files.split(',') if a.files else ORDER) for m in mutants(f)]
    random.Random(a.seed).shuffle(ms)
    print(len(ms), 'possible')
    ms = ms[:a.n]
    with ThreadPoolExecutor(a.par) as ex, open(a.out, 'a') as f:
        for r in ex.map(lambda im: run(im[0], im[1], a.jobs, a.scale), enumerate(ms)):
            if r:
                f.write(json.dumps(r) + '\n'); f.flush()
main()
