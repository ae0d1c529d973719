#!/opt/veriftools/pyvenv/bin/python
"""Sampled mutation testing of the checks (development aid, not a check).

    mutate.py list FILES...          number of mutants
    mutate.py run OUT N SEED FILES   sample N mutants; for each run the checks mapped to its file
                                     (small scale, stop at the first violation), then the stable
                                     tests on the survivors; append one line per mutant to OUT

Every mutant lives in its own copy of /repo/src under /tmp (VERIF_REPO).
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = '/repo/src/hwp5/'
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '*',
       ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|'}
SKIP_CALL = re.compile(r'(logger|logging|warnings|print|_\(|parser\.add_argument|add_argument)')


def py_mutants(path):
    text = open(SRC + path, encoding='utf-8').read()
    tree = ast.parse(text)
    lines = text.split('\n')
    starts = [0]
    raw = text.encode('utf-8')
    for l in raw.split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode('utf-8')
    out = []

    def add(n, new, kind):
        a, b = span(n)
        if seg(n) != new:
            out.append((path, a, b, new, '%s:%d %s: %s -> %s' % (
                path, n.lineno, kind, seg(n).replace('\n', ' ')[:80], new.replace('\n', ' ')[:80])))

    def walk(n, infn):
        if isinstance(n, ast.Call) and SKIP_CALL.match(seg(n.func)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.If) and 'PY' in seg(n.test):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                add(n, '(%s %s %s)' % (seg(n.left), op, seg(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)
                    and isinstance(n.left.value, (str, bytes))):
                add(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + op2.join('(%s)' % seg(v) for v in rest) + ')', 'bool-drop')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % seg(n.operand), 'not')
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, repr(not v), 'const')
            elif isinstance(v, int):
                add(n, repr(v + 1), 'const')
                if v:
                    add(n, repr(v - 1), 'const')
            elif isinstance(v, str) and infn and v and len(v) < 40 and '%' not in v and '{' not in v:
                q = seg(n)
                if q and q[-1] in '"\'' and not q.endswith(('"""', "'''")):
                    add(n, q[:-1] + 'X' + q[-1], 'str')
        if isinstance(n, ast.Return) and n.value is not None and infn:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                add(n.value, 'None', 'ret')
        if isinstance(n, ast.Break):
            add(n, 'continue', 'break')
        if isinstance(n, ast.Continue):
            add(n, 'break', 'continue')
        if infn and isinstance(n, (ast.AugAssign,)) or (
                infn and isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield))):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                    and SKIP_CALL.match(seg(n.value.func))):
                add(n, 'pass', 'del')
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'raise')
        if isinstance(n, ast.Slice):
            for p in (n.lower, n.upper):
                if p is not None:
                    add(p, '(%s) + 1' % seg(p), 'slice')
        f = infn or isinstance(n, (ast.FunctionDef,))
        for name, c in ast.iter_fields(n):
            if name == 'decorator_list':
                continue
            for x in (c if isinstance(c, list) else [c]):
                if isinstance(x, ast.AST):
                    # docstrings
                    if isinstance(x, ast.JoinedStr):
                        continue
                    walk(x, f)
    walk(tree, False)
    return out


def xsl_mutants(path):
    text = open(SRC + path, encoding='utf-8').read()
    raw = text
    out = []

    def add(a, b, new, kind):
        line = raw.count('\n', 0, a) + 1
        A, B = len(raw[:a].encode()), len(raw[:b].encode())
        out.append((path, A, B, new, '%s:%d %s: %s -> %s' % (
            path, line, kind, ' '.join(raw[a:b].split())[:90], ' '.join(new.split())[:90])))
    for m in re.finditer(r'\btest="([^"]*)"', raw):
        add(m.start(1), m.end(1), 'not(%s)' % m.group(1), 'test')
        add(m.start(1), m.end(1), 'true()', 'test')
    for m in re.finditer(r'\b(?:select|test)="([^"]*)"', raw):
        for k in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', m.group(1)):
            add(m.start(1) + k.start(), m.start(1) + k.end(), str(int(k.group(1)) + 1), 'num')
        for a, b in ((' and ', ' or '), (' or ', ' and '), (' = ', ' != '), (' + ', ' - '),
                     (' - ', ' + '), (' * ', ' + '), (' div ', ' * '), ('&lt;', '&gt;'), (' > ', ' < ' if 0 else ' >= ')):
            for k in re.finditer(re.escape(a), m.group(1)):
                add(m.start(1) + k.start(), m.start(1) + k.end(), b, 'op')
    for m in re.finditer(r'<xsl:(value-of|apply-templates|call-template|copy-of)\b[^>]*?/>', raw):
        add(m.start(), m.end(), '', 'del')
    for m in re.finditer(r'<xsl:attribute\b.*?</xsl:attribute>', raw, re.S):
        if '<xsl:attribute' not in m.group(0)[5:]:
            add(m.start(), m.end(), '', 'delattr')
    for m in re.finditer(r'<xsl:template match="([^"]*)"', raw):
        add(m.start(1), m.end(1), 'XX' + m.group(1).replace('|', '').replace('/', '').replace('[', '').replace(']', '').replace('@', '').replace('*', '').replace(' ', '').replace("'", '').replace('=', ''), 'match')
    for m in re.finditer(r'>([^<>{}\n]*[A-Za-z#:;,\d][^<>{}\n]*)</xsl:(?:text|attribute)>', raw):
        add(m.start(1), m.end(1), m.group(1) + 'x', 'text')
    return out


def mutants(path):
    return py_mutants(path) if path.endswith('.py') else xsl_mutants(path)


MAP = [
    (r'^recordstream', 'C01 C02 C04 C03'),
    (r'^binmodel/controlchar|^binmodel/tagid51', 'C06 C04 C16'),
    (r'^binmodel/__init__', 'C05 C03 C04 C02 C13 C30 C29 C36'),
    (r'^binmodel/', 'C03 C13 C34 C14 C04'),
    (r'^bintype|^dataio', 'C34 C03 C14 C04 C28 C13 C05'),
    (r'^treeop', 'C33 C05 C07'),
    (r'^xmlmodel', 'C07 C08 C09 C10 C11 C12 C15 C36 C32'),
    (r'^xmlformat', 'C07 C13 C32'),
    (r'^xmldump_flat', 'C14 C32'),
    (r'^filestructure', 'C29 C20 C21 C23 C24 C27'),
    (r'^compressed|^zlib_raw', 'C25 C23 C26'),
    (r'^distdoc', 'C24 C29 C21'),
    (r'^proc/diststream', 'C24'),
    (r'^msoleprops|^summaryinfo|^proc/summaryinfo', 'C28 C21'),
    (r'^storage/|^plat/olefileio|^plat/gir_gsf', 'C20 C21 C22 C27 C32'),
    (r'^proc/(ls|cat|unpack)', 'C21 C22 C37'),
    (r'^proc/xml', 'C15 C07 C14'),
    (r'^proc/(records)', 'C01 C02'),
    (r'^proc/models', 'C05 C02 C06 C30 C37'),
    (r'^proc/find', 'C30 C31'),
    (r'^proc/|^hwp5proc|^cli', 'C29 C27 C37 C31'),
    (r'^plat/_lxml|^plat/xsltproc|^plat/xmllint', 'C19 C31'),
    (r'^plat/__init__', 'C19 C20 C31 C27'),
    (r'^utils', 'C26 C37 C31 C22 C05'),
    (r'^hwp5html', 'C17 C22 C31'),
    (r'^hwp5odt', 'C18 C31'),
    (r'^hwp5txt|^xsl/plaintext', 'C16 C31'),
    (r'^transforms', 'C16 C17 C18 C31'),
    (r'^charsets|^tokenizer', 'C35'),
    (r'^xsl/hwp5css', 'C38 C17'),
    (r'^xsl/hwp5html', 'C38 C17'),
    (r'^xsl/odt', 'C39 C18'),
    (r'^xsl/hwp5fodt', 'C18'),
    (r'^tagids', 'C01 C02 C30'),
    (r'^binspec', 'C34'),
]


def checks_for(path):
    for pat, cs in MAP:
        if re.match(pat, path):
            return [c for c in cs.split() if os.path.exists('/verif/checks/%s.py' % c.lower())]
    return []


TESTS = r'''
set -e
mount -t tmpfs t "$SCRATCH"
for d in /repo /opt/vp/state /opt/venv; do
  k="$SCRATCH/$(echo $d | tr / _)"; cp -a $d $k; mount --bind $k $d
done
cd /repo; cp "$MUT" "src/hwp5/$REL"
bash /opt/vp/test.sh "$OUT" > "$OUT.log" 2>&1
'''
SCALE = os.environ.get('MUT_SCALE', '0.15')
SHARDS = os.environ.get('MUT_SHARDS', '2')
JOBS = int(os.environ.get('MUT_JOBS', '4'))


def run_one(m):
    path, a, b, new, desc = m
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        os.makedirs(tmp + '/tests/hwp5_tests')
        shutil.copytree('/repo/src', tmp + '/src', ignore=shutil.ignore_patterns('__pycache__', 'odf-relaxng/OpenDocument-schema*'))
        os.symlink('/repo/tests/hwp5_tests/fixtures', tmp + '/tests/hwp5_tests/fixtures')
        f = tmp + '/src/hwp5/' + path
        raw = open(f, 'rb').read()
        open(f, 'wb').write(raw[:a] + new.encode() + raw[b:])
        if path.endswith('.py'):
            try:
                compile(open(f, encoding='utf-8').read(), f, 'exec')
            except SyntaxError:
                return 'SYNTAX  ' + desc
            env = dict(os.environ, PYTHONPATH=tmp + '/src')
            mod = 'hwp5.' + path[:-3].replace('/', '.').replace('.__init__', '')
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-c', 'import ' + mod], env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except subprocess.TimeoutExpired:
                return 'IMPORT  ' + desc
            if p.returncode:
                return 'IMPORT  ' + desc
        env = dict(os.environ, VERIF_REPO=tmp, VERIF_SEED='1', VERIF_TIER='quick')
        for c in checks_for(path):
            try:
                p = subprocess.run(['/opt/venv/bin/python', 'run.py', c, '--shards', SHARDS, '--scale', SCALE],
                                   cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   stdin=subprocess.DEVNULL, timeout=600)
            except subprocess.TimeoutExpired:
                return 'TIMEOUT ' + c + ' ' + desc
            if p.returncode == 1 and b'VIOLATION' in p.stdout:
                return 'killed  ' + c + ' ' + desc
            if p.returncode not in (0, 1):
                return 'rc=%d ' % p.returncode + c + ' ' + desc
        sd = tmp + '/s'
        os.makedirs(sd)
        env = dict(os.environ, SCRATCH=sd, MUT=f, REL=path, OUT=tmp + '/o.json')
        env.pop('VERIF_SEED', None)
        try:
            subprocess.run(['unshare', '-Urm', 'bash', '-c', TESTS], env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            got = json.load(open(tmp + '/o.json'))
            got = set(got.get('passed', got.get('pass', [])))
            missing = base - got
        except subprocess.TimeoutExpired:
            return 'tests-timeout ' + desc
        except Exception as e:
            return 'tests-error %r ' % e + desc
        return ('TESTED  ' if missing else 'SURVIVE ') + desc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    what = sys.argv[1]
    if what == 'list':
        for f in sys.argv[2:]:
            print(f, len(mutants(f)), checks_for(f))
        return
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    ms = [m for f in sys.argv[5:] for m in mutants(f)]
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    with ThreadPoolExecutor(JOBS) as ex, open(out, 'a') as o:
        for r in ex.map(run_one, ms):
            o.write(r + '\n')
            o.flush()


if __name__ == '__main__':
    main()
