#!/usr/bin/env python3
"""Development tool (no check uses it): small syntactic changes of the library that its own tests do not notice, run through the checks.

  mutate.py gen FILE... > MUTANTS.json         all mutants of the files (paths inside /repo)
  mutate.py test MUTANTS.json SURVIVORS.json   those that build and pass the library's tests
  mutate.py check SURVIVORS.json RESULTS.json  which check catches each (set VERIF_TLC_CACHE)
"""
import ast, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading
REPO = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
N = int(os.environ.get('MUT_CPUS', '7'))
CHECKS = {
    '_pvector.py': 'C02 C03 C04 C01 C21 C17 C11 C19 C20', 'pvectorcmodule.c': 'C04 C02 C03 C18 C19 C17 C01 C11 C21 C20',
    '_pmap.py': 'C05 C06 C11 C21 C01 C17 C19 C20', '_pset.py': 'C07 C06 C11 C21 C17 C19 C20', '_pbag.py': 'C08 C11 C17 C01 C19',
    '_pdeque.py': 'C09 C11 C17 C01 C19', '_plist.py': 'C10 C09 C11 C17 C01 C19', '_checked_types.py': 'C12 C06 C17 C21 C11 C13 C14 C19',
    '_precord.py': 'C13 C17 C21 C11 C19 C01', '_pclass.py': 'C14 C17 C11 C21 C19 C01', '_field_common.py': 'C13 C14 C12 C17 C19',
    '_transformations.py': 'C15 C21 C19', '_helpers.py': 'C16', '_immutable.py': 'C22', '_toolz.py': 'C15 C13',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not', '=='], ast.IsNot: ['is', '!='], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'],
       ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.BitXor: ['|']}


def gen_py(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    data = src.encode()
    at = lambda ln, col: off[ln - 1] + col
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    text = lambda n: data[slice(*span(n))].decode()
    out = []

    def add(n, new, what, a=None, b=None):
        if a is None:
            a, b = span(n)
        if data[a:b].decode() != new:
            out.append(dict(file=os.path.relpath(path, REPO), line=n.lineno, what=what, a=a, b=b, old=data[a:b].decode(), new=new))

    def between(l, r):
        return at(l.end_lineno, l.end_col_offset), at(r.lineno, r.col_offset)

    def visit(n, infun):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            infun = True
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
            return
        body = getattr(n, 'body', None)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and infun:
                for s in b:
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
                        add(s, 'pass', 'delete statement')
                    if isinstance(s, ast.Return) and len(b) > 1 or isinstance(s, ast.Return) and not isinstance(n, (ast.FunctionDef, ast.Module)):
                        add(s, 'pass', 'delete return')
        if infun:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = between(n.left, n.comparators[0])
                for o in CMP.get(type(n.ops[0]), []):
                    add(n, ' %s ' % o, 'comparison', a, b)
            if isinstance(n, ast.BinOp):
                a, b = between(n.left, n.right)
                t = data[a:b].decode()
                if '(' not in t and ')' not in t:
                    for o in BIN.get(type(n.op), []):
                        if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                            add(n, ' %s ' % o, 'arithmetic', a, b)
                if isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd)):
                    add(n, text(n.left), 'left operand only')
            if isinstance(n, ast.BoolOp):
                for i, v in enumerate(n.values):
                    rest = [text(x) for j, x in enumerate(n.values) if j != i]
                    add(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % r for r in rest), 'drop operand %d' % i)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                add(n, '(%s)' % text(n.operand), 'drop unary')
            if isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, str(n.value + 1), 'constant')
                if n.value:
                    add(n, str(n.value - 1), 'constant')
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, str(not n.value), 'constant')
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                t = '(%s)' % text(n.test)
                add(n.test, 'True', 'condition')
                add(n.test, 'False', 'condition')
                add(n.test, 'not ' + t, 'condition')
            if isinstance(n, ast.Call) and n.keywords:
                for k in n.keywords:
                    if k.arg and len(n.args) + len(n.keywords) > 1:
                        a, b = span(k)
                        while data[a - 1:a].isspace():
                            a -= 1
                        if data[a - 1:a] == b',':
                            a -= 1
                            add(k.value, '', 'drop keyword ' + k.arg, a, b)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and \
                    n.func.id in ('tuple', 'list', 'set', 'dict', 'sorted', 'reversed', 'frozenset', 'iter', 'bool', 'abs', 'len', 'copy'):
                add(n, text(n.args[0]), 'unwrap ' + n.func.id)
            if isinstance(n, ast.Slice):
                for p in ('lower', 'upper', 'step'):
                    x = getattr(n, p)
                    if x is not None:
                        add(x, '', 'drop slice ' + p)
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                add(n.type, 'ZeroDivisionError', 'no handler')
        for c in ast.iter_child_nodes(n):
            visit(c, infun)
    visit(ast.parse(src), False)
    return out


def gen_c(path):
    data = open(path).read()
    out, off, depth, infun = [], 0, 0, False
    rules = [(r'(?<![<>=!\-])<=(?!=)', ['<']), (r'(?<![<>=!\-])>=(?!=)', ['>']), (r'(?<![<>=!\-])<(?![<=])(?!\w+\.h>)', ['<=']), (r'(?<![<>=!\-])>(?![>=])', ['>=']),
             (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<=[\w)\]]) \+ (?=[\w(])', [' - ']), (r'(?<=[\w)\]]) - (?=[\w(])', [' + ']),
             (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'\bNULL\b(?=\))', [])]
    for i, line in enumerate(data.split('\n')):
        st = line.strip()
        if st and not st.startswith(('//', '/*', '*', '#', '"', 'static', 'PyMODINIT')) and line.startswith(' '):
            code = re.sub(r'"[^"]*"', lambda m: '"' + '_' * (len(m.group()) - 2) + '"', line.split('//')[0])
            for r, news in rules:
                for m in re.finditer(r, code):
                    for new in news:
                        out.append(dict(file=os.path.relpath(path, REPO), line=i + 1, what='c', a=off + m.start(), b=off + m.end(),
                                        old=line[m.start():m.end()], new=new))
            if st.endswith(';') and not re.match(r'(return|break|case|goto|\}|[\w*]+ \*?\w+( =|;))', st) and st.count('(') == st.count(')'):
                k = line.index(st)
                out.append(dict(file=os.path.relpath(path, REPO), line=i + 1, what='c delete', a=off + k, b=off + k + len(st), old=st, new=';'))
        off += len(line) + 1
    return out


class Pool(object):
    """Scratch copies of the repository, one per thread."""
    def __init__(self, tag):
        self.root = tempfile.mkdtemp(prefix='mut-' + tag, dir='/tmp')
        self.free, self.lock = [], threading.Lock()
        for i in range(N):
            w = os.path.join(self.root, str(i))
            subprocess.check_call(['git', 'clone', '-q', REPO, w])
            for f in os.listdir(REPO):
                if f.startswith('pvectorc') and f.endswith('.so'):
                    shutil.copy2(os.path.join(REPO, f), w)
            self.free.append(w)

    def with_mutant(self, m, f):
        with self.lock:
            w = self.free.pop()
        try:
            p = os.path.join(w, m['file'])
            data = open(p, 'rb').read()
            assert data[m['a']:m['b']].decode() == m['old'], m
            open(p, 'wb').write(data[:m['a']] + m['new'].encode() + data[m['b']:])
            try:
                return f(w, m)
            finally:
                open(p, 'wb').write(data)
        finally:
            with self.lock:
                self.free.append(w)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', CI='true', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1')
    for k in ('PYRSISTENT_NO_C_EXTENSION', 'PYTHONPATH'):
        e.pop(k, None)
    return e


def call(cmd, w, timeout, **kw):
    p = subprocess.Popen(cmd, cwd=w, env=dict(env(), **kw), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -9


def survives(w, m):
    ext = m['file'].endswith('.c')
    if m['file'].endswith('.py'):
        try:
            compile(open(os.path.join(w, m['file'])).read(), m['file'], 'exec')
        except SyntaxError:
            return False
    if ext and call([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], w, 100):
        return False
    t = [PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '-p', 'no:randomly']
    if ext:
        return call(t + ['tests'], w, 120) == 0
    return call(t + ['tests'], w, 90, PYRSISTENT_NO_C_EXTENSION='1') == 0 and call(t + ['tests'], w, 120) == 0 \
        and call(t + ['--doctest-modules', 'pyrsistent'], w, 60) == 0


def checks(w, m):
    for c in CHECKS[os.path.basename(m['file'])].split():
        p = subprocess.run(['python3', os.path.join(V, 'check.py'), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500,
                           env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=os.path.join(w, 'evidence'), VERIF_CPUS=os.environ.get('MUT_CHECK_CPUS', '2')))
        if p.returncode == 1:
            ls = p.stdout.splitlines()
            i = next((i for i, l in enumerate(ls) if l.startswith('VIOLATION')), 1)
            for l in ls:
                if l.startswith('VIOLATION'):
                    try:
                        os.unlink(l.split('replay=')[1])
                    except OSError:
                        pass
            return [c, ' | '.join(ls[max(0, i - 2):i])[:300]]
        if p.returncode != 0:
            return ['error ' + c, p.stdout[-600:]]
    return None


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'gen':
        out = []
        for f in args:
            out += (gen_c if f.endswith('.c') else gen_py)(os.path.join(REPO, f))
        for i, m in enumerate(out):
            m['id'] = i
        json.dump(out, sys.stdout, indent=0)
        sys.stderr.write('%d mutants\n' % len(out))
        return
    ms = json.load(open(args[0]))
    pool = Pool(cmd)
    res = []
    done = 0
    try:
        with concurrent.futures.ThreadPoolExecutor(N) as ex:
            fs = {ex.submit(pool.with_mutant, m, survives if cmd == 'test' else checks): m for m in ms}
            for f in concurrent.futures.as_completed(fs):
                m = fs[f]
                done += 1
                try:
                    r = f.result()
                except Exception as x:
                    r = ['tool error', repr(x)[:300]]
                if cmd == 'test':
                    if r is True:
                        res.append(m)
                        print(done, 'survives', m['file'], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]), flush=True)
                else:
                    m['result'] = r
                    res.append(m)
                    print(done, m['file'], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]), r or 'MISSED', flush=True)
                json.dump(sorted(res, key=lambda m: m['id']), open(args[1], 'w'), indent=0)
    finally:
        pool.close()
    print('done', len(res), 'of', len(ms))


main()
