"""Development tool: mutate the code, keep mutants which pass the stable tests, run the checks against them.

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--sample FRACTION] [--seed N] [--workers N] [--skip DONE.jsonl]
Works on copies of /repo and /verif under /tmp/mut; no check uses this.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, threading, queue, time

REPO, VERIF, WORK = '/repo', '/verif', '/tmp/mut'
PY = '/opt/venv/bin/python'


def segments(src):
    lines = src.split('\n')
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    return start


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    raw = src.encode()
    tree = ast.parse(src)
    start = segments(src)
    out = []

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, a, b, new))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr):
            docs.add(n.body[0])
    ops = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
           ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
    bins = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*',
            ast.BitAnd: '|', ast.BitOr: '&'}
    labels = {'X': 'Y', 'Y': 'X', 'U': 'V', 'V': 'U', 'M': 'N', 'N': 'M', 'T': 'U', 'left': 'right', 'right': 'left'}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in ops.get(type(n.ops[0]), []):
                put(n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in bins and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            put(n, '(%s %s %s)' % (text(n.left), bins[type(n.op)], text(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + o.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), 'const')
            elif isinstance(v, int):
                put(n, str(v + 1), 'const')
                if v > 0:
                    put(n, str(v - 1), 'const')
            elif isinstance(v, float) and v == v and abs(v) != float('inf'):
                put(n, repr(v * 2 if v else 1.0), 'const')
            elif isinstance(v, str) and v in labels:
                put(n, repr(labels[v]), 'label')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.Constant):
            put(n.test, 'not (%s)' % text(n.test), 'not')
        elif isinstance(n, ast.AugAssign):
            put(n, 'pass', 'del')
            o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if o:
                put(n, '%s %s %s' % (text(n.target), o, text(n.value)), 'aug')
        elif isinstance(n, ast.Expr) and n not in docs and isinstance(n.value, (ast.Call,)):
            put(n, 'pass', 'del')
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, 'pass', 'del')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            put(n, 'pass', 'del')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    a, b = start[k.lineno - 1] + k.col_offset, start[k.end_lineno - 1] + k.end_col_offset
                    while raw[b:b + 1] in (b' ',):
                        b += 1
                    if raw[b:b + 1] == b',':
                        b += 1
                        out.append((k.lineno, 'kwarg', a, b, ''))
                    else:
                        c = a
                        while c > 0 and raw[c - 1:c] in (b' ', b'\n'):
                            c -= 1
                        if raw[c - 1:c] == b',':
                            out.append((k.lineno, 'kwarg', c - 1, b, ''))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'ravel') and not n.args:
                put(n, text(n.func.value), 'copy')
            if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
                a = span(n.args[0])[0]
                b = span(n.args[1])[1]
                out.append((n.lineno, 'swap', a, b, '%s, %s' % (text(n.args[1]), text(n.args[0]))))
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            o = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'mean': 'median', 'sum': 'mean', 'all': 'any', 'any': 'all'}.get(f)
            if o:
                a, b = span(n.func)
                out.append((n.lineno, 'fn', b - len(f), b, o))
    res, seen = [], set()
    for line, what, a, b, new in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        if m in seen or m == src:
            continue
        seen.add(m)
        try:
            compile(m, path, 'exec')
        except SyntaxError:
            continue
        res.append({'file': path, 'line': line, 'what': what, 'old': raw[a:b].decode(), 'new': new, 'a': a, 'b': b})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--sample', type=float, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=7)
    ap.add_argument('--skip')
    ap.add_argument('--survivors', help='only rerun the mutants which no check caught in this file')
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    props = [json.loads(l) for l in open(VERIF + '/properties.jsonl')]
    files = subprocess.check_output(['git', '-C', REPO, 'ls-files'], text=True).split()
    files = [f for f in files if f.endswith('.py') and '/tests/' not in f and f not in ('setup.py', 'runtests.py')]
    if a.files:
        files = [f for f in files if any(x in f for x in a.files.split(','))]
    todo = []
    if a.survivors:
        for l in open(a.survivors):
            d = json.loads(l)
            if d['result'] == 'MISSED':
                src = open(os.path.join(REPO, d['file'])).read().encode()
                now = [m for m in mutants(d['file']) if m['old'] == d['old'] and m['new'] == d['new'] and m['line'] == d['line']]
                todo += now[:1]
    else:
        for f in files:
            todo += mutants(f)
    random.seed(a.seed)
    random.shuffle(todo)
    todo = todo[:int(len(todo) * a.sample + 0.5)]
    if a.skip:
        done = set()
        for l in open(a.skip):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['old'], d['new']))
        todo = [m for m in todo if (m['file'], m['line'], m['old'], m['new']) not in done]
    print(len(todo), 'mutants')
    if a.count:
        return
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig',
               VERIF_SEED='1', VERIF_TIER='quick')
    fp = open(a.out, 'a')

    def work(k):
        repo, ver = '%s/r%d' % (WORK, k), '%s/v%d' % (WORK, k)
        for src, dst in ((REPO, repo), (VERIF, ver)):
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.git', 'evidence', '__pycache__'), symlinks=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            src = open(os.path.join(REPO, m['file'])).read().encode()
            with open(os.path.join(repo, m['file']), 'wb') as f:
                f.write(src[:m['a']] + m['new'].encode() + src[m['b']:])
            try:
                p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--disable-warnings', '--timeout=60', '--tb=no',
                                    '--continue-on-collection-errors', '--basetemp=%s/t%d' % (WORK, k)], cwd=repo, env=env, capture_output=True, text=True, timeout=200)
                last = p.stdout.strip().split('\n')[-1]
                ok = ' 215 passed' in ' ' + last and '4 failed' in last
            except subprocess.TimeoutExpired:
                ok, last = False, 'timeout'
            m['result'] = 'tests'
            if ok:
                m['result'] = 'MISSED'
                m['by'] = None
                rel = [p['id'] for p in props if m['file'] in p['anchors']['files']]
                rest = [p['id'] for p in props if p['id'] not in rel]
                m['rel'] = rel
                for pid in rel + (rest if not rel else []):
                    try:
                        r = subprocess.run(['python3', 'run.py', pid, '--jobs', '1', '--seconds', '300'], cwd=ver, env=dict(env, STRATA_REPO=repo),
                                           capture_output=True, text=True, timeout=600)
                        rc, o = r.returncode, r.stdout[-300:]
                    except subprocess.TimeoutExpired:
                        rc, o = -1, ''
                    if rc == 1 and 'VIOLATION property=' in o:
                        m['result'], m['by'] = 'caught', pid
                        break
                    if rc not in (0, 1):
                        m['by'] = '%s rc=%s' % (pid, rc)
            with lock:
                fp.write(json.dumps(m) + '\n')
                fp.flush()
            shutil.copy(os.path.join(REPO, m['file']), os.path.join(repo, m['file']))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
