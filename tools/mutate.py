"""Development aid: automatic mutants of the code under test, run against the relevant checks (no check uses this).
python3 tools/mutate.py OUT.jsonl [--n 200] [--seed 1] [--file substring] [--jobs 8] [--tests]
Each worker has its own copy of /repo and of /verif under /tmp/mut."""
import ast, json, os, random, shutil, subprocess, sys, argparse
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MAP = {  # file -> {top-level name or None: properties}
    'mfs/one_dim/quadtures.py': {None: ['C01'], 'taylor_quadrature': ['C16'], 'make_derivatives': ['C16']},
    'mfs/one_dim/filtering.py': {None: ['C03']},
    'mfs/one_dim/moments.py': {None: ['C06'], 'central_moment_of_normal': ['C07'], 'raw_moment_of_standard_normal': ['C07'],
                               'raw_moment_of_normal': ['C07', 'C08'], 'sde_cond_moments_tme': ['C08'],
                               'sde_cond_moments_tme_normal': ['C08'], 'sde_cond_moments_euler': ['C08'],
                               'characteristic_fn': ['C17'], 'characteristic_from_pdf': ['C17']},
    'mfs/one_dim/pdf_approximations.py': {None: ['C17']},
    'mfs/one_dim/ss_models.py': {None: ['C20']},
    'mfs/multi_dims/quadratures.py': {None: ['C02']},
    'mfs/multi_dims/multi_indices.py': {None: ['C05']},
    'mfs/multi_dims/filtering.py': {None: ['C04']},
    'mfs/multi_dims/moments.py': {None: ['C07'], 'extract_moments': ['C05'], 'extract_mean': ['C05'], 'extract_cov': ['C05'],
                                  'marginalise_moments': ['C05'], 'sde_cond_moments_euler_maruyama': ['C08'],
                                  'sde_cond_moments_tme_normal': ['C08'], 'sde_cond_moments_tme': ['C08']},
    'mfs/multi_dims/ss_models.py': {None: ['C20']},
    'mfs/classical_filters_smoothers/gfs.py': {None: ['C09', 'C10']},
    'mfs/classical_filters_smoothers/quadratures.py': {None: ['C11'], 'rk4_m_cov': ['C10'], 'rk4_m_cov_backward': ['C10']},
    'mfs/classical_filters_smoothers/resampling.py': {None: ['C12']},
    'mfs/classical_filters_smoothers/smc.py': {None: ['C13']},
    'mfs/classical_filters_smoothers/brute_force.py': {None: ['C14']},
    'mfs/utils.py': {None: ['C15'], 'GaussianSum1D': ['C07'], 'GaussianSumND': ['C07'], 'discretise_lti_sde': ['C18'],
                     'simulate_sde': ['C18'], 'posterior_cramer_rao': ['C19'], 'partial_bell': ['C16'], 'complete_bell': ['C16'],
                     'hermite_probabilist': ['C16'], 'vmap_list_of_funcs': ['C16']},
}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(n, new, what, top):
        s, e = pos(n)
        out.append((s, e, new, f'{what} line {n.lineno}: {b[s:e].decode()[:60]!r} -> {new[:60]!r}', top))

    def walk(n, top, doc=False):
        for ch in ast.iter_child_nodes(n):
            t = top
            if top is None and isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                t = ch.name
            if isinstance(ch, (ast.FunctionDef,)):
                for x in ch.body:
                    visit(x, t)
                continue
            if isinstance(ch, ast.ClassDef):
                walk(ch, t)

    def txt(n):
        s, e = pos(n)
        return b[s:e].decode()

    def visit(n, top):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.FunctionDef):
            for x in n.body:
                visit(x, top)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, top)
            return
        if isinstance(n, ast.AugAssign):
            add(n, 'pass', 'drop', top)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            add(n, f'({v!r} + 1)', 'const+1', top)
            if v not in (0,):
                add(n, f'({v!r} - 1)', 'const-1', top)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), 'flip', top)
        if isinstance(n, ast.BinOp):
            l, r = txt(n.left), txt(n.right)
            ops = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*']}.get(type(n.op), [])
            for o in ops:
                add(n, f'(({l}) {o} ({r}))', 'op', top)
            if isinstance(n.op, (ast.MatMult, ast.Sub)):
                add(n, f'(({r}) {"@" if isinstance(n.op, ast.MatMult) else "-"} ({l}))', 'swap', top)
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                add(n, f'({l})', 'keep-left', top)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = txt(n.left), txt(n.comparators[0])
            o = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}.get(type(n.ops[0]))
            if o:
                add(n, f'({l} {o} {r})', 'cmp', top)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, f'({txt(n.operand)})', 'neg', top)
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            add(n, txt(n.value), 'no-T', top)
        if isinstance(n, ast.Call):
            f = txt(n.func)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a = [txt(x) for x in n.args]
                    a[i], a[i + 1] = a[i + 1], a[i]
                    a += [txt(k.value) if k.arg is None else f'{k.arg}={txt(k.value)}' for k in n.keywords]
                    if a[i] != a[i + 1]:
                        add(n, f'{f}({", ".join(a)})', f'swapargs{i}', top)
            alt = {'jnp.sum': 'jnp.mean', 'jnp.diag': 'jnp.abs', 'jnp.cumsum': 'jnp.cumprod', 'jnp.sin': 'jnp.cos', 'jnp.cos': 'jnp.sin',
                   'jnp.sqrt': 'jnp.square', 'jnp.maximum': 'jnp.minimum', 'jnp.minimum': 'jnp.maximum'}.get(f)
            if alt:
                s, e = pos(n.func)
                out.append((s, e, alt, f'fn line {n.lineno}: {f} -> {alt}', top))
            if len(n.args) == 1 and not n.keywords and f.split('.')[-1] in ('sqrt', 'log', 'exp', 'abs', 'conj', 'real'):
                add(n, f'({txt(n.args[0])})', 'unwrap', top)
        if isinstance(n, ast.IfExp):
            add(n, f'({txt(n.body)})', 'then', top)
            add(n, f'({txt(n.orelse)})', 'else', top)
        if isinstance(n, ast.If):
            add(n.test, f'(not ({txt(n.test)}))', 'negate', top)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for a, c in (('mp', 'mf'), ('mf', 'mp'), ('vp', 'vf'), ('vf', 'vp'), ('ms', 'mean'), ('mean', 'scale'), ('scale', 'mean'), ('x', 'xs')):
                if n.id == a and c in names.get(top, ()):
                    add(n, c, 'name', top)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            visit(n.body, top)
            return
        for ch in ast.iter_child_nodes(n):
            if isinstance(n, ast.Call) and ch is n.func and isinstance(ch, ast.Name):
                continue
            visit(ch, top)
    names = {}
    for ch in tree.body:
        if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
            names[ch.name] = {x.id for x in ast.walk(ch) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(ch) if isinstance(x, ast.arg)}
    walk(tree, None)
    res = []
    for s, e, new, what, top in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((what, top, m))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--file', default='')
    ap.add_argument('--top', default='')
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--retry', default='', help='rerun the survivors listed in this file')
    a = ap.parse_args()
    pool = []
    for f, mp in MAP.items():
        if a.file and a.file not in f:
            continue
        src = open('/repo/' + f).read()
        for what, top, m in mutants(f, src):
            if a.top and top != a.top:
                continue
            pool.append((f, what, top, m, mp.get(top, mp[None])))
    rng = random.Random(a.seed)
    if a.retry:
        want = {(d['file'], d['what']) for d in map(json.loads, open(a.retry)) if d['result'] != 'caught'}
        todo = [p for p in pool if (p[0], p[1]) in want]
    else:
        todo = rng.sample(pool, min(a.n, len(pool)))
    print(len(pool), 'mutants,', len(todo), 'run', flush=True)
    slots = queue.Queue()
    for k in range(a.jobs):
        d = f'/tmp/mut/w{k}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(HERE, d + '/verif', ignore=shutil.ignore_patterns('.git', 'out', 'seeded', '__pycache__'))
        slots.put(d)
    fo = open(a.out, 'a')

    def one(job):
        f, what, top, m, props = job
        d = slots.get()
        try:
            p = d + '/repo/' + f
            orig = open(p).read()
            open(p, 'w').write(m)
            res, info = 'survived', ''
            try:
                for pid in props:
                    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_FAILFAST='1', VERIF_SEED='1')
                    env.pop('VERIF_BOOT', None)
                    try:
                        r = subprocess.run(['python3', d + '/verif/run.py', pid, '--tier', 'quick', '--jobs', '2'], env=env,
                                           capture_output=True, text=True, timeout=1500)
                    except subprocess.TimeoutExpired:
                        res = 'timeout'
                        break
                    if 'VIOLATION' in r.stdout:
                        res, info = 'caught', next(l for l in r.stdout.splitlines() if 'VIOLATION' in l)
                        break
                    if r.returncode:
                        res, info = 'error', (r.stdout + r.stderr)[-400:]
                        break
                    inc = [l for l in r.stdout.splitlines() if l.startswith('inconclusive')]
                    if inc:
                        res = 'inconclusive'
                        info = '; '.join(x.split()[1] for x in inc[:6])
            finally:
                open(p, 'w').write(orig)
            fo.write(json.dumps(dict(file=f, what=what, top=top, props=props, result=res, info=info)) + '\n')
            fo.flush()
            if res != 'caught':
                print(res, f, top, what, info, flush=True)
        finally:
            slots.put(d)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree('/tmp/mut', ignore_errors=True)


if __name__ == '__main__':
    main()
