"""SMT-LIB2 printing and the solver process (z3 by default, cvc5 as second opinion)."""
import os
import shutil
import subprocess
import threading
import time
from fractions import Fraction
from . import alg
from .alg import BITS, FM, mono_fields

Z3 = shutil.which('z3-new') or shutil.which('z3') or 'z3'
CVC5 = shutil.which('cvc5')


def lcm_den(p):
    d = 1
    for c in p.values():
        if isinstance(c, Fraction):
            import math
            d = d * c.denominator // math.gcd(d, c.denominator)
    return d


def _num(n):
    return str(n) if n >= 0 else f'(- {-n})'


def mono_txt(m):
    fs = []
    for i, e in mono_fields(m):
        fs += [f'g{i}'] * e
    return fs


def poly_txt(p, scale=None):
    """Integer-coefficient print of p * scale (scale clears denominators)."""
    if scale is None:
        scale = lcm_den(p)
    if not p:
        return '0'
    ts = []
    for m, c in p.items():
        c = c * scale
        c = int(c)
        fs = mono_txt(m)
        if c == 1 and fs:
            ts.append(fs[0] if len(fs) == 1 else '(* ' + ' '.join(fs) + ')')
        elif not fs:
            ts.append(_num(c))
        else:
            ts.append(f'(* {_num(c)} ' + ' '.join(fs) + ')')
    if len(ts) == 1:
        return ts[0]
    return '(+ ' + ' '.join(ts) + ')'


def rel_txt(rel, p):
    t = poly_txt(p)
    if rel == '!=':
        return f'(not (= {t} 0))'
    return f'({rel} {t} 0)'


def gens_of(p, acc=None):
    acc = set() if acc is None else acc
    x = 0
    for m in p:
        x |= m
    i = 0
    while x:
        if x & FM:
            acc.add(i)
        x >>= BITS
        i += 1
    return acc


def frac_txt(q):
    q = Fraction(q)
    if q.denominator == 1:
        return _num(q.numerator)
    return f'(/ {_num(q.numerator)} {q.denominator})'


def gen_constraints(c, i):
    g = c.gens[i]
    out = []
    if g.pos:
        out.append(f'(> g{i} 0)')
    elif g.nonneg:
        out.append(f'(>= g{i} 0)')
    elif g.nonzero:
        out.append(f'(not (= g{i} 0))')
    if g.lo is not None:
        out.append(f'(>= g{i} {frac_txt(g.lo)})')
    if g.hi is not None:
        out.append(f'(<= g{i} {frac_txt(g.hi)})')
    if i in c.rules:
        r = c.rules[i]
        d = lcm_den(r)
        out.append(f'(= (* {d} g{i} g{i}) {poly_txt(r, d)})')
    if g.kind == 'fun' and g.data[0] in ('sin', 'cos'):
        out.append(f'(and (<= g{i} 1) (>= g{i} (- 1)))')
    return out


class Solver:
    """One z3 process per worker; every check is a fresh (reset) context."""

    def __init__(self, exe=None, timeout_ms=20000):
        self.exe = exe or Z3
        self.timeout_ms = timeout_ms
        self.proc = None
        self.queries = 0
        self.time = 0.0
        self.results = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.log = None
        self.max_query = 0
        self.cross = None       # optional second solver
        self.cross_stats = {'agree': 0, 'unknown': 0, 'disagree': 0, 'skipped': 0}
        self.cross_spent = 0.    # seconds in the current case

    def start(self):
        if 'cvc5' in self.exe:
            args = [self.exe, '--lang=smt2', '--produce-models', '--incremental', '-']
        else:
            args = [self.exe, '-in', '-smt2']
        self.proc = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, text=True, bufsize=1)

    def stop(self):
        if self.proc:
            try:
                self.proc.kill()
                self.proc.wait(5)
            except Exception:
                pass
            self.proc = None

    def check(self, decls, asserts, logic='QF_NRA', timeout_ms=None, want=None):
        """Returns (status, model dict name->Fraction|float) ; any (error line is 'unknown'."""
        timeout_ms = timeout_ms or self.timeout_ms
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        t0 = time.time()
        hdr = ['(reset)', f'(set-option :timeout {timeout_ms})']
        if want:
            hdr.append('(set-option :produce-models true)')
            hdr.append('(set-option :pp.decimal true)')
            hdr.append('(set-option :pp.decimal_precision 18)')
        txt = '\n'.join(hdr + [f'(set-logic {logic})'] + [f'(declare-const {d} {s})' for d, s in decls]
                        + [f'(assert {a})' for a in asserts] + ['(check-sat)', '(echo "@done")', ''])
        self.max_query = max(self.max_query, len(txt))
        status, model = 'unknown', None
        timer = threading.Timer(timeout_ms / 1000 + 20, self._kill)
        timer.start()
        try:
            self.proc.stdin.write(txt)
            self.proc.stdin.flush()
            err = False
            while True:
                ln = self.proc.stdout.readline()
                if not ln:
                    err = True
                    break
                ln = ln.strip()
                if ln.startswith('(error'):
                    err = True
                if ln in ('sat', 'unsat', 'unknown'):
                    status = ln
                if '@done' in ln:
                    break
            if err:
                status = 'unknown'
            if status == 'sat' and want:
                self.proc.stdin.write('(get-value (' + ' '.join(want) + '))\n(echo "@done2")\n')
                self.proc.stdin.flush()
                buf = []
                while True:
                    ln = self.proc.stdout.readline()
                    if not ln or '@done2' in ln:
                        break
                    buf.append(ln)
                model = parse_values(''.join(buf))
        except (BrokenPipeError, OSError):
            status = 'unknown'
            self.stop()
        finally:
            timer.cancel()
        self.queries += 1
        self.time += time.time() - t0
        self.results[status] += 1
        if self.cross is not None and status == 'unsat' and self.cross_spent > 120:
            self.cross_stats['skipped'] += 1
        elif self.cross is not None and status == 'unsat':     # (a sat answer carries a model, which is replayed)
            t0 = time.time()
            s2 = run_cvc5(decls, asserts, logic, min(timeout_ms, 5000))
            self.cross_spent += time.time() - t0
            if s2 == 'unknown':
                self.cross_stats['unknown'] += 1
            elif s2 == status:
                self.cross_stats['agree'] += 1
            else:
                self.cross_stats['disagree'] += 1
                status = 'unknown'
        return status, model

    def _kill(self):
        try:
            self.proc.kill()
        except Exception:
            pass

    # ---- context-level helpers
    def closure(self, c, polys, use_path=True):
        """Constraints (rel, poly) connected to the given polys, and all generators involved."""
        gens = set()
        for p in polys:
            gens_of(p, gens)
        cons = list(c.assumptions) + (list(c.path) if use_path else [])
        picked = [False] * len(cons)
        cg = [gens_of(p) for _, p in cons]
        changed = True
        while changed:
            changed = False
            for k, (rel, p) in enumerate(cons):
                if not picked[k] and cg[k] & gens:
                    picked[k] = True
                    gens |= cg[k]
                    changed = True
            for g in list(gens):
                if g in c.rules:
                    extra = gens_of(c.rules[g]) - gens
                    if extra:
                        gens |= extra
                        changed = True
        return [cons[k] for k in range(len(cons)) if picked[k]], gens

    def feasible(self, c, rel, p, timeout_ms=4000):
        cons, gens = self.closure(c, [p])
        asserts = []
        for i in sorted(gens):
            asserts += gen_constraints(c, i)
        asserts += [rel_txt(r, q) for r, q in cons]
        asserts.append(rel_txt(rel, p))
        st, _ = self.check([(f'g{i}', 'Real') for i in sorted(gens)], asserts, timeout_ms=timeout_ms)
        c.bump('feasibility_queries')
        if st == 'unknown':
            c.bump('feasibility_unknown')
        return st != 'unsat'


def parse_values(txt):
    import re
    out = {}
    toks = re.findall(r'\(|\)|[^\s()]+', txt)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            r = []
            while toks[pos] != ')':
                r.append(parse())
            pos += 1
            return r
        return t
    try:
        tree = parse()
    except IndexError:
        return None

    def val(t):
        if isinstance(t, list):
            if t[0] == '-':
                return -val(t[1])
            if t[0] == '/':
                return val(t[1]) / val(t[2])
            raise ValueError
        if t in ('true', 'false'):
            return t == 'true'
        return Fraction(t.rstrip('?'))
    for kv in tree:
        try:
            out[kv[0]] = val(kv[1])
        except Exception:
            return None
    return out


def run_cvc5(decls, asserts, logic, timeout_ms):
    if not CVC5:
        return 'unknown'
    txt = '\n'.join([f'(set-logic {logic})'] + [f'(declare-const {d} {s})' for d, s in decls]
                    + [f'(assert {a})' for a in asserts] + ['(check-sat)', ''])
    try:
        r = subprocess.run([CVC5, '--lang=smt2', f'--tlimit={timeout_ms}', '-'], input=txt, capture_output=True,
                           text=True, timeout=timeout_ms / 1000 + 10)
    except subprocess.TimeoutExpired:
        return 'unknown'
    o = r.stdout.strip().splitlines()
    if any('error' in x for x in o) or not o:
        return 'unknown'
    return o[0] if o[0] in ('sat', 'unsat') else 'unknown'
