"""Cases, claims, replay and evidence.

A *case* is a function case(ctx).  It obtains its inputs from ctx (symbolic numbers when the
case is being decided, floats when a counterexample is being replayed), runs the real code on
them and states claims about the outcome.  The same function therefore is the harness of the
solver query and of the replay.
"""
import os
import sys
import json
import time
import math
import traceback
import contextlib
import io
import signal
import subprocess
import warnings
import multiprocessing
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings('ignore', category=SyntaxWarning)
warnings.filterwarnings('ignore', category=DeprecationWarning, message='invalid escape')
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
PY = sys.executable

from . import poly as P
from . import core
from .core import S, SB, sb, sb_and, sb_or, sb_not, Infeasible, Limit, Unsupported


class Violated(Exception):
    pass


class Base(object):
    symbolic = False

    def abs(self, x):
        return abs(x)

    def all(self, *cs):
        return sb_and(*cs)

    def any(self, *cs):
        return sb_or(*cs)

    def no(self, c):
        return sb_not(c)

    def printed(self, text):
        """the number that was written as this text"""
        text = text.strip()
        if text.startswith('<<'):
            return core.PRINTED[int(text[2:-2])]
        return float(text)


class SymCtx(Base):
    """decides claims with the solver"""
    symbolic = True

    def __init__(self, eng, timeout_ms, on_sat):
        self.eng = eng
        self.timeout_ms = timeout_ms
        self.on_sat = on_sat
        self.claims = {}        # label -> dict(unsat, sat, unknown)
        self.covered = {}
        self.unknown = []

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        return self.eng.var(name, lo, hi, lo_strict, hi_strict)

    def pos(self, name, lo=0, hi=None):
        return self.eng.var(name, lo, hi, lo_strict=(lo == 0))

    def small(self, name):
        """a positive number below every margin that is assumed to exceed it"""
        return self.eng.var(name, 0, lo_strict=True)

    def at_zero(self, x, eps):
        """the limit of x (polynomial in eps on this path) for eps -> 0"""
        if not isinstance(x, S):
            return x
        num, den = P.clear(x.p)
        (a,) = [m[0][0] for m in eps.p]
        for _ in range(8):
            # cancel common powers of eps
            if all(dict(m).get(a, 0) >= 1 for m in num) and all(dict(m).get(a, 0) >= 1 for m in den):
                num = P.mul(num, P.atom_poly(P.T.atoms[a], -1))
                den = P.mul(den, P.atom_poly(P.T.atoms[a], -1))
        return S(core.substitute(num, a, {})) / S(core.substitute(den, a, {}))

    def flag(self, name):
        v = self.eng.choose(name)
        self.flags[name] = v
        return v

    def pick(self, name, options):
        """one of the options, all explored"""
        options = list(options)
        i = 0
        while i < len(options) - 1:
            if self.flag('%s=%d' % (name, i)):
                return options[i]
            i += 1
        return options[-1]

    def assume(self, c):
        self.eng.assume(c)

    def start(self):
        self.flags = {}
        self.nclaims = 0

    # -- claims
    def true(self, c, label):
        self.nclaims += 1
        c = sb(c)
        d = self.claims.setdefault(label, {'unsat': 0, 'sat': 0, 'unknown': 0})
        if label not in self.covered:
            r, _ = self.eng.check(SB(True), min(3000, self.timeout_ms))
            if r == 'unsat':
                raise Infeasible()
            if r == 'sat':
                self.covered[label] = True
        r, vals = self.eng.check(sb_not(c), self.timeout_ms)
        d[r] += 1
        if r == 'sat':
            self.on_sat(self, label, vals, sb_not(c))
        elif r == 'unknown':
            self.unknown.append(label)
            self.on_unknown(self, label, sb_not(c))

    def on_unknown(self, ctx, label, goal):
        pass

    def eq(self, a, b, label, tol=1e-9, scale=None, loose=False):
        a, b = self._num(a), self._num(b)
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                same = isinstance(a, float) and isinstance(b, float) and (a == b or (math.isnan(a) and math.isnan(b)))
                return self.true(same, label)
        pa, pb = core.lift(a), core.lift(b)
        goal = eq_goal(pa, pb, tol, loose)
        if goal.t is not True and len(goal.t[2]) < 400:
            # the same polynomial on the degenerate surface this path lies on?
            if not self.eng.reduce(goal.t[2]):
                goal = SB(True)
        if scale is not None and goal.t is not True:
            # exact equality first (cheap), then the tolerance the claim really allows
            r, _ = self.eng.check(sb_not(goal), self.timeout_ms // 2)
            if r != 'unsat':
                if callable(scale):
                    scale = scale()
                d = S(P.add(pa, P.neg(pb)))
                lim = scale * tol
                goal = sb_and(d <= lim, -d <= lim)
        return self.true(goal, label)

    def close(self, a, b, label, tol=1e-6):
        """|a-b| <= tol*|b| for b of known sign"""
        a, b = self._num(a), self._num(b)
        lim = tol * b
        self.true(sb_and(a - b <= lim, b - a <= lim), label)

    def le(self, a, b, label):
        self.true(a <= b, label)

    def ge(self, a, b, label):
        self.true(a >= b, label)

    def lt(self, a, b, label):
        self.true(a < b, label)

    def same(self, a, b, label):
        """exact equality of non-numeric values"""
        self.true(a == b, label)

    @staticmethod
    def _num(x):
        import numpy
        if isinstance(x, S):
            return x
        if isinstance(x, numpy.ndarray) and x.size == 1:
            return SymCtx._num(x.reshape(-1)[0])
        f = core._fnum(x)
        if f is None:
            if isinstance(x, SB):
                return int(bool(x))
            raise TypeError('not a number: %r' % (x,))
        return f


def eq_goal(pa, pb, tol, loose=False):
    """a == b up to a relative change of `tol` in each coefficient (a SB); loose: up to `tol` times the largest coefficient"""
    q = P.to_q(tol)
    if loose and (pa or pb):
        big = max(abs(x) for x in list(pa.values()) + list(pb.values()))
        pa, pb = dict(pa), dict(pb)
        for m in set(pa) | set(pb):
            if abs(pa.get(m, 0) - pb.get(m, 0)) <= q * big and (m in pa or m in pb):
                pa[m] = pb.get(m, Fraction(0))
        pa = {m: x for m, x in pa.items() if x}
    d = {}
    keys = set(pa) | set(pb)
    for m in keys:
        x, y = pa.get(m, Fraction(0)), pb.get(m, Fraction(0))
        if x != y and abs(x - y) > q * max(abs(x), abs(y)):
            d[m] = x - y
    if not d:
        return SB(True)
    na, da = P.clear(pa)
    nb, db = P.clear(pb)
    u, v = P.mul(na, db), P.mul(nb, da)
    d = {}
    for m in set(u) | set(v):
        x, y = u.get(m, Fraction(0)), v.get(m, Fraction(0))
        if x != y and abs(x - y) > q * max(abs(x), abs(y)):
            d[m] = x - y
    if not d:
        return SB(True)
    return SB(('cmp', '==', d))


class ConcCtx(Base):
    """replays a counterexample on floats"""

    def __init__(self, vals, flags):
        self.vals = vals
        self.flags = flags
        self.failed = []
        self.checked = 0

    def start(self):
        pass

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        v = self.vals.get(name)
        if v is None:
            if lo is not None and hi is not None:
                return (float(lo) + float(hi)) / 2
            if lo is not None:
                return float(lo) + 1.
            if hi is not None:
                return float(hi) - 1.
            return 1.
        v = float(v)
        if (lo is not None and (v < lo or (lo_strict and v <= lo))) or (hi is not None and (v > hi or (hi_strict and v >= hi))):
            raise Infeasible()      # rounding moved the model out of its range
        return v

    def pos(self, name, lo=0, hi=None):
        return self.real(name, lo, hi, lo_strict=(lo == 0))

    def small(self, name):
        return 1e-7

    def at_zero(self, x, eps):
        return x

    def flag(self, name):
        return bool(self.flags.get(name, False))

    pick = SymCtx.pick

    def assume(self, c):
        if not truth(c, 1e-12):
            raise Infeasible()

    def true(self, c, label):
        self.checked += 1
        if not truth(c, 0):
            self.failed.append((label, 'condition is false'))

    def eq(self, a, b, label, tol=1e-9, scale=None, loose=False):
        self.checked += 1
        a, b = _f(a), _f(b)
        if math.isnan(a) and math.isnan(b):
            return
        if a == b:
            return
        t = max(tol * 10, 1e-7)
        if callable(scale):
            scale = scale()
        lim = t * max(abs(a), abs(b)) if scale is None else max(t, tol) * abs(_f(scale))
        if not abs(a - b) <= lim:
            self.failed.append((label, '%r != %r' % (a, b)))

    def close(self, a, b, label, tol=1e-6):
        self.checked += 1
        a, b = _f(a), _f(b)
        if not abs(a - b) <= tol * 1.01 * abs(b):
            self.failed.append((label, '%r not close to %r' % (a, b)))

    def le(self, a, b, label):
        self.checked += 1
        a, b = _f(a), _f(b)
        if not a <= b + 1e-9 * max(abs(a), abs(b)):
            self.failed.append((label, '%r > %r' % (a, b)))

    def ge(self, a, b, label):
        self.le(b, a, label)

    def lt(self, a, b, label):
        self.le(a, b, label)

    def same(self, a, b, label):
        self.checked += 1
        if not (a == b):
            self.failed.append((label, '%r != %r' % (a, b)))


def _f(x):
    import numpy
    if isinstance(x, numpy.ndarray):
        x = x.reshape(-1)[0]
    return float(x)


def truth(c, tol):
    if isinstance(c, SB):
        return bool(c.t)
    return bool(c)


# ------------------------------------------------------------------------------------------
class Check(object):
    """collection of the cases of one property"""

    def __init__(self, prop, title='', functions=(), bounds='', outside=''):
        self.prop = prop
        self.title = title
        self.functions = list(functions)
        self.bounds = bounds
        self.outside = outside
        self.cases = []
        self.env = {}

    def case(self, name=None, tier='quick', budget=120, timeout_ms=20000, max_paths=4000, feas_ms=1500, args=(),
             env=None, lemmas=True, weight=1):
        def deco(fn):
            self.cases.append(dict(name=name or fn.__name__, fn=fn, tier=tier, budget=budget,
                                   timeout_ms=timeout_ms, max_paths=max_paths, feas_ms=feas_ms, args=args,
                                   env=env or {}, lemmas=lemmas, weight=weight))
            return fn
        return deco


@contextlib.contextmanager
def quiet():
    """the code under test prints; keep that out of the check's own output"""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def run_case(chk, case, outq):
    """worker: decide one case"""
    t0 = time.time()
    for k, v in case['env'].items():
        os.environ[k] = v
    from . import shim
    shim.install()
    eng = core.Engine(feas_ms=case['feas_ms'], max_paths=case['max_paths'], deadline=t0 + case['budget'],
                      lemmas=case['lemmas'])
    res = dict(name=case['name'], claims={}, sat=[], errors=[], unknown=[], limit=None, uncovered=[])

    pending = []

    def candidate(ctx, label, goal, vals, how):
        pending.append(dict(case=case['name'], label=label, flags=dict(ctx.flags), how=how,
                            values={k: float(v) for k, v in vals.items()}))
        outq.put(dict(candidate=pending[-1]))

    def on_sat(ctx, label, vals, goal):
        if len([1 for x in pending if x['label'] == label]) >= 12:
            return
        candidate(ctx, label, goal, vals, 'solver model of the negated claim')
        # more models, moderate values: easier to reproduce in floating point
        for k in range(4):
            extra = diversify(ctx.eng, k)
            r, v2 = ctx.eng.check(goal, 4000, extra=extra, seed=100 + k)
            if r == 'sat':
                candidate(ctx, label, goal, v2, 'solver model of the negated claim')

    def on_unknown(ctx, label, goal):
        # narrower queries: fix all inputs but one or two
        if len([1 for x in pending if x['label'] == label]) >= 12:
            return
        for k in range(6):
            extra = diversify(ctx.eng, k, fix=True)
            r, v2 = ctx.eng.check(goal, 3000, extra=extra, seed=200 + k)
            if r == 'sat':
                candidate(ctx, label, goal, v2, 'solver model of the negated claim, some inputs fixed')

    ctx = SymCtx(eng, case['timeout_ms'], on_sat)
    ctx.on_unknown = on_unknown

    def once():
        ctx.start()
        with quiet():
            try:
                case['fn'](ctx, *case['args'])
            except (Infeasible, Limit):
                raise
            except Exception as e:
                tb = traceback.format_exc()
                err = '%s: %s' % (type(e).__name__, e)
                if len(res['errors']) < 30:
                    res['errors'].append(dict(err=err, tb=tb[-1800:]))
                    r, vals = eng.check(SB(True), 3000)
                    if r == 'unsat':
                        res['errors'].pop()
                    elif r == 'sat':
                        candidate(ctx, 'no-exception', SB(True), vals, 'path condition of a run that raised ' + err)
                        for k in range(3):
                            r, v2 = eng.check(SB(True), 2000, extra=diversify(eng, k), seed=300 + k)
                            if r == 'sat':
                                candidate(ctx, 'no-exception', SB(True), v2, 'path condition of a run that raised ' + err)
                    else:
                        candidate(ctx, 'no-exception', SB(True), {k: core.default_val(a) for k, a in eng.vars.items()},
                                  'raised ' + err)

    try:
        eng.explore(once)
    except Limit as e:
        res['limit'] = str(e)
    except Exception:
        res['errors'].append(dict(err='engine', tb=traceback.format_exc()[-1800:]))
    res['claims'] = ctx.claims
    res['unknown'] = ctx.unknown[:50]
    res['uncovered'] = [l for l in ctx.claims if l not in ctx.covered]
    res['pending'] = pending
    st = eng.stats
    res['stats'] = dict(paths=st.paths, queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown,
                        trivial=st.trivial, feasibility=st.feas, solver_s=round(st.solver_s, 3))
    res['wall'] = round(time.time() - t0, 2)
    outq.put(res)


_NICE = [Fraction(1, 3), Fraction(5, 7), Fraction(3, 2), Fraction(11, 13), Fraction(7, 5), Fraction(2, 9),
         Fraction(13, 11), Fraction(17, 19), Fraction(23, 17), Fraction(5, 3)]


def diversify(eng, k, fix=False):
    import z3
    out = []
    items = [a for a in eng.vars.values()]
    for i, a in enumerate(items):
        z = eng.zatom(a)
        lo, hi = a.lo, a.hi
        w = _NICE[(i * 3 + k * 5 + 1) % len(_NICE)]
        if lo is not None and hi is not None:
            c = lo + (hi - lo) * w / (1 + w)
            r = (hi - lo) / 4
        elif lo is not None:
            c, r = lo + w, Fraction(1, 6)
        elif hi is not None:
            c, r = hi - w, Fraction(1, 6)
        else:
            c, r = w * (-1 if (i + k) % 2 else 1), Fraction(1, 6)
        if fix and (i + k) % max(2, len(items)) != 0:
            if k < 3:
                out.append(z == z3.RealVal(c))
                continue
        if k < 2:
            out.append(z >= z3.RealVal(c - r))
            out.append(z <= z3.RealVal(c + r))
        elif k == 2:
            if lo is not None:
                out.append(z > z3.RealVal(lo))
            out.append(z <= z3.RealVal(Fraction(50)))
            out.append(z >= z3.RealVal(Fraction(-50)))
        else:
            out.append(z <= z3.RealVal(Fraction(1000)))
            out.append(z >= z3.RealVal(Fraction(-1000)))
    return out


def replay_concrete(chk, rec):
    """run the case of `rec` on floats; returns (violated, details)"""
    case = [c for c in chk.cases if c['name'] == rec['case']][0]
    for k, v in case['env'].items():
        os.environ[k] = v
    ctx = ConcCtx(rec['values'], rec['flags'])
    try:
        with quiet():
            case['fn'](ctx, *case['args'])
    except Infeasible:
        return False, 'inputs excluded by the assumptions of the case'
    except Exception as e:
        if type(e).__name__ in ('BuildError', 'Unsupported'):
            return False, 'no verdict: %s' % e
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if last.startswith(VERIF + os.sep) and isinstance(e, (AttributeError, TypeError, ImportError, NameError, LookupError)):
            # the harness itself could not use the code (a name or a signature has changed)
            return False, 'no verdict: the harness raised %s: %s' % (type(e).__name__, e)
        return True, 'the real code raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:])
    if ctx.failed:
        return True, '; '.join('%s: %s' % x for x in ctx.failed[:6])
    return False, 'all %d claims hold' % ctx.checked


def load_check(prop):
    sys.path.insert(0, VERIF)
    import importlib
    mod = importlib.import_module('checks.' + prop.lower())
    return mod.CHECK


def known_findings(prop):
    path = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                d = json.loads(line)
                if d.get('property') == prop:
                    out.append(d)
    return out


def main(prop, tier='quick'):
    t0 = time.time()
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, 'replays')):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(EVID, 'replays', f))
    chk = load_check(prop)
    cases = [c for c in chk.cases if tier == 'thorough' or c['tier'] == 'quick']
    if tier == 'thorough':
        for c in cases:
            c['budget'] *= 4
            c['timeout_ms'] *= 3
            c['max_paths'] *= 4
    prebuild()
    results = run_all(chk, cases)
    violations, unconfirmed = [], []
    findings = known_findings(prop)
    known_hit = {}
    groups = []
    for r in results:
        by_label = {}
        for rec in r.get('pending', ()):
            by_label.setdefault(rec['label'], []).append(rec)
        groups += [(r['name'], label, recs, k) for k, (label, recs) in enumerate(by_label.items())]

    def confirm(group):
        name, label, recs, k = group
        detail = ''
        for n, rec in enumerate(recs[:16]):
            path = os.path.join(EVID, 'replays', '%s-%s-%s-%d.%d.json' % (prop, safe(name), safe(label), k, n))
            rec['property'] = prop
            json.dump(rec, open(path, 'w'), indent=1)
            bad, detail = replay_subprocess(path)
            if bad:
                return path, detail
            os.remove(path)
        return None, detail
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        answers = list(pool.map(confirm, groups))
    for (name, label, recs, _), (path, detail) in zip(groups, answers):
        if path is None:
            unconfirmed.append(dict(case=name, label=label, detail=detail[-300:]))
            continue
        kf = [f for f in findings if f.get('case') == name and f.get('label') == label]
        if kf:
            known_hit[kf[0]['what']] = kf[0]
        else:
            violations.append((path, name, label, detail))
    wall = time.time() - t0
    write_evidence(chk, tier, results, violations, unconfirmed, known_hit, wall)
    inconclusive = [r['name'] for r in results if r.get('limit') or r.get('unknown') or r.get('errors')]
    inconclusive += sorted(set(u['case'] for u in unconfirmed) - set(inconclusive))
    n = sum(sum(d.values()) for r in results for d in r['claims'].values())
    print('%s %s: %d cases, %d claims decided, %d violations, %d without a verdict, %.1f s'
          % (prop, tier, len(results), n, len(violations), len(inconclusive), wall))
    for r in results:
        if r.get('limit') or r.get('unknown') or r.get('errors'):
            print('  no full verdict: %s limit=%s unknown=%s errors=%s' % (
                r['name'], r.get('limit'), sorted(set(r.get('unknown', [])))[:5],
                [e['err'] for e in r.get('errors', [])][:3]))
            if os.environ.get('VERIF_DEBUG'):
                for e in r.get('errors', [])[:2]:
                    print(e['tb'])
        if r.get('uncovered'):
            print('  not shown reachable: %s %s' % (r['name'], r['uncovered'][:5]))
    for u in unconfirmed:
        print('  no verdict: %s, claim %s: the solver model does not reproduce on the real code (%s)' % (
            u['case'], u['label'], ' '.join(u['detail'].split())[-160:]))
    for w in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for path, case, label, detail in violations:
        print('violated: case %s, claim %s: %s' % (case, label, detail.splitlines()[0][:300] if detail else ''))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    return 1 if violations else 0


def prebuild():
    """compile the C++ modules of the current tree once, before the cases start"""
    from . import native
    procs = []
    ctx = multiprocessing.get_context('fork')

    def one(w, sym):
        try:
            native.build(w, sym)
        except native.BuildError as e:
            sys.stderr.write('build of %s failed: %s\n' % (w, e))
    for w in ('four', 'three'):
        for sym in (True, False):
            p = ctx.Process(target=one, args=(w, sym))
            p.start()
            procs.append(p)
    for p in procs:
        p.join()


def safe(s):
    return ''.join(ch if ch.isalnum() else '_' for ch in s)[:40]


def run_all(chk, cases, jobs=None):
    """each case in its own process"""
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    ctx = multiprocessing.get_context('fork')
    todo = sorted(cases, key=lambda c: -c['weight'])
    running, results = [], []

    def start(c, attempt=0, early=()):
        q = ctx.Queue()
        beat = ctx.Value('d', 0., lock=False)
        p = ctx.Process(target=_worker, args=(chk, c, q, beat, attempt))
        p.start()
        running.append(Box(p=p, q=q, c=c, ts=time.time(), beat=beat, attempt=attempt, early=list(early)))

    def receive(r, timeout):
        """the result of a worker, if there is one; counterexamples are kept as they come"""
        while True:
            try:
                got = r.q.get(timeout=timeout) if timeout else r.q.get_nowait()
            except Exception:
                return None
            if 'candidate' not in got:
                return got
            r.early.append(got['candidate'])

    def give_up(r, why):
        res = empty(r.c, why)
        res['pending'] = r.early
        results.append(res)
        running.remove(r)

    while todo or running:
        while todo and len(running) < jobs:
            start(todo.pop(0))
        time.sleep(0.02)
        for r in list(running):
            got = receive(r, 0)
            if got is None and not r.p.is_alive():
                got = receive(r, 0.5)
                if got is None:
                    give_up(r, 'worker ended with code %s' % r.p.exitcode)
                    continue
            if got is not None:
                if r.attempt:
                    # what an earlier attempt found counts as well
                    seen = [(x['label'], x['flags'], x['values']) for x in got['pending']]
                    got['pending'] = got['pending'] + [x for x in r.early if (x['label'], x['flags'], x['values']) not in seen]
                results.append(got)
                r.p.join(5)
                if r.p.is_alive():
                    r.p.kill()
                running.remove(r)
                continue
            now = time.time()
            limit = r.beat.value
            stuck = limit and now > limit
            late = now - r.ts > r.c['budget'] * 1.5 + 30
            if stuck or late:
                r.p.kill()
                r.p.join(5)
                if stuck and r.attempt < 3:
                    running.remove(r)
                    start(r.c, r.attempt + 1, r.early)
                else:
                    give_up(r, 'killed after %d s' % (now - r.ts))
    order = {c['name']: i for i, c in enumerate(cases)}
    results.sort(key=lambda r: order[r['name']])
    return results


class Box(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def _worker(chk, c, q, beat, attempt):
    import resource
    core.HEARTBEAT[0] = beat
    core.SEED[0] = 7 + attempt
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        run_case(chk, c, q)
    except BaseException:
        q.put(empty(c, traceback.format_exc()[-1500:]))
    q.close()
    q.join_thread()
    os._exit(0)         # do not spend time on tearing down the solver


def empty(c, why):
    return dict(name=c['name'], claims={}, sat=[], errors=[dict(err='engine: ' + why.strip().splitlines()[-1], tb=why)],
                unknown=[], limit=why.strip().splitlines()[-1], uncovered=[], pending=[],
                stats=dict(paths=0, queries=0, unsat=0, sat=0, unknown=0, trivial=0, feasibility=0, solver_s=0.), wall=0)


def replay_subprocess(path):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['VERIF_CONCRETE'] = '1'
    try:
        out = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), path], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, env=env, timeout=120, cwd=REPO)
    except subprocess.TimeoutExpired:
        return False, 'replay timed out'
    txt = out.stdout.decode(errors='replace')
    return out.returncode == 1, txt


def write_evidence(chk, tier, results, violations, unconfirmed, known_hit, wall):
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    cov = dict(
        explanation='Symbolic execution of the functions listed, every claim negated and given to an SMT solver '
                    'together with the path condition; unsat on every path = the claim holds for all values in the bounds.',
        functions_encoded=chk.functions,
        bounds=chk.bounds,
        outside_bounds=chk.outside,
        cases=[dict(name=r['name'], paths=r['stats']['paths'], claims={l: d for l, d in list(r['claims'].items())[:60]},
                    queries=r['stats']['queries'], feasibility_queries=r['stats']['feasibility'],
                    solver_s=r['stats']['solver_s'], wall_s=r['wall'],
                    limit=r.get('limit'), undecided=sorted(set(r.get('unknown', [])))[:20],
                    engine_errors=[e['err'][:300] for e in r.get('errors', [])][:5],
                    not_shown_reachable=r.get('uncovered', [])[:20]) for r in results],
        queries_discharged=int(tot.get('queries', 0)), queries_unsat=int(tot.get('unsat', 0)),
        queries_sat=int(tot.get('sat', 0)), queries_unknown=int(tot.get('unknown', 0)),
        decided_by_normal_form=int(tot.get('trivial', 0)),
        paths=int(tot.get('paths', 0)), solver_time_s=round(tot.get('solver_s', 0.), 2),
        spurious_models_not_reproduced=unconfirmed[:20],
        violations=[dict(case=c, claim=l, detail=d[:400], replay=p) for p, c, l, d in violations],
        known_findings=list(known_hit),
    )
    ev = dict(property=chk.prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
              coverage=cov, wall_s=round(wall, 2))
    with open(os.path.join(EVID, chk.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
