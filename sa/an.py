"""Running analyses, comparing abstract values, and collecting obligations."""
import contextlib
import json
import os
import sys
import time
import traceback

import ring
import values as V
from values import (Num, Const, Str, Tup, Ref, Arr, Slice, Term, Ext, Obj, Ite, Frozen,
                    NONE, TRUE, FALSE, UNBOUND, ABSENT, num, const, tup, term, ext,
                    string, ref, arr, Value)
from interp import (Interp, State, NeedSplit, DeadPath, Unsupported, HDict, HInst, HList,
                    HEnv, Raised)
from project import Project, AnalysisBroken

sys.setrecursionlimit(20000)

EQ, DIFF, UNK = 'holds', 'violated', 'undecided'


# -------------------------------------------------------------------- compare
class Mismatch(object):
    def __init__(self, path, got, want, cond, verdict, why=''):
        self.path, self.got, self.want, self.cond = path, got, want, cond
        self.verdict, self.why = verdict, why

    def text(self):
        s = '%s: got %s, expected %s' % (self.path or 'value', clip(V.show(self.got)),
                                         clip(V.show(self.want)))
        if self.cond is not TRUE:
            s += ' [when %s]' % clip(V.show_pc(self.cond), 200)
        if self.why:
            s += ' (%s)' % self.why
        return s


def clip(s, n=400):
    return s if len(s) <= n else s[:n] + '...'


def opaque_heads(v):
    """Names of the uninterpreted functions a value is built from."""
    heads = set()
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, ring.RF):
            for i in x.atoms():
                a = ring.atom_by_id(i)
                if a.head not in ring.INTERPRETED and a.head not in ('opq', 'real', 'imag'):
                    heads.add(a.head)
                stack.extend(a.args)
        elif isinstance(x, Term):
            h = x.head if x.head != 'attr' else 'attr.' + V.show(x.args[1])
            if h not in ("attr.'real'", "attr.'imag'"):
                heads.add(h)
            stack.extend(x.args)
        elif isinstance(x, Num):
            stack.append(x.rf)
        elif isinstance(x, Value):
            f = getattr(x, 'sub_rfs', None)
            if f:
                stack.extend(f())
            if isinstance(x, Frozen):
                stack.extend(x.items)
            if isinstance(x, Ext):
                heads.add(x.path)
    return heads


class Comparator(object):
    def __init__(self, strict=False, loose=True, ignore_u=True):
        self.strict = strict
        self.loose = loose
        self.ignore_u = ignore_u
        self.out = []
        self.n = 0

    def compare(self, a, b, path='', pc=TRUE):
        if a is b:
            self.n += 1
            return EQ
        if a.var != Value.var or b.var != Value.var:
            res = EQ
            n0 = len(self.out)
            diff = FALSE
            for c, x in V.leaves(a, pc):
                for c2, y in V.leaves(b, c):
                    r = self.compare(x, y, path, c2)
                    res = worst(res, r)
                    if r == DIFF:
                        diff = V.or_(diff, c2)
            if res == DIFF and not certain(diff, pc, b.var != Value.var):
                res = UNK
                for m in self.out[n0:]:
                    if m.verdict == DIFF:
                        m.verdict, m.why = UNK, (m.why + ' (not known to happen)').strip()
            return res
        self.n += 1
        r, why = self.leaf(a, b, path, pc)
        if r is None:
            return why
        if r != EQ:
            self.out.append(Mismatch(path, a, b, pc, r, why))
        return r

    def many(self, xs, ys, path, pc, fmt):
        res = EQ
        for i, (x, y) in enumerate(zip(xs, ys)):
            res = worst(res, self.compare(x, y, path + fmt(i), pc))
        return None, res

    def leaf(self, a, b, path, pc):
        seqs = ('list', 'set', 'array')

        def as_seq(v):
            if isinstance(v, Tup):
                return list(v.items)
            if isinstance(v, Frozen) and v.kind in ('list', 'set'):
                return list(v.items)
            if isinstance(v, Frozen) and v.kind == 'array' and len(v.meta) == 1:
                return list(v.items)
            return None
        if isinstance(a, Frozen) and isinstance(b, Frozen) and a.kind == 'array' and b.kind == 'array':
            if a.meta != b.meta:
                return DIFF, 'shape %r instead of %r' % (a.meta, b.meta)
            sh = a.meta

            def fmt(i):
                ix = []
                for d in reversed(sh):
                    ix.append(i % d)
                    i //= d
                return '[%s]' % ','.join(map(str, reversed(ix)))
            return self.many(a.items, b.items, path, pc, fmt)
        sa, sb = as_seq(a), as_seq(b)
        if sa is not None and sb is not None:
            if len(sa) != len(sb):
                return DIFF, 'length %d instead of %d' % (len(sa), len(sb))
            return self.many(sa, sb, path, pc, lambda i: '[%d]' % i)
        if isinstance(a, Frozen) and isinstance(b, Frozen) and a.kind == b.kind == 'dict':
            da = {a.items[i]: a.items[i + 1] for i in range(0, len(a.items), 2)}
            db = {b.items[i]: b.items[i + 1] for i in range(0, len(b.items), 2)}
            if set(da) != set(db):
                miss = [V.show(k) for k in db if k not in da]
                extra = [V.show(k) for k in da if k not in db]
                lit = all(isinstance(k, Str) and k.lit is not None for k in list(da) + list(db))
                return (DIFF if lit else UNK), 'missing keys %s, extra keys %s' % (miss, extra)
            res = EQ
            for k in db:
                res = worst(res, self.compare(da[k], db[k], '%s[%s]' % (path, V.show(k)), pc))
            return None, res
        if isinstance(a, (Num, Term)) and isinstance(b, (Num, Term)):
            if isinstance(a, Num) or isinstance(b, Num):
                return self.nums(a, b)
            if a.head == b.head and len(a.args) == len(b.args):
                return self.args(a, b)
            return (DIFF if self.strict else UNK), 'different operations'
        if isinstance(a, Num) and b in (TRUE, FALSE) or isinstance(b, Num) and a in (TRUE, FALSE):
            return DIFF, ''
        if isinstance(a, Str) and isinstance(b, Str):
            if a.lit is not None and b.lit is not None:
                return DIFF, ''
            fa = ''.join(p for p in a.parts if isinstance(p, str))
            fb = ''.join(p for p in b.parts if isinstance(p, str))
            va = [p for p in a.parts if not isinstance(p, str)]
            vb = [p for p in b.parts if not isinstance(p, str)]
            if len(va) == len(vb):
                r = EQ
                why = ''
                for x, y in zip(va, vb):
                    c = Comparator(self.strict, self.loose)
                    q = c.compare(x, y, path, pc)
                    r = worst(r, q)
                if r == EQ:
                    return DIFF, 'text differs'
                if r == DIFF:
                    return DIFF, 'inserted values differ'
            if (not va) != (not vb):
                return (DIFF if self.strict else UNK), 'text differs'
            return (DIFF if self.strict else UNK), 'text differs'
        if isinstance(a, Term) or isinstance(b, Term):
            return (DIFF if self.strict else UNK), ''
        if isinstance(a, Frozen) and isinstance(b, Frozen) and a.kind == b.kind == 'inst':
            if a.meta != b.meta:
                return DIFF, 'class %s instead of %s' % (a.meta, b.meta)
            da = {a.items[i]: a.items[i + 1] for i in range(0, len(a.items), 2)}
            db = {b.items[i]: b.items[i + 1] for i in range(0, len(b.items), 2)}
            res = EQ
            for k in db:
                if k in da:
                    res = worst(res, self.compare(da[k], db[k], '%s.%s' % (path, V.show(k)), pc))
            return None, res
        if isinstance(a, Slice) and isinstance(b, Slice):
            return self.many((a.a, a.b, a.c), (b.a, b.b, b.c), path, pc, lambda i: '<slice %d>' % i)
        return DIFF, ''

    def args(self, a, b):
        res = EQ
        for x, y in zip(a.args, b.args):
            c = Comparator(self.strict, self.loose)
            res = worst(res, c.compare(x, y))
        return res, 'arguments differ' if res != EQ else ''

    def nums(self, a, b):
        ra = a.rf if isinstance(a, Num) else ring.app('opq', a)
        rb = b.rf if isinstance(b, Num) else ring.app('opq', b)
        if not self.ignore_u and isinstance(a, Num) and isinstance(b, Num) and a.u != b.u:
            return DIFF, 'uncertainty %s' % ('dropped' if b.u else 'introduced')
        d = None
        if ring.size(ra) + ring.size(rb) < 60 or not ring.clearly_differ(ra, rb):
            d = ra - rb
            if ring.zero_test(d):
                return EQ, ''
            if ring.numerically_zero(d):
                return EQ, ''
        ha, hb = opaque_heads(ra), opaque_heads(rb)
        if ha != hb and not self.strict:
            # a different library operation may still denote the same value
            free = (ha ^ hb) <= {'abs', 'nan', 'in'} and 'in' in ha | hb and ha | hb <= {'abs', 'in', 'nan'}
            # (the n-th smallest of some numbers can be evaluated; dividing by zero is never the same)
            if ((ha ^ hb) - {'nth smallest', 'div0'}) and not free:
                return UNK, 'uninterpreted operations %s / %s' % (sorted(ha - hb), sorted(hb - ha))
        if d is None:
            return DIFF, 'got %s, want %s' % (clip(ring.show(ra, 4), 100), clip(ring.show(rb, 4), 100))
        return DIFF, 'difference %s' % clip(ring.show(d, 6), 200)


# opaque results that may be anything
FREE_HEADS = {'call:.yaxis_inverted'}
NUMERIC = ('call:numpy.', 'call:scipy.', 'call:math.')


def unfollowed(i, guarded=False):
    """Whether the i-th condition depends on the result of a library call there is no
    contract for. Thresholds on numeric functions count as followed unless what is
    expected has conditions of its own, which might be the same ones."""
    key = V.cond_key(i)
    heads = set()
    stack = [key]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, (Value, ring.RF)):
            heads |= opaque_heads(x)
            if isinstance(x, Str):
                stack.extend(p for p in x.parts if not isinstance(p, str))
            elif isinstance(x, Tup):
                stack.extend(x.items)
    heads = {h for h in heads if h.startswith('call:')} - FREE_HEADS
    if not heads:
        return False
    return guarded or key[0] not in ('pos', 'zero') or not all(h.startswith(NUMERIC) for h in heads)


class Trial(ring.Point):
    """A point with values of every size and sign, to find out whether conditions can hold together."""

    def _atom(self, a):
        if a.head in ring.INTERPRETED or a.head in ('pi', 'imag') or a.head == 'var' and a.args[0] in self.overrides:
            return super()._atom(a)
        if a.head == 'opq' and getattr(a.args[0], 'head', None) == 'nth smallest':
            return super()._atom(a)
        k = '%s/%s/%s' % (self.salt, a.head, [self.rf(x) if isinstance(x, ring.RF) else self.other(x) for x in a.args]
                          if a.head != 'var' else a.args[0])
        h = ring._hash01('how/' + k)
        x = ring._hash01(k)
        if h < 0.3:
            v = float(int(x * 12))
        elif h < 0.6:
            v = 10. ** (8 * x - 4)
        else:
            v = 0.1 + 3 * x
        return -v if ring._hash01('sign/' + k) < 0.4 else v


def cubes(c, limit=64):
    out = []

    def go(v, lits):
        if len(out) >= limit or v is FALSE:
            return
        if v is TRUE:
            out.append(lits)
            return
        go(v.hi, lits + [(v.var, True)])
        go(v.lo, lits + [(v.var, False)])
    go(c, [])
    return out


def holds_somewhere(region):
    """False only if sampling never satisfies the arithmetic conditions of any case of the region."""
    cs = cubes(V.with_theory(region))
    tests = []
    for lits in cs:
        t = []
        for i, yes in lits:
            k = V.cond_key(i)
            if k[0] == 'pos':
                t.append((k[1], yes))
        if not t or len(t) > 8 or len(t) == 1 and ring.size(t[0][0]) < 3 and not any(
                a.head != 'var' for a in ring.all_atoms(t[0][0]).values()):
            return True
        tests.append(t)
    if len(cs) >= 64:
        return True
    bad = 0
    for n in range(1500):
        p = Trial('trial%d' % n)
        for t in tests:
            try:
                for rf, yes in t:
                    v = p.rf(rf)
                    if isinstance(v, complex):
                        if abs(v.imag) > 1e-9 * (1 + abs(v)):
                            raise ValueError
                        v = v.real
                    if (v > 0) != yes:
                        break
                else:
                    return True
            except (ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError):
                bad += 1
    return bad > 1000 * len(tests)


def certain(region, pc, guarded=False):
    """Whether some input within pc surely falls into the region, whatever the library
    calls without a contract return."""
    r = V.or_(region, V.not_(pc))
    for i in V.support(r):
        if unfollowed(i, guarded):
            a = V.mk(i, TRUE, FALSE)
            r = V.and_(V._restrict(r, a), V._restrict(r, V.not_(a)))
    r = V.and_(r, pc)
    return V.feasible(r) and holds_somewhere(r)


def worst(a, b):
    if DIFF in (a, b):
        return DIFF
    if UNK in (a, b):
        return UNK
    return EQ


# ------------------------------------------------------------------------ run
class Result(object):
    """What one analysed call may do."""

    def __init__(self, I, st, value, raised, events):
        self.I, self.st, self.value, self.raised, self.events = I, st, value, raised, events
        self.unsure = []        # errors under conditions that cannot be followed

    @property
    def returns(self):
        return self.value is not None

    def frozen(self):
        return self.I.freeze(self.st, self.value)

    def freeze(self, v):
        return self.I.freeze(self.st, v)

    def calls(self, name=None):
        for e in self.events:
            if e.kind == 'call' and (name is None or e.data[0] == name):
                yield e


MONITORS = []          # observers of every analysed call (see sweep.py)
PRELOAD = ('main', 'models', 'parameter_sets', 'tables', 'rider', 'period', 'plot', 'io', 'com',
           'geometry', 'inertia', 'conversions', 'bicycle')


class Analysis(object):
    """One interpreter instance with the package loaded on demand."""

    def __init__(self, project, **cfg):
        self.project = project
        self.ctx = None
        self.I = Interp(project, cfg)
        self.st = self.I.st0
        for m in PRELOAD:
            self.I.load(m)

    def get(self, mod, qual):
        """A function, class or method value of the package."""
        env = self.I.mods.get(mod)
        if env is None:
            env = self.I.load(mod)
        parts = qual.split('.')
        v = self.I.obj(self.st, env).vars.get(parts[0])
        if v is None:
            raise AnalysisBroken('%s.%s is gone' % (mod, qual))
        for p in parts[1:]:
            w = self.I.lookup(v, p)
            if w is None:
                raise AnalysisBroken('%s.%s is gone' % (mod, qual))
            v = w
            if isinstance(v, Obj) and v.kind in ('property', 'classmethod', 'staticmethod'):
                v = v.data['func']
        return v

    def state(self):
        return self.st.fork()

    def call(self, f, args=(), kw=None, st=None):
        """Analyse a call; never raises DeadPath."""
        st = st or self.state()
        if MONITORS:
            held = [(m, m.before(self, f, args, kw or {}, st)) for m in MONITORS]
            r = self.call1(f, args, kw, st)
            for m, h in held:
                m.after(self, f, args, kw or {}, h, r)
            return r
        return self.call1(f, args, kw, st)

    def call1(self, f, args, kw, st):
        I = self.I
        n0 = len(I.events)
        pc0 = st.pc
        I.sink.append([])
        I.callstack.append(('<analysis>', '<analysis>', I.alloc(st, HEnv({}, None, '?')), frozenset(), None))
        try:
            rs = self.call_split(f, list(args), dict(kw or {}), st)
        finally:
            I.callstack.pop()
            raised = I.sink.pop()
        states = [s for s, v in rs]
        m = I.merge(states)
        val = None
        if rs:
            val = rs[0][1]
            acc = rs[0][0].pc
            for s, v in rs[1:]:
                val = V.ite(acc, val, v)
                acc = V.or_(acc, s.pc)
            val = V.restrict(val, m.pc)
        res = Result(I, m, val, [], I.events[n0:])
        for x in raised:
            (res.raised if not V.feasible(x.st.pc) or certain(x.st.pc, pc0) else res.unsure).append(x)
        if res.unsure and self.ctx is not None:
            self.ctx.unsure(res.unsure)
        return res

    def call_split(self, f, args, kw, st):
        I = self.I
        snap = st.fork()
        nev = len(I.events)
        nsk = len(I.sink[-1])
        try:
            v = I.call(st, f, list(args), dict(kw), None)
            return [(st, v)]
        except DeadPath:
            return []
        except NeedSplit as e:
            del I.events[nev:]
            del I.sink[-1][nsk:]
            out = []
            for c in (e.cond, V.not_(e.cond)):
                if V.feasible(V.and_(snap.pc, c)):
                    out += self.call_split(f, args, kw, snap.fork(c))
            return out

    def method(self, obj, name, args=(), kw=None, st=None):
        st = st or self.state()
        f = self.I.lib.getattr(st, obj, name, None)
        return self.call(f, args, kw, st)


# ------------------------------------------------------------------- context
class Obligation(object):
    def __init__(self, rule, construct, verdict, detail='', where=''):
        self.rule, self.construct, self.verdict = rule, construct, verdict
        self.detail, self.where = detail, where

    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Ctx(object):
    def __init__(self, prop, tier, seed, project=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.project = project or Project()
        self.obs = []
        self.analyses = []
        self.notes = []
        self.assume = []
        self.known = []
        self.extra_funcs, self.extra_sites, self.extra_lines = set(), set(), set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def analysis(self, **cfg):
        a = Analysis(self.project, **cfg)
        a.ctx = self
        self.analyses.append(a)
        return a

    def ob(self, rule, construct, verdict, detail='', where=''):
        if verdict is True:
            verdict = EQ
        elif verdict is False:
            verdict = DIFF
        self.obs.append(Obligation(rule, construct, verdict, clip(detail, 1500), where))
        return verdict

    def unsure(self, rs):
        """Errors that may or may not happen: noted once each."""
        for r in rs:
            t = describe(r)
            if not any(o.rule == 'followed' and o.detail == t for o in self.obs):
                self.ob('followed', '%s at line %s' % (r.exc[0], getattr(r.node, 'lineno', '?')), UNK, t)

    def where(self, mod, qual=None):
        try:
            m = self.project.module(mod)
            n = m.functions.get(qual) or m.classes.get(qual)
            return 'bicycleparameters/%s.py:%s %s' % (mod, n.lineno if n else '?', qual or '')
        except AnalysisBroken:
            return mod

    @contextlib.contextmanager
    def group(self, rule, construct, where='', budget=None):
        """Obligations whose analysis may fail: a failure is undecided."""
        old = ring.BUDGET[0]
        ring.BUDGET[0] = budget or (60000000 if not self.thorough else 600000000)
        n = len(self.obs)
        try:
            yield
        except AnalysisBroken:
            raise
        except (Exception, RecursionError) as e:
            msg = '%s: %s' % (type(e).__name__, e)
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.obs.append(Obligation(rule, construct, UNK, clip(msg, 300), where))
        finally:
            ring.BUDGET[0] = old

    def equal(self, rule, construct, got, want, where='', strict=False, ignore_u=True, pc=TRUE, loose=True):
        """One obligation per call; detail lists the mismatches."""
        c = Comparator(strict, loose, ignore_u)
        r = c.compare(got, want, '', pc)
        bad = [m for m in c.out if m.verdict == r] if r != EQ else []
        detail = '; '.join(m.text() for m in bad[:4])
        if len(bad) > 4:
            detail += '; ... %d more' % (len(bad) - 4)
        self.ob(rule, construct, r, detail or '%d leaves equal' % c.n, where)
        return r

    def no_raise(self, rule, construct, res, where='', allow=()):
        """The call completes on every path (apart from allowed errors)."""
        bad = [r for r in res.raised if r.exc[0] not in allow and V.feasible(r.st.pc)]
        if bad:
            self.ob(rule, construct, DIFF, '; '.join(describe(r) for r in bad[:3]), where)
            return False
        if not res.returns:
            self.ob(rule, construct, UNK if res.unsure else DIFF, 'never returns', where)
            return False
        if res.unsure:
            self.ob(rule, construct, UNK, '; '.join(describe(r) for r in res.unsure[:3]), where)
            return True
        self.ob(rule, construct, EQ, 'completes on every path', where)
        return True

    def want(self, res, rule, construct, where=''):
        """res must return a value; otherwise record a violation."""
        if res.returns:
            return True
        self.ob(rule, construct, UNK if res.unsure else DIFF, 'does not return a value: %s' % (
            '; '.join(describe(r) for r in res.raised[:3]) or 'no normal exit'), where)
        return False


def describe(r):
    n = r.exc[0]
    v = r.exc[1]
    t = V.show(v, 3) if v is not NONE else ''
    s = '%s(%s) at line %s' % (n, clip(t, 120), getattr(r.node, 'lineno', '?'))
    if r.st.pc is not TRUE:
        s += ' when %s' % clip(V.show_pc(r.st.pc), 200)
    return s


# ------------------------------------------------------------------- builders
def sdict(a, st, keys, prefix='', u=False, extra=None, k='f'):
    """A closed dictionary of symbolic numbers named by their keys."""
    d = {string(x): V.var(prefix + x, u, k) for x in keys}
    for x, v in (extra or {}).items():
        d[string(x)] = v
    return a.I.new_dict(st, d)


def P(name):
    return ring.var(name)


def n(rf, u=False):
    return num(rf, u)


def matrix(rows):
    rows = [[x if isinstance(x, Value) else num(x if isinstance(x, ring.RF) else ring.const(x)) for x in r] for r in rows]
    return V.frozen('array', (len(rows), len(rows[0])), [x for r in rows for x in r])


def vector(xs):
    return V.frozen('array', (len(xs),), [x if isinstance(x, Value) else num(x if isinstance(x, ring.RF) else ring.const(x)) for x in xs])


def stack(mats):
    return V.frozen('array', (len(mats),) + mats[0].meta, [x for m in mats for x in m.items])
