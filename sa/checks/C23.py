"""Effect and typestate analysis of file handles. The parameter writer is interpreted for
every combination of target, directory and answers: open-for-writing, prompts, writes and
the result are read off the effect trace. Every function that opens a file is interpreted
and the open and close effects must balance on every path that returns; open calls that
no interpreted path reaches must be the context of a with statement."""
import ast
import itertools
import an
import values as V
from common import *
import files
import C34
from C22 import ufloats
TECHNIQUE = 'effect/typestate analysis of file handles over all answers; custom lint over remaining open calls'
ASSUMPTIONS = ['files opened inside external libraries are closed by them']
SEEN = set()


def note(r):
    for e in r.events:
        if e.kind == 'open':
            SEEN.add(e.where)


def balanced(ctx, tag, r, w):
    note(r)
    left = files.open_close(r.events)
    n = len([e for e in r.events if e.kind == 'open'])
    ctx.ob('handles closed', tag, not left, '%d opened, %s left open' % (n, left or 'none'), w)


ANSWERS = [['y'], ['n'], ['', 'y'], ['maybe', 'n'], ['q', 'q', 'y'], ['yn', ' ', 'n'], ['no way', 'y'], ['0', 'nn', 'n']]
YES = ('y', 'yes', 'Y', 'Yes', 'YES')


def writer(ctx):
    w = ctx.where('io', 'write_parameter_text_file')
    paths = ['/data/bicycles/Rigid/Parameters/RigidBenchmark.txt', 'Parameters/RigidBenchmark.txt', 'RigidBenchmark.txt']
    for path, ex, ans, hasdir in itertools.product(paths, (False, True), ANSWERS, (True, False)):
        if not ex and ans != ['y'] and ans != ['n']:
            continue
        if ex and not hasdir:
            continue
        tag = '%s, %s, answers %s%s' % (path, 'existing' if ex else 'new', ans, '' if hasdir else ', no directory')
        with ctx.group('overwrite', tag, w):
            import posixpath
            d = posixpath.dirname(path)
            t = files.Tree(ctx, {path: 'old = 1.0\n'} if ex else {}, ans, dirs=[d] if hasdir and d else [])
            a = t.a
            st = a.state()
            r = a.call(a.get('io', 'write_parameter_text_file'),
                       [string(path), a.I.new_dict(st, {string(k): V.var(k, k == 'c') for k in ('c', 'lam', 'mB')})], {}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ev = [e for e in r.events if e.kind in ('open', 'input', 'write', 'close')]
            touch = [i for i, e in enumerate(ev) if e.kind == 'open' and e.data[2] != 'r' and 'r' != (e.data[2] or '')[:1]]
            asks = [i for i, e in enumerate(ev) if e.kind == 'input']
            last = ans[min(t.asked, len(ans)) - 1] if t.asked else None
            agreed = not ex or last in YES
            ctx.ob('overwrite', tag + ' asked', bool(asks) == ex, '%d prompts' % len(asks), w)
            ctx.ob('overwrite', tag + ' touched', bool(touch) == agreed, '%d opened for writing after answer %s' % (len(touch), last), w)
            if touch and asks:
                ctx.ob('overwrite', tag + ' asked first', min(touch) > max(asks), 'prompt before the file is opened for writing', w)
            out = files.written(r.events)
            done = any(out.get(p) for p in out)
            ctx.ob('overwrite', tag + ' target only', set(out) <= {path}, 'files %s' % sorted(out), w)
            ctx.ob('result', tag, r.value is (TRUE if agreed else FALSE) and done == agreed,
                   'returns %s, written %s' % (V.show(r.value), done), w)
            if not hasdir and d:
                mk = [e.data[0].lit for e in r.events if e.kind == 'mkdir']
                ctx.ob('directory', tag, mk == [d], 'created %s' % mk, w)
            balanced(ctx, tag, r, w)
            if agreed:
                i = [i for i, e in enumerate(r.events) if e.kind == 'write']
                c = [i for i, e in enumerate(r.events) if e.kind == 'close']
                said = [e for e in r.events if e.kind == 'print']
                ctx.ob('handles closed', tag + ' after the last write', bool(c) and bool(i) and max(c) > max(i), '', w)


def openers(ctx):
    """All other functions that open files."""
    mpath = '/d/RigidMeasured.txt'
    text = 'aa = 1.0\nTcB1 = 1.2+/-0.1\n# c\n'
    jobs = [('io', 'load_parameter_text_file', [string(mpath)]), ('io', 'write_periods_to_file', [string(mpath), None])]
    for mod, q, args in jobs:
        w = ctx.where(mod, q)
        for nm, tx in (('empty file', ''), ('some lines', text), ('no final newline', text.rstrip('\n'))):
            with ctx.group('handles closed', '%s %s' % (q, nm), w):
                t = files.Tree(ctx, {mpath: tx})
                ufloats(t.a)
                st = t.a.state()
                ar = [x if x is not None else t.a.I.new_dict(st, {string('TcB1'): V.var('T', True)}) for x in args]
                r = t.a.call(t.a.get(mod, q), ar, {}, st)
                if ctx.no_raise('completes', '%s %s' % (q, nm), r, w):
                    balanced(ctx, '%s %s' % (q, nm), r, w)
    w = ctx.where('tables', 'Table.create_rst_table')
    with ctx.group('handles closed', 'create_rst_table', w):
        a, r = C34.setup(ctx, C34.BIKES[:2], 'Measured', lambda b, k: True, False)
        r = a.method(r.value, 'create_rst_table', [], {'fileName': string('/out/table.rst')}, r.st)
        if ctx.no_raise('completes', 'create_rst_table', r, w):
            balanced(ctx, 'create_rst_table', r, w)
    for cls in SETS:
        for m in ('to_ini', 'to_yaml'):
            w = ctx.where('parameter_sets', 'ParameterSet.' + m)
            with ctx.group('handles closed', '%s %s' % (cls, m), w):
                t = files.Tree(ctx, {})
                st = t.a.state()
                r, _ = make_set(t.a, st, cls)
                r = t.a.method(r.value, m, [string('/out/p')], {}, r.st)
                if ctx.no_raise('completes', '%s %s' % (cls, m), r, w):
                    balanced(ctx, '%s %s' % (cls, m), r, w)
                    n = [e for e in r.events if e.kind == 'open' and e.data[2] == 'w']
                    ctx.ob('written where asked', '%s %s' % (cls, m), len(n) == 1 and files.path_of(n[0].data[0]) == '/out/p',
                           '%d files' % len(n), w)


def sites(ctx):
    """open() calls nobody above reached."""
    for name in ctx.project.all_modules():
        m = ctx.project.module(name)
        par = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'open' or
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and
                    isinstance(n.func.value, ast.Name) and n.func.value.id in ('io', 'codecs', 'os')):
                continue
            where = '%s.py:%d' % (name, n.lineno)
            fn = n
            while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                fn = par.get(fn)
            con = '%s %s' % (name, getattr(fn, 'name', 'module level'))
            if any(s.split(' ')[0] == where for s in SEEN):
                ctx.ob('open calls', con, True, 'interpreted, balanced above', where)
                continue
            p = par.get(n)
            if isinstance(p, ast.withitem):
                ctx.ob('open calls', con, True, 'context of a with statement', where)
            elif isinstance(p, (ast.Attribute, ast.Call, ast.For, ast.Expr, ast.comprehension)):
                ctx.ob('open calls', con, False, 'the handle is used once and never closed', where)
            else:
                ctx.ob('open calls', con, an.UNK, 'handle escapes the analysis', where)



def is_open(n):
    return isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'open' or
                                        isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and
                                        isinstance(n.func.value, ast.Name) and n.func.value.id in ('io', 'codecs'))


class Held:
    """Handles certainly open at each point of one function (must analysis, normal
    paths only): those still open where the function returns are leaks."""

    def __init__(self, fn):
        self.leaks = []
        self.jumps = []
        self.finals = []
        out = self.block(fn.body, frozenset())
        if out is not None:
            self.leave(out, getattr(fn.body[-1], 'end_lineno', fn.lineno))

    def leave(self, s, line):
        keep = self.finals
        for i in range(len(keep) - 1, -1, -1):
            self.finals = keep[:i]
            s = self.block(keep[i], s)
            if s is None:
                break
        self.finals = keep
        for v, at in sorted(s or ()):
            self.leaks.append((v, at, line))

    def block(self, body, s):
        for n in body:
            if s is None:
                return None
            s = self.stmt(n, s)
        return s

    def meet(self, *ss):
        ss = [x for x in ss if x is not None]
        return frozenset.intersection(*ss) if ss else None

    def uses(self, nodes, s):
        """Handles closed or handed on by these expressions."""
        gone = set()
        names = {v for v, _ in s}
        for top in nodes:
            fine = set()
            for n in ast.walk(top):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    if n.func.attr == 'close':
                        gone.add(n.func.value.id)
                    fine.add(n.func.value)
            for n in ast.walk(top):
                if isinstance(n, ast.Name) and n.id in names and n not in fine and n is not top:
                    gone.add(n.id)
        return frozenset(x for x in s if x[0] not in gone)

    def stmt(self, n, s):
        if isinstance(n, ast.Return):
            s = self.uses([n.value] if n.value is not None else [], s)
            if isinstance(n.value, ast.Name):
                s = frozenset(x for x in s if x[0] != n.value.id)
            self.leave(s, n.lineno)
            return None
        if isinstance(n, ast.Raise):
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            if self.jumps:
                self.jumps[-1].append(s)
            return None
        if isinstance(n, ast.If):
            s = self.uses([n.test], s)
            return self.meet(self.block(n.body, s), self.block(n.orelse, s))
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            s = self.uses([n.iter if not isinstance(n, ast.While) else n.test], s)
            mark = len(self.leaks)
            for _ in range(3):
                del self.leaks[mark:]
                self.jumps.append([])
                out = self.block(n.body, s)
                js = self.jumps.pop()
                s = self.meet(s, out, *js)
            return self.meet(self.block(n.orelse, s), *js) if n.orelse else s
        if isinstance(n, (ast.With, ast.AsyncWith)):
            cs = [i.context_expr for i in n.items]
            held = {c.id for c in cs if isinstance(c, ast.Name)}
            s = self.uses(cs, frozenset(x for x in s if x[0] not in held))
            return self.block(n.body, s)
        if isinstance(n, ast.Try):
            if n.finalbody:
                self.finals = self.finals + [n.finalbody]
            mark = len(self.leaks)
            b = self.block(n.body, s)
            h = []
            for x in n.handlers:
                keep = len(self.leaks)
                # any part of the body may have run
                o = self.block(x.body, frozenset())
                del self.leaks[keep:]
                h.append(o)
            b = self.block(n.orelse, b) if b is not None and n.orelse else b
            s = self.meet(b, *h)
            if n.finalbody:
                self.finals = self.finals[:-1]
                s = self.block(n.finalbody, s) if s is not None else None
            return s
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Match if hasattr(ast, 'Match') else ast.ClassDef)):
            used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            return frozenset(x for x in s if x[0] not in used)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and is_open(n.value):
            v = n.targets[0].id
            s = self.uses([n.value], s)
            return frozenset(x for x in s if x[0] != v) | {(v, n.lineno)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Name):
            return s
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return frozenset(x for x in s if x[0] not in n.names)
        return self.uses([n], s)


def held(ctx, name, tree):
    """No function returns while a handle it opened is certainly still open."""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if not any(isinstance(n, ast.Assign) and is_open(n.value) for n in ast.walk(fn)):
            continue
        leaks = Held(fn).leaks
        ctx.ob('handles closed', '%s.%s where it returns' % (name, fn.name), not leaks,
               '; '.join('%s opened at line %d is open when the function ends at line %d' % x for x in leaks[:3]),
               '%s.py:%d' % (name, leaks[0][2] if leaks else fn.lineno))


def check(ctx):
    SEEN.clear()
    writer(ctx)
    openers(ctx)
    sites(ctx)
    for name in ctx.project.all_modules():
        held(ctx, name, ctx.project.module(name).tree)
