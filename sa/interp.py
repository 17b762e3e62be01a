"""Forward abstract interpretation of the package source over the value domain
of values.py: one abstract state per program point, joined where control flow
meets, with user functions analysed in the calling context."""
import ast
import itertools
from fractions import Fraction

import ring
import values as V
from values import (Num, Const, Str, Tup, Ref, Arr, Slice, Term, Ext, Obj, Ite, Frozen,
                    NONE, TRUE, FALSE, UNBOUND, ABSENT, num, const, tup, term, ext,
                    string, ref, arr, Value)


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class DeadPath(Exception):
    pass


class Unsupported(Exception):
    """A construct outside the modelled language; the obligation is undecided."""


# ---------------------------------------------------------------- heap objects
class HList(object):
    __slots__ = ('own', 'items')
    kind = 'list'

    def __init__(self, items):
        self.items = list(items)

    def copy(self):
        return HList(self.items)


class HCycle(HList):
    """itertools.cycle: items in the order they will come next."""
    __slots__ = ()
    kind = 'cycle'

    def copy(self):
        return HCycle(self.items)


class HSet(HList):
    __slots__ = ()
    kind = 'set'

    def copy(self):
        return HSet(self.items)


class HDict(object):
    __slots__ = ('own', 'd', 'rest', 'name', 'factory', 'mirror')
    kind = 'dict'

    def __init__(self, d, rest=None, name=None):
        self.d = dict(d)         # key Value -> Value (maybe ABSENT on some paths)
        self.rest = rest         # None (closed) or function key Value -> Value
        self.name = name
        self.factory = None      # defaultdict
        self.mirror = None       # the instance whose __dict__ this is

    def copy(self):
        if self.mirror is not None:
            raise Unsupported('attributes changed through __dict__')
        n = HDict(self.d, self.rest, self.name)
        n.factory = self.factory
        return n


class HBuf(object):
    __slots__ = ('own', 'items')
    kind = 'buf'

    def __init__(self, items):
        self.items = list(items)

    def copy(self):
        return HBuf(self.items)


class HInst(object):
    __slots__ = ('own', 'cls', 'attrs', 'open')
    kind = 'inst'

    def __init__(self, cls, attrs=None, open=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.open = open

    def copy(self):
        return HInst(self.cls, self.attrs, self.open)


class HEnv(object):
    __slots__ = ('own', 'vars', 'parent', 'mod')
    kind = 'env'

    def __init__(self, vars, parent, mod):
        self.vars = dict(vars)
        self.parent = parent
        self.mod = mod

    def copy(self):
        return HEnv(self.vars, self.parent, self.mod)


class HSplit(object):
    __slots__ = ('own', 'cond', 'a', 'b')
    kind = 'split'

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b
        self.own = None


class State(object):
    __slots__ = ('heap', 'pc', 'token')

    def __init__(self, heap, pc):
        self.heap = heap
        self.pc = pc
        self.token = object()

    def fork(self, cond=TRUE):
        self.token = object()
        return State(dict(self.heap), V.and_(self.pc, cond))


class Raised(object):
    """An exceptional outcome."""

    def __init__(self, st, exc, node):
        self.st = st
        self.exc = exc       # (type name, value)
        self.node = node


class _Box(object):
    """A Python value carried through eval_split."""
    def __init__(self, v):
        self.v = v


class Outcome(object):
    def __init__(self):
        self.next = None
        self.brk = []
        self.cont = []
        self.ret = []      # (state, value)


class Event(object):
    __slots__ = ('pc', 'kind', 'data', 'where', 'seq', 'stack')

    def __init__(self, pc, kind, data, where, stack):
        self.pc = pc
        self.kind = kind
        self.data = data
        self.where = where
        self.stack = stack

    def __repr__(self):
        return '<%s %r @%s>' % (self.kind, self.data, self.where)


EXC_PARENTS = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'FileNotFoundError': 'OSError', 'IOError': 'Exception', 'OSError': 'Exception',
    'UnboundLocalError': 'NameError', 'NameError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'ImportError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'RecursionError': 'RuntimeError', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
    'JSONDecodeError': 'ValueError', 'LinAlgError': 'ValueError',
    'PermissionError': 'OSError', 'FileExistsError': 'OSError', 'TimeoutError': 'OSError',
    'IsADirectoryError': 'OSError', 'NotADirectoryError': 'OSError',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException',
    'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'FutureWarning': 'Warning',
    'RuntimeWarning': 'Warning', 'Warning': 'Exception', 'FrozenInstanceError': 'AttributeError',
    'Exception': 'BaseException', 'BaseException': None,
}


def exc_matches(name, handler, own={}, depth=20):
    if handler in ('IOError', 'EnvironmentError'):
        handler = 'OSError'
    if name in ('IOError', 'EnvironmentError'):
        name = 'OSError'
    if name is None or not depth:
        return False
    if name == handler:
        return True
    up = own.get(name)
    if up is None:
        up = [EXC_PARENTS.get(name, 'Exception')]
    return any(exc_matches(x, handler, own, depth - 1) for x in up)


class Interp(object):
    MAXDEPTH = 40
    MAXITER = 400
    MAXSTEPS = 400000

    def __init__(self, project, config=None):
        import libmodel
        self.project = project
        self.cfg = config or {}
        self.lib = libmodel.Lib(self)
        self.events = []
        self.naddr = itertools.count(1)
        self.serial = itertools.count(1)
        self.mods = {}
        self.sink = [[]]          # stack of lists of Raised
        self.trystack = []        # handler type-name lists in dynamic scope
        self.callstack = []
        self.in_class = 0
        self.steps = 0
        self.visited = set()      # (module, line) of analysed statements
        self.funcs_seen = set()
        self.callsites = set()
        self.stubs = dict(self.cfg.get('stubs', {}))
        self.st0 = State({}, TRUE)
        self.unsupported = []
        self.exc_own = {}         # exception classes of the package: name -> bases
        self.excstack = []        # exceptions being handled
        self.tupfields = []       # named tuple classes: (class, fields)

    # ------------------------------------------------------------ heap access
    def alloc(self, st, o):
        a = next(self.naddr)
        o.own = st.token
        st.heap[a] = o
        return a

    def obj(self, st, a):
        o = st.heap[a]
        while o.kind == 'split':
            c = V.restrict(o.cond, st.pc)
            if c is TRUE or not V.feasible(V.and_(st.pc, V.not_(c))):
                o = o.a
            elif c is FALSE or not V.feasible(V.and_(st.pc, c)):
                o = o.b
            else:
                raise NeedSplit(c)
            st.heap[a] = o
        return o

    def mut(self, st, a):
        o = self.obj(st, a)
        if getattr(o, 'own', None) is not st.token:
            o = o.copy()
            o.own = st.token
            st.heap[a] = o
        return o

    def new_list(self, st, items):
        return ref(self.alloc(st, HList(items)))

    def new_set(self, st, items):
        out = []
        for i in items:
            if i not in out:
                out.append(i)
        return ref(self.alloc(st, HSet(out)))

    def new_dict(self, st, d, rest=None, name=None):
        return ref(self.alloc(st, HDict(d, rest, name)))

    def new_arr(self, st, items, shape, dt='f'):
        items = list(items)
        b = self.alloc(st, HBuf(items))
        return arr(b, range(len(items)), shape, dt)

    def arr_items(self, st, a):
        b = self.obj(st, a.buf)
        its = b.items
        return [V.restrict(its[i], st.pc) for i in a.idx]

    # ------------------------------------------------------------------ merge
    def merge(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, s1, s2):
        pc = V.or_(s1.pc, s2.pc)
        sel = V.restrict(s1.pc, pc)
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for a, o1 in h1.items():
            o2 = h2.get(a)
            if o2 is None or o2 is o1:
                heap[a] = o1
            else:
                heap[a] = self.merge_obj(sel, o1, o2, pc)
        for a, o2 in h2.items():
            if a not in h1:
                heap[a] = o2
        return State(heap, pc)

    def merge_obj(self, c, o1, o2, pc):
        k = o1.kind
        if k != o2.kind:
            return HSplit(c, o1, o2)
        m = lambda a, b: a if a is b else V.restrict(V.ite(c, a, b), pc)
        if k == 'env':
            n = HEnv({}, o1.parent, o1.mod)
            for x in set(o1.vars) | set(o2.vars):
                n.vars[x] = m(o1.vars.get(x, UNBOUND), o2.vars.get(x, UNBOUND))
            n.own = None
            return n
        if k == 'list' or k == 'set':
            if len(o1.items) != len(o2.items):
                return HSplit(c, o1, o2)
            n = o1.copy()
            n.items = [m(a, b) for a, b in zip(o1.items, o2.items)]
            n.own = None
            return n
        if k == 'buf':
            if len(o1.items) != len(o2.items):
                return HSplit(c, o1, o2)
            n = HBuf([m(a, b) for a, b in zip(o1.items, o2.items)])
            n.own = None
            return n
        if k == 'dict':
            n = HDict({}, o1.rest or o2.rest, o1.name)
            n.factory = o1.factory
            n.mirror = o1.mirror
            keys = list(o1.d) + [x for x in o2.d if x not in o1.d]
            for x in keys:
                a = o1.d.get(x)
                b = o2.d.get(x)
                if a is None:
                    a = o1.rest(x) if o1.rest else ABSENT
                if b is None:
                    b = o2.rest(x) if o2.rest else ABSENT
                n.d[x] = m(a, b)
            n.own = None
            return n
        if k == 'inst':
            if o1.cls is not o2.cls:
                return HSplit(c, o1, o2)
            n = HInst(o1.cls, {}, o1.open)
            for x in list(o1.attrs) + [y for y in o2.attrs if y not in o1.attrs]:
                n.attrs[x] = m(o1.attrs.get(x, ABSENT), o2.attrs.get(x, ABSENT))
            n.own = None
            return n
        return HSplit(c, o1, o2)

    # --------------------------------------------------------------- raising
    def where(self, node):
        mod = self.callstack[-1][1] if self.callstack else '?'
        fn = self.callstack[-1][0] if self.callstack else '<module>'
        return '%s.py:%s (%s)' % (mod, getattr(node, 'lineno', '?'), fn)

    def raise_(self, st, name, val=NONE, node=None):
        self.sink[-1].append(Raised(st.fork(), (name, val), node))
        st.pc = FALSE
        raise DeadPath()

    def raise_if(self, st, cond, name, val=NONE, node=None):
        """Raise on the part of the state where cond holds; continue with the rest."""
        cond = V.restrict(cond, st.pc)
        if cond is FALSE:
            return
        c = V.and_(st.pc, cond)
        if not V.feasible(c):
            return
        s = st.fork(cond)
        self.sink[-1].append(Raised(s, (name, val), node))
        st.pc = V.and_(st.pc, V.not_(cond))
        if not V.feasible(st.pc):
            st.pc = FALSE
            raise DeadPath()

    def handled(self, name):
        """Whether a handler in dynamic scope would catch this exception."""
        for hs in self.trystack:
            for h in hs:
                if h is None or exc_matches(name, h, self.exc_own):
                    return True
        return False

    def may_raise(self, st, name, key, node=None):
        """A library operation whose failure depends on the environment: the
        failing branch is explored only where the program handles it."""
        if self.handled(name):
            self.raise_if(st, V.cond_atom(('raises', name) + tuple(key)), name,
                          term('exc', string(name)), node)

    def event(self, st, kind, data, node):
        self.events.append(Event(st.pc, kind, data, self.where(node),
                                 tuple(c[0] for c in self.callstack)))

    # ------------------------------------------------------------ modules
    def load(self, name):
        """The environment address of a package module."""
        if name in self.mods:
            return self.mods[name]
        if name != '@contracts':
            self.load('@contracts')
        m = self.lib.contracts() if name == '@contracts' else self.project.module(name)
        st = self.st0
        env = self.alloc(st, HEnv({'__name__': string('bicycleparameters.' + name),
                                   '__file__': string(m.path)}, None, name))
        self.mods[name] = env
        if name == '@contracts':
            o = self.mut(st, env)
            o.vars['_unsupported'] = V.ext('@unsupported')
            o.vars['_defaulting'] = V.ext('@defaulting')
        self.callstack.append(('<module>', name, env))
        self.sink.append([])
        try:
            out = self.block(m.tree.body, st)
        finally:
            self.callstack.pop()
            rs = self.sink.pop()
        if out.next is None:
            from project import AnalysisBroken
            raise AnalysisBroken('module %s never finishes loading: %s' % (
                name, [(r.exc, getattr(r.node, 'lineno', None)) for r in rs]))
        # keep the same state object
        st.heap = out.next.heap
        st.pc = TRUE
        st.token = object()
        return env

    def module_attr(self, st, modname, attr):
        env = self.mods.get(modname)
        if env is None:
            env = self.load_into(modname, st)
        o = self.obj(st, env)
        return o.vars.get(attr)

    def load_into(self, name, st):
        """Load a module from inside an analysis state."""
        old = self.st0
        self.st0 = State(st.heap, TRUE)
        self.st0.token = st.token
        saved = self.sink
        self.sink = [[]]
        try:
            env = self.load(name)
            st.heap = self.st0.heap
            st.token = object()
        finally:
            self.st0 = old
            self.sink = saved
        return env

    # ---------------------------------------------------------- statements
    def block(self, stmts, st):
        out = Outcome()
        cur = st
        for s in stmts:
            if cur is None:
                break
            o = self.stmt(s, cur)
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
            cur = o.next
            if cur is not None and cur.pc is FALSE:
                cur = None
        out.next = cur
        return out

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported('analysis budget exhausted')
        if self.callstack:
            if self.callstack[-1][1][0] != '@':
                self.visited.add((self.callstack[-1][1], s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(s).__name__, s.lineno))
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            return m(s, st)
        return self.simple(m, s, st)

    def simple(self, m, s, st):
        """Run a simple statement, splitting the state when needed."""
        snap = st.fork()
        nev = len(self.events)
        nsk = len(self.sink[-1])
        try:
            o = m(s, st)
            if o is None:
                o = Outcome()
                o.next = st
            return o
        except DeadPath:
            return Outcome()
        except NeedSplit as e:
            del self.events[nev:]
            del self.sink[-1][nsk:]
            return self.split(snap, e.cond, lambda x: self.simple(m, s, x))

    def split(self, snap, cond, f):
        cond = V.restrict(cond, snap.pc)
        outs = []
        for c in (cond, V.not_(cond)):
            p = V.and_(snap.pc, c)
            if V.feasible(p):
                x = snap.fork(c)
                outs.append(f(x))
        return self.join(outs)

    def join(self, outs):
        r = Outcome()
        r.next = self.merge([o.next for o in outs])
        for o in outs:
            r.brk += o.brk
            r.cont += o.cont
            r.ret += o.ret
        return r

    def eval_split(self, f, st):
        """[(state, value)] of evaluating an expression, split when needed."""
        snap = st.fork()
        nev = len(self.events)
        nsk = len(self.sink[-1])
        try:
            v = f(st)
            return [(st, v)]
        except DeadPath:
            return []
        except NeedSplit as e:
            del self.events[nev:]
            del self.sink[-1][nsk:]
            cond = V.restrict(e.cond, snap.pc)
            r = []
            for c in (cond, V.not_(cond)):
                if V.feasible(V.and_(snap.pc, c)):
                    r += self.eval_split(f, snap.fork(c))
            return r

    def s_Expr(self, s, st):
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            if a.name.split('.')[0] == 'bicycleparameters':
                v = self.import_path(a.name, st)
                if not a.asname:
                    self.bind(a.name.split('.')[0], V.obj('module', name='__init__', pkg=True), st)
                    continue
            else:
                v = ext(a.name if a.asname else a.name.split('.')[0])
                if '.' in a.name and not a.asname:
                    self.lib.imported(a.name)
            self.bind(a.asname or a.name.split('.')[0], v, st)

    def import_path(self, name, st):
        parts = name.split('.')
        if parts[0] == 'bicycleparameters':
            if len(parts) == 1:
                return V.obj('module', name='__init__', pkg=True)
            return V.obj('module', name=parts[1])
        return ext(name)

    def s_ImportFrom(self, s, st):
        mod = s.module
        if s.level or (mod or '').split('.')[0] == 'bicycleparameters':
            m = mod or ''
            if m.startswith('bicycleparameters'):
                m = m[len('bicycleparameters'):].lstrip('.')
            for a in s.names:
                if m == '':
                    if self.project.has(a.name):
                        v = V.obj('module', name=a.name)
                    else:
                        v = ext('bicycleparameters.' + a.name)
                else:
                    if a.name == '*':
                        env = self.mods.get(m) or self.load_into(m, st)
                        for k, x in self.obj(st, env).vars.items():
                            if not k.startswith('_'):
                                self.bind(k, x, st)
                        continue
                    if m not in self.mods:
                        self.load_into(m, st)
                    v = self.obj(st, self.mods[m]).vars.get(a.name)
                    if v is None:
                        raise Unsupported('cannot import %s from %s' % (a.name, m))
                self.bind(a.asname or a.name, v, st)
            return
        for a in s.names:
            if mod == '__future__':
                continue
            e = self.lib.ext_attr(mod + '.' + a.name)
            self.bind(a.asname or a.name, e, st)

    def bind(self, name, v, st):
        fr = self.callstack[-1]
        env = fr[2]
        if len(fr) > 4 and fr[4] is not None and name in fr[4].data.get('outer', ()) and \
                name not in self.obj(st, env).vars:
            env = self.outer_env(name, fr, st)
        o = self.mut(st, env)
        o.vars[name] = v

    def outer_env(self, name, fr, st):
        """The environment a global or nonlocal declaration refers to."""
        if fr[4].data['outer'][name] == 'global':
            return self.mods[fr[1]]
        a = self.obj(st, fr[2]).parent
        while a is not None:
            o = self.obj(st, a)
            if name in o.vars:
                return a
            a = o.parent
        raise Unsupported('nonlocal %s has no binding' % name)

    def s_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, st)
        self.bind(s.name, f, st)

    def decorate(self, d, f, st):
        name = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if name in ('property', 'classmethod', 'staticmethod'):
            return V.obj(name, name=f.data.get('name'), func=f)
        if name == 'abstractmethod':
            return f
        fn = d.func if isinstance(d, ast.Call) else d
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        if name in ('lru_cache', 'cache', 'cached_property') and isinstance(f, Obj) and f.kind == 'func':
            f.data['memo'] = {}
            return V.obj('property', name=f.data.get('name'), func=f) if name == 'cached_property' else f
        if not self.in_class:
            v = self.ev(d, st)
            if isinstance(v, Obj) and v.kind in ('func', 'bound', 'pyfunc', 'class'):
                return self.call(st, v, [f], {}, d)
        # unknown decorator: keep the function, remember the decorator
        if isinstance(f, Obj):
            f.data.setdefault('decorators', []).append(d)
        return f

    def memoized(self, st, f, args, kw, node):
        """functools.lru_cache: equal arguments give the very same object again."""
        def key(x):
            if isinstance(x, Ref) and self.obj(st, x.addr).kind in ('dict', 'list', 'arr', 'set') or isinstance(x, Arr):
                self.raise_(st, 'TypeError', string('unhashable argument'), node)
            return ('id', x.addr) if isinstance(x, Ref) else self.freeze(st, x)
        memo = f.data['memo']
        k = (tuple(key(x) for x in args), tuple(sorted((n, key(x)) for n, x in kw.items())))
        v = memo.get(k)
        if v is not None and (not isinstance(v, Ref) or v.addr in st.heap):
            return v
        memo[k] = v = self.call_func(st, f, args, kw, node)
        return v

    def make_func(self, s, st, name=None):
        a = s.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, st) for d in a.kw_defaults]
        fr = self.callstack[-1]
        name = name or getattr(s, 'name', '<lambda>')
        return V.obj('func', name=name, node=s, env=fr[2], mod=fr[1],
                     defaults=defaults, kwd=kwd, cls=None)

    def s_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        fr = self.callstack[-1]
        env = self.alloc(st, HEnv({}, fr[2], fr[1]))
        cls = V.obj('class', name=s.name, bases=bases, env=env, mod=fr[1], node=s, ns={})
        self.callstack.append((s.name, fr[1], env))
        self.in_class += 1
        try:
            out = self.block(s.body, st)
        finally:
            self.callstack.pop()
            self.in_class -= 1
        if out.next is None:
            return Outcome()
        st.heap = out.next.heap
        st.token = object()
        ns = dict(self.obj(st, env).vars)
        cls.data['ns'] = ns
        for v in ns.values():
            f = v
            if isinstance(v, Obj) and v.kind in ('property', 'classmethod', 'staticmethod'):
                f = v.data['func']
            if isinstance(f, Obj) and f.kind == 'func' and f.data['cls'] is None:
                f.data['cls'] = cls
                f.data['skip_env'] = env
        bn = [b.path.split('.')[-1] if isinstance(b, Ext) else b.data['name'] for b in bases
              if isinstance(b, Ext) or isinstance(b, Obj) and b.kind == 'class']
        if any(b in EXC_PARENTS or b in self.exc_own or b.endswith(('Error', 'Exception', 'Warning')) for b in bn):
            self.exc_own[s.name] = bn
        self.lib.decorate_class(st, cls, s)
        self.bind(s.name, cls, st)

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        o = Outcome()
        o.ret.append((st, v))
        return o

    def s_Break(self, s, st):
        o = Outcome()
        o.brk.append(st)
        return o

    def s_Continue(self, s, st):
        o = Outcome()
        o.cont.append(st)
        return o

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = self.excstack[-1] if self.excstack else ('RuntimeError', NONE)
            self.raise_(st, cur[0], cur[1], s)
        v = self.ev(s.exc, st)
        name = 'Exception'
        if isinstance(v, Term) and v.head == 'exc':
            name = v.args[0].lit
        elif isinstance(v, Ext):
            name = v.path.split('.')[-1]
        elif isinstance(v, Ref):
            name = self.obj(st, v.addr).cls.data['name']
        self.raise_(st, name, v, s)

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        self.raise_if(st, V.not_(c), 'AssertionError', NONE, s)

    def s_Global(self, s, st):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.bind(t.id, UNBOUND, st)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.index(t.slice, st)
                self.lib.delitem(st, o, k, s)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                if isinstance(o, Ref):
                    self.mut(st, o.addr).attrs[t.attr] = ABSENT

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.name(t.id, st, t)
            v = self.ev(s.value, st)
            new = self.lib.augop(st, op, old, v, s)
            self.bind(t.id, new, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            old = self.lib.getattr(st, o, t.attr, t)
            v = self.ev(s.value, st)
            self.lib.setattr(st, o, t.attr, self.lib.augop(st, op, old, v, s), t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.index(t.slice, st)
            old = self.lib.getitem(st, o, k, t)
            v = self.ev(s.value, st)
            self.lib.setitem(st, o, k, self.lib.augop(st, op, old, v, s), t)
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.callstack[-1]
            self.bind(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                its = self.lib.iterate(st, v, t)
                i = star[0]
                k = n - i - 1
                for e, x in zip(t.elts[:i], its[:i]):
                    self.assign(e, x, st)
                self.assign(t.elts[i].value, self.new_list(st, its[i:len(its) - k]), st)
                for e, x in zip(t.elts[i + 1:], its[len(its) - k:]):
                    self.assign(e, x, st)
                return
            its = self.lib.unpack(st, v, n, t)
            for e, x in zip(t.elts, its):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.lib.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.index(t.slice, st)
            self.lib.setitem(st, o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported('assignment target')

    def s_If(self, s, st):
        outs = []
        for x, v in self.eval_split(lambda z: self.truth(self.ev(s.test, z), z), st):
            c = V.restrict(v, x.pc)
            tp = V.and_(x.pc, c)
            fp = V.and_(x.pc, V.not_(c))
            if tp is not FALSE and V.feasible(tp):
                if fp is FALSE or not V.feasible(fp):
                    outs.append(self.block(s.body, x))
                    continue
                outs.append(self.block(s.body, x.fork(c)))
            if fp is not FALSE and V.feasible(fp):
                y = x.fork(V.not_(c))
                if s.orelse:
                    outs.append(self.block(s.orelse, y))
                else:
                    o = Outcome()
                    o.next = y
                    outs.append(o)
        return self.join(outs)

    def s_Match(self, s, st):
        """A match statement is the chain of tests it abbreviates."""
        d = getattr(s, '_as_ifs', None)
        if d is None:
            d = s._as_ifs = desugar_match(s)
        return self.block(d, st)

    def s_For(self, s, st):
        outs = []
        for x, its in self.eval_split(lambda z: self.lib.iterate(z, self.ev(s.iter, z), s), st):
            outs.append(self.loop_over(s, x, its))
        return self.join(outs)

    def loop_over(self, s, st, its):
        if len(its) > self.MAXITER:
            raise Unsupported('loop of %d iterations' % len(its))
        r = Outcome()
        cur = st
        brk = []
        for it in its:
            if cur is None:
                break
            pre = self.simple(lambda _, z: self.assign(s.target, it, z), s, cur)
            if pre.next is None:
                cur = None
                break
            o = self.block(s.body, pre.next)
            brk += o.brk
            r.ret += o.ret
            cur = self.merge([o.next] + o.cont)
        if cur is not None and s.orelse:
            o = self.block(s.orelse, cur)
            r.ret += o.ret
            r.brk += o.brk
            r.cont += o.cont
            cur = o.next
        r.next = self.merge([cur] + brk)
        return r

    def s_While(self, s, st):
        r = Outcome()
        cur = st
        exits = []
        brk = []
        n = 0
        maxn = self.cfg.get('while_limit', 64)
        while cur is not None:
            n += 1
            parts = self.eval_split(lambda z: self.truth(self.ev(s.test, z), z), cur)
            nxt = []
            for x, v in parts:
                c = V.restrict(v, x.pc)
                fp = V.and_(x.pc, V.not_(c))
                tp = V.and_(x.pc, c)
                y = x.fork(c)
                if fp is not FALSE and V.feasible(fp):
                    exits.append(x.fork(V.not_(c)))
                if tp is not FALSE and V.feasible(tp):
                    o = self.block(s.body, y)
                    r.ret += o.ret
                    brk += o.brk
                    nxt += [o.next] + o.cont
            cur = self.merge(nxt)
            if n > maxn:
                lim = self.cfg.get('while_cut')
                if lim:
                    break
                raise Unsupported('while loop not bounded by constants')
            if self.cfg.get('while_cut') and n >= self.cfg['while_cut']:
                break
        r.next = self.merge(exits)
        if s.orelse and r.next is not None:
            o = self.block(s.orelse, r.next)
            r.ret += o.ret
            r.brk += o.brk
            r.cont += o.cont
            r.next = o.next
        r.next = self.merge([r.next] + brk)
        return r

    def handler_types(self, h, st):
        if h.type is None:
            return [None]
        out = []

        def add(t):
            name = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
            if isinstance(t, ast.Tuple):
                for x in t.elts:
                    add(x)
            elif name in EXC_PARENTS or name in self.exc_own or name in ('IOError', 'EnvironmentError'):
                out.append(name)
            else:
                val(self.ev(t, st), name)

        def val(v, name):
            if v.var != Value.var:
                raise NeedSplit(V.mk(v.var, TRUE, FALSE))
            if isinstance(v, Tup):
                for x in v.items:
                    val(x, None)
            elif isinstance(v, Ext):
                out.append(v.path.split('.')[-1])
            elif isinstance(v, Obj) and v.kind == 'class':
                out.append(v.data['name'])
            elif name is not None:
                out.append(name)
            else:
                raise Unsupported('handler type %s' % V.show(v, 2))
        add(h.type)
        return [None if x == 'BaseException' else x for x in out]

    def s_Try(self, s, st):
        if not s.finalbody:
            return self.try_except(s, st)
        self.sink.append([])
        try:
            o = self.try_except(s, st)
        finally:
            pend = self.sink.pop()
        r = Outcome()

        def last(x):
            f = self.block(s.finalbody, x)
            r.ret += f.ret
            r.brk += f.brk
            r.cont += f.cont
            return f.next
        if o.next is not None:
            r.next = last(o.next)
        for x, v in o.ret:
            y = last(x)
            if y is not None:
                r.ret.append((y, v))
        for x in o.brk:
            y = last(x)
            if y is not None:
                r.brk.append(y)
        for x in o.cont:
            y = last(x)
            if y is not None:
                r.cont.append(y)
        for q in pend:
            y = last(q.st)
            if y is not None:
                self.sink[-1].append(Raised(y, q.exc, q.node))
        return r

    def try_except(self, s, st):
        outs = []
        for x, hts in self.eval_split(lambda z: _Box([(h, self.handler_types(h, z)) for h in s.handlers]), st):
            outs.append(self.try_in(s, x, hts.v))
        return self.join(outs)

    def try_in(self, s, st, hts):
        self.sink.append([])
        self.trystack.append([t for _, ts in hts for t in ts])
        try:
            body = self.block(s.body, st)
        finally:
            self.trystack.pop()
            raised = self.sink.pop()
        outs = []
        if body.next is not None and s.orelse:
            e = self.block(s.orelse, body.next)
            body.next = e.next
            body.ret += e.ret
            body.brk += e.brk
            body.cont += e.cont
        outs.append(body)
        for r in raised:
            for h, ts in hts:
                if any(t is None or exc_matches(r.exc[0], t, self.exc_own) for t in ts):
                    x = r.st
                    if h.name:
                        v = r.exc[1]
                        if v is NONE:
                            v = term('exc', string(r.exc[0]))
                        elif not (isinstance(v, Term) and v.head == 'exc' or isinstance(v, Ref)):
                            v = term('exc', string(r.exc[0]), self.freeze(x, v))
                        self.bind(h.name, v, x)
                    self.event(x, 'except', (r.exc[0], getattr(r.node, 'lineno', None)), h)
                    self.excstack.append(r.exc)
                    try:
                        o = self.block(h.body, x)
                    finally:
                        self.excstack.pop()
                    outs.append(o)
                    break
            else:
                self.sink[-1].append(r)
        return self.join(outs)

    def s_With(self, s, st):
        def enter(z):
            vs = []
            for it in s.items:
                v = self.ev(it.context_expr, z)
                w = self.lib.enter(z, v, s)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, w, z)
                vs.append(v)
            return tup(vs)
        outs = []
        for x, vs in self.eval_split(enter, st):
            self.sink.append([])
            try:
                o = self.block(s.body, x)
            finally:
                raised = self.sink.pop()

            def leave(z, exc=None):
                """[(state, swallowed)] after leaving the contexts."""
                def f(y):
                    r = FALSE
                    for v in reversed(vs.items):
                        r = V.or_(r, self.lib.leave(y, v, s, exc if r is FALSE else None))
                    return r
                out = []
                for y, c in self.eval_split(f, z):
                    c = V.restrict(c, y.pc)
                    if c is TRUE or c is FALSE or exc is None:
                        out.append((y, c is TRUE))
                    else:
                        out += [(y.fork(c), True), (y.fork(V.not_(c)), False)]
                return out
            r = Outcome()
            nexts = []
            if o.next is not None:
                nexts += [y for y, _ in leave(o.next)]
            for y, v in o.ret:
                r.ret += [(z, v) for z, _ in leave(y)]
            for y in o.brk:
                r.brk += [z for z, _ in leave(y)]
            for y in o.cont:
                r.cont += [z for z, _ in leave(y)]
            for q in raised:
                for y, done in leave(q.st, q.exc):
                    if done:
                        nexts.append(y)
                    else:
                        self.sink[-1].append(Raised(y, q.exc, q.node))
            r.next = self.merge(nexts)
            outs.append(r)
        return self.join(outs)

    # --------------------------------------------------------- expressions
    def ev(self, e, st):
        v = getattr(self, 'e_' + type(e).__name__, None)
        if v is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, e.lineno))
        r = v(e, st)
        if r.var != Value.var:
            r = V.restrict(r, st.pc)
        return r

    def e_Constant(self, e, st):
        c = e.value
        if c is None:
            return NONE
        if c is True:
            return TRUE
        if c is False:
            return FALSE
        if c is Ellipsis:
            return V.ELLIPSIS
        if isinstance(c, str):
            return string(c)
        if isinstance(c, bytes):
            return term('bytes', string(c.decode('latin1')))
        return const(c)

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, id, st, node=None):
        fr = self.callstack[-1]
        a = fr[2]
        first = True
        while a is not None:
            o = self.obj(st, a)
            v = o.vars.get(id)
            if v is not None:
                if v.var != Value.var:
                    v = V.restrict(v, st.pc)
                if v is UNBOUND or v.var != Value.var:
                    bad = [c for c, l in V.leaves(v, st.pc) if l is UNBOUND]
                    if bad:
                        c = bad[0]
                        for b in bad[1:]:
                            c = V.or_(c, b)
                        self.events.append(Event(c, 'unbound', id, self.where(node),
                                                 tuple(x[0] for x in self.callstack)))
                        self.raise_if(st, c, 'UnboundLocalError', string(id), node)
                        v = V.restrict(v, st.pc)
                return v
            if first and a == fr[2] and len(fr) > 3 and id in fr[3]:
                # local of this function not yet assigned on any path
                self.events.append(Event(st.pc, 'unbound', id, self.where(node),
                                         tuple(x[0] for x in self.callstack)))
                self.raise_(st, 'UnboundLocalError', string(id), node)
            first = False
            a = o.parent
        b = self.lib.builtin(id)
        if b is None:
            self.events.append(Event(st.pc, 'unbound', id, self.where(node),
                                     tuple(x[0] for x in self.callstack)))
            self.raise_(st, 'NameError', string(id), node)
        return b

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.lib.getattr(st, o, e.attr, e)

    def index(self, s, st):
        if isinstance(s, ast.Slice):
            return V.slice_(*[NONE if x is None else self.ev(x, st)
                              for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tup([self.index(x, st) for x in s.elts])
        return self.ev(s, st)

    def e_Slice(self, e, st):
        return self.index(e, st)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        k = self.index(e.slice, st)
        return self.lib.getitem(st, o, k, e)

    def e_Tuple(self, e, st):
        return tup(self.elems(e.elts, st))

    def elems(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.lib.iterate(st, self.ev(x.value, st), x)
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        return self.new_list(st, self.elems(e.elts, st))

    def e_Set(self, e, st):
        return self.new_set(st, self.elems(e.elts, st))

    def e_Dict(self, e, st):
        d = self.new_dict(st, {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(st, d, self.ev(v, st), e)
            else:
                kk = self.ev(k, st)
                self.lib.setitem(st, d, kk, self.ev(v, st), e)
        return d

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.lib.binop(st, type(e.op).__name__, a, b, e)

    def e_UnaryOp(self, e, st):
        a = self.ev(e.operand, st)
        return self.lib.unop(st, type(e.op).__name__, a, e)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        return self.boolop(e.values, st, isand)

    def boolop(self, vals, st, isand):
        a = self.ev(vals[0], st)
        if len(vals) == 1:
            return a
        c = V.restrict(self.truth(a, st), st.pc)
        go = c if isand else V.not_(c)
        p = V.and_(st.pc, go)
        if p is FALSE or not V.feasible(p):
            return a
        q = V.and_(st.pc, V.not_(go))
        if q is FALSE or not V.feasible(q):
            return self.boolop(vals[1:], st, isand)
        b, = self.guarded(st, go, [lambda z: self.boolop(vals[1:], z, isand)])
        if b is None:
            return a
        return V.ite(go, b, a)

    def guarded(self, st, cond, fs):
        """Evaluate the functions under cond and merge the state back."""
        x = st.fork(cond)
        y = st.fork(V.not_(cond))
        try:
            rs = [f(x) for f in fs]
        except DeadPath:
            x = None
            rs = [None] * len(fs)
        m = self.merge([x, y])
        if m is None:
            st.pc = FALSE
            raise DeadPath()
        st.heap, st.pc, st.token = m.heap, m.pc, object()
        return rs

    def e_IfExp(self, e, st):
        c = V.restrict(self.truth(self.ev(e.test, st), st), st.pc)
        return self.choose(st, c, lambda z: self.ev(e.body, z), lambda z: self.ev(e.orelse, z))

    def choose(self, st, c, fa, fb):
        pa = V.and_(st.pc, c)
        pb = V.and_(st.pc, V.not_(c))
        if pb is FALSE or not V.feasible(pb):
            return fa(st)
        if pa is FALSE or not V.feasible(pa):
            return fb(st)
        x = st.fork(c)
        y = st.fork(V.not_(c))
        try:
            a = fa(x)
        except DeadPath:
            x, a = None, None
        try:
            b = fb(y)
        except DeadPath:
            y, b = None, None
        m = self.merge([x, y])
        if m is None:
            st.pc = FALSE
            raise DeadPath()
        st.heap, st.pc, st.token = m.heap, m.pc, object()
        if a is None:
            return b
        if b is None:
            return a
        return V.ite(c, a, b)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st)
            r = self.lib.compare(st, type(op).__name__, left, right, e)
            if len(e.ops) == 1:
                return r
            res = V.and_(res, self.truth(r, st))
            left = right
        return res

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.callstack[-1]
            # nearest method frame
            for f in reversed(self.callstack):
                if len(f) > 4 and f[4] is not None and f[4].data.get('cls') is not None:
                    cls = f[4].data['cls']
                    node = f[4].data['node']
                    selfname = node.args.args[0].arg
                    selfv = self.obj(st, f[2]).vars[selfname]
                    return V.obj('super', name='super', cls=cls, self=selfv)
            raise Unsupported('super() outside a method')
        f = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.lib.iterate(st, self.ev(a.value, st), a)
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, st)
                for kk, vv in self.lib.dict_items(st, d, e):
                    if not isinstance(kk, Str) or kk.lit is None:
                        raise Unsupported('** of non literal keys')
                    kw[kk.lit] = vv
            else:
                kw[k.arg] = self.ev(k.value, st)
        if self.callstack:
            if self.callstack[-1][1][0] != '@':
                self.callsites.add((self.callstack[-1][1], e.lineno, e.col_offset))
        return self.call(st, f, args, kw, e)

    def e_Lambda(self, e, st):
        return self.make_func(e, st, '<lambda>')

    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, st)
                spec = ''
                if p.format_spec is not None:
                    sp = self.ev(p.format_spec, st)
                    spec = sp.lit if sp.lit is not None else sp
                conv = chr(p.conversion) if p.conversion and p.conversion > 0 else ''
                parts.append(self.lib.format_value(st, v, spec, conv, p))
        return self.lib.concat(st, parts)

    def e_FormattedValue(self, e, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.bind(e.target.id, v, st)
        return v

    def e_Starred(self, e, st):
        raise Unsupported('starred expression')

    def comp(self, e, st, emit):
        """Evaluate comprehension generators, calling emit(state)."""
        fr = self.callstack[-1]
        env = self.alloc(st, HEnv({}, fr[2], fr[1]))
        self.callstack.append((fr[0], fr[1], env) + tuple(fr[3:]) if False else (fr[0], fr[1], env, frozenset(), fr[4] if len(fr) > 4 else None))
        try:
            self.comp_gen(e.generators, 0, st, emit)
        finally:
            self.callstack.pop()

    def comp_gen(self, gens, i, st, emit):
        if i == len(gens):
            emit(st)
            return
        g = gens[i]
        if i == 0:
            saved = self.callstack.pop()
            try:
                its = self.lib.iterate(st, self.ev(g.iter, st), g)
            finally:
                self.callstack.append(saved)
        else:
            its = self.lib.iterate(st, self.ev(g.iter, st), g)
        for it in its:
            self.assign(g.target, it, st)
            conds = TRUE
            for t in g.ifs:
                c = V.restrict(self.truth(self.ev(t, st), st), st.pc)
                if c is FALSE:
                    conds = FALSE
                    break
                if c is TRUE:
                    continue
                if not V.feasible(V.and_(st.pc, c)):
                    conds = FALSE
                    break
                if not V.feasible(V.and_(st.pc, V.not_(c))):
                    continue
                raise NeedSplit(c)
            if conds is FALSE:
                continue
            self.comp_gen(gens, i + 1, st, emit)

    def e_ListComp(self, e, st):
        out = []
        self.comp(e, st, lambda z: out.append(self.ev(e.elt, z)))
        return self.new_list(st, out)

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_SetComp(self, e, st):
        out = []
        self.comp(e, st, lambda z: out.append(self.ev(e.elt, z)))
        return self.new_set(st, out)

    def e_DictComp(self, e, st):
        out = []
        self.comp(e, st, lambda z: out.append((self.ev(e.key, z), self.ev(e.value, z))))
        d = self.new_dict(st, {})
        for k, v in out:
            self.lib.setitem(st, d, k, v, e)
        return d

    def e_Yield(self, e, st):
        v = NONE if e.value is None else self.ev(e.value, st)
        fr = self.callstack[-1]
        lst = self.obj(st, fr[2]).vars.get('<yield>')
        self.mut(st, lst.addr).items.append(v)
        return NONE

    def e_YieldFrom(self, e, st):
        its = self.lib.iterate(st, self.ev(e.value, st), e)
        lst = self.obj(st, self.callstack[-1][2]).vars.get('<yield>')
        self.mut(st, lst.addr).items.extend(its)
        return NONE

    # ----------------------------------------------------------------- truth
    def truth(self, v, st):
        def f(x):
            if x is TRUE or x is FALSE:
                return x
            if x is NONE:
                return FALSE
            if isinstance(x, Num):
                if x.rf.is_const():
                    return V.boolean(not x.rf.is_zero())
                t = self.lib.opq(x)
                if t is not None:
                    return V.cond_atom(('truthy', t))
                return V.not_(self.lib.zero_cond(x.rf))
            if isinstance(x, V.Term) and x.head in V.SURE:
                return TRUE
            if isinstance(x, Str):
                if x.lit is not None:
                    return V.boolean(bool(x.lit))
                if any(isinstance(p, str) for p in x.parts):
                    return TRUE
                return V.cond_atom(('truthy', x))
            if isinstance(x, Tup):
                return V.boolean(bool(x.items))
            if isinstance(x, Ref):
                o = self.obj(st, x.addr)
                if o.kind in ('list', 'set'):
                    return V.boolean(bool(o.items))
                if o.kind == 'dict':
                    if o.rest:
                        return V.cond_atom(('truthy', term('dict', string(o.name or '?'))))
                    r = FALSE
                    for k, y in o.d.items():
                        r = V.or_(r, self.lib.present(y))
                    return r
                if o.kind == 'inst':
                    return TRUE
            if isinstance(x, Arr):
                its = self.arr_items(st, x)
                if len(its) == 1:
                    return self.truth(its[0], st)
                self.raise_(st, 'ValueError', string('truth value of an array is ambiguous'), None)
            if isinstance(x, Term):
                if x.head in ('figure', 'axes'):
                    return TRUE
                return V.cond_atom(('truthy', x))
            if isinstance(x, (Obj, Ext)):
                return TRUE
            if x is ABSENT or x is UNBOUND:
                return FALSE
            raise Unsupported('truth of %r' % (x,))
        return V.apply(f, v)

    # ----------------------------------------------------------------- calls
    def call(self, st, f, args, kw, node):
        if f.var != Value.var:
            raise NeedSplit(V.mk(f.var, TRUE, FALSE))
        if isinstance(f, Obj):
            k = f.kind
            if k == 'bound':
                return self.call(st, f.data['func'], [f.data['self']] + args, kw, node)
            if k == 'func':
                if f.data.get('memo') is not None:
                    return self.memoized(st, f, args, kw, node)
                return self.call_func(st, f, args, kw, node)
            if k == 'class':
                return self.instantiate(st, f, args, kw, node)
            if k == 'pyfunc':
                return f.data['fn'](st, args, kw, node)
            if k == 'staticmethod':
                return self.call(st, f.data['func'], args, kw, node)
            if k == 'partial':
                k2 = dict(f.data['kw'])
                k2.update(kw)
                return self.call(st, f.data['func'], f.data['args'] + args, k2, node)
        return self.lib.call(st, f, args, kw, node)

    def instantiate(self, st, cls, args, kw, node):
        key = (cls.data['mod'], cls.data['name'])
        stub = self.stubs.get(key)
        if stub is not None:
            return stub(st, args, kw, node)
        mro = self.mro(cls)
        for fields in [f for c, f in self.tupfields if c is cls]:
            return self.lib.make_tuple(st, cls, fields, args, kw, node)
        if any(isinstance(b, Ext) and (b.path.endswith('Error') or b.path.endswith('Exception')
                                       or b.path.endswith('Warning'))
               for c in mro for b in (c.data['bases'] if isinstance(c, Obj) else [])):
            return term('exc', string(cls.data['name']), *args)
        r = ref(self.alloc(st, HInst(cls)))
        init = self.lookup(cls, '__init__')
        if init is not None:
            self.call(st, V.bound(init, r), args, kw, node)
        return r

    def mro(self, cls):
        out = [cls]
        for b in cls.data['bases']:
            if isinstance(b, Obj) and b.kind == 'class':
                for c in self.mro(b):
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.data['ns']:
                return c.data['ns'][name]
        return None

    def qualname(self, f):
        c = f.data.get('cls')
        return (c.data['name'] + '.' if c is not None else '') + f.data['name']

    def call_func(self, st, f, args, kw, node):
        q = self.qualname(f)
        stub = self.stubs.get((f.data['mod'], q))
        if stub is not None:
            # named arguments that continue the positional ones count as such
            args, kw = list(args), dict(kw)
            for x in f.data['node'].args.args[len(args):]:
                if x.arg not in kw:
                    break
                args.append(kw.pop(x.arg))
            return stub(st, args, kw, node)
        if len(self.callstack) > self.MAXDEPTH:
            raise Unsupported('call depth')
        n = f.data['node']
        key = (f.data['mod'], q)
        if sum(1 for c in self.callstack if len(c) > 4 and c[4] is f) > 3:
            raise Unsupported('recursion in %s' % q)
        if key[0][0] != '@':
            self.funcs_seen.add(key)
        bound = self.bind_args(st, f, args, kw, node)
        parent = f.data['env']
        if f.data.get('skip_env') == parent:
            parent = self.obj(st, parent).parent
        env = self.alloc(st, HEnv(bound, parent, f.data['mod']))
        locs = f.data.get('locals')
        if locs is None:
            locs = local_names(n)
            f.data['locals'] = locs
            if not isinstance(n, ast.Lambda):
                f.data['outer'] = {x: 'global' if isinstance(d, ast.Global) else 'nonlocal'
                                   for d in walk_own(n) if isinstance(d, (ast.Global, ast.Nonlocal))
                                   for x in d.names}
        self.callstack.append((q, f.data['mod'], env, locs, f))
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, st)
            isgen = f.data.get('isgen')
            if isgen is None:
                isgen = f.data['isgen'] = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                                              for x in walk_own(n))
            if isgen and any(getattr(d, 'id', getattr(d, 'attr', None)) == 'contextmanager'
                             for d in f.data.get('decorators', ())):
                raise Unsupported('generator context manager %s' % q)
            if isgen:
                self.mut(st, env).vars['<yield>'] = self.new_list(st, [])
            # the body works on its own state object so the caller's can be kept
            x = st.fork()
            out = self.block(n.body, x)
        finally:
            self.callstack.pop()
        rets = list(out.ret)
        if out.next is not None:
            rets.append((out.next, NONE))
        rets = [(s, v) for s, v in rets if s.pc is not FALSE]
        if not rets:
            st.pc = FALSE
            raise DeadPath()
        m = self.merge([s for s, _ in rets])
        val = rets[0][1]
        acc = rets[0][0].pc
        for s, v in rets[1:]:
            val = V.ite(acc, val, v)
            acc = V.or_(acc, s.pc)
        val = V.restrict(val, m.pc)
        st.heap, st.pc, st.token = m.heap, m.pc, object()
        if isgen:
            val = self.obj(st, env).vars['<yield>']
        keep = self.cfg.get('keep_env')
        if keep and keep(f):
            self.cfg.setdefault('envs', {})[key] = env
        return val

    def bind_args(self, st, f, args, kw, node):
        a = f.data['node'].args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        if len(args) > len(params):
            if a.vararg is None:
                self.raise_(st, 'TypeError', string('too many arguments for %s' % f.data['name']), node)
            out[a.vararg.arg] = tup(args[len(params):])
        elif a.vararg is not None:
            out[a.vararg.arg] = tup(())
        for p, v in zip(params, args):
            out[p] = v
        nd = len(f.data['defaults'])
        for i, p in enumerate(params):
            if p in out:
                if p in kw:
                    self.raise_(st, 'TypeError', string('multiple values for %s' % p), node)
                continue
            if p in kw:
                out[p] = kw.pop(p)
            elif i >= len(params) - nd:
                out[p] = f.data['defaults'][i - (len(params) - nd)]
            else:
                self.raise_(st, 'TypeError', string('missing argument %s' % p), node)
        for x, d in zip(a.kwonlyargs, f.data['kwd']):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif d is not None:
                out[x.arg] = d
            else:
                self.raise_(st, 'TypeError', string('missing argument %s' % x.arg), node)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(st, {string(k): v for k, v in kw.items()})
        elif kw:
            self.raise_(st, 'TypeError', string('unexpected keyword %s' % sorted(kw)[0]), node)
        return out

    # ------------------------------------------------------------- snapshots
    def freeze(self, st, v, depth=12):
        """A structural, heap-independent copy of a value."""
        if depth < 0:
            return term('deep')
        if v.var != Value.var:
            h = self.freeze(self.sub(st, V.mk(v.var, TRUE, FALSE)), v.hi, depth)
            l = self.freeze(self.sub(st, V.mk(v.var, FALSE, TRUE)), v.lo, depth)
            return V.mk_any(v.var, h, l) if hasattr(V, 'mk_any') else V.ite(V.mk(v.var, TRUE, FALSE), h, l)
        fz = lambda x: self.freeze(st, V.restrict(x, st.pc), depth - 1)
        if isinstance(v, Tup):
            return tup([fz(x) for x in v.items])
        if isinstance(v, Arr):
            try:
                its = self.arr_items(st, v)
            except NeedSplit as e:
                return self.freeze_split(st, v, e, depth)
            return V.frozen('array', v.shape, [fz(x) for x in its])
        if isinstance(v, Str):
            return v
        if isinstance(v, Term):
            return term(v.head, *[fz(x) for x in v.args])
        if isinstance(v, Slice):
            return V.slice_(fz(v.a), fz(v.b), fz(v.c))
        if isinstance(v, Ref):
            try:
                o = self.obj(st, v.addr)
            except NeedSplit as e:
                return self.freeze_split(st, v, e, depth)
            if o.kind in ('list', 'set'):
                return V.frozen(o.kind, None, [fz(x) for x in o.items])
            if o.kind == 'dict':
                its = []
                for k, x in sorted(o.d.items(), key=lambda kv: V.show(kv[0])):
                    its += [fz(k), fz(x)]
                return V.frozen('dict', o.name if o.rest else None, its)
            if o.kind == 'inst':
                its = []
                for k in sorted(o.attrs):
                    its += [string(k), fz(o.attrs[k])]
                return V.frozen('inst', o.cls.data['name'] if o.cls else None, its)
        return v

    def sub(self, st, cond):
        return State(st.heap, V.and_(st.pc, cond)) if V.feasible(V.and_(st.pc, cond)) else st

    def freeze_split(self, st, v, e, depth):
        a = State(dict(st.heap), V.and_(st.pc, e.cond))
        b = State(dict(st.heap), V.and_(st.pc, V.not_(e.cond)))
        return V.ite(e.cond, self.freeze(a, v, depth), self.freeze(b, v, depth))


def walk_own(fn):
    """Nodes of a function body, excluding nested functions and classes."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(fn):
    """Names assigned in a function (its local variables)."""
    if isinstance(fn, ast.Lambda):
        return frozenset()
    names = set()
    glob = set()
    comp_targets = set()
    def visit(n, incomp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in fn.body:
        visit(s)
    return frozenset(names - glob)


def desugar_match(s):
    subj = '<match %d>' % s.lineno
    load = lambda: ast.Name(id=subj, ctx=ast.Load())
    true = lambda: ast.Constant(value=True)

    def both(xs):
        xs = [x for x in xs if not (isinstance(x, ast.Constant) and x.value is True)]
        return true() if not xs else xs[0] if len(xs) == 1 else ast.BoolOp(op=ast.And(), values=xs)

    def bind(name, e):
        return ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=e)], ctx=ast.Load())

    def call(f, *a):
        return ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=list(a), keywords=[])

    def test(p, e):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=e(), ops=[ast.Eq()], comparators=[p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(left=e(), ops=[ast.Is()], comparators=[ast.Constant(value=p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(op=ast.Or(), values=[test(q, e) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            return both(([test(p.pattern, e)] if p.pattern is not None else []) +
                        ([bind(p.name, e())] if p.name else []))
        if isinstance(p, ast.MatchSequence):
            n = len(p.patterns)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            xs = [call('isinstance', e(), ast.Tuple(elts=[ast.Name(id='list', ctx=ast.Load()),
                                                          ast.Name(id='tuple', ctx=ast.Load())], ctx=ast.Load())),
                  ast.Compare(left=call('len', e()), ops=[ast.GtE() if star else ast.Eq()],
                              comparators=[ast.Constant(value=n - len(star))])]
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        sl = ast.Slice(lower=ast.Constant(value=i),
                                       upper=ast.Constant(value=i + 1 - n) if i + 1 < n else None, step=None)
                        xs.append(bind(q.name, call('list', ast.Subscript(value=e(), slice=sl, ctx=ast.Load()))))
                    continue
                k = i - n if star and i > star[0] else i
                xs.append(test(q, lambda k=k: ast.Subscript(value=e(), slice=ast.Constant(value=k), ctx=ast.Load())))
            return both(xs)
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            xs = [call('isinstance', e(), ast.Name(id='dict', ctx=ast.Load()))]
            for k, q in zip(p.keys, p.patterns):
                xs.append(ast.Compare(left=k, ops=[ast.In()], comparators=[e()]))
                xs.append(test(q, lambda k=k: ast.Subscript(value=e(), slice=k, ctx=ast.Load())))
            return both(xs)
        if isinstance(p, ast.MatchClass) and not p.patterns:
            xs = [call('isinstance', e(), p.cls)]
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                xs.append(test(q, lambda a=a: ast.Attribute(value=e(), attr=a, ctx=ast.Load())))
            return both(xs)
        raise Unsupported('pattern %s' % type(p).__name__)
    els = []
    for c in reversed(s.cases):
        t = both([test(c.pattern, load)] + ([c.guard] if c.guard is not None else []))
        els = [ast.If(test=t, body=c.body, orelse=els)]
    out = [ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())], value=s.subject)] + els
    for n in out:
        ast.copy_location(n, s)
        for x in ast.walk(n):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
                ast.copy_location(x, s)
    return out
