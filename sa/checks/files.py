"""A file system of literal text for analyses of code that reads and writes files."""
import posixpath
import ring
import values as V
from values import string, const, tup, term, NONE, TRUE, FALSE


class Tree(object):
    """The files (path -> text) the analysed code sees. Reads give the literal text;
    what is written is taken from the write events, in order."""

    def __init__(self, ctx, texts, answers=None, dirs=(), **cfg):
        self.texts = dict(texts)
        self.dirs = set(dirs)
        for p in self.texts:
            d = posixpath.dirname(p)
            while d and d != '/':
                self.dirs.add(d)
                d = posixpath.dirname(d)
        self.a = a = ctx.analysis(iterate_hook=self.hook, **cfg)
        lib = a.I.lib
        lib.exists = self.exists
        self.answers = list(answers) if answers is not None else None
        self.asked = 0
        e = lib.ext
        e['builtins.input'] = e['builtins.raw_input'] = self.input
        e['os.path.exists'] = lambda st, args, kw, node: self.exists(lib.force(V.restrict(args[0], st.pc)))
        e['os.path.isfile'] = lambda st, args, kw, node: self.query(args[0], st, lambda p: p in self.texts)
        e['os.path.isdir'] = lambda st, args, kw, node: self.query(args[0], st, lambda p: p in self.dirs)
        e['os.listdir'] = self.listdir
        lib.term_read = self.read
        lib.term_readlines = lambda st, t, args, kw, node: a.I.new_list(st, self.hook(st, t, node)) \
            if t.head == 'file' else None
        e['os.makedirs'] = e['os.mkdir'] = self.makedirs
        self.opened = 0

    def norm(self, p):
        p = posixpath.normpath(p) if p else p
        return p

    def query(self, v, st, f):
        v = self.a.I.lib.force(V.restrict(v, st.pc))
        if getattr(v, 'lit', None) is None:
            return V.cond_atom(('exists', v))
        return V.boolean(f(self.norm(v.lit)))

    def exists(self, path):
        if getattr(path, 'lit', None) is None:
            return V.cond_atom(('exists', path))
        p = self.norm(path.lit)
        return V.boolean(p in self.texts or p in self.dirs)

    def listdir(self, st, args, kw, node):
        lib = self.a.I.lib
        p = self.norm(lib.force(V.restrict(args[0], st.pc)).lit if args else '.')
        if p not in self.dirs:
            self.a.I.raise_(st, 'FileNotFoundError', string(p), node)
        names = set()
        for x in list(self.texts) + list(self.dirs):
            if x.startswith(p + '/'):
                names.add(x[len(p) + 1:].split('/')[0])
        order = self.a.I.cfg.get('listdir_order', sorted)
        return self.a.I.new_list(st, [string(x) for x in order(names)])

    def makedirs(self, st, args, kw, node):
        p = self.a.I.lib.force(V.restrict(args[0], st.pc))
        if getattr(p, 'lit', None) is not None:
            if not p.lit:
                self.a.I.raise_(st, 'FileNotFoundError', string(''), node)
            q = self.norm(p.lit)
            if q in self.dirs and not ('exist_ok' in kw):
                self.a.I.raise_(st, 'FileExistsError', string(q), node)
            while q and q != '/':
                self.dirs.add(q)
                q = posixpath.dirname(q)
        self.a.I.event(st, 'mkdir', (p,), node)
        return NONE

    def input(self, st, args, kw, node):
        self.a.I.event(st, 'input', (tuple(args), NONE), node)
        self.asked += 1
        if self.answers is None or self.asked > len(self.answers):
            raise self.a.I.lib.unsupported('asked %d times' % self.asked)
        return string(self.answers[self.asked - 1])

    def text(self, t):
        p = t.args[1]
        if getattr(p, 'lit', None) is None:
            return None
        m = t.args[2].lit if hasattr(t.args[2], 'lit') else None
        if m is None or 'w' in m or 'a' in m or 'x' in m:
            return None
        return self.texts.get(self.norm(p.lit))

    def hook(self, st, v, node):
        if getattr(v, 'head', None) != 'file':
            return None
        s = self.text(v)
        if s is None:
            return None
        self.a.I.event(st, 'read', (v,), node)
        return [string(x) for x in s.splitlines(True)]

    def read(self, st, t, args, kw, node):
        if t.head != 'file':
            return None
        self.a.I.event(st, 'read', (t,), node)
        s = self.text(t)
        return string(s) if s is not None else string(term('content', t.args[1]))


def written(events):
    """path -> list of literal strings and inserted values, in the order written."""
    out = {}
    for e in events:
        if e.kind == 'write':
            p = path_of(e.data[0])
            s = e.data[1]
            out.setdefault(p, [])
            parts = [s.lit] if getattr(s, 'lit', None) is not None else \
                list(s.parts) if isinstance(s, V.Str) else [s]
            for x in parts:
                if isinstance(x, V.Str):
                    x = x.lit if x.lit is not None else x
                out[p].append(x)
        elif e.kind == 'open' and e.data[2] and 'w' in e.data[2]:
            out[path_of(e.data[0])] = []
    return out


def path_of(f):
    p = f.args[1]
    return posixpath.normpath(p.lit) if getattr(p, 'lit', None) else V.show(p)


def lines(parts):
    """The written parts as lines: each a list of literal strings and values; and whether
    the last line is terminated."""
    out = [[]]
    for x in parts:
        if isinstance(x, str):
            ls = x.split('\n')
            for i, l in enumerate(ls):
                if i:
                    out.append([])
                if l:
                    out[-1].append(l)
        else:
            out[-1].append(x)
    done = not out[-1]
    return (out[:-1] if done else out), done


def merged(line):
    """Adjacent literals joined."""
    out = []
    for x in line:
        if out and isinstance(x, str) and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def open_close(events):
    """Files opened and not closed: list of (path, mode)."""
    live = []
    for e in events:
        if e.kind == 'open':
            live.append(e.data[0])
        elif e.kind == 'close' and e.data[0] in live:
            live.remove(e.data[0])
    return [(path_of(f), V.show(f.args[2])) for f in live]
