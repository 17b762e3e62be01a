"""Loads and indexes the package source under analysis (never imports it)."""
import ast
import hashlib
import os

REPO = os.environ.get('SA_REPO', '/repo')
PACKAGE = 'bicycleparameters'


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable file)."""


class Module(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.digest = hashlib.sha256(self.source.encode()).hexdigest()
        self.functions = {}
        self.classes = {}
        self._index(self.tree.body, '')

    def _index(self, body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[prefix + n.name] = n
                self._index(n.body, prefix + n.name + '.')
            elif isinstance(n, ast.ClassDef):
                self.classes[prefix + n.name] = n
                self._index(n.body, prefix + n.name + '.')
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self._index(n.body, prefix)
                self._index(getattr(n, 'orelse', []), prefix)
                for h in getattr(n, 'handlers', []):
                    self._index(h.body, prefix)


class Project(object):
    def __init__(self, repo=REPO):
        self.repo = repo
        self.pkgdir = os.path.join(repo, PACKAGE)
        self.modules = {}
        if not os.path.isdir(self.pkgdir):
            raise AnalysisBroken('no package at %s' % self.pkgdir)

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            path = os.path.join(self.pkgdir, *name.split('.')) + '.py'
            if not os.path.exists(path):
                path = os.path.join(self.pkgdir, name, '__init__.py')
            if not os.path.exists(path):
                raise AnalysisBroken('module %s is gone' % name)
            try:
                m = Module(name, path)
            except SyntaxError as e:
                raise AnalysisBroken('%s does not parse: %s' % (name, e))
            self.modules[name] = m
        return m

    def has(self, name):
        return os.path.exists(os.path.join(self.pkgdir, name + '.py'))

    def all_modules(self):
        return sorted(f[:-3] for f in os.listdir(self.pkgdir) if f.endswith('.py'))
