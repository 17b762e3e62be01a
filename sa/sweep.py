"""Run the scenarios of the other checks under an observer of every analysed call.

The scenarios already drive every public function over all documented combinations of
options with symbolic inputs; an observer decides a property of its own for each of those
calls. The obligations of the underlying checks themselves are not repeated here."""
import importlib
import an
import values as V
from project import AnalysisBroken

QUICK = ['C01', 'C02', 'C03', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18',
         'C20', 'C21', 'C25', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36', 'C42']


def names(project):
    """id of a definition node -> (module, qualified name)."""
    out = {}
    for mn, m in list(project.modules.items()):
        for q, n in m.functions.items():
            out[id(n)] = (mn, q)
        for q, n in m.classes.items():
            out[id(n)] = (mn, q)
    return out


class Observer(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def name(self, a, f):
        while getattr(f, 'kind', None) in ('bound', 'partial', 'classmethod', 'staticmethod', 'property'):
            f = f.data['func']
        n = f.data.get('node') if isinstance(f, V.Obj) else None
        return names(self.ctx.project).get(id(n)) if n is not None else None

    def before(self, a, f, args, kw, st):
        return None

    def after(self, a, f, args, kw, held, r):
        pass


def sweep(ctx, observer, modules=QUICK):
    """Observe every analysed call of these checks; their analyses count as ours."""
    done = []
    for m in modules:
        sub = an.Ctx(m, 'quick', ctx.seed, ctx.project)
        an.MONITORS.append(observer)
        try:
            importlib.import_module(m).check(sub)
            done.append(m)
        except AnalysisBroken as e:
            ctx.ob('scenarios', m, an.UNK, str(e))
        except Exception as e:
            ctx.ob('scenarios', m, an.UNK, '%s: %s' % (type(e).__name__, e))
        finally:
            an.MONITORS.remove(observer)
            for a in sub.analyses:
                ctx.extra_funcs |= a.I.funcs_seen
                ctx.extra_sites |= a.I.callsites
                ctx.extra_lines |= a.I.visited
    return done
