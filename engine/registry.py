"""Contract registry: shared by the symbolic side (python3-vt) and the concrete side (PyPy)."""

class CheckFailed(BaseException):
    def __init__(self, label, detail=''):
        BaseException.__init__(self, '%s %s' % (label, detail))
        self.label, self.detail = label, detail

class Skip(BaseException):
    """concrete run: precondition not met"""

CONTRACTS = []      # in definition order

class Contract(object):
    def __init__(self, prop, name, fn, targets, inductive, fuzz, symbolic, doc, bounded):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.inductive, self.fuzz, self.symbolic, self.doc, self.bounded = inductive, fuzz, symbolic, doc, bounded

def contract(prop, targets=(), name=None, inductive=False, fuzz=True, symbolic=True, bounded=None, **params):
    """prop: property id(s). targets: functions put under contract. inductive: starts from an arbitrary state
    satisfying an invariant (its counterexample is not a concrete input). fuzz: may be run concretely with
    random inputs. symbolic=False: concrete-only (labelled bounded with the text in `bounded`)."""
    def deco(fn):
        props = (prop,) if isinstance(prop, str) else tuple(prop)
        for p in props:
            CONTRACTS.append(Contract(p, name or fn.__name__, fn, tuple(targets), inductive, fuzz, symbolic, fn.__doc__ or '', bounded))
        return fn
    return deco

def family(prop, cases, targets=(), **kw):
    """one contract per case: cases is a list of (suffix, args...)"""
    def deco(fn):
        for case in cases:
            def run(V, _c=case): return fn(V, *_c[1:])
            run.__name__ = '%s[%s]' % (fn.__name__, case[0])
            run.__doc__ = fn.__doc__
            tg = targets(*case[1:]) if callable(targets) else targets
            contract(prop, targets=tg, name=run.__name__, **kw)(run)
        return fn
    return deco
