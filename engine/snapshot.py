"""Restores module globals and class attributes of the code under test between paths, so that paths are independent."""
import sys, types

class Snapshot(object):
    def __init__(self, prefix='infi.asi'):
        self.mods = []
        self.objs = []
        seen = set()
        for name, m in sorted(sys.modules.items()):
            if not (name == prefix or name.startswith(prefix + '.')) or m is None: continue
            self.mods.append((m.__dict__, dict(m.__dict__)))
            for v in list(m.__dict__.values()): self._val(v, seen, prefix)
    def _val(self, v, seen, prefix):
        if id(v) in seen: return
        if isinstance(v, type):
            if (getattr(v, '__module__', '') or '').startswith(prefix):
                seen.add(id(v))
                self.objs.append(('class', v, dict(v.__dict__)))
                for x in list(v.__dict__.values()): self._val(x, seen, prefix)
        elif isinstance(v, dict):
            seen.add(id(v)); self.objs.append(('dict', v, list(v.items())))
        elif isinstance(v, (list, set)):
            seen.add(id(v)); self.objs.append(('seq', v, list(v)))
        elif isinstance(v, types.FunctionType):
            seen.add(id(v))
            for d in (v.__defaults__ or ()) : self._val(d, seen, prefix)
            for d in (v.__kwdefaults__ or {}).values(): self._val(d, seen, prefix)
            for c in (v.__closure__ or ()):
                try: self._val(c.cell_contents, seen, prefix)
                except ValueError: pass
        elif isinstance(v, (classmethod, staticmethod)): self._val(v.__func__, seen, prefix)
    def restore(self):
        for d, saved in self.mods:
            if len(d) != len(saved) or any(d.get(k, d) is not v for k, v in saved.items()):
                for k in [k for k in d if k not in saved]:
                    if not isinstance(d[k], types.ModuleType): del d[k]
                d.update(saved)
        for kind, o, saved in self.objs:
            if kind == 'class':
                cur = o.__dict__
                if len(cur) != len(saved) or any(cur.get(k, saved) is not v for k, v in saved.items()):
                    for k in [k for k in list(cur) if k not in saved]:
                        if not k.startswith('__') or k == '__slots__':
                            try: type.__delattr__(o, k)
                            except (AttributeError, TypeError): pass
                    for k, v in saved.items():
                        if cur.get(k, saved) is not v:
                            try: type.__setattr__(o, k, v)
                            except (AttributeError, TypeError): pass
            elif kind == 'dict':
                if len(o) != len(saved) or any(a is not c or b is not d for (a, b), (c, d) in zip(o.items(), saved)):
                    o.clear()
                    for k, v in saved: o[k] = v
            else:
                if isinstance(o, list):
                    if len(o) != len(saved) or any(a is not b for a, b in zip(o, saved)): o[:] = saved
                elif len(o) != len(saved):
                    o.clear(); o.update(saved)
