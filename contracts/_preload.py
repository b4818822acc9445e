"""Imports every module of the code under test under the engine before any contract is explored."""
import os, importlib

def modules():
    root = os.environ.get('VERIF_REPO_SRC', '/repo/src')
    base = os.path.join(root, 'infi', 'asi')
    out = []
    for d, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'): rel = rel[:-9]
                out.append(rel)
    return out

OPTIONAL = ('infi.asi.__version__',)
failed = {}
def load_all():
    for m in modules():
        if m in OPTIONAL: continue
        try: importlib.import_module(m)
        except Exception as e: failed[m] = repr(e)
