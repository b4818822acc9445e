"""Known findings: defects of the pinned tree that are recorded instead of repaired."""
import json, os, re

def load(path, prop):
    if not os.path.exists(path): return []
    return [k for k in json.load(open(path)) if k.get('property') == prop and k.get('status') == 'open']

def match(known, v):
    for k in known:
        if k['contract'] == v['contract'] and k['obligation'] == v['label']: return k
    return None
