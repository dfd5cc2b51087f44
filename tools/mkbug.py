#!/usr/bin/env python3
"""mkbug.py: helper to write seeded bugs: mkbug(id, prop, needs, breaks, pkg, [(file, old, new)...], demo)"""
import json, os, subprocess
REPO = os.environ.get('MKREPO', '/repo')
T = open('/verif/tools/demo-template.sh').read()

def mkbug(id, prop, needs, breaks, pkg, edits, demo):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git','-C',REPO,'status','--short'],capture_output=True,text=True).stdout == ''
    try:
        for file, old, new in edits:
            p = REPO + '/' + file
            s = open(p).read()
            assert s.count(old) == 1, (id, file, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',REPO,'checkout','-q','--','.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo is not None:
        open(d + '/demo.sh', 'w').write(T.replace('@PKG@', pkg))
        open(d + '/demo.rs', 'w').write(demo)
