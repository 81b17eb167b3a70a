"""python3 try.py mock|shell HANDLER 'line' 'line' ...   (debugging aid)"""
import sys, json
from vlib import *
mode, handler = sys.argv[1:3]
build()
h = header(mode)
xt = [i for i, w in enumerate(h['words']) if w['n'] == handler][-1]
items = []
for l in sys.argv[3:]:
    items.append(dict(op=l[1:]) if l.startswith('!') and l[1:] in ('reset', 'clear', 'home') else line(l))
s = [dict(id=1, mode=mode, handler=handler, xt=xt, files=False, items=items)]
ev = run_scripts(s)
for e in ev[0]:
    e2 = {k: v for k, v in e.items() if k not in ('tasks',)}
    for k in ('out', 'std'):
        if k in e2: e2[k] = bytes(e2[k]).decode('utf-8', 'replace')
    for k in ('ds',):
        if k in e2: e2[k] = [int.from_bytes(bytes(x), 'little', signed=True) for x in e2[k]]
    print(e2)
v = validate(s, ev, h, mode)
print(v.accept, v.skip, v.reject, v.lost, v.states, '%.1f' % v.seconds)
if v.error: print(v.error)
