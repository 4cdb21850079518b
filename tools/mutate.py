"""tools/mutate.py PID [limit] [substring]: list what the check says about in-memory mutants"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import mks.core as core
from mks import audit
pid = sys.argv[1]
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 200
ctx = core.analyse(pid, 'quick')
if len(sys.argv) > 3:
    ctx.analysed = {x for x in ctx.analysed if sys.argv[3] in x}
r = audit.sensitivity(pid, ctx, 1, limit=lim, seconds=900, full=True)
for fid, what, res in sorted(r['rows'], key=str):
    print(res[0][:6], fid, what, res[1] or '')
print({k: v for k, v in r.items() if isinstance(v, int)})
