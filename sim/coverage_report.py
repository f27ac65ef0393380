""" Which executable lines of curver/ does the operation catalogue reach? (development aid) """
import core; core.boot('0')
import json, sys, types, os
curver = core.import_curver()
import world as W, ops as O, canon, inject
D = json.load(open(os.path.join(core.VERIF, 'sim/data/worlds.json')))
def job(w):
    def run():
        seen = set()
        def on_line(code, line):
            seen.add((code.co_filename[len(core.PREFIX):], line))
            return inject.MON.DISABLE
        m = inject.Monitor(on_line=on_line); m.start()
        objs = W.build(w)
        for inst, n, e in w['pool']:
            if n < 400000: canon.outcome(O.call, inst, objs)
        m.stop()
        return seen
    return core.forked(run, timeout=900)
seen = set()
core.pool(D['worlds'][::2], job, on_result=lambda i, r: seen.update(r) or False)
def lines(path):
    out = set()
    def walk(c):
        for _, _, l in c.co_lines():
            if l: out.add((l, c.co_name))
        for k in c.co_consts:
            if isinstance(k, types.CodeType): walk(k)
    walk(compile(open(path).read(), path, 'exec'))
    return out
tot = hit = 0
for f in sorted(os.listdir(core.PREFIX + 'kernel')) :
    if not f.endswith('.py'): continue
    path = core.PREFIX + 'kernel/' + f
    src = open(path).read().split('\n')
    miss = sorted(l for l, name in lines(path) if name != '<module>' and ('kernel/' + f, l) not in seen and not src[l-1].strip().startswith(('def ', 'class ', '@', 'lambda')))
    n = len(set(l for l, name in lines(path) if name != '<module>'))
    tot += n; hit += n - len(set(miss))
    for l in sorted(set(miss)): print(f'{f}:{l}: {src[l-1]}')
print(hit, tot)
