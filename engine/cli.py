import sys, importlib, time
from contracts import base
def load(mods):
    for m in mods:
        importlib.import_module('contracts.' + m)
    return base.REGISTRY
if __name__ == '__main__':
    from engine.verify import verify
    mods = sys.argv[1].split(',')
    ids = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != 'all' else None
    regs = load(mods)
    reg = {}
    for c in regs:
        if c.callee is not None: reg[c.target] = c
    for c in regs:
        if not c.prove or ids and c.id not in ids: continue
        r = verify(c, reg, verbose='-v' in sys.argv)
        print(c.id, '%.1fs' % r.seconds, r.stats, sorted(r.models)[:0])
        for o in r.obs:
            if o.status != 'proved': print('   ', o.status, o.name, o.detail[:700])
        print('   proved', sum(o.status == 'proved' for o in r.obs), 'of', len(r.obs))
