"""One proof job: python3-vt -m engine.worker OUT.json CONTRACT_ID [CASE_INDEX]

Reads the target function from /repo's working tree, generates the obligations of the contract and discharges them."""
import json
import os
import resource
import sys
import time


def main():
    out, cid = sys.argv[1], sys.argv[2]
    case = int(sys.argv[3]) if len(sys.argv) > 3 else None
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    from contracts import allc
    from engine.verify import verify
    cs = allc.contracts()
    reg = {c.target: c for c in cs if c.callee is not None}
    c = next(c for c in cs if c.id == cid and c.inputs is not None)
    allcases = c.cases
    if case is not None:
        c.cases = [allcases[case]]
    if os.environ.get('VERIF_MODE'):
        c.modes = (os.environ['VERIF_MODE'],)
    r = verify(c, reg)
    json.dump(dict(contract=cid, target=c.target, case=case, seconds=time.time() - t0, obs=[o.json() for o in r.obs],
                   functions=r.functions, callees=sorted(r.callees), models=sorted(r.models), stats=r.stats,
                   hints=r.hints), open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
