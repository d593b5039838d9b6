"""dev: records the variables of the functions that carry loop invariants (vc/names.json). usage: names.py dump.json... """
import sys, json, os
sys.path.insert(0, '/verif/vc')
from exec import Prog
import deps, tofix, consts
from cuts import varnames
cuts = [x for c in deps.CONTRACTS.values() for k in [c.kw or {}] for y in (k,) + tuple(k.get("alts", ())) for x in y.get("cuts", ())] + list(tofix.CUTS)
p = '/verif/vc/names.json'
out = json.load(open(p)) if os.path.exists(p) else {}
for f in sys.argv[1:]:
    prog = Prog(f)
    for fn in prog.fns.values():
        for c in cuts:
            if fn["body"] is not None and c.rx.search(fn["sname"]):
                out[c.rx.pattern] = varnames(fn)
json.dump(out, open(p, "w"), indent=1)
print(len(out))
