import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from verify import *
w = World(os.environ.get("KVC_JSON", "/verif/build/k.json"))
mod = importlib.import_module("specs." + sys.argv[1])
for t in mod.tasks():
    if len(sys.argv) > 2 and not any(a in t["name"] or a == t["prop"] or a == t.get("mode") for a in sys.argv[2:]):
        continue
    r = run_task(w, **t)
    print("%-4s %-50s %-5s %-11s paths=%d obl=%d/%d %.1fs %s" % (r.prop, r.name, r.mode, r.status, r.paths,
          len([o for o in r.obls if o.status == "proved"]), len(r.obls), r.secs, r.why or ""))
    if "-v" in sys.argv or r.status == "failed":
        for o in r.obls:
            if o.status != "proved" or os.environ.get("V"):
                print("    ", o.status, o.label, o.where, str(o.detail)[:int(os.environ.get("DL", 300))])
