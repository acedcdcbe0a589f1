import sys, json, os, subprocess
sys.path.insert(0, os.path.dirname(__file__))
import assemble as A
repo = os.environ.get("REPO", "/repo")
only = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] else None
c = A.load_contracts()
vx = A.run_vx(repo, list(c["fns"]))
bp = os.path.join(A.VERIF, "spec", "baseline.json")
base = A.baseline_of(vx)
a = A.Assembler(vx, c, base)
a.only = only
a.tops = ('bin_main', 'bin_output', 'py')
o = a.build()
os.makedirs("/tmp/w", exist_ok=True)
open("/tmp/w/all.rs", "w").write(o.text())
json.dump(o.marks, open("/tmp/w/marks.json", "w"))
print("kept", len(a.kept), "opaque", len(a.opaque), "lost", a.lost, "unused", [k for k in c["fns"] if k not in a.used][:20])
