"""setup: checks that the analyser itself is usable (positive and negative example), needs nothing from /repo."""
import os
import sys
import tempfile
import shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ["VERIF_REPO"] = d = tempfile.mkdtemp(prefix="sa-selftest-")
pk = os.path.join(d, "src", "DLMS_SPODES")
os.makedirs(pk)
open(os.path.join(pk, "__init__.py"), "w").close()
with open(os.path.join(pk, "ex.py"), "w") as f:
    f.write("def good(x):\n    return (x << 4 | x >> 4) & 0xff\n\n\ndef bad(x):\n    return (x << 4 | x >> 3) & 0xff\n")
import framework as fw

ok = True
for fn, want in (("good", "held"), ("bad", "violated")):
    ck = fw.Check("SELF")
    f = ck.anchor("ex", fn)

    def ob(I):
        x = I.in_byte("x")
        y = I.call(f, [x])
        I.need_eq(I.call(f, [y]), x, "involution")
    r = ck.obligation("self", fn, ob).status
    print(fn, r)
    ok = ok and r == want
shutil.rmtree(d)
sys.exit(0 if ok else 1)
