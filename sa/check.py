#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property statically on /repo's current source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    import resource
    import threading
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    threading.stack_size(512 << 20)
    rc = [2]

    def run():
        import spec
        from framework import Check, AnchorMissing
        ck = Check(pid, tier, seed, parallel=True)
        try:
            spec.checker(pid)(ck)
            rc[0] = ck.finish()
        except AnchorMissing as e:
            print("analysis broken: anchor not found: %s" % e)
            ck.reap(0)
            viol = [o for o in ck.obs if o.status == "violated"]
            rc[0] = ck.finish() if viol else 2
            rc[0] = rc[0] or 2
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
