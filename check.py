#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    import registry, framework
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    r = registry.CHECKS[prop]
    return framework.run(prop, tier, r["fn"], "other", r["assumptions"])


if __name__ == "__main__":
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 1)
