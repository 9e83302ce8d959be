#!/usr/bin/env python3
"""python3 /verif/check.py <property id> [--tier quick|thorough]"""
import argparse, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "qstat"))
import threading

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a = ap.parse_args()
    import registry
    try:
        return registry.run(a.prop, a.tier, int(a.seed))
    except Exception as e:
        if type(e).__name__ == "Anchor":
            print(f"{a.prop}: public entry point missing: {e}", file=sys.stderr)
            return 2
        raise

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 3)
