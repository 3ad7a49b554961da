#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- exit 0 held, 1 violation, 2 the analysis could not be carried out."""
import importlib, os, sys, subprocess, traceback
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "checks"))
import xk, common

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        r = subprocess.run([os.path.join(V, "engine", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise xk.Broken("the analysis tools do not build: " + r.stdout[-2000:])
        mod = importlib.import_module(prop.lower())
        rep = common.Report(prop, tier)
        mod.check(rep)
        return rep.finish()
    except xk.Broken as e:
        print(f"ANALYSIS-ERROR {prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
