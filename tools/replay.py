"""replay.py FILE: executes the input of a reported violation again on the
current tree and prints what the specification says."""
import importlib, json, sys
import run, check
r = json.load(open(sys.argv[1]))
bdir = run._build.build()
m = importlib.import_module(check.FAMILY[r['property'][0]])
try:
    ok = m.replay(bdir, r)
finally:
    run.cleanup()
sys.exit(0 if ok else 1)
