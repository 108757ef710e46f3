"""Compare a test run's results with the baseline: print stable tests that no longer pass."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(sys.argv[1]))
names = lambda x: set(x if isinstance(x, list) else list(x))
bad = sorted(names(b["stable"]) - names(t["passed"]))
print(len(names(b["stable"])), "stable,", len(bad), "not passing")
for x in bad: print("  ", x)
sys.exit(bool(bad))
