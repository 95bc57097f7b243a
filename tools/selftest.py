#!/usr/bin/env python3
"""setup: checks that the tools the explorer needs are there and that the explorer itself
enumerates what it should, on toy programs with known numbers of executions and known bugs
(the checks build everything else themselves)"""
import os, re, shutil, subprocess, sys
missing = [t for t in ("clang", "clang++", "ld", "objcopy", "nm") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + " ".join(missing))
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, MC_NOEVIDENCE="1")
# scenario: distinct executions expected (None: not compared), violation expected
# (every scenario is first run twice, to see that it is deterministic)
EXPECT = {"free": (81, 0), "dependent": (10, 0), "deviations": (37, 0), "ternary": (577, 0), "ok-deep": (59049, 0),
    "ok-deviation": (31, 0), "ok-preempt": (1, 0), "bad-deep": (None, 1), "bad-deviation": (None, 1),
    "bad-preempt": (None, 1), "bad-deadlock": (None, 1)}
bad = 0
for name, (n, viol) in EXPECT.items():
    p = subprocess.run([sys.executable, os.path.join(H, "run.py"), "SELF", "--only", name, "--quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    m = re.search(r": (\d+) executions", p.stdout)
    got = int(m.group(1)) - 2 if m else -1
    if p.returncode != viol or (n is not None and got != n):
        print("self test %s: %d executions, status %d; expected %s, %d\n%s" % (name, got, p.returncode, n, viol, p.stdout[-1500:]))
        bad = 1
print("self test: %d toy programs explored%s" % (len(EXPECT), ", NOT as expected" if bad else " as expected"))
sys.exit(bad)
