"""Second opinions work by random runs: list the expected outcomes of a check that random runs do not show.
usage: sampled.py C15 [seconds per case]"""
import os, random, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symex import core, engine as E
mod = core.load_check(sys.argv[1])
secs = float(sys.argv[2]) if len(sys.argv) > 2 else 10
for c in mod.CASES:
    if c.thorough and "-t" not in sys.argv:
        continue
    want = set(c.covers) | set(c.reach)
    rng, t0, n = random.Random(7), time.time(), 0
    while want and time.time() - t0 < secs and n < 5000:
        n += 1
        want -= set(E.sample(c.run, rng).covered)
    if want:
        print(c.name, n, "runs: not seen", sorted(want))
