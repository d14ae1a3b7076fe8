"""C01 calendars."""
import os, random, vlib

CHI = os.path.join(vlib.VERIF, "data", "chinese.ndjson")


def windows(c):
    rng = random.Random(c.seed)
    w = []
    lo, hi = (-1500000, 5000000) if c.quick else (-12000000, 16000000)
    step = 450000
    for cal in range(9):
        a, b = (lo, hi) if cal not in (5, 7) else ((1500000, 2850000) if cal == 5 else (590000, 4310000))
        for j in range(a, b, step):
            w += [cal, j, min(j + step, b) - 1]
    for cal in range(9):                       # far away, and at random
        for k in range(6 if c.quick else 40):
            j = rng.randrange(-1200000000, 1200000000) if k % 2 else rng.randrange(-60000000, 60000000)
            w += [cal, j, j + 120000] if cal not in (5, 7) else [cal, j, j + 3000]
    return w


def run(c):
    c.build()
    exe = c.driver("cal")
    c.model("CalClock", env={"CHINESE": CHI})
    t = c.record(exe, windows(c), name="calendars")
    c.validate(t, "CalTrace", boundary='"new"', env={"CHINESE": CHI}, shards=16 if c.quick else 64, need=5000)
    c.extra["exhaustive"] = False
    c.assumptions += ["years beyond +-3.3 million and JDs beyond +-1.2e9 are not walked",
                      "the Chinese table of data/chinese.ndjson is the published calendar"]
