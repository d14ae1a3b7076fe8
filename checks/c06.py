"""C06 times as text."""
import os, vlib
ENV = {"CHINESE": os.path.join(vlib.VERIF, "data", "chinese.ndjson"), "SINTAB": os.path.join(vlib.VERIF, "data", "sin.ndjson")}


def run(c):
    exe = c.driver("timetext", san=True, extra="-Wl,--wrap=time")
    c.model("TimeModel", env=ENV)
    t = c.record(exe, ["show", 20000 if c.quick else 600000], name="show")
    c.validate(t, "TimeTrace", boundary='"op":"start"', env=ENV, need=5000)
    c.assumptions += ["times on a microsecond grid within about 4 million days of 2000, at most 6 decimals compared digit by digit (15 tried)"]
