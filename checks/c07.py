"""C07 text as times."""
import os, vlib
ENV = {"CHINESE": os.path.join(vlib.VERIF, "data", "chinese.ndjson"), "SINTAB": os.path.join(vlib.VERIF, "data", "sin.ndjson")}


def run(c):
    exe = c.driver("timetext", san=True, extra="-Wl,--wrap=time")
    c.model("TimeModel", env=ENV)
    t = c.record(exe, ["read", 30000 if c.quick else 800000], name="read")
    c.validate(t, "TimeTrace", boundary='"op":"start"', env=ENV, need=5000)
    c.assumptions += ["numbers of at most eight or nine digits; lunar phases within 200000 days of 2000"]
