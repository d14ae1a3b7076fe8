"""C08 times of 80-column records."""
import os, vlib
ENV = {"CHINESE": os.path.join(vlib.VERIF, "data", "chinese.ndjson"), "SINTAB": os.path.join(vlib.VERIF, "data", "sin.ndjson")}


def run(c):
    exe = c.driver("mpcrec", san=True)
    c.model("MpcRecModel", env=ENV)
    t = c.record(exe, ["date", 60000 if c.quick else 1500000], name="date")
    c.validate(t, "MpcRecTrace", env=ENV, need=20000)
    c.assumptions += ["months 1-12 and days from 1; what a field that is in none of the formats but has digits means is left open"]
