"""C09 angles of 80-column records."""
import os, vlib
ENV = {"CHINESE": os.path.join(vlib.VERIF, "data", "chinese.ndjson"), "SINTAB": os.path.join(vlib.VERIF, "data", "sin.ndjson")}


def run(c):
    exe = c.driver("mpcrec", san=True)
    c.model("MpcRecModel", env=ENV)
    t = c.record(exe, ["angle", 60000 if c.quick else 1500000], name="angle")
    c.validate(t, "MpcRecTrace", env=ENV, need=20000)
    c.assumptions += ["angles below 100 degrees or 24 hours; fields in none of the formats are left open"]
