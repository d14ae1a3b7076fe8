"""C05 ADES streams: nesting, sections, pass-through, errors."""


def run(c):
    exe = c.driver("ades", san=True)
    c.model("AdesModel", env={"DEPTH": 4 if c.quick else 6}, workers=4)
    t = c.record(exe, [1200 if c.quick else 30000, "bad"], name="damaged")
    c.validate(t, "AdesTrace", boundary='"op":"start"', need=2000, per_shard=20000)
    t = c.record(exe, [300 if c.quick else 3000, "good"], name="mixed")
    c.validate(t, "AdesTrace", boundary='"op":"start"', need=500, per_shard=20000)
