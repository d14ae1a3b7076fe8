"""C04 ADES observations and streams."""


def run(c):
    exe = c.driver("ades", san=True)
    t = c.record(exe, [400 if c.quick else 8000, "good"], name="ades")
    c.validate(t, "AdesTrace", boundary='"op":"start"', need=2000, per_shard=20000)
