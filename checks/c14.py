"""C14 frames, precession, nutation, horizon coordinates, separations."""


def run(c):
    c.reals()
    exe = c.driver("sky", san=True)
    c.model("SkyModel")
    n = 12000 if c.quick else 200000
    t = c.record(exe, [n], name="sky")
    c.validate(t, "SkyTrace", need=n // 2)
    c.assumptions += ["years -15000 to 19000; the body of the Earth without an orientation file (C10 covers its parameters)"]
