"""C11 Brent minimizer."""


def run(c):
    c.reals()
    exe = c.driver("brent", san=True)
    c.model("BrentModel")
    n = 4000 if c.quick else 60000
    t = c.record(exe, [n], name="brent")
    c.validate(t, "BrentTrace", boundary='"op":"init"', need=n)
    c.assumptions += ["functions finite on the bracket; brackets as documented (middle value no larger than the ends)"]
