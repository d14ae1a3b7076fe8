"""C12 interpolation in tables."""


def run(c):
    c.reals()
    exe = c.driver("interp", san=True)
    c.model("InterpModel")
    n = 40000 if c.quick else 600000
    t = c.record(exe, [n], name="interp")
    c.validate(t, "InterpTrace", need=n)
    c.assumptions += ["tables of 2 to 18 entries, up to ten points per polynomial"]
