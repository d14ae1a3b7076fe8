"""C13 two-body motion."""


def run(c):
    c.reals()
    exe = c.driver("orbit", san=True)
    c.model("OrbitModel")
    n = 40000 if c.quick else 600000
    t = c.record(exe, [n], name="orbit")
    c.validate(t, "OrbitTrace", need=n // 2)
    c.assumptions += ["perihelia 0.005 to 50 AU, eccentricities 0 to 12 with everything near 1, times up to a thousand perihelion time scales"]
