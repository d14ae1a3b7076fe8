"""C25 sky brightness, limiting magnitudes, colours."""


def run(c):
    c.reals()
    exe = c.driver("glow", san=True, srcs=("colors.cpp", "colors2.cpp"))
    c.model("SkyGlowModel")
    n = 3000 if c.quick else 60000
    t = c.record(exe, [n], name="skyglow")
    c.validate(t, "SkyGlowTrace", need=n)
    c.assumptions += ["directions at or above the horizon, Sun and Moon anywhere, distances from them above 0.01 degree; observers below 5 km"]
