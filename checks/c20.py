"""C20 names in the sky: constellations, variable stars, star catalogues."""


def run(c):
    c.reals()
    exe = c.driver("skynames", san=True)
    c.model("SkyNamesModel")
    n = 4000 if c.quick else 200000
    t = c.record(exe, [n], name="skynames")
    c.validate(t, "SkyNamesTrace", need=4000)
    c.assumptions += ["right ascensions from -3600 degrees on; texts starting with V that are neither letters nor a number are left open"]
