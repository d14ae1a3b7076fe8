"""C24 refraction."""


def run(c):
    c.reals()
    exe = c.driver("refr", san=True, srcs=("refract.cpp", "refract4.cpp"))
    c.model("RefractionModel")
    n = 720 if c.quick else 20000
    t = c.record(exe, [n], name="refraction")
    c.validate(t, "RefractionTrace", need=n)
    c.assumptions += ["heights seen from the horizon up (the rules of thumb from one degree below it, the formula from five degrees above), observers below 11 km, air between 240 and 315 K"]
