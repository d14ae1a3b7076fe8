"""C23 places of satellites."""


def run(c):
    c.reals()
    exe = c.driver("sats", san=True, srcs=("rocks.cpp", "gust86.cpp", "htc20b.cpp"))
    c.model("SatsModel")
    n = 1800 if c.quick else 40000
    t = c.record(exe, [n], name="sats")
    c.validate(t, "SatsTrace", need=n)
    c.assumptions += ["dates within 1100 years of 2000; the coefficients of the theories are part of the specification, transcribed from the sources after the five corrections found by the laws of SatsModel and by other published copies"]
