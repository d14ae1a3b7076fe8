"""C10 time scales."""


def run(c):
    c.reals()
    exe = c.driver("timescale", san=True)
    c.model("TimeScalesModel")
    n, files = (40000, 40) if c.quick else (600000, 300)
    t = c.record(exe, [n, files], name="scales")
    c.validate(t, "TimeScalesTrace", boundary='"op":"start"', need=n)
    c.assumptions += ["leap-second horizon from 1972 on; Earth orientation files generated in the layout of finals.all"]
