"""C19 orbits as text: SOF, MPCORB, ASTORB, ELEMENTS.COMET and the eight-line form."""
import os


def run(c):
    c.reals()
    src = c.build(san=True, targets=("liblunar.a", "mpc2sof"))
    exe = c.driver("orbfile", san=True, srcs=("mpcorb.cpp",))
    c.model("OrbFileModel")
    n = 4000 if c.quick else 60000
    d = os.path.join(c.work, "orbfile")
    os.makedirs(d, exist_ok=True)
    t = c.record(exe, [n, d, os.path.join(src, "mpc2sof")], name="orbfile")
    c.validate(t, "OrbFileTrace", need=n // 2)
    c.assumptions += ["dates that are not eight digits, NaN elements, perihelia of 100 AU or more and years outside four digits in the converter are left open"]
