"""C15 places: text locations, observatory lines, figures of bodies, regions."""
import os


def run(c):
    c.reals()
    exe = c.driver("place", san=True)
    c.model("PlaceModel")
    n = 24000 if c.quick else 400000
    t = c.record(exe, [n, os.path.join(c.work, "regions.txt")], name="place")
    c.validate(t, "PlaceTrace", need=n // 2)
    c.assumptions += ["numbers of up to some forty digits; altitudes with exponents left open"]
