"""C21 places of planets and Moon from series in data files."""
import os


def run(c):
    c.reals()
    exe = c.driver("series", san=True)
    c.model("SeriesModel")
    n = 2500 if c.quick else 60000
    t = c.record(exe, [n, os.path.join(c.work, "series-data")], name="series")
    c.validate(t, "SeriesTrace", need=2000)
    c.assumptions += ["data files made up here in the formats of vsop.bin, big_vsop.bin, elp82.dat and ps_1996.dat (the real ones are not in the repository); "
                      "times within 40 centuries of 2000; little-endian machine"]
