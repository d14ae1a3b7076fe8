"""C16 planet orientations from cospar.txt, over histories of loading and asking."""
import os
from vlib import REPO


def run(c):
    c.reals()
    exe = c.driver("cospar", san=True)
    c.model("CosparModel")
    n = 12000 if c.quick else 120000
    d = os.path.join(c.work, "cos")
    os.makedirs(d, exist_ok=True)
    t = c.record(exe, [n, d, os.path.join(REPO, "cospar.txt")], name="cospar")
    c.validate(t, "CosparTrace", boundary='"op":"start"', need=n // 2)
    c.assumptions += ["orientation files of the form of cospar.txt; angles numbered without gaps; one rotation term in d per W"]
