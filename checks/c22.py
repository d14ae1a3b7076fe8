"""C22 distances of orbits from each other and of points from ellipses; mean orbits."""


def run(c):
    c.reals()
    exe = c.driver("moid", san=True)
    c.model("MoidModel")
    n = 900 if c.quick else 20000
    t = c.record(exe, [n], name="moid")
    c.validate(t, "MoidTrace", need=n)
    c.assumptions += ["first orbit an ellipse of eccentricity at most 0.99, second one of eccentricity at most 3, perihelia from 0.001 to 10 au; "
                      "two minima within two of the search's steps of five degrees of the second orbit may be taken for one (documented in moid.cpp)"]
