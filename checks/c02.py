"""C02 designations: packing, base 62."""


def run(c):
    exe = c.driver("des", san=True)
    c.model("DesigModel")
    t = c.record(exe, [14000 if c.quick else 300000, "pack"], name="desig")
    c.validate(t, "DesigTrace", need=5000, per_shard=60000)
    t = c.record(exe, [2500 if c.quick else 100000, "mh"], name="base62")
    c.validate(t, "DesigTrace", need=1000, per_shard=60000)
    c.assumptions += ["runs of more than 8 digits only in listed cases"]
