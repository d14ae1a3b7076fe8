"""C03 designations: unpacking."""


def run(c):
    exe = c.driver("des", san=True)
    c.model("DesigModel")
    t = c.record(exe, [14000 if c.quick else 300000, "unpack"], name="desig")
    c.validate(t, "DesigTrace", need=5000, per_shard=60000)
    c.assumptions += ["twelve columns at least are handed to the unpacker"]
