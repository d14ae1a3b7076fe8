"""C18 bounded text: copies, appends, formatted appends and replacement."""


def run(c):
    exe = c.driver("strings", san=True)
    c.model("StringsModel")
    n = 12000 if c.quick else 150000
    t = c.record(exe, [n], name="strings")
    c.validate(t, "StringsTrace", need=n // 2)
    c.assumptions += ["text_search_and_replace is given room for the result, as its callers must"]
