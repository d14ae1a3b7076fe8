"""C17 form data: URL-encoded and multipart input, field by field, from any bytes."""
import os


def run(c):
    exe = c.driver("form", san=True)
    c.model("FormModel")
    n = 12000 if c.quick else 150000
    d = os.path.join(c.work, "form")
    os.makedirs(d, exist_ok=True)
    t = c.record(exe, [n, d], name="form")
    c.validate(t, "FormTrace", need=n // 2)
    c.assumptions += ["a multipart value that nearly fills the caller's buffer is left open, as is a part naming a file but no field"]
