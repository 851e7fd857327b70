import json, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
import qirrunner
from qirrunner import _native


class Stop(Exception):
    pass


def value(v):
    if isinstance(v, dict):
        if "file" in v:
            with open(v["file"], "rb") as f:
                b = f.read()
            return bytearray(b) if v.get("array") else b
        if "int" in v:
            return int(v["int"])
        return object()
    return v


def one(call):
    got, said = [], {}

    def check(o):
        if type(o) is not qirrunner.Output:
            said["odd"] = "callback argument of type " + repr(type(o))
            return
        s = str(o)
        if type(s) is not str or repr(o) != s:
            said["odd"] = "str %r but repr %r" % (s, repr(o))
        if o._repr_html_() != "<p>" + s + "</p>":
            said["odd"] = "str %r but html %r" % (s, o._repr_html_())
        if "stopped" in said:
            said["odd"] = "callback called again after it raised"
        got.append(s)

    def listing(o):
        check(o)

    def stopping(o):
        check(o)
        if sum(len(s.encode("utf-8", "surrogatepass")) for s in got) >= call["stop"]:
            said["stopped"] = True
            raise Stop("enough")

    handler = qirrunner.OutputHandler()
    both = qirrunner.OutputHandler()

    def twice(o):
        check(o)
        both.handle(o)

    cb = {"none": None, "list": listing, "stop": stopping, "handler": handler.handle, "both": twice}[call["cb"]]
    f = getattr(_native if call["fn"] == "main" else qirrunner, call["fn"])
    args = [cb if n == "output_fn" and v == "cb" else value(v) for n, v in call["args"]]
    kw = dict((n, a) for (n, v), a in list(zip(call["args"], args))[call["pos"]:])
    r = {"exc": None}
    try:
        x = f(*args[: call["pos"]], **kw)
        if x is not None:
            said["odd"] = "returned %r" % (x,)
    except BaseException as e:
        r["exc"] = type(e).__name__
        r["msg"] = str(e)
        r["runtime"] = isinstance(e, RuntimeError)
    if call["cb"] == "handler":
        got.append(handler.get_output())
    if call["cb"] == "both" and both.get_output() != "".join(got):
        said["odd"] = "handler has %r" % both.get_output()
    r.update(said)
    r["text"] = list("".join(got).encode("utf-8", "surrogatepass"))
    return r


with open(sys.argv[1]) as f:
    calls = json.load(f)
out = []
for k, c in enumerate(calls):
    out.append(one(c))
    os.write(1, b"\0#%d\n" % k)
with open(sys.argv[2], "w") as f:
    json.dump(out, f)
