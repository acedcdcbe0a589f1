"""Runs cases on the Python module: driver.py DIR, where DIR holds the package. One JSON value per line in and out."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import chanoma

out = os.dup(1)
os.dup2(2, 1)


class Duck:
    def __init__(self, items): self.items = items


def corr(a):
    if a[0] == "items": return chanoma.Correspondence([chanoma.Item(f, t) for f, t in a[1]])
    if a[0] == "duck": return Duck([chanoma.Item(f, t) for f, t in a[1]])
    if a[0] == "set": return getattr(chanoma.characters_set, a[1])()
    if a[0] == "bad": return {"none": None, "object": object(), "str": Duck("ab"), "list": [chanoma.Item("a", "b")], "mixed": Duck([chanoma.Item("a", "b"), "x"]), "item": chanoma.Item("a", "b"), "int": Duck(3)}[a[1]]
    raise Exception("harness")


def run(c):
    os.environ["HOME"] = c["home"]
    if c["env"] is None: os.environ.pop("CHANOMARC", None)
    else: os.environ["CHANOMARC"] = c["env"]
    os.chdir(c["cwd"])
    r = {"adds": []}
    kw = dict(c["kw"])
    if c["table"] is not None:
        try:
            t = chanoma.Table(**c["table"])
        except BaseException as e:
            r["table"] = kind(e)
            return r
        for a in c["adds"]:
            try:
                t.add(corr(a))
                r["adds"].append("ok")
            except BaseException as e:
                r["adds"].append(kind(e))
        kw["table"] = t
    try:
        n = chanoma.Chanoma(**kw)
    except BaseException as e:
        r["new"] = kind(e)
        return r
    try:
        r["text"] = n.normalize(c["text"])
        r["again"] = n.normalize(c["text"])
        if c["table"] is not None:
            # the normalizer has its own copy of the table
            t.add(chanoma.Correspondence([chanoma.Item("a", "!"), chanoma.Item("b", "!")]))
            r["again"] = n.normalize(c["text"])
    except BaseException as e:
        r["normalize"] = kind(e)
    return r


def kind(e):
    if isinstance(e, OSError): return "OSError"
    return "other" if isinstance(e, Exception) else "panic: " + str(e)[:200]


for l in sys.stdin:
    os.write(out, (json.dumps(run(json.loads(l))) + "\n").encode())
