"""C11: workspace commands change what they name and nothing else."""
import copy
import json
import re

from ..core import Violation
from ..lib import reset_run
from ..wscmd import slug
from ..wsgen import Data, Pipe
from ..wsim import Sys, User, asgi_get, complete, read_ws, serve_ws, setup_ws, typed, versions

setup = setup_ws

ODD = ("exp", "exp_1", "exp_1_2", "1e5", "08", "true", "null", "~", "1.5", "0x1F", "2020-01-01", "yes", "no", "1_000",
       "a b", "a: b", "- x", "#c", "\u00fc", "[x]", "{y}", "&a", "*b", "!t", "%p", "@q", "'q'", '"dq"', "=", "<<", ".5",
       "1e", "e5", "0o7", "12:30", "+1", "-1", ".inf", ".nan", "off", "On", "Null", "a#b", "a #b", "x,y", "|", ">", "?",
       "0", "00", "1", "exp_", "_", "__init__", "EXP", "con", "a.b", "exp.json", "-", "--", "---", "...")
# names typed at a prompt; keys may be stored as typed or slugified
TYPED = ("fresh", "New One", "a-b c", "x_1", "1e5", "08", "true", "null", "1.5", "exp", "exp_1", "0x1F", "yes", "2020-01-01",
         "7", "a.b", "N\u00e4me", "Exp")
STRINGS = ("abc", "1e5", "true", "007", "null", "~", "", " ", "a: b", "#x", "it's", '"q"', "line\nbreak", "tab\tbed", "\u00fc\u4e16",
           " lead", "trail ", "0x10", "1_0", "yes", "-", "- a", "{", "[1, 2]", "*", "&x", "!y", "%", "@", "`", "\\n", "\\",
           "2001-01-01", "1.0", ".nan", "=", "|", ">", "? a", ", ", "a,b", "12:30:45", "x" * 200, "word " * 40,
           "\U0001f600", "a\u2028b", "a\u00a0b", "\u00e9" * 90, "end:", ": start", "a\n\nb\n", "\n", "a\r\nb")
FLOATS = (0.2, 1e-300, 1e300, 0.1 + 0.2, -2.5, 1e5, 123456789.125, 5e-324, 0.0, 1e22, 1e16)
INTS = (7, 0, -3, 10 ** 12, 10 ** 20, 8)
NUMTXT = {"float": ("0.2", "0.75", "1e-3", "7", "-1", "1e300", "5e-324", "1_0.5", " 0.5 "), "integer": ("5", "-3", "0012",
          "100000000000000000000", "1_000"), "bool": ("true", "false", "0", "1", "no", "yes", "off")}
BADTXT = {"float": ("abc", "nan", "inf", "-inf", "1e999", ""), "integer": ("abc", "1.5", ""), "bool": ("maybe", "2", "")}
FOREIGN = ("%s_backup.json", "%s_.json", "%s_12a.json", "%s_007.json", "%s_-5.json", "%s_1.5.json", "%s_12.json.bak",
           "%s_12.JSON", "%s.json", "%s__12.json", "x%s_12.json", "%s_12_.json", "%s_\u0661\u0662.json", "%s_1e3.json",
           "%s_12.yml", "notes.txt", "%s_ 12.json", "%s_12 .json", "%s_+12.json", "%s_1_000.json", "%s_12\n.json")


class Model:
    def __init__(self, doc):
        self.doc = doc

    def plain(self):
        d = copy.deepcopy(self.doc)
        for e in d["experiments"].values():
            e["variables"] = typed(e.get("variables") or {})
        return d


def gen(sim, s):
    pipes = []
    for i in range(sim.rint(1, 3)):
        p = Pipe(sim, None, i, kinds=("file", "python", "name"))
        if p.kind != "name":
            p.extra = [("flag", "bool", True), ("depth", "integer", 2), ("mode", "string", "fast")] + [
                x for x in p.extra if x[0] == "alpha"]
        pipes.append(p)
    datas = [Data(sim, None, i) for i in range(sim.rint(1, 2))]
    used = set()

    def name():
        if sim.chance(1, 3):
            n = sim.pick(("exp", "exp_1", "e2", "p", "d", "q", "r"))
        else:
            n = sim.pick(ODD)
        return n

    def fresh(keys):
        n = name()
        while n in keys:
            n += "x"
        return n
    doc = {"name": name(), "author": sim.pick((name(), "me")), "pipelines": {}, "dataloaders": {}, "experiments": {}}
    for p in pipes:
        p.key = fresh(doc["pipelines"])
        doc["pipelines"][p.key] = p.entry()
        for n, t in p.files().items():
            s.world.put(n, t)
    for d in datas:
        d.key = fresh(doc["dataloaders"])
        doc["dataloaders"][d.key] = d.entry()
        if d.options:
            doc["dataloaders"][d.key]["options"] = sim.pick(({"o": 1}, {"o": "1e5"}, {"08": [1, "x", None]},
                                                            {"a": {"b": True}}, {"o": "true"}))
        s.world.put(d.ref, d.text())
    vars_of = {p.key: p.vars() for p in pipes}
    for _ in range(sim.rint(1, 4)):
        x = fresh(doc["experiments"])
        p = sim.pick(pipes)
        v = {}
        for n, (t, dflt) in p.vars().items():
            if sim.chance(1, 2):
                v[n] = sim.pick({"float": FLOATS, "integer": INTS, "bool": (True, False), "string": STRINGS}[t])
        doc["experiments"][x] = {"pipeline": p.key, "dataloader": sim.pick(datas).key, "variables": v}
    # JSON is YAML except for surrogate pairs
    s.world.put("workspace.yml", re.sub(r"\\ud[89ab]..\\ud[c-f]..", lambda g: json.loads('"%s"' % g.group(0)),
                                        json.dumps(doc, indent=1)))
    return doc, vars_of


def run(sim):
    reset_run(sim)
    with Sys(sim) as s:
        s.world.shuffle_dirs = sim.chance(1, 2)
        doc, vars_of = gen(sim, s)
        m = Model(doc)
        hist = []
        sim.nontrivial = True
        sim.desc = {"experiments": {x: [e["pipeline"], e["variables"]] for x, e in doc["experiments"].items()},
                    "history": hist}
        # results and foreign files
        for x in list(doc["experiments"]) + ["gone"]:
            for _ in range(sim.draw(3)):
                s.world.put("%s_%d.json" % (x, sim.pick((1, 12, 1699999000, 1700000000, 3))), "{}")
            for f in sim.subset(FOREIGN, 1, 6):
                f = f.replace("%s", x)
                s.world.put(f, sim.pick(("mine", "", "{}")))
        compare(s, m, "a workspace file written by hand")
        for _ in range(sim.rint(2, 7)):
            step(sim, s, m, vars_of, hist)


def compare(s, m, h):
    got, err = read_ws(s)
    if err:
        raise Violation("workspace-unreadable", "%s: %s" % (h, err))
    want = m.plain()
    if got != want:
        for k in want:
            if got[k] != want[k]:
                raise Violation("workspace-differs", "%s: %s is %s instead of %s" % (
                    h, k, json.dumps(got[k])[:500], json.dumps(want[k])[:500]))
        raise Violation("workspace-differs", h)


def step(sim, s, m, vars_of, hist):
    doc = m.doc
    k = sim.pick(("update", "update", "experiment add", "pipeline add", "dataloader add", "experiment rm", "clear",
                  "pipeline rm", "dataloader rm", "info", "execute", "ui", "bad update", "missing", "init"))
    exps, pipes, datas = list(doc["experiments"]), list(doc["pipelines"]), list(doc["dataloaders"])
    if k in ("update", "experiment rm", "clear", "bad update", "execute") and not exps:
        k = "pipeline add"
    if k == "experiment add" and (not pipes or not datas):
        k = "pipeline add"
    if k in ("pipeline rm",) and not pipes or k == "dataloader rm" and not datas:
        k = "info"
    before = s.world.files()
    new = copy.deepcopy(doc)
    args, user, refused, gone, made = ["workspace"], None, False, set(), {}
    grow = None
    keys = None
    if k in ("update", "bad update"):
        x = sim.pick(exps)
        vs = vars_of.get(doc["experiments"][x]["pipeline"])
        if vs is None or foreign(doc["experiments"][x], vars_of):
            return
        v = sim.pick(list(vs))
        t = vs[v][0]
        if k == "update":
            txt = sim.pick(STRINGS if t == "string" else NUMTXT[t])
            val = {"float": float, "integer": int, "string": str,
                   "bool": lambda z: z in ("true", "1", "yes", "on")}[t](txt)
            new["experiments"][x]["variables"] = dict(new["experiments"][x].get("variables") or {}, **{v: val})
        else:
            refused = True
            how = sim.pick(("value", "name", "experiment"))
            txt = "5"
            if how == "value" and t != "string":
                txt = sim.pick(BADTXT[t])
            elif how == "experiment":
                x = "no such"
            else:
                v = "nonesuch"
        args += ["experiment", "update-variable", "--", x, v, txt]
    elif k == "pipeline add":
        kind = sim.pick(("PRECONFIGURED", "SKELETON", "EJECT"))
        n, a = free(sim, s, TYPED), sim.pick(("PC", "ParallelPC"))
        args += ["pipeline", "add"]
        user = User({"pipeline_kind": kind, "algorithm": a, "pipeline_name": n})
        sl = slug(n)
        entry = {"PRECONFIGURED": None, "EJECT": {"type": "file", "reference": sl + ".yml"},
                 "SKELETON": {"type": "python_module", "reference": sl + ".PIPELINE"}}[kind]
        if kind != "PRECONFIGURED":
            made[sl + (".yml" if kind == "EJECT" else ".py")] = None
        keys = ("pipelines", {n, sl}, entry, a)
    elif k == "dataloader add":
        kind = sim.pick(("json", "jsonl", "dynamic"))
        n = free(sim, s, TYPED)
        path = sim.pick(("data0.json", "x y.jsonl", "1e5", "sub/d.json", "~", "#x.json"))
        args += ["dataloader", "add"]
        user = User({"loader_type": kind, "loader_name": n, "path": path})
        sl = slug(n)
        if kind == "dynamic":
            made[sl + ".py"] = None
            path = sl + ".DataLoader"
        keys = ("dataloaders", {n, sl}, {"type": kind, "reference": path}, None)
    elif k == "experiment add":
        n = sim.pick(TYPED)
        p = sim.pick(pipes)
        d = sim.pick(datas)
        args += ["experiment", "add"]
        user = User({"experiment_name": n, "experiment_pipeline": p, "experiment_loader": d})
        keys = ("experiments", {n, slug(n)}, {"pipeline": p, "dataloader": d},
                {a: b for a, (t, b) in vars_of.get(p, {}).items()} if p in vars_of else None)
    elif k in ("experiment rm", "clear"):
        x = sim.pick(exps)
        args += ["experiment", "rm" if k == "experiment rm" else "clear", "--", x]
        gone = {"%s_%d.json" % (x, v) for v in versions(before, x)}
        if k == "experiment rm":
            del new["experiments"][x]
    elif k in ("pipeline rm", "dataloader rm"):
        w = k.split()[0]
        x = sim.pick(pipes if w == "pipeline" else datas)
        args += [w, "rm", "--", x]
        refused = any(e[w] == x for e in doc["experiments"].values())
        if not refused:
            del new[w + "s"][x]
    elif k == "missing":
        a = sim.pick((["experiment", "rm"], ["experiment", "clear"], ["pipeline", "rm"], ["dataloader", "rm"]))
        args += a + ["--", "no such"]
        refused = True
    elif k == "info":
        args += ["info"]
    elif k == "execute":
        x = sim.pick(exps)
        args += ["execute", "--experiment-name=" + x]
        grow = x
        e = doc["experiments"][x]
        if foreign(e, vars_of):
            return
        runnable = vars_of.get(e["pipeline"]) is not None and s.world.get(doc["dataloaders"][e["dataloader"]]["reference"]) \
            and doc["dataloaders"][e["dataloader"]]["type"] != "dynamic" and not strange(e) and "every_nth_sample" not in vars_of[e["pipeline"]]
        if not runnable or any(v >= 10 ** 10 for v in versions(before, x)):
            return
    elif k == "init":
        args += ["init"]
        yes = sim.chance(1, 2)
        user = User({"overwrite": yes, "name": sim.pick(ODD), "author": sim.pick(ODD)})
        if yes:
            new = {"name": user.answers["name"], "author": user.answers["author"], "pipelines": {}, "dataloaders": {},
                   "experiments": {}}
        else:
            refused = True
    elif k == "ui":
        ui(s, m, hist)
        return
    text = " ".join(repr(a) if a != a.strip() or not a.isprintable() else a for a in args[1:])
    if user is not None:
        text += " " + json.dumps(user.answers)
    hist.append(text)
    sim.probe("cmd_" + k.replace(" ", "_") + ("_refused" if refused else ""))
    plan = None
    if sim.chance(1, 8):
        ref = s.trial(lambda: s.cli(*args, user=user and User(dict(user.answers))))
        plan = s.draw_plan(ref.proc, ("kill", "eio", "enospc", "interrupt"))
        hist[-1] += " with %r" % plan
    h = "; ".join(hist)
    e = s.cli(*args, user=user, plan=plan)
    s.world.full = False
    if plan is not None and plan.fired and not e.ok:
        sim.probe("cut_short")
        return cut_short(s, m, new, keys, h, vars_of, before, gone, made, grow)
    if refused:
        if e.ok and k != "init":
            raise Violation("success-reported", "%s: reported success: %s" % (h, e.out[-200:]))
    elif not e.ok:
        if k == "execute" and e.proc.rc == 0:
            pass
        else:
            raise Violation("command-failed", "%s: failed: %s %s" % (h, e.why(), e.proc.tb))
    if keys:
        added(s, m, new, keys, h, vars_of)
    m.doc = new
    compare(s, m, h)
    after = s.world.files()
    files(h, before, after, gone, made, grow)


def cut_short(s, m, new, keys, h, vars_of, before, gone, made, grow):
    """The command did all, nothing, or only part of what it has to do beside the workspace file."""
    got, err = read_ws(s)
    if err:
        raise Violation("workspace-unreadable", "%s: %s" % (h, err))
    if got != m.plain():
        if keys:
            added(s, m, new, keys, h, vars_of)
        m.doc = new
        compare(s, m, h)
    after = s.world.files()
    for f, data in before.items():
        if f == "workspace.yml" or f in gone and f not in after:
            continue
        if f not in after:
            raise Violation("file-removed", "%s: %s was removed" % (h, f))
        if after[f] != data and f not in made:
            raise Violation("file-changed", "%s: %s was changed" % (h, f))
    for x in m.doc["experiments"]:
        for v in versions(after, x):
            f = "%s_%d.json" % (x, v)
            if f in before:
                continue
            if x != grow:
                raise Violation("file-added", "%s: %s appeared" % (h, f))
            if complete(after[f]) is None:
                raise Violation("torn-result", "%s: %s is not complete" % (h, f))


def strange(e):
    v = e.get("variables") or {}
    return not all(0 < v.get(t, 0.05) < 1 for t in ("threshold", "alpha"))


def foreign(e, vars_of):
    """The experiment still has variables of a pipeline that was replaced by another."""
    return not set(e.get("variables") or {}) <= set(vars_of.get(e["pipeline"]) or {})


def free(sim, s, names):
    """A name whose files do not exist yet."""
    n = sim.pick(names)
    while s.world.get(slug(n) + ".yml") is not None or s.world.get(slug(n) + ".py") is not None:
        n += "z"
    return n


def added(s, m, new, keys, h, vars_of):
    """Exactly one entry was added (or replaced), under the typed name or its slug."""
    sect, names, entry, extra = keys
    got, err = read_ws(s)
    if err:
        raise Violation("workspace-unreadable", "%s: %s" % (h, err))
    want = m.plain()[sect]
    fresh = [k for k in got[sect] if k not in want or (k in names)]
    fresh = [k for k in fresh if k in names]
    if not fresh:
        raise Violation("workspace-differs", "%s: no entry %s in %s" % (h, sorted(names), sect))
    changed = [k for k in fresh if k not in want or got[sect][k] != want[k]]
    k = (changed or fresh)[0]
    g = got[sect][k]
    if sect == "experiments":
        if g["pipeline"] != entry["pipeline"] or g["dataloader"] != entry["dataloader"]:
            raise Violation("workspace-differs", "%s: experiment %s is %s" % (h, k, g))
        if extra is not None and g["variables"] not in (typed(extra), {}):
            raise Violation("workspace-differs", "%s: experiment %s got the variables %s, defaults are %s" % (
                h, k, g["variables"], extra))
        new[sect][k] = {"pipeline": g["pipeline"], "dataloader": g["dataloader"],
                        "variables": {a: b[1] for a, b in g["variables"].items()}}
        return
    if entry is None:
        if g["type"] != "name" or g["reference"] != extra:
            raise Violation("workspace-differs", "%s: pipeline %s is %s" % (h, k, g))
        entry = {"type": "name", "reference": extra}
    elif g != entry:
        raise Violation("workspace-differs", "%s: %s %s is %s instead of %s" % (h, sect, k, g, entry))
    new[sect][k] = entry
    if sect == "pipelines":
        vars_of.pop(k, None)
        if entry["type"] != "python_module":
            vars_of[k] = {"threshold": ("float", 0.05)}
            if extra == "ParallelPC":
                vars_of[k]["every_nth_sample"] = ("integer", 200)


def files(h, before, after, gone, made, grow):
    for f, data in before.items():
        if f == "workspace.yml":
            continue
        if f in gone:
            if f in after:
                raise Violation("version-kept", "%s: %s still exists" % (h, f))
        elif f not in after:
            raise Violation("file-removed", "%s: %s was removed" % (h, f))
        elif after[f] != data and f not in made:
            raise Violation("file-changed", "%s: %s was changed" % (h, f))
    extra = [f for f in after if f not in before and f != "workspace.yml"]
    for f in extra:
        if f in made:
            continue
        if grow is not None and f in ["%s_%d.json" % (grow, v) for v in versions(after, grow)]:
            if complete(after[f]) is None:
                raise Violation("torn-result", "%s: %s is not complete" % (h, f))
            continue
        raise Violation("file-added", "%s: %s appeared" % (h, f))
    for f in made:
        if f not in after:
            raise Violation("file-missing", "%s: %s was not created" % (h, f))
    if grow is not None and len(extra) != 1:
        raise Violation("version-count", "%s: %d new result files" % (h, len(extra)))


def ui(s, m, hist):
    """Listing experiments over the API: exactly the own versions, whatever else lies in the directory."""
    hist.append("list experiments")
    h = "; ".join(hist)

    def body():
        serve_ws()
        return asgi_get("/api/v1/experiments")
    e = s.call(body, "ui")
    if e.proc.err:
        raise Violation("command-failed", "%s: %s" % (h, e.proc.err))
    status, b = e.proc.value
    if status != 200:
        raise Violation("command-failed", "%s: %s %s" % (h, status, b))
    f = s.world.files()
    want = {x: sorted(versions(f, x)) for x in m.doc["experiments"]}
    got = {x["name"]: sorted(v["version"] for v in x["versions"] or []) for x in b}
    if got != want:
        raise Violation("versions-listed", "%s: %s instead of %s" % (h, got, want))
