"""Workspace commands with a model of what each should do."""
import copy

from .wsgen import pick_value
from .wsim import User


def slug(name):
    from markdown.extensions.toc import slugify
    return slugify(name, "_")


FRESH = ("fresh", "New One", "a-b c", "x_1")
VARTXT = {"float": ("0.2", "0.75", "1e-3", "0.01", "7"), "integer": ("5", "12", "-3"), "bool": ("true", "false"),
          "string": ("abc", "fast", "1e5", "true", "007")}


def cast(typ, txt):
    return {"float": float, "integer": int, "string": str, "bool": lambda t: t == "true"}[typ](txt)


class Cmd:
    """args, user answers, and model(doc) -> set of acceptable documents."""

    def __init__(self, args, answers=None, kind=None, effect=None):
        self.args = args
        self.answers = answers
        self.kind = kind
        self.effect = effect

    def user(self, **k):
        return User(dict(self.answers or {}), **k)

    def __repr__(self):
        return " ".join(str(a) for a in self.args)


def gen_writer(sim, ws, doc, init=True):
    """A command that should succeed and write the workspace file."""
    opts = ["pipeline add", "dataloader add", "experiment add", "clear", "experiment rm", "update"]
    used_p = {e["pipeline"] for e in doc["experiments"].values()}
    used_d = {e["dataloader"] for e in doc["experiments"].values()}
    free_p = [k for k in doc["pipelines"] if k not in used_p]
    free_d = [k for k in doc["dataloaders"] if k not in used_d]
    if free_p:
        opts.append("pipeline rm")
    if free_d:
        opts.append("dataloader rm")
    if init:
        opts.append("init")
    if not doc["experiments"]:
        opts = [o for o in opts if o not in ("clear", "experiment rm", "update")]
    if not doc["pipelines"] or not doc["dataloaders"]:
        opts.remove("experiment add")
    o = sim.pick(opts)
    w = ["workspace"]
    if o == "pipeline add":
        return Cmd(w + ["pipeline", "add"], {"pipeline_kind": sim.pick(("PRECONFIGURED", "SKELETON", "EJECT")),
                                             "algorithm": sim.pick(("PC", "ParallelPC")),
                                             "pipeline_name": sim.pick(FRESH)}, o)
    if o == "dataloader add":
        return Cmd(w + ["dataloader", "add"], {"loader_type": sim.pick(("json", "jsonl", "dynamic")),
                                               "loader_name": sim.pick(FRESH), "path": sim.pick(("data0.json", "x.jsonl"))
                                               }, o)
    if o == "experiment add":
        return Cmd(w + ["experiment", "add"], {"experiment_name": sim.pick(FRESH),
                                               "experiment_pipeline": sim.pick(list(doc["pipelines"])),
                                               "experiment_loader": sim.pick(list(doc["dataloaders"]))}, o)
    if o == "clear":
        return Cmd(w + ["experiment", "clear", "--", sim.pick(list(doc["experiments"]))], None, o)
    if o == "experiment rm":
        return Cmd(w + ["experiment", "rm", "--", sim.pick(list(doc["experiments"]))], None, o)
    if o == "pipeline rm":
        return Cmd(w + ["pipeline", "rm", "--", sim.pick(free_p)], None, o)
    if o == "dataloader rm":
        return Cmd(w + ["dataloader", "rm", "--", sim.pick(free_d)], None, o)
    if o == "update":
        e = sim.pick(list(doc["experiments"]))
        known = [p for p in ws.pipes if p.key == doc["experiments"][e]["pipeline"]]
        vs = known[0].vars() if known else {"threshold": ("float", 0.05)}
        v = sim.pick(list(vs))
        return Cmd(w + ["experiment", "update-variable", "--", e, v, sim.pick(VARTXT[vs[v][0]])], None, o)
    return Cmd(w + ["init"], {"name": sim.pick(("", "again", "1e5")), "author": sim.pick(("", "someone")),
                              "with_pipeline": sim.chance(1, 2), "with_loader": sim.chance(1, 2),
                              "pipeline_kind": sim.pick(("PRECONFIGURED", "SKELETON", "EJECT")),
                              "loader_type": sim.pick(("json", "dynamic")), "with_experiment": sim.chance(1, 2)}, o)
