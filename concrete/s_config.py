"""Configuration files and the command line"""
import contextlib
import io
import json
import os
import sys
import yaml
from .base import scenario, check, same, raises, note, Skip
from .s_serial import workdir
import soil
from soil import Environment, Simulation, simulation as simmod, exporters as expmod
from soil.agents import BaseAgent

RUNS = []


class Tick(BaseAgent):
    def step(self):
        return self.model.interval


class Model(Environment):
    a = "default a"
    b = "default b"
    interval = 1

    def init(self):
        self.add_agent(Tick)
        RUNS.append(self)


EVENTS = []


class Spy(expmod.Exporter):
    def sim_start(self):
        EVENTS.append(("start", self.simulation, self.dump, self.outdir))

    def iteration_end(self, env, params, params_id):
        EVENTS.append(("end", self.simulation, env, dict(params)))


FIELDS = dict(name=["one", "two words", "x"], description=["", "some text"], seed=["s", "other"], iterations=[1, 2], max_steps=[1, 3], max_time=[2, 5.5], group=["g"],
              backup=[True, False], overwrite=[True, False], dry_run=[False], skip_test=[True], parameters=[{"a": 1}, {"a": "x", "b": [1, 2]}, {}],
              matrix=[{"a": [1, 2]}, {"a": [1], "b": ["p", "q"]}], dir_path=["/nowhere"], version=["2"])
DEFAULTS = {k: getattr(Simulation(model=Model, name="d"), k) for k in FIELDS}


def settings(rng, low=0, high=7, avoid=()):
    ks = rng.sample([k for k in FIELDS if k not in avoid], rng.randint(low, high))
    out = {k: rng.choice(FIELDS[k]) for k in ks}
    for k in ("name", "description", "seed", "version"):
        if k in out:
            out[k] = rng.text([out[k]])
    for k in ("iterations", "max_steps"):
        if k in out:
            out[k] = int(rng.number([out[k]], lo=1, hi=40))
    if "max_time" in out:
        out["max_time"] = rng.number([out["max_time"]], lo=0.5, hi=40)
    if out.get("parameters"):
        out["parameters"] = {**out["parameters"], "a": rng.choice([out["parameters"]["a"], rng.number([0, -1, 2.5]), rng.text(["", "x=1", "1"]), None, False])}
    return out


def verify(sims, docs, over, folder, prop="C29"):
    same(len(sims), len(docs), "simulations", prop)
    for i, (s, d) in enumerate(zip(sims, docs)):
        want = {**DEFAULTS, "name": "concrete.s_config.Model", "dir_path": folder, **d, **over}
        for k in FIELDS:
            same(getattr(s, k), want[k], f"{k} of simulation {i}", prop)
        check(s.model is Model, f"the model of simulation {i} is {s.model}", prop)


@scenario("C29")
def documents(rng):
    """YAML and JSON"""
    with workdir() as tmp:
        folder = os.path.join(tmp, "confs")
        os.makedirs(folder)
        names, alldocs = [], []
        for f in range(rng.size(1, 3, cap=12)):
            docs = [dict(settings(rng), model="concrete.s_config.Model") for _ in range(rng.choice([1, 1, 2, 3, rng.size(1, 3, cap=40)]))]
            js = len(docs) == 1 and rng.random() < 0.4
            p = os.path.join(folder, f"conf{f}." + ("json" if js else "yml"))
            with open(p, "w") as h:
                if js:
                    json.dump(docs[0], h)
                else:
                    yaml.dump_all(docs, h)
            names.append(p)
            alldocs.append(docs)
        over = settings(rng, 0, 3, avoid=("matrix",))
        how = rng.choice(["files", "config", "one", "dict", "glob", "relative", "from_file"])
        note(how, alldocs, "options", over)
        clean = [[{k: v for k, v in d.items() if k != "model"} for d in docs] for docs in alldocs]
        flat = [d for docs in clean for d in docs]
        if how == "files":
            verify(list(simmod.iter_from_file(*names, **over)), flat, over, folder)
        elif how == "from_file":
            verify(simmod.from_file(*names, **over), flat, over, folder)
        elif how == "config":
            verify(list(simmod.iter_from_config(*names, **over)), flat, over, folder)
        elif how == "glob":
            got = list(simmod.iter_from_config(os.path.join(folder, "*.*"), **over))
            same(len(got), len(flat), "simulations", "C29")
        elif how == "relative":
            os.chdir(tmp)
            verify(list(simmod.iter_from_config(os.path.join("confs", os.path.basename(names[0])), **over)), clean[0], over, folder)
        elif how == "dict":
            d = dict(alldocs[0][0])
            saved = json.dumps(d, sort_keys=True)
            verify(list(simmod.iter_from_config(d, **over)), clean[0][:1], over, os.getcwd())
            verify([simmod.from_config(d)], clean[0][:1], {}, os.getcwd())
            same(json.dumps(d, sort_keys=True), saved, "the configuration that was given", "C29")
        elif len(clean[0]) == 1:
            verify([simmod.from_config(names[0])], clean[0], {}, folder)
        else:
            raises(lambda: simmod.from_config(names[0]), "several configurations, only one expected", "C29")


SOURCE = """
from soil import Simulation, Environment
from concrete.s_config import Model
"""


@scenario("C29")
def python(rng):
    with workdir() as tmp:
        text = SOURCE
        kind = rng.choice(["defined", "run", "both", "classes", "none"])
        docs = [settings(rng, avoid=("dir_path",)) for _ in range(rng.size(1, 3, cap=20))]
        order = []
        if kind in ("classes", "none"):
            text = "from soil import Environment, Simulation\n"
            if kind == "classes":
                for k in range(len(docs)):
                    text += f"class E{k}(Environment):\n    pass\n"
        else:
            runs = []
            for k, d in enumerate(docs):
                d.pop("matrix", None)
                if kind == "defined" or kind == "both" and rng.random() < 0.5:
                    text += f"sim{k:03d} = Simulation(model=Model, **{d!r})\n"
                    order.append(d)
                else:
                    text += f"Simulation(model=Model, **{d!r}).run()\n"
                    runs.append(d)
            order += runs
        path = os.path.join(tmp, "sims.py")
        with open(path, "w") as f:
            f.write(text)
        over = settings(rng, 0, 3, avoid=("matrix", "parameters"))
        note(text, "options", over)
        syspath = list(sys.path)
        del RUNS[:]
        load = lambda: list(rng.choice([simmod.iter_from_file, simmod.iter_from_py])(path, **over))
        if kind == "none":
            raises(load, "a file without simulations", "C29")
            return
        sims = load()
        same(len(RUNS), 0, "runs while loading", "C29")
        same(simmod._QUEUED, [], "queue", "C29")
        same(sys.path, syspath, "sys.path", "C29")
        if kind == "classes":
            same(sorted(s.model.__name__ for s in sims), sorted(f"E{k}" for k in range(len(docs))), "models", "C29")
            for s in sims:
                for k, v in over.items():
                    same(getattr(s, k), v, k, "C29")
        else:
            same(len(sims), len(order), "simulations", "C29")
            for i, (s, d) in enumerate(zip(sims, order)):
                want = {**DEFAULTS, "name": "Model", "dir_path": os.getcwd(), **d, **over}
                for k in FIELDS:
                    same(getattr(s, k), want[k], f"{k} of simulation {i}", "C29")
                check(s.model is Model, f"the model is {s.model}", "C29")


@scenario("C29")
def command(rng):
    """Command line"""
    with workdir() as tmp:
        docs = []
        for k in range(rng.randint(1, 2)):
            d = settings(rng, 0, 5, avoid=("dry_run", "group", "dir_path", "backup", "overwrite"))
            d.update(model="concrete.s_config.Model", name=f"s{k}")
            if "max_time" not in d and "max_steps" not in d:
                d[rng.choice(["max_time", "max_steps"])] = rng.randint(1, 4)
            d["parameters"] = {**d.get("parameters", {}), **({"interval": rng.choice([0.5, 2])} if rng.random() < 0.4 else {})}
            docs.append(d)
        conf = os.path.join(tmp, "conf.yml")
        with open(conf, "w") as f:
            yaml.dump_all(docs, f)
        out = os.path.join(tmp, "results")
        argv = ["soil"]
        kwargs = {}
        if rng.random() < 0.5:
            argv.append(conf)
        else:
            kwargs["cfg"] = conf
        opts = {}
        if rng.random() < 0.3:
            opts["max_time"] = rng.number([1, 2.5, 4], lo=0.5, hi=40)
            argv += ["--max_time", str(opts["max_time"])]
        if rng.random() < 0.3:
            opts["max_steps"] = int(rng.number([1, 2, 4], lo=1, hi=40))
            argv += ["--max_steps", str(opts["max_steps"])]
        if rng.random() < 0.3:
            opts["iterations"] = int(rng.number([1, 3], lo=1, hi=12))
            argv += ["--iterations", str(opts["iterations"])]
        if rng.random() < 0.3:
            opts["seed"] = rng.text(["zero", "7", ""])
            argv += ["--seed", opts["seed"]]
        sets = {}
        if rng.random() < 0.3:
            sets = {"b": rng.choice(["set", 5, [1, 2], None, {"x": 1}, "a=b", "", 0, -2.5, rng.number([1]), rng.text(["p=q=r"])])}
            argv += ["--set", "b=" + repr(sets["b"])]
        if rng.random() < 0.15:
            sets["a"] = rng.choice(["other", 6, 1.5, ["x"]])
            argv += ["--set", "a=" + repr(sets["a"])]
        deep = {}
        if rng.random() < 0.2:
            # A value inside other ones
            for d in docs:
                d["parameters"]["deep"] = {"x": 1, "y": {"z": [1]}}
            for _ in range(rng.randint(1, 2)):
                k = rng.choice(["deep.x", "deep.new", "deep.y.z", "deep.y.w"])
                deep[k] = rng.choice([5, "five", [5], None])
                argv += ["--set", k + "=" + repr(deep[k])]
            with open(conf, "w") as f:
                yaml.dump_all(docs, f)
            want_deep = {"x": 1, "y": {"z": [1]}}
            for k, v in deep.items():
                t = want_deep
                for part in k.split(".")[1:-1]:
                    t = t[part]
                t[k.split(".")[-1]] = v
        csv, graph = rng.random() < 0.15, rng.random() < 0.15
        if csv:
            argv.append("--csv")
        if graph:
            argv.append(rng.choice(["-g", "--graph"]))
        dry = rng.random() < 0.15
        nodump = rng.random() < 0.3
        if dry:
            argv.append(rng.choice(["--dry-run", "--dry"]))
        if nodump:
            argv.append("--no-dump")
        if rng.random() < 0.5:
            argv += ["-o", out]
        else:
            kwargs["output"] = out
        convert = rng.random() < 0.1
        if convert:
            argv.append("--only-convert")
        argv += ["-e", "concrete.s_config.Spy", "--level", "ERROR"]
        note(argv, kwargs, docs)
        old = sys.argv
        sys.argv = argv
        del EVENTS[:], RUNS[:]
        text = io.StringIO()
        try:
            with contextlib.redirect_stdout(text):
                res = soil.main(**kwargs)
        finally:
            sys.argv = old
        if convert:
            same((res, RUNS, EVENTS), ([], [], []), "results, when only converting", "C29")
            dumped = [yaml.safe_load(text.getvalue())] if len(docs) == 1 else None
            if dumped:
                same(dumped[0]["name"], docs[0]["name"], "name", "C29")
                same(dumped[0]["iterations"], opts.get("iterations", docs[0].get("iterations", 1)), "iterations", "C29")
            check(not os.path.exists(out), "files were written", "C29 C21")
            return
        starts = [e for e in EVENTS if e[0] == "start"]
        same([e[1].name for e in starts], [d["name"] for d in docs], "simulations that were run", "C29")
        for e in starts:
            same(e[2], not nodump and not dry, "dump", "C29 C21")
            check(os.path.abspath(e[3]).startswith(os.path.abspath(out) + os.sep), f"the results go to {e[3]}", "C29 C21")
        if dry:
            same(RUNS, [], "runs in a dry run", "C29 C21")
            return
        want = []
        for d in docs:
            mat = d.get("matrix", {})
            combos = [{}]
            for k, vs in mat.items():
                combos = [{**c, k: v} for c in combos for v in vs]
            for c in combos:
                for i in range(opts.get("iterations", d.get("iterations", 1))):
                    want.append((d, {**d["parameters"], **sets, **c}, i))
        same(len(RUNS), len(want), "iterations", "C29")
        same([id(e) for r in res for e in r], [id(e) for e in RUNS], "results", "C29")
        for env, (d, params, i) in zip(RUNS, want):
            same((env.id, env.a, env.b, env.interval), (str(i), params.get("a", "default a"), params.get("b", "default b"), params.get("interval", 1)), "parameters", "C29")
            if deep:
                same(env.deep, want_deep, "parameters inside other ones", "C29")
            same(env._seed, f"{opts.get('seed', d.get('seed', 'default'))}_iteration_{i}", "seed", "C29 C20")
            mt, ms = opts.get("max_time", d.get("max_time")), opts.get("max_steps", d.get("max_steps"))
            t, s = 0, 0
            while (mt is None or t < mt) and (ms is None or s < ms):
                s += 1
                t = s * env.interval
            same((float(env.schedule.time), int(env.schedule.steps)), (float(t), s), f"time and steps, with limits {mt}, {ms}", "C29 C06")
        same(os.path.exists(out) and any(f.endswith(".sqlite") for _, _, fs in os.walk(out) for f in fs), not nodump, "results are stored", "C29 C21")
        for yes, ext in ((csv, ".csv"), (graph, ".gexf")):
            found = os.path.exists(out) and any(f.endswith(ext) for _, _, fs in os.walk(out) for f in fs)
            same(found, yes and not nodump, f"there are files {ext}", "C29 C21")
