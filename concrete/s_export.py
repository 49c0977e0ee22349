"""Contents of the files with the results"""
import csv as csvmod
import math
import os
import sqlite3
from .base import scenario, check, same, note
from .s_serial import workdir
from .s_sched import KINDS
from soil import Environment, Simulation, analysis, exporters, serialization
from soil.agents import BaseAgent, Agent, state


class Worker(BaseAgent):
    level = 0
    kind = "worker"

    def step(self):
        self.level += 1
        return self.model.plan(self)


class Boss(Worker):
    kind = "boss's"
    bonus = 0.25


NOTIFIED = []
rng_value = {}


class Notes(exporters.Exporter):
    def iteration_end(self, env, params, params_id):
        NOTIFIED.append((env, dict(params), params_id))


def value(rng, k, n):
    """The n-th value of some column"""
    v = rng_value.get(k)
    return [lambda: n * 3 - 1 if v is None or n % 4 else v, lambda: n / 4, lambda: "v%d'\"," % n, lambda: n % 2 == 0, lambda: None if n % 3 == 0 else n, lambda: None if n % 2 else "t", lambda: n / 3 + 1e-9, lambda: 10 ** 15 + n, lambda: (n - 2) * 1e-12, lambda: " á%d\n" % n, lambda: str(n)][k]()


def plain(v):
    """Missing values, numpy numbers"""
    if v is None:
        return None
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, float) and math.isnan(v):
        return None
    if isinstance(v, bool):
        return int(v)
    return v


def table(path, t):
    con = sqlite3.connect(path)
    try:
        if not con.execute("select 1 from sqlite_master where type='table' and name=?", (t,)).fetchall():
            return []
        cur = con.execute(f'select * from "{t}" order by rowid')
        cols = [c[0] for c in cur.description]
        return [dict(zip(cols, r)) for r in cur.fetchall()]
    finally:
        con.close()


def collected(env):
    """What an iteration collected: rows of each kind"""
    dc = env.datacollector
    out = dict(env=[], agents=[])
    mv = dc.get_model_vars_dataframe()
    for step, row in zip(mv.index, mv.to_dict("records")):
        out["env"].append(dict(step=int(step), **{k: plain(v) for k, v in row.items()}))
    if dc.agent_reporters:
        av = dc.get_agent_vars_dataframe()
        for (step, uid), row in zip(av.index, av.to_dict("records")):
            out["agents"].append(dict(step=int(step), agent_id=plain(uid), **{k: plain(v) for k, v in row.items()}))
    for t in dc.tables:
        tv = dc.get_table_dataframe(t)
        out[t] = [{k: plain(v) for k, v in row.items()} for row in tv.to_dict("records")]
    return out


def labelled(row, sim, env, pid):
    return dict(row, simulation_id=sim.id, iteration_id=env.id, params_id=pid)


def known(got, want):
    """The columns that matter. A column may be of text because it had no values at first"""
    out = {k: plain(got.get(k)) for k in want}
    for k, v in want.items():
        if isinstance(out[k], str) and isinstance(v, (int, float)):
            try:
                out[k] = float(out[k])
            except ValueError:
                pass
    return out


def csv_rows(path):
    if not os.path.exists(path):
        return []
    out, head = [], None
    with open(path, newline="") as f:
        for r in csvmod.reader(f):
            if "simulation_id" in r:
                head = r
            else:
                check(head is not None, f"{path}: rows without a header", "C27")
                out.append(dict(zip(head, r)))
    return out


def as_text(got, want):
    out = {}
    for k, v in want.items():
        g = got.get(k)
        if v is None:
            out[k] = None if g in ("", None) else g
        elif isinstance(v, str):
            out[k] = g
        else:
            try:
                out[k] = {"True": 1, "False": 0}[g] if g in ("True", "False") else float(g)
            except (TypeError, ValueError):
                out[k] = g
    return out


@scenario("C27")
def results(rng):
    """One or more runs: what is in the database, and in the CSV files"""
    with workdir() as tmp:
        out = os.path.join(tmp, "out")
        mcols = {f"m{i}": rng.randrange(11) for i in range(rng.size(0, 3, cap=40))}
        acols = {f"a{i}": rng.randrange(11) for i in range(rng.choice([0, 1, 1, 2]))}
        typed = rng.random() < 0.3
        rng_value[0] = rng.number([None])
        tables = {"notes": ["when", "what"]} if rng.random() < 0.3 else {}
        kind = rng.choice(list(KINDS))
        first = rng.size(1, 4, cap=60)

        class M(Environment):
            schedule_class = KINDS[kind]
            x = 1
            y = "y"
            count = 0

            def plan(self, agent):
                what = rng.choice(["nothing", "nothing", "add", "die", "row"])
                if what == "add" and len(self.schedule.agents) < 8 + 2 * first:
                    self.add_agent(rng.choice([Worker, Boss]))
                if what == "row" and tables:
                    self.datacollector.add_table_row("notes", dict(when=self.schedule.time, what=f"n{self.count}"))
                if what == "die" and len(self.schedule.agents) > 1:
                    return agent.die()
                return rng.number([1, 2, None, 0.5], lo=0.25)

            def init(self):
                for _ in range(first):
                    self.add_agent(rng.choice([Worker, Boss]))
                for c, k in mcols.items():
                    self.add_model_reporter(c, lambda m, k=k: value(rng, k, len(m.datacollector.model_vars["time"]) + sum(a.level for a in m.schedule.agents)))
                for c, k in acols.items():
                    self.add_agent_reporter(c, lambda a, k=k: value(rng, k, a.level + a.unique_id))
                if acols and typed:
                    self.add_agent_reporter("bonus", agent_type=Boss)

        exps = [Notes] + rng.choice([[exporters.SQLite], [exporters.default], [exporters.SQLite, exporters.csv], [exporters.default, exporters.csv], ["csv"], ["SQLite"]])
        overwrite = rng.random() < 0.2
        uid = rng.random() < 0.3
        name = rng.choice(["sim", "my.sim", "with space", "quo'te"])
        path = os.path.join(out, name, name + ".sqlite")
        hasdb = exps[1] != "csv"
        hascsv = exporters.csv in exps or "csv" in exps
        note(kind, mcols, acols, typed, tables, exps)
        want = {}
        wparams, wconf, files = [], [], {}
        for r in range(rng.choice([1, 1, 2, 3])):
            kw = {}
            if rng.random() < 0.5:
                kw["parameters"] = rng.choice([{"x": 2}, {"y": "it's", "x": 0.5}, {"y": None}, {"x": rng.number([0, -1, 10 ** 9])}, {"y": rng.text(["", "long " * 100, "a\nb", "NaN", "1"])}])
            if rng.random() < 0.5:
                kw["matrix"] = rng.choice([{"x": [1, 2]}, {"x": [1, "1"]}, {"x": [3], "y": ["a", "b"]}, {"x": list(range(rng.size(1, 3, cap=12)))}])
            if uid:
                kw["agent_reporters"] = {"uid": "unique_id"}
            iters = rng.size(1, 2, cap=12)
            note("run", r, kw, iters)
            del NOTIFIED[:]
            if overwrite:
                want = {k: [] for k in want}
                wparams, wconf = [], []
            s = Simulation(model=M, name=name, max_steps=rng.size(1, 4, cap=60), iterations=iters, exporters=exps, outdir=out, dump=True, tables=tables, overwrite=overwrite, **kw)
            envs = s.run()
            same([id(e) for e, _, _ in NOTIFIED], [id(e) for e in envs], "notifications", "C27 C19")
            wconf.append(s)
            for env, params, pid in NOTIFIED:
                rows = collected(env)
                for t, rs in rows.items():
                    rs = [labelled(x, s, env, pid) for x in rs]
                    want.setdefault(t, []).extend(rs)
                    files.setdefault((env.id, t), []).extend(rs)
                for k, v in params.items():
                    wparams.append(labelled(dict(key=k, value=serialization.serialize(v)[0]), s, env, pid))
        if hasdb:
            for t in want:
                got = table(path, t)
                same(len(got), len(want[t]), f"rows of {t}", "C27")
                for k, (g, w) in enumerate(zip(got, want[t])):
                    same(known(g, w), w, f"row {k} of {t}", "C27")
            got = table(path, "parameters")
            same(len(got), len(wparams), "values of parameters", "C27")
            for k, (g, w) in enumerate(zip(got, wparams)):
                same(known(g, w), w, f"row {k} of parameters", "C27")
            got = table(path, "configuration")
            same([(g["simulation_id"], g["name"], g["iterations"]) for g in got], [(s.id, s.name, str(s.iterations)) for s in wconf], "configurations", "C27")
            if want["agents"]:
                back = analysis.read_sql(path)
                for t, got in (("env", back.env), ("agents", back.agents)):
                    recs = got.reset_index().to_dict("records")
                    same(len(recs), len(want[t]), f"rows of {t} that are read", "C27")
                    for k, (g, w) in enumerate(zip(recs, want[t])):
                        same(known(g, w), w, f"row {k} of {t} that is read", "C27")
        if hascsv:
            for (i, t), ws in files.items():
                if t == "agents" and not ws:
                    continue
                got = csv_rows(os.path.join(out, name, f"{i}.{t}.csv"))
                same(len(got), len(ws), f"rows in the CSV file of {t}, iteration {i}", "C27")
                for k, (g, w) in enumerate(zip(got, ws)):
                    w2 = {c: ("" if v == "" else v) for c, v in w.items()}
                    same(as_text(g, w2), w2, f"row {k} in the CSV file of {t}, iteration {i}", "C27")
