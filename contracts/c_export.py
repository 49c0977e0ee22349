"""Contracts of the exported results (soil/exporters.py, soil/analysis.py)"""
from .base import *
import contextlib as _ctx
from soil import exporters as EXP, analysis as AN
from .c_serial import simstub

LOGS = [None]


def log_():
    return LOGS[0]


class Frame:
    """Some data frame: its rows are those of its source, and columns and levels are added to it"""

    def __init__(self, source, levels, cols=None):
        self.source, self.levels, self.cols = source, list(levels), dict(cols or {})

    @property
    def index(self):
        fr = self

        def rename(names, inplace=False):
            if not inplace:
                raise Unsupported("index.rename")
            fr.levels[:] = [names] if isinstance(names, str) else list(names)

        class Index:
            @property
            def names(self):
                return list(fr.levels)

            @names.setter
            def names(self, v):
                fr.levels[:] = list(v)

            @property
            def name(self):
                return fr.levels[0]

            @name.setter
            def name(self, v):
                fr.levels[:] = [v]
        ix = Index()
        ix.rename = rename
        return ix

    def copy(self):
        return Frame(self.source, self.levels, self.cols)

    def rename_axis(self, names):
        f = self.copy()
        f.levels = [names] if isinstance(names, str) else list(names)
        return f

    def __setitem__(self, k, v):
        self.cols[k] = v

    def insert(self, i, k, v):
        self.cols[k] = v

    def assign(self, **kw):
        f = self.copy()
        f.cols.update(kw)
        return f

    def set_index(self, keys, append=False, inplace=False, drop=True):
        f = self if inplace else self.copy()
        keys = [keys] if isinstance(keys, str) else list(keys)
        if any(k not in f.cols for k in keys):
            raise KeyError(keys)
        f.levels = (f.levels if append else []) + [(k, f.cols.pop(k)) for k in keys]
        return None if inplace else f

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"DataFrame.{k}")


@contract("C27", ["get_dc_dfs", "Exporter.get_dfs"], bounded="up to two tables (besides the model and the agents)",
          assumes=["pandas: assigning a column and setting the index keep the rows and the rest of columns", "mesa.DataCollector (an error if there are no agent reporters)"])
def frames(ctx):
    """
    ensures  one frame with the data of the model, one with those of the agents (if there are agent reporters) and one for each table, each of them with all
             of its rows and columns, and labelled with the simulation, the iteration and the rest of labels
    """
    need(EXP, "get_dc_dfs")
    has = choice("agent reporters", [True, False])
    tables = choice("tables", [(), ("t",), ("t", "u")])
    pid, sid, eid = opaque("params_id"), opaque("simulation id"), opaque("iteration id")

    def agents():
        if not has:
            raise UserWarning("No agent reporters have been defined")
        return Frame("agents", ["Step", "AgentID"])
    dc = Stub("datacollector", get_model_vars_dataframe=lambda: Frame("model", [None]), get_agent_vars_dataframe=agents,
              get_table_dataframe=lambda t: Frame(("table", t), [None]), tables={t: {} for t in tables}, agent_reporters={"x": 1} if has else {})
    x = make(EXP.Exporter, "exporter", simulation=simstub(id=sid), outdir="/o", dump=True, copy_to=None)
    env = Stub("env", datacollector=dc, id=eid)
    got, out = drive(x.get_dfs(env, params_id=pid))
    if not returned(out, "no errors"):
        return
    cover(f"{has} {len(tables)}")
    got = [g for g in got.segs]
    if any(isinstance(g, (Comp, Splice)) for g in got):
        raise NotApplicable("loops")
    want = [("env", "model", ["step"])] + ([("agents", "agents", ["step", "agent_id"])] if has else []) + [(t, ("table", t), [None]) for t in tables]
    prove(z3.BoolVal(sorted(g[0] for g in got) == sorted(w[0] for w in want)), "one frame of each kind", got)
    for name, source, levels in want:
        fs = [g[1] for g in got if g[0] == name]
        if len(fs) != 1:
            continue
        f, = fs
        if not isinstance(f, Frame):
            raise NotApplicable(f)
        prove(z3.BoolVal(f.source == source), "the rows of a frame are those that were collected", f"{name}: {f.source}")
        prove(z3.BoolVal(f.levels[:len(levels)] == levels), "the index is kept, with its names", f"{name}: {f.levels}")
        labels = dict(f.cols)
        rest = f.levels[len(levels):]
        prove(z3.BoolVal(all(isinstance(k, tuple) for k in rest)), "only labels are added to the index", rest)
        labels.update(k for k in rest if isinstance(k, tuple))
        prove(z3.BoolVal(sorted(labels) == ["iteration_id", "params_id", "simulation_id"]), "every frame has its labels, and nothing else", labels)
        for k, v in (("iteration_id", eid), ("params_id", pid), ("simulation_id", sid)):
            if k in labels:
                prove(equal(labels[k], v), f"the label {k} is right", labels[k])


class Par(Indexed):
    """A parameter (its name or its value)"""


@contract("C27", ["SQLite.iteration_end", "csv.iteration_end"],
          assumes=["get_dfs, output (their contracts)", "pandas: to_sql(if_exists='append') and to_csv write every row of the frame", "serialize (its contract)"])
def stored(ctx):
    """
    requires  any number of parameters and of frames
    ensures   every frame is written exactly once, to the table (or file) of its name; in the database, every parameter is stored once, with its value and labels
    """
    need(EXP, "pd", "serialize", "timer")
    which = choice("exporter", ["SQLite", "csv"])
    need(EXP, which)
    log = Log("written")
    LOGS[:] = [log]
    n, m = length("frames"), length("parameters")
    pid, sid, eid = opaque("params_id"), opaque("simulation id"), opaque("iteration id")
    x = make(getattr(EXP, which), "exporter", simulation=simstub(id=sid), outdir="/o/sim", dump=True, copy_to=None, engine="engine", dbpath="/o/sim/sim.sqlite")

    class DF:
        def __init__(self, data=None, columns=None, **k):
            if k:
                raise Unsupported(f"DataFrame({k})")
            self.data, self.columns = data, columns

        def to_sql(self, table, con=None, if_exists="fail", **k):
            log_().add("rows", table, self)

    class Table(Indexed):
        def to_sql(self, table, con=None, if_exists="fail", **k):
            log_().add("frame", table, self)

        def to_csv(self, f, *a, **k):
            log_().add("frame", f, self)

    asked = []

    def get_dfs(env, **k):
        asked.append((env, k))
        yield from rt.yield_all(SymSeq(n, lambda i: (Indexed("table name", i), Table("table", i)), "frames"))

    def output(f, mode="w", **k):
        log_().add("open", mode)

        class CM:
            def __enter__(self):
                return "file"

            def __exit__(self, *a):
                log_().add("close")
        return CM()
    x.__dict__["get_dfs"] = get_dfs
    x.__dict__["output"] = output

    @_ctx.contextmanager
    def timer(*a, **k):
        yield 0
    params = Stub("parameters", items=lambda: SymSeq(m, lambda i: (Par("key", i), Par("value", i)), "parameters"))
    env = Stub("env", id=eid)

    def serialize(v, **k):
        if not isinstance(v, Par):
            raise Unsupported(f"serialize({v!r})")
        return (Par("serialized " + v.kind, *v.ix), "type")
    with patched((EXP, "pd", Stub("pandas", DataFrame=DF)), (EXP, "serialize", serialize), (EXP, "timer", timer)):
        out = call(x.iteration_end, env, params, pid)
    if not returned(out, "no errors"):
        return
    cover(which)
    for e, k in asked:
        prove(z3.BoolVal(e is env and set(k) == {"params_id"}), "the data are those of the iteration, with the labels", k)
        if "params_id" in k:
            prove(equal(k["params_id"], pid), "the identifier of the parameters is right")
    prove(z3.BoolVal(len(asked) == 1), "the data are obtained once")
    segs = list(log.segs)
    if which == "csv":
        prove_seq(segs, [comp(0, n, lambda j: [(z3.BoolVal(True), [("open", "a"), ("frame", "file", Table("table", j)), ("close",)])])], "each frame is written once, to a file of its own")
        return
    rows = [s for s in segs if not isinstance(s, Comp) and s[0] == "rows"]
    rest = [s for s in segs if isinstance(s, Comp) or s[0] != "rows"]
    prove_seq(rest, [comp(0, n, lambda j: [(z3.BoolVal(True), [("frame", Indexed("table name", j), Table("table", j))])])], "each frame is written once, to its table")
    prove(z3.BoolVal(len(rows) == 1 and rows[0][1] == "parameters"), "the parameters are stored once", rows)
    if len(rows) != 1:
        return
    df = rows[0][2]
    cols = ["simulation_id", "params_id", "iteration_id", "key", "value"]
    if df.columns is not None:
        prove(z3.BoolVal(list(df.columns) == cols or sorted(df.columns) == sorted(cols)), "the columns of the parameters", df.columns)
    data = df.data
    if not isinstance(data, VList):
        raise NotApplicable(f"rows {data!r}")
    prove_seq(data, [comp(0, m, lambda j: [(z3.BoolVal(True), [dict(simulation_id=sid, params_id=pid, iteration_id=eid, key=Par("key", j), value=Par("serialized value", j))])])],
              "every parameter is stored once, with its value and labels")


@contract("C27", ["read_sql"], assumes=["pandas.read_sql_query gives all the rows of the query, with their values; set_index and reset_index keep the rows and the values", "sqlalchemy"])
def read_back(ctx):
    """
    ensures  the data of the model and of the agents are all the rows in their tables, indexed by simulation, parameters, iteration, step (and agent)
    """
    need(AN, "pd", "sqlalchemy", "os")
    how = choice("given", ["path", "name"])
    opened = []

    class Res:
        def __init__(self, table, levels, exact):
            self.table, self.levels, self.exact = table, levels, exact

        def reset_index(self):
            return Res(self.table, [], self.exact)

        def set_index(self, keys):
            return Res(self.table, list(keys), self.exact)

        def pivot(self, columns=None, values=None):
            return self

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Unsupported(f"DataFrame.{k}")

    def levels(k):
        return [k] if isinstance(k, str) else list(k or [])

    def query(q, con=None, index_col=None, **kw):
        words = str(q).replace('"', " ").replace(";", " ").split()
        if [w.lower() for w in words[:3]] != ["select", "*", "from"] or len(words) != 4:
            raise Unsupported(f"query {q}")
        return Res(words[3], levels(index_col), True)

    def read_table(t, con=None, index_col=None, **kw):
        return Res(t, levels(index_col), False)

    class Conn:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def engine(url, **k):
        opened.append(url)
        return Stub("engine", connect=lambda: Conn())
    pds = Stub("pandas", read_sql_query=query, read_sql_table=read_table, read_sql=lambda q, **k: query(q, **k) if " " in str(q) else read_table(q, **k))
    with patched((AN, "pd", pds), (AN, "sqlalchemy", Stub("sqlalchemy", create_engine=engine, text=lambda q: q))):
        out = call(AN.read_sql, **({"fpath": "/some/file.sqlite"} if how == "path" else {"name": "sim"}))
    if not returned(out, "no errors"):
        return
    cover(how)
    r = out.value
    import os
    path = "/some/file.sqlite" if how == "path" else os.path.abspath(os.path.join("soil_output", "sim", "sim.sqlite"))
    prove(z3.BoolVal(opened == [f"sqlite:///{path}"]), "the database is the one that was asked for", opened)
    for what, got, keys in (("env", r.env, ["simulation_id", "params_id", "iteration_id", "step"]), ("agents", r.agents, ["simulation_id", "params_id", "iteration_id", "step", "agent_id"])):
        if not isinstance(got, Res):
            raise NotApplicable(got)
        prove(z3.BoolVal(got.table == what), "the rows are those of their table", got.table)
        prove(z3.BoolVal(got.exact), "values are not converted", what)
        prove(z3.BoolVal(got.levels == keys), "the rows are indexed by their labels", got.levels)
    prove(z3.BoolVal(r.parameters.table == "parameters" and r.config.table == "configuration"), "the rows are those of their table")
