"""Contracts of files, serialization and source files (soil/utils.py, soil/exporters.py, soil/serialization.py)"""
from .base import *
import contextlib as _ctx
import os as _os
from soil import utils as U, serialization as SER, exporters as EXP

I = z3.IntSort()
B = z3.BoolSort()
FStr = rt.FStr


# ------------------------------------------------------------------ files


class FS:
    """Any file system: what is asked for is any, and what is done is logged"""

    def __init__(self, ctx, log, given=None):
        self.ctx, self.log, self.given = ctx, log, given
        self.names = {}
        self.done = []

    def exists(self, p):
        shape, args = [], []

        def walk(x):
            if type(x) is E.Poison:
                x._bad()
            if isinstance(x, str):
                shape.append(x)
            elif isinstance(x, FStr):
                for y in x.parts:
                    walk(y)
            elif isinstance(x, SymNum):
                shape.append("<n>")
                args.append(x.v)
            elif isinstance(x, Opaque):
                shape.append(f"<{x.e}>")
            else:
                raise Unsupported(f"path {x!r}")
        walk(p)
        name = "exists " + "".join(shape)
        f = z3.Function(name, *[I] * len(args), B) if args else None
        return SymBool(f(*args) if args else z3.Bool(name))

    def os(self, **extra):
        fs = self

        def join(a, *bs):
            parts = [a]
            for b in bs:
                parts += ["/", b]
            return FStr(parts)

        def dirname(p):
            if fs.given is not None and same(p, fs.given):
                return fs.dir
            if isinstance(p, FStr) and "/" in p.parts:
                k = len(p.parts) - 1 - p.parts[::-1].index("/")
                return FStr(p.parts[:k])
            raise Unsupported("dirname")

        def basename(p):
            if fs.given is not None and same(p, fs.given):
                return fs.base
            raise Unsupported("basename")

        path = Stub("os.path", join=join, exists=self.exists, isfile=self.exists, lexists=self.exists, isdir=self.exists, dirname=dirname, basename=basename,
                    getctime=lambda p: Opaque(z3.Const("ctime", Val), "time"), getmtime=lambda p: Opaque(z3.Const("mtime", Val), "time"), **extra)

        def makedirs(p, *a, **k):
            fs.log.add("mkdir", p)

        def remove(p, *a, **k):
            fs.log.add("remove", p)

        return Stub("os", path=path, makedirs=makedirs, remove=remove, unlink=remove, sep="/", getcwd=lambda: "/cwd", environ={})


def same(a, b):
    return a is b or (isinstance(a, Opaque) and isinstance(b, Opaque) and a.e.eq(b.e))


def text(p):
    return "".join(x if isinstance(x, str) else f"<{x.e if isinstance(x, Opaque) else x}>" for x in (p.parts if isinstance(p, FStr) else (p,)))


@contract("C21", ["try_backup"], assumes=["os.path, shutil (standard library)", "the clock has any value"])
def backup(ctx):
    """
    ensures  if the file exists, it is copied (or moved, if asked to) once, to a path in the folder "backup" that did not exist before, so that every
             earlier backup is kept; nothing else is removed or written; if it does not exist, nothing is done
    """
    need(U, "os", "copyfile", "move")
    log = Log("files")
    fs = FS(ctx, log)
    path = fs.given = opaque("path")
    fs.dir, fs.base = opaque("folder"), opaque("name")
    remove = choice("remove", [None, False, True])

    def copy(a, b, *x, **k):
        log.add("copy", a, b)
        prove(equal(a, path), "the file itself is copied")
        prove(z3.Not(fs.exists(b).e), "no earlier backup is overwritten")

    def move(a, b, *x, **k):
        log.add("move", a, b)
        prove(equal(a, path), "the file itself is moved")
        prove(z3.Not(fs.exists(b).e), "no earlier backup is overwritten")

    stamp = lambda *a: Opaque(z3.Const("stamp", Val), "stamp")
    pats = [(U, k, stamp) for k in ("strftime", "localtime", "gmtime") if hasattr(U, k)]
    with patched((U, "os", fs.os()), (U, "copyfile", copy), (U, "move", move), *pats):
        out = call(U.try_backup, path, **({} if remove is None else dict(remove=remove)))
    if not returned(out, "no errors"):
        return
    if not log.plain():
        raise NotApplicable("files written in a loop")
    evs = list(log.segs)
    there = fs.exists(path).e
    work = [e for e in evs if e[0] != "mkdir"]
    for e in evs:
        if e[0] == "mkdir":
            prove(z3.BoolVal(isinstance(e[1], FStr) and same(e[1].parts[0], fs.dir) or same(e[1], fs.dir)), "folders are created only where the file is")
    if not work:
        cover("nothing to do")
        prove(z3.Not(there), "an existing file is always backed up")
        prove(z3.BoolVal(not evs), "nothing is done for a file that does not exist")
        return
    prove(there, "nothing is done for a file that does not exist")
    prove(z3.BoolVal(len(work) == 1 and work[0][0] == ("move" if remove else "copy")), "one copy is made (or else, the file is moved)", work)
    cover("moved" if remove else "copied")
    dst = work[0][2]
    prove(z3.BoolVal(isinstance(dst, FStr) and same(dst.parts[0], fs.dir) and isinstance(dst.parts[1], str) and dst.parts[1].startswith("/backup/") and any(same(x, fs.base) for x in dst.parts)),
          "the copy is in the folder of backups", dst)
    prove(equal(out.value, dst), "the path of the copy is returned")


@contract("C21", ["safe_open"], assumes=["try_backup (its contract)", "os, open (standard library)"])
def opening(ctx):
    """ensures  exactly that file is opened, with that mode; with backups, it is first backed up if it is going to be truncated; nothing is removed"""
    need(U, "try_backup", "os")
    log = Log("files")
    fs = FS(ctx, log)
    path = fs.given = opaque("path")
    fs.dir, fs.base = opaque("folder"), opaque("name")
    mode = choice("mode", ["w", "wb", "a", "r", "wt", "ab", "w+"])
    bk = choice("backup", [None, False, True])
    f = Stub("file")

    def back(p, remove=False, **k):
        log.add("backup", p, remove)

    def open_(p, mode="r", **k):
        log.add("open", p, mode)
        return f

    with patched((U, "os", fs.os()), (U, "try_backup", back), (U, "open", open_)):
        out = call(U.safe_open, path, mode=mode, **({} if bk is None else dict(backup=bk)))
    if not returned(out, "no errors"):
        return
    cover(f"{mode} {bk}")
    evs = [e for e in log.segs if e[0] != "mkdir"]
    for e in log.segs:
        if e[0] == "mkdir":
            prove(equal(e[1], fs.dir), "only the folder of the file is created")
    prove(z3.BoolVal(out.value is f), "the file is returned")
    opens = [e for e in evs if e[0] == "open"]
    prove(z3.BoolVal(len(opens) == 1 and opens[0][1] is path and opens[0][2] == mode), "exactly that file is opened, with that mode")
    baks = [e for e in evs if e[0] == "backup"]
    prove(z3.BoolVal(all(e[1] is path for e in baks)), "no other file is backed up")
    if bk is not False and "w" in mode:
        prove(z3.BoolVal([e[0] for e in evs] == ["backup", "open"]), "the file is backed up before it is truncated")
    if "a" in mode or mode == "r":
        prove(z3.BoolVal(not any(e[2] for e in baks)), "a file that is not truncated is not removed")
    prove(z3.BoolVal(all(e[0] in ("open", "backup") for e in evs)), "nothing else is done", evs)


@contract("C21", ["open_or_reuse"], assumes=["contextlib.contextmanager (standard library)", "safe_open (its contract)"])
def reuse(ctx):
    """ensures  a path is opened with the given arguments, and closed afterwards; anything else is used as is, and nothing is opened"""
    need(U, "safe_open")
    kind = choice("what", ["path", "file"])
    events = []

    class F:
        def __enter__(self):
            events.append("enter")
            return self

        def __exit__(self, *a):
            events.append("exit")

    f = F()
    buf = Stub("buffer", absent=("__fspath__",))
    args = []

    def safe_open(p, *a, **k):
        args.append((p, a, k))
        if p is buf:
            raise TypeError("not a path")
        return f
    what = opaque("path") if kind == "path" else buf
    mode = opaque("mode")
    with patched((U, "safe_open", safe_open)):
        cm = U.open_or_reuse(what, mode=mode, backup=True)
        out = call(cm.__enter__)
        if not returned(out, "no errors"):
            return
        got = out.value
        mid = list(events)
        out = call(cm.__exit__, None, None, None)
        if not returned(out, "no errors"):
            return
    cover(kind)
    prove(z3.BoolVal(len(args) <= 1), "opened once")
    if kind == "path":
        prove(z3.BoolVal(got is f and mid == ["enter"] and events == ["enter", "exit"]), "the file is open only while in use")
        prove(z3.BoolVal(len(args) == 1 and args[0][0] is what and args[0][2].get("mode") is mode and args[0][2].get("backup") is True), "opened with the given arguments")
    else:
        prove(z3.BoolVal(got is buf and events == []), "anything else is used as is")


def simstub(**kw):
    d = dict(name="sim", group=None, id="sim_1", backup=False, overwrite=False, dump=True, to_yaml=lambda: "yaml", to_dict=lambda: {"name": "sim"})
    d.update(kw)
    return Stub("simulation", **d)


@contract("C21", ["Exporter.__init__", "Exporter.output"], assumes=["open_or_reuse (its contract)", "os.path (standard library)"])
def output(ctx):
    """
    ensures  the folder of an exporter is that of the simulation (and its group) in the given one; without dumping, nothing is opened; otherwise, the
             file is in that folder, and is opened with the mode given and backups as configured
    """
    need(EXP, "open_or_reuse", "DryRunner")
    log = Log("files")
    group = choice("group", [None, "g"])
    dump = choice("dump", [True, False])
    bk = boolean("backup")
    sim = simstub(group=group, backup=bk)
    x = make(EXP.Exporter, "exporter")
    out = call(EXP.Exporter.__init__, x, sim, outdir="/o", dump=dump)
    if not returned(out, "no errors"):
        return
    prove(z3.BoolVal(_os.path.normpath(x.outdir) == _os.path.normpath(_os.path.join("/o", group or "", "sim"))), "the folder of the simulation")
    prove(z3.BoolVal(bool(x.dump) == dump), "dump only if asked to")
    got = []

    def open_or_reuse(f, *a, **k):
        got.append((f, a, k))
        return "file"
    mode = choice("mode", ["w", "a", "wb", None])
    with patched((EXP, "open_or_reuse", open_or_reuse), (EXP, "open", None)):
        out = call(x.output, "name.txt", **(dict(mode=mode) if mode else {}))
    if not returned(out, "no errors"):
        return
    if len(got) != 1:
        raise NotApplicable("opened in another way")
    cover(f"dump {dump}")
    f, a, k = got[0]
    m = k.get("mode", a[0] if a else None)
    if dump:
        prove(z3.BoolVal(isinstance(f, str) and _os.path.normpath(f) == _os.path.normpath(_os.path.join(x.outdir, "name.txt"))), "the file is in the output folder", f)
        prove(z3.BoolVal(m == (mode or "w")), "the mode is that given")
        prove(equal(k.get("backup", True), bk), "backups as configured")
    else:
        prove(z3.BoolVal(isinstance(f, EXP.DryRunner)), "nothing is written without dumping")


@contract("C21", ["SQLite.sim_start", "SQLite.iteration_end", "YAML.sim_start", "csv.iteration_end", "gexf.iteration_end"],
          assumes=["pandas.DataFrame.to_sql: adds rows to that table if asked to append (pandas)", "sqlalchemy.create_engine: opens that file (sqlalchemy)",
                   "try_backup, Exporter.output, serialize (their contracts)", "os (standard library)"])
def exporters(ctx):
    """
    ensures  without dumping, nothing is written; otherwise, the only file that is removed is the database, and only if overwriting was requested (or it was
             backed up by moving it); with backups, it is backed up before anything else is done with it; rows are always appended; CSV files are
             never truncated; everything is in the output folder
    """
    need(EXP, "os", "pd", "try_backup", "serialize", "timer")
    import sqlalchemy as SQ
    log = Log("files")
    which = choice("exporter", ["SQLite.sim_start", "SQLite.iteration_end", "YAML.sim_start", "csv.iteration_end", "gexf.iteration_end"])
    dump = choice("dump", [True, False])
    bk, ov, there = (boolean(k) for k in ("backup", "overwrite", "the database exists"))
    sim = simstub(backup=bk, overwrite=ov)
    cls, ev = which.split(".")
    n = length("tables")
    x = make(getattr(EXP, cls), "exporter", simulation=sim, outdir="/o/sim", dump=dump, copy_to=None, engine="engine", dbpath="/o/sim/sim.sqlite")
    gone = []

    class DF:
        def __init__(self, *a, **k):
            pass

        def to_sql(self, table, con=None, if_exists="fail", **k):
            log.add("to_sql", con, if_exists)

        def to_csv(self, f, *a, **k):
            log.add("to_csv", f)

    class Table(Indexed):
        def to_sql(self, table, con=None, if_exists="fail", **k):
            log_().add("to_sql", con, if_exists)

        def to_csv(self, f, *a, **k):
            log_().add("to_csv", f if isinstance(f, str) else None)

    LOGS[:] = [log]
    log_ = lambda: LOGS[0]

    def get_dfs(env, **k):
        yield from rt.yield_all(SymSeq(n, lambda i: (Indexed("table name", i), Table("table", i)), "tables"))

    def output(f, mode="w", **k):
        log.add("output", mode)

        class CM:
            def __enter__(self):
                return Indexed("file", write=lambda t: None)

            def __exit__(self, *a):
                pass
        return CM()

    x.__dict__["get_dfs"] = get_dfs
    x.__dict__["output"] = output

    def exists(p):
        if p == "/o/sim/sim.sqlite":
            if gone:
                return False
            return there
        raise Unsupported("exists")

    def remove(p):
        log.add("remove", p)

    def back(p, remove=False):
        if remove:
            gone.append(p)
        log.add("backup", p, bool(remove))

    def engine(url, **k):
        log.add("engine", url)
        return "engine"

    os_ = Stub("os", path=Stub("os.path", join=_os.path.join, exists=exists, isfile=exists), makedirs=lambda p, **k: log.add("mkdir", p), remove=remove, unlink=remove)

    @_ctx.contextmanager
    def timer(*a, **k):
        yield 0
    nxs = Stub("networkx", write_gexf=lambda g, f: log.add("write_gexf"))
    env = Stub("env", id="3", G=Stub("G"))
    with patched((EXP, "os", os_), (EXP, "pd", Stub("pandas", DataFrame=DF)), (EXP, "try_backup", back), (EXP, "serialize", lambda v, **k: (v, "str")), (EXP, "timer", timer),
                 (SQ, "create_engine", engine), (EXP, "nx", nxs), (EXP, "open", None)):
        out = call(getattr(x, ev), *(() if ev == "sim_start" else (env, {"a": 1}, "id")))
    if not returned(out, "no errors"):
        return
    cover(f"{which} {dump}")
    evs = list(log.segs)
    if not dump:
        if cls != "csv":
            prove(z3.BoolVal(not evs), "nothing is done without dumping", evs)
        else:
            prove(z3.BoolVal(True), "files go through output(), which writes nothing")
        return
    flat = [e for e in evs if not isinstance(e, Comp)]
    for s in evs:
        if isinstance(s, Comp):
            for g, items in s.parts(z3.Int("j")):
                flat += items
    for e in flat:
        if isinstance(e, Comp):
            raise NotApplicable("nested loops")
        if e[0] == "to_sql":
            prove(z3.BoolVal(e[1] == "engine" and e[2] == "append"), "rows are always appended", e)
        elif e[0] == "output":
            if cls == "csv":
                prove(z3.BoolVal("w" not in e[1] and "+" not in e[1]), "CSV files are never truncated", e)
        elif e[0] == "remove":
            prove(ov.e, "the database is removed only if overwriting was requested")
            prove(z3.BoolVal(e[1] == "/o/sim/sim.sqlite"), "no other file is removed")
        elif e[0] == "backup":
            prove(z3.BoolVal(e[1] == "/o/sim/sim.sqlite"), "no other file is moved")
        elif e[0] == "mkdir":
            prove(z3.BoolVal(_os.path.normpath(e[1]) == "/o/sim"), "only the output folder is created")
        elif e[0] == "engine":
            prove(z3.BoolVal(e[1] == "sqlite:////o/sim/sim.sqlite"), "the database is in the output folder")
        elif e[0] in ("to_csv", "write_gexf"):
            pass
        else:
            raise NotApplicable(e)
    names = [e[0] for e in flat]
    if which == "SQLite.sim_start":
        rows = [e for e in flat if e[0] == "to_sql"]
        prove(z3.BoolVal(len(rows) == 1), "the configuration is stored once")
        if "backup" in names:
            prove(z3.BoolVal(names.index("backup") < min(names.index(k) for k in ("remove", "engine", "to_sql") if k in names)), "the database is backed up before anything else")
        else:
            prove(z3.Not(bk.e), "the database is backed up")
    if cls == "csv":
        prove(z3.BoolVal(names.count("output") == 1 and names.count("to_csv") == 1) if not L.bounded() else z3.And(n == names.count("output"), n == names.count("to_csv")),
              "a file for each table")


LOGS = [None]


# ------------------------------------------------------------------ source files


@contract("C23", ["with_source"], assumes=["contextlib.contextmanager (standard library)", "_add_source_file, _remove_source_file (their contracts)",
                                           "while a file is in use, its uses by others begin and end in any order, each of them according to this same contract"])
def source_use(ctx):
    """
    requires  every file in use is registered, with its number of uses
    ensures   when it is entered, the file is registered if it was not in use, and its uses are one more; when it is left, in any way, they are one less
              and it is removed if there are none left; if it cannot be loaded, nothing changes; the rest of files are not affected
    """
    need(SER, "_SOURCE_USES", "_add_source_file", "_remove_source_file", "with_source")
    log = []
    uses = {}
    F, G, H = "/x/f.py", "/x/g.py", "/x/h.py"
    gn = integer("uses of another file")
    assume(gn.v >= 1)
    uses[G] = gn
    k = None
    if choice("before", ["unused", "in use"]) == "in use":
        k = integer("uses")
        assume(k.v >= 1)
        uses[F] = k
    bad = choice("load", ["ok", "error"]) if k is None else "ok"

    def add(f):
        log.append(("add", f))
        if bad == "error":
            raise External("cannot load")

    def remove(f):
        log.append(("remove", f))

    how = choice("argument", ["absolute", "relative"])
    cwd = _os.getcwd()
    arg = F if how == "absolute" else _os.path.relpath(F, cwd)
    end = choice("end", ["normal", "error"])
    with patched((SER, "_SOURCE_USES", uses), (SER, "_add_source_file", add), (SER, "_remove_source_file", remove)):
        cm = SER.with_source(arg)
        out = call(cm.__enter__)
        if bad == "error":
            cover("error")
            prove(z3.BoolVal(isinstance(out.exc, External)), "the error is reported")
            prove(z3.BoolVal(SER._SOURCE_USES is uses and set(uses) == {G}), "nothing changes if the file cannot be loaded")
            prove(equal(uses.get(G), gn), "the rest of files are not affected")
            prove(z3.BoolVal(log == [("add", F)]), "nothing changes if the file cannot be loaded")
            return
        if not returned(out, "no errors"):
            return
        prove(z3.BoolVal(log == ([("add", F)] if k is None else [])), "the file is loaded if it was not in use")
        if SER._SOURCE_USES is not uses or set(uses) != {F, G}:
            fail("the uses of the file are counted", uses)
            return
        prove(equal(uses[F], (k + 1) if k is not None else 1), "the uses of the file are one more")
        prove(equal(uses[G], gn), "the rest of files are not affected")
        # Anything may happen with the rest of uses
        k2 = integer("uses at the end")
        assume(k2.v >= 1)
        uses[F] = k2
        g2 = integer("uses of another file at the end")
        assume(g2.v >= 1)
        uses.clear()
        uses.update({F: k2, H: g2})
        log.clear()
        if end == "normal":
            out = call(cm.__exit__, None, None, None)
            if not returned(out, "no errors"):
                return
        else:
            ex = External("error")
            out = call(cm.__exit__, External, ex, None)
            prove(z3.BoolVal(out.exc is ex or (out.exc is None and not out.value)), "errors are not hidden")
    cover(f"{end}")
    if F in uses:
        cover("still in use")
        prove(equal(uses[F], k2 - 1), "the uses of the file are one less")
        prove(k2.v > 1, "the file is removed when its last use ends")
        prove(z3.BoolVal(log == []), "the file is kept while it is in use")
    else:
        cover("removed")
        prove(k2.v == 1, "the file is kept while it is in use")
        prove(z3.BoolVal(log == [("remove", F)]), "the file is removed when its last use ends", log)
    prove(z3.BoolVal(set(uses) - {F} == {H}), "the rest of files are not affected")
    prove(equal(uses[H], g2), "the rest of files are not affected")


class Reg:
    """Registry: some known entries, and any number of other ones"""
    _vc_symbolic = True

    def __init__(self, label, entries, log, n=None):
        self.label, self.entries, self.log, self.n = label, dict(entries), log, n

    def __contains__(self, k):
        if isinstance(k, str):
            return k in self.entries
        if isinstance(k, FStr) and len(k.parts) == 2 and isinstance(k.parts[1], SymNum):
            return E.CTX.branch(z3.Function(f"{self.label} has {k.parts[0]}", I, B)(k.parts[1].v))
        for x in self.entries:
            if x is k:
                return True
        raise Unsupported("unknown key")

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.entries:
            return self.entries[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self.entries.get(k, default)

    def __setitem__(self, k, v):
        self.log.add("set " + self.label, k, v)
        if isinstance(k, str):
            self.entries[k] = v

    def pop(self, k, *default):
        if isinstance(k, str) and k in self.entries:
            self.log.add("pop " + self.label, k)
            return self.entries.pop(k)
        if default:
            return default[0]
        raise KeyError(k)

    def __delitem__(self, k):
        self.pop(k)

    def vc_len(self):
        return SymNum(self.n + len(self.entries))

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"{self.label}.{k}")


@contract("C23", ["_add_source_file", "_remove_source_file"], assumes=["importlib: executes the file in a new module (standard library)", "names of modules and files stand for any others"])
def registry(ctx):
    """
    requires  any registry of files and modules
    ensures   adding a file executes it in a new module, whose name was not that of any other one, and registers both; if there is an error, nothing
              changes; removing it removes both; the rest of files and modules are not affected; removing one that is not there is an error
    """
    need(SER, "MODULE_FILES", "KNOWN_MODULES", "importlib", "_add_source_file", "_remove_source_file")
    log = Log("registry")
    F = "/x/f.py"
    what = choice("what", ["add", "remove"])
    there = choice("registered", [False, True])
    n = length("other files")
    files = Reg("files", {F: "its_module"} if there else {}, log, n)
    mods = Reg("modules", {"soil": None, **({"its_module": "m"} if there else {})}, log, length("other modules"))
    bad = choice("load", ["ok", "error"]) if what == "add" else "ok"
    execs = []

    class SourceFileLoader:
        def __init__(self, name, path):
            self.name, self.path = name, path

        def exec_module(self, m):
            execs.append((self, m))
            if bad == "error":
                raise External("error")

    imp = Stub("importlib", machinery=Stub("machinery", SourceFileLoader=SourceFileLoader),
               util=Stub("util", spec_from_loader=lambda name, loader: Stub("spec", name=name, loader=loader), module_from_spec=lambda spec: Stub("module", spec=spec),
                         spec_from_file_location=lambda name, path: Stub("spec", name=name, loader=SourceFileLoader(name, path))))
    cwd = _os.getcwd()
    arg = choice("path", [F, _os.path.relpath(F, cwd)])
    with patched((SER, "MODULE_FILES", files), (SER, "KNOWN_MODULES", mods), (SER, "importlib", imp), (SER, "logger", Logger())):
        out = call(SER._add_source_file if what == "add" else SER._remove_source_file, arg)
    if not log.plain():
        raise NotApplicable("changes in a loop")
    evs = list(log.segs)
    if what == "remove":
        if not there:
            cover("remove unknown")
            prove(z3.BoolVal(isinstance(out.exc, ValueError)), "removing an unknown file is an error")
            prove(z3.BoolVal(not evs), "nothing changes")
            return
        if not returned(out, "no errors"):
            return
        cover("removed")
        prove(z3.BoolVal(sorted(evs) == [("pop files", F), ("pop modules", "its_module")]), "the file and its module are removed, and nothing else", evs)
        return
    removed = [("pop files", F), ("pop modules", "its_module")]
    if bad == "error":
        if there:
            return
        cover("error")
        prove(z3.BoolVal(isinstance(out.exc, External)), "the error is reported")
        prove(z3.BoolVal(not evs), "nothing changes if there is an error", evs)
        return
    if not returned(out, "no errors"):
        return
    cover(f"added {there}")
    if there:
        prove(z3.BoolVal(sorted(evs[:2]) == removed), "the previous version is removed")
        evs = evs[2:]
    d = {e[0]: e for e in evs}
    if len(evs) != 2 or set(d) != {"set files", "set modules"} or len(execs) != 1:
        fail("the file and its module are registered, and nothing else", evs)
        return
    _, f, name = d["set files"]
    _, name2, module = d["set modules"]
    ld, m = execs[0]
    prove(z3.BoolVal(f == F and ld.path == F), "the file is executed and registered")
    prove(equal(name, name2), "the file and its module have the same name")
    prove(equal(ld.name, name), "the file and its module have the same name")
    prove(z3.BoolVal(m is module), "the module is the one in which the file was executed")
    if isinstance(name, FStr) and len(name.parts) == 2:
        prove(z3.Not(z3.Function(f"modules has {name.parts[0]}", I, B)(num(name.parts[1]).v)), "no other module had that name")
    else:
        raise NotApplicable("name of the module")


# ------------------------------------------------------------------ names of classes


class Mod(Indexed):
    """The i-th known module (its name)"""
    truthy = True



class ModObj:
    _vc_symbolic = True

    def __init__(self, w, i):
        self.w, self.i = w, i

    def __getattr__(self, k):
        if k != "Some":
            raise AttributeError(k)
        if E.CTX.branch(self.w.has(self.i)):
            if E.CTX.branch(self.w.isit(self.i)):
                return self.w.value
            return self.w.other
        raise AttributeError(k)

    def vc_subst(self, a, b):
        return ModObj(self.w, z3.substitute(self.i, (a, b)))

    def vc_term(self):
        return self.i


class W:
    pass


@contract("C22 C23", ["name", "deserializer", "deserialize"],
          assumes=["the module of the class can be imported, and has it under its name", "get_module: the module with that name", "names of classes are not dotted",
                   "the names of the class and module stand for any others"])
def class_names(ctx):
    """
    ensures  whatever the known modules and what they contain, the name of a class leads back to that class; a bare name leads to the class with that name in
             the first of the known modules that has it, and is an error if there is none
    """
    need(SER, "get_module", "name", "deserializer", "deserialize")
    w = W()
    w.has, w.isit = ctx.func("has the name", I, B), ctx.func("is the class", I, B)
    n = length("known modules")
    w.value = type("Some", (), {"__module__": "pkg.mod"})
    w.other = type("Some", (), {"__module__": "pkg.mod2"})
    known = SymSeq(n, lambda i: Mod("module", i), "known modules")
    home = Stub("module", absent=("pkg.mod.Some",), Some=w.value)

    def get_module(m):
        if isinstance(m, Mod):
            return ModObj(w, m.ix[0])
        if m == "pkg.mod":
            return home
        raise ImportError(m)

    with patched((SER, "get_module", get_module)):
        what = choice("what", ["round trip", "bare name"])
        if what == "round trip":
            out = call(SER.name, w.value, known_modules=known)
            if not returned(out, "no errors"):
                return
            nm = out.value
            prove(z3.BoolVal(isinstance(nm, str)), "the name is a text")
            out = call(SER.deserialize, nm, known_modules=known) if choice("function", ["deserialize", "deserializer"]) == "deserialize" else call(SER.deserializer, nm, known_modules=known)
            if not returned(out, "the name of the class can be used"):
                return
            cover("bare" if nm == "Some" else "full")
            prove(z3.BoolVal(out.value is w.value), "the name of a class leads back to it", nm)
            return
        out = call(SER.deserializer, "Some", known_modules=known)
        k = ctx.fresh("k", I)
        j = z3.Int("j")
        if out.ok:
            cover("found")
            got = z3.BoolVal(out.value is w.value)
            prove(z3.Implies(z3.And(0 <= k, k < n, w.has(k), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(w.has(j))))), w.isit(k) == got), "the first of the known modules that has it")
            prove(z3.Exists([j], z3.And(0 <= j, j < n, w.has(j))), "a class of a known module")
        else:
            cover("not found")
            if isinstance(out.exc, (NameError, TypeError, AttributeError)):
                raise NotApplicable(repr(out.exc))
            prove(z3.BoolVal(isinstance(out.exc, ValueError)), "an unknown name is an error")
            prove(z3.Implies(z3.And(0 <= k, k < n), z3.Not(w.has(k))), "an unknown name is an error")


# ------------------------------------------------------------------ values and configurations

ATOM, LIST, DICT, CLASS, OTHER = range(5)


class Value(Indexed):
    """The i-th value of a collection, of any type"""

    def vc_isinstance(self, cls):
        k = self.kind_(self.ix[0])
        c = E.CTX
        if cls in (str, bool, int, float):
            # (a bool is also an int)
            which = self.atom(self.ix[0])
            ok = {str: which == 0, bool: which == 1, int: z3.Or(which == 1, which == 2), float: which == 3}[cls]
            return c.branch(z3.And(k == ATOM, ok))
        if cls in (list, dict, type):
            return c.branch(k == {list: LIST, dict: DICT, type: CLASS}[cls])
        if cls is object:
            return True
        if cls in (tuple, set):
            raise Unsupported(f"isinstance of {cls}")
        return c.branch(z3.And(k == OTHER, c.func(f"is a {cls}", I, B)(self.ix[0])))


class Copy(L.Tracked):
    """Copy of a dictionary, and the changes made to it"""

    def __init__(self, d, label="copy"):
        self.d = d
        self.sets = VList((), "changes of the " + label)
        self.vc_register(label)

    def vc_state(self):
        return ()

    def __setitem__(self, k, v):
        self.sets.append((k, v))

    def items(self):
        if self.sets.segs:
            raise Unsupported("items of a dictionary that was changed")
        return self.d.items()

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        if not isinstance(k, Indexed) or k.kind != "key" or self.sets.segs:
            raise Unsupported("item of a dictionary")
        return self.d.value(k.ix[0])

    def vc_isinstance(self, cls):
        return cls in (dict, object)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"dictionary.{k}")


class AnyDict:
    """Any dictionary (the one given by the user: it cannot be changed)"""
    _vc_symbolic = True

    def __init__(self, n, value):
        self.n, self.value = n, value

    def items(self):
        return SymSeq(self.n, lambda i: (Indexed("key", i), self.value(i)), "items")

    def keys(self):
        return SymSeq(self.n, lambda i: Indexed("key", i), "keys")

    def vc_iter(self):
        return self.keys()

    def values(self):
        return SymSeq(self.n, self.value, "values")

    def vc_dict(self):
        return Copy(self)

    def copy(self):
        return Copy(self)

    def vc_isinstance(self, cls):
        return cls in (dict, object)

    def vc_len(self):
        return SymNum(self.n)

    def __setitem__(self, k, v):
        fail("the input is not changed", k)

    __delitem__ = pop = update = clear = setdefault = popitem = lambda self, *a, **k: fail("the input is not changed")

    def __getitem__(self, k):
        if isinstance(k, Indexed) and k.kind == "key":
            return self.value(k.ix[0])
        raise Unsupported("item of a dictionary")

    def __bool__(self):
        return E.CTX.branch(self.n > 0)

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("vc_"):
            raise AttributeError(k)
        raise Unsupported(f"dictionary.{k}")


class AnyList(SymSeq):
    """Any list given by the user: it cannot be changed"""

    def __setitem__(self, k, v):
        fail("the input is not changed", k)

    append = extend = insert = remove = pop = clear = sort = reverse = lambda self, *a, **k: fail("the input is not changed")

    def vc_isinstance(self, cls):
        return cls in (list, object)


@contract("C22", ["serialize_dict"], assumes=["serialize, name (their contracts)", "the recursive calls satisfy this same contract (induction on the depth of the value)",
                                              "nothing (None) inside of a collection is treated as any other plain value"])
def configuration(ctx):
    """
    ensures  numbers, text, booleans and nothing stay as they are; classes are replaced by their names; lists and dictionaries (of any length) by others of the same
             length, with the same keys, whose values are serialized in the same way; the input is not changed
    """
    need(SER, "serialize", "name", "serialize_dict")
    what = choice("value", ["nothing", "text", "boolean", "integer", "number", "class", "list", "dict"])
    n = length("length")
    kind, atom = ctx.func("kind", I, I), ctx.func("type", I, I)
    value = lambda i: Value("value", i, kind_=kind, atom=atom)
    j = z3.Int("j")
    assume(z3.ForAll([j], z3.And(kind(j) >= 0, kind(j) <= 4, atom(j) >= 0, atom(j) <= 3)))
    cls = type("Some", (), {})
    cname = opaque("name of the class")
    real_ = SER.serialize_dict

    def ser(v, known_modules=None, **k):
        if isinstance(v, Value):
            i = v.ix[0]
            if E.CTX.branch(kind(i) == ATOM):
                return v
            return Indexed("serialized", i)
        raise Unsupported(f"serialize_dict({v!r})")

    x = {"nothing": lambda: None, "text": lambda: FStr((opaque("text"),)), "boolean": lambda: boolean("x"), "integer": lambda: integer("x"), "number": lambda: real("x"), "class": lambda: cls,
         "list": lambda: AnyList(n, value, "list"), "dict": lambda: AnyDict(n, value)}[what]()

    def serialize(v, **k):
        prove(z3.BoolVal(v is cls), "only classes are serialized")
        return opaque("text of the class"), cname

    with patched((SER, "serialize_dict", ser), (SER, "serialize", serialize), (SER, "name", lambda v, **k: cname)):
        out = call(real_, x)
    if not returned(out, "no errors"):
        return
    cover(what)
    r = out.value
    if what == "nothing":
        prove(z3.BoolVal(r is None), "kept as it is")
    elif what == "class":
        prove(equal(r, cname), "a class is replaced by its name")
    elif what == "list":
        if not isinstance(r, VList) or isinstance(r, L.VDict):
            if r is x:
                fail("lists are serialized")
                return
            raise NotApplicable("list")

        def parts(i):
            return [(kind(i) == ATOM, [Indexed("value", i)]), (z3.And(kind(i) != ATOM), [Indexed("serialized", i)])]
        k = ctx.fresh("k", I)
        if L.bounded():
            items = list(L.expand(r.segs))
            prove(n == len(items), "same length")
            for j, v in enumerate(items):
                check_value(v, z3.IntVal(j), z3.BoolVal(True), kind, "list")
            return
        if len(r.segs) != 1 or not isinstance(r.segs[0], Comp):
            raise NotApplicable("list")
        c = r.segs[0]
        prove(z3.And(c.lo == 0, c.hi == n), "same length")
        for g, items in c.parts(k):
            g = z3.And(g, 0 <= k, k < n)
            if len(items) != 1:
                prove(z3.Not(g), "same length")
                continue
            check_value(items[0], k, g, kind, "list")
    elif what == "dict":
        k = ctx.fresh("k", I)
        if isinstance(r, L.VDict) and len(r.segs) == 1 and isinstance(r.segs[0], Comp):
            c = r.segs[0]
            prove(z3.And(c.lo == 0, c.hi == n), "same keys")
            for g, items in c.parts(k):
                g = z3.And(g, 0 <= k, k < n)
                if len(items) != 1:
                    prove(z3.Not(g), "same keys")
                    continue
                key, v = items[0]
                prove(z3.Implies(g, equal(key, Indexed("key", k))), "same keys")
                check_value(v, k, g, kind, "dict")
        elif isinstance(r, Copy):
            sets = r.sets.segs
            if L.bounded():
                sets = [comp(0, z3.IntVal(1), lambda j, e=e: [(z3.BoolVal(True), [e])]) for e in L.expand(sets)]
            for c in sets:
                if not isinstance(c, Comp):
                    raise NotApplicable("change of a single key")
                for g, items in c.parts(k):
                    g = z3.And(g, c.lo <= k, k < c.hi)
                    for key, v in items:
                        if not isinstance(key, Indexed) or key.kind != "key":
                            fail("same keys", key)
                            return
                        t = key.ix[0]
                        prove(z3.Implies(g, z3.And(0 <= t, t < n)), "same keys")
                        check_value(v, t, g, kind, "dict")
            alts = []
            for c in sets:
                for g, items in c.parts(j):
                    for key, v in items:
                        alts.append(z3.Exists([j], z3.And(c.lo <= j, j < c.hi, g, key.ix[0] == k)))
            prove(z3.Implies(z3.And(0 <= k, k < n, z3.Or(kind(k) == LIST, kind(k) == DICT, kind(k) == CLASS)), z3.Or(*alts) if alts else z3.BoolVal(False)),
                  "every list, dictionary and class is serialized")
        elif r is x:
            fail("dictionaries are serialized")
        else:
            raise NotApplicable("dictionary")
    else:
        prove(equal(r, x), "kept as it is")


def check_value(v, t, g, kind, where):
    """v is the serialization of the t-th value"""
    same = equal(v, Indexed("value", t))
    done = equal(v, Indexed("serialized", t))
    prove(z3.Implies(z3.And(g, kind(t) == ATOM), same), "plain values are kept as they are", v)
    prove(z3.Implies(z3.And(g, z3.Or(kind(t) == LIST, kind(t) == DICT, kind(t) == CLASS)), done), "lists, dictionaries and classes are serialized", v)


class Dotted:
    """Prefix of the keys of a dictionary inside of another"""


@contract("C22", ["_flatten_dict"], assumes=["the recursive calls satisfy this same contract (induction on the depth of the dictionary)", "keys are not empty and have no dots"])
def flattening(ctx):
    """
    ensures  a plain value gives one pair, with its prefix; a dictionary gives the pairs of its values, in order, each of them with the key as its prefix (after
             the prefix of the dictionary and a dot, if there is one); the input is not changed
    """
    need(U, "_flatten_dict")
    real_ = U._flatten_dict
    n = length("length")
    m = ctx.func("pairs", I, I)
    j = z3.Int("j")
    assume(z3.ForAll([j], m(j) >= 0))
    prefix = choice("prefix", ["none", "some"])
    p = "" if prefix == "none" else FStr((opaque("prefix"),))
    kind = choice("value", ["dict", "plain"])

    def rec(d, prefix="", **k):
        if not isinstance(d, Indexed) or d.kind != "value":
            raise Unsupported("_flatten_dict of something else")
        i = d.ix[0]
        want = FStr((Indexed("key", i),)) if p == "" else FStr((p, ".", Indexed("key", i)))
        got = FStr((prefix,)) if not isinstance(prefix, FStr) else prefix
        got = FStr([x for x in got.parts if x != ""]) if any(isinstance(x, str) and x == "" for x in got.parts) else got
        prove(equal(got, want), "the prefix of every value is its key", prefix)
        yield from rt.yield_all(SymSeq(m(i), lambda j: Indexed("pair", i, j), "pairs"))

    v = opaque("value")
    x = AnyDict(n, lambda i: Indexed("value", i)) if kind == "dict" else v
    with patched((U, "_flatten_dict", rec)):
        out, o = drive(real_(x, p) if p == "" and choice("call", ["default", "given"]) == "given" else real_(x) if p == "" else real_(x, prefix=p))
    if not returned(o, "no errors"):
        return
    cover(f"{kind} {prefix}")
    if kind == "plain":
        if len(out.segs) != 1 or isinstance(out.segs[0], (Comp, Splice)):
            fail("a plain value gives one pair", out)
            return
        k, val = out.segs[0]
        prove(equal(k, p) if p != "" else z3.BoolVal(k == ""), "a plain value gives its prefix")
        prove(equal(val, v), "a plain value is kept")
        return
    prove_seq(out, [comp(0, n, lambda i: [(z3.BoolVal(True), [comp(0, m(i), lambda j: [(z3.BoolVal(True), [Indexed("pair", i, j)])])])])],
              "the pairs of all the values, in order")


@contract("C22", ["deserialize_all"], assumes=["deserialize (its contract)"])
def all_names(ctx):
    """ensures  each of the names is looked up in the modules given, and called once with the arguments given; the results are returned in that order"""
    need(SER, "deserialize", "deserialize_all")
    n = length("names")
    known, a, b = opaque("known modules"), opaque("a"), opaque("b")
    names = SymSeq(n, lambda i: Indexed("name", i), "names")

    def des(t, known_modules=None, **k):
        prove(equal(known_modules, known), "the modules given are used")
        i = t.ix[0]

        def factory(*args, **kw):
            prove(z3.BoolVal(len(args) == 1 and set(kw) == {"b"}) if not args or not kw else z3.And(equal(args[0], a), equal(kw["b"], b)), "the arguments given are used")
            return Indexed("object", i)
        return factory
    with patched((SER, "deserialize", des)):
        out = call(SER.deserialize_all, names, a, known_modules=known, b=b)
    if not returned(out, "no errors"):
        return
    cover("done")
    prove_seq(out.value, [comp(0, n, lambda i: [(z3.BoolVal(True), [Indexed("object", i)])])], "one object for each name, in order")


@contract("C22", ["serialize", "serializer", "name", "deserialize", "deserializer"], bounded="one value of each of the types; the contents of texts are not symbolic",
          assumes=["ast.literal_eval is the inverse of repr for plain values (Python)"])
def plain_values(ctx):
    """ensures  the text and type given by serialize lead back to the same value"""
    need(SER, "ast", "serialize", "deserialize")
    v = choice("value", [3, -2, 2.5, True, False, "", "some text", "3", "None", " a ", None, [1, "a"], (1,), {1, 2}, {"a": 1}, [], {}, ()])

    class Token(str):
        pass

    def repr_(x):
        t = Token("<repr>")
        t.x = x
        return t
    ev = lambda t: t.x if isinstance(t, Token) else fail("only texts given by serialize are evaluated", t)
    n = length("known modules")
    known = SymSeq(n, lambda i: Mod("module", i), "known modules")
    w = W()
    w.has, w.isit = ctx.func("has the name", I, B), ctx.func("is the class", I, B)
    w.value = w.other = type("Some", (), {})
    with patched((SER, "repr", repr_), (SER, "ast", Stub("ast", literal_eval=ev)), (SER, "get_module", lambda m: ModObj(w, m.ix[0]))):
        out = call(SER.serialize, v, known_modules=known)
        if not returned(out, "no errors"):
            return
        text_, tname = out.value
        out = call(SER.deserialize, tname, text_, known_modules=known)
    if not returned(out, "the result can be deserialized"):
        return
    cover(type(v).__name__)
    prove(z3.BoolVal(type(out.value) is type(v) and (out.value is v or out.value == v)), "deserializing the result gives the same value", out.value)
