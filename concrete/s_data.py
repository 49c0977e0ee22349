"""Data collection"""
import copy
import networkx as nx
from .base import scenario, check, same, raises, note, Skip
from .s_sched import KINDS
from soil import Environment, Simulation
from soil.agents import BaseAgent, Agent, NetworkAgent, FSM, state
from soil.decorators import report

EXPECTED = []


class Counter(BaseAgent):
    level = 0

    def step(self):
        self.level += 1
        return self.model.plan(self)


class Special(Counter):
    extra = 5


def snapshot(m):
    return dict(time=m.schedule.time, agent_count=len(m.schedule.agents), total=sum(a.level for a in m.schedule.agents),
                attribute=m.attribute,
                agents={a.unique_id: (a.level, a.extra if isinstance(a, Special) else None, getattr(a, "extra", None)) for a in m.schedule.agents})


@scenario("C17")
def collection(rng):
    kind = rng.choice(list(KINDS))
    agent_data = rng.choice([True, True, False])

    class M(Environment):
        schedule_class = KINDS[kind]
        attribute = 0

        def plan(self, agent):
            self.attribute += 1
            what = rng.choice(["nothing", "nothing", "add", "die", "delay"])
            if ends and rng.random() < 0.1:
                self.running = False
            if ends and rng.random() < 0.2:
                return rng.choice([agent.die, lambda: float("inf")])()
            if what == "add" and len(self.schedule.agents) < 12 + 2 * n:
                self.add_agent(rng.choice([Counter, Special]))
            if what == "die" and len(self.schedule.agents) > 1:
                return agent.die()
            return rng.number([1, 2, None, 0.5], lo=0.25)

        @report
        @property
        def total(self):
            return sum(a.level for a in self.schedule.agents)

        @report
        @property
        def as_property(self):
            return self.attribute * 2

        def init(self):
            for _ in range(n):
                self.add_agent(rng.choice([Counter, Special]))
            self.add_model_reporter("attribute")
            self.add_model_reporter("custom", lambda m: m.attribute + 1)
            if agent_data:
                self.add_agent_reporter("level")
                self.add_agent_reporter("double", lambda a: a.level * 2)
                self.add_agent_reporter("extra", agent_type=Special)
                self.add_agent_reporter("special_level", "level", agent_type=Special)
    n = rng.size(1, 4)
    ends = rng.random() < 0.3
    m = M(seed=rng.random())
    note(kind, n, "agents", "stops" if ends else "")
    rows = [snapshot(m)]

    def verify():
        df = m.datacollector.get_model_vars_dataframe()
        same(len(df), len(rows), "rows of model data", "C17")
        for k, r in enumerate(rows):
            row = df.iloc[k]
            same(float(row["time"]), float(r["time"]), f"time in row {k}", "C17")
            same(row["agent_count"], r["agent_count"], f"agents in row {k}", "C17")
            same(row["total"], r["total"], f"decorated reporter in row {k}", "C17")
            same(row["as_property"], r["attribute"] * 2, f"decorated property in row {k}", "C17")
            same(row["attribute"], r["attribute"], f"attribute in row {k}", "C17")
            same(row["custom"], r["attribute"] + 1, f"function in row {k}", "C17")
        if agent_data:
            da = m.agent_df(steps=True)
            got = {}
            for (step, uid), row in da.iterrows():
                key = (int(step), int(uid))
                check(key not in got, f"two values for agent {uid} in step {step}", "C17")
                got[key] = row
            want = {}
            for k, r in enumerate(rows):
                for uid, v in r["agents"].items():
                    want[(k, uid)] = v
            same(sorted(got), sorted(want), "(step, agent) recorded", "C17")
            for key, (level, extra, _) in want.items():
                row = got[key]
                same(row["level"], level, f"level of (step, agent) {key}", "C17")
                same(row["double"], level * 2, f"double of (step, agent) {key}", "C17")
                if extra is None:
                    check(row["extra"] is None or row["extra"] != row["extra"], f"{key}: reporter for other type of agent recorded {row['extra']}", "C17")
                    check(row["special_level"] is None or row["special_level"] != row["special_level"], f"{key}: reporter for other type of agent recorded {row['special_level']}", "C17")
                else:
                    same(row["extra"], extra, f"extra of {key}", "C17")
                    same(row["special_level"], level, f"special_level of {key}", "C17")
    verify()
    for _ in range(rng.size(1, 8, cap=60 if n > 20 else 250)):
        if not m.running and rng.random() < 0.7:
            break
        m.step()
        rows.append(snapshot(m))
        if len(rows) < 10 and rng.random() < 0.3:
            verify()
    verify()


@scenario("C17")
def typed_reporters(rng):
    """Reporters limited to each of the types of agents in the library, or to several ones"""
    import networkx as nx
    from soil.agents import FSM, Agent, NetworkAgent, EventedAgent, state

    def step(self):
        return 1
    plain = [type(f"T{k}", (b,), {"step": step}) for k, b in enumerate([BaseAgent, NetworkAgent, EventedAgent])]

    class Machine(FSM):
        @state(default=True)
        def on(self):
            return 1

    class Full(Agent):
        @state(default=True)
        def on(self):
            return 1
    classes = plain + [Machine, Full]
    types = [rng.choice([BaseAgent, NetworkAgent, EventedAgent, FSM, Agent, (FSM, NetworkAgent)] + classes) for _ in range(2)]
    m = Environment(topology=nx.path_graph(8), seed=1)
    for k, t in enumerate(types):
        m.add_agent_reporter(f"r{k}", rng.choice([lambda a: a.unique_id + 1, "mark"]), agent_type=t)
    m.add_agent_reporter("all", lambda a: a.unique_id)
    for _ in range(rng.size(1, 6, cap=40)):
        a = m.add_agent(rng.choice(classes))
        a.mark = a.unique_id + 1
    note([getattr(t, "__name__", t) for t in types], [type(a).__mro__[1].__name__ for a in m.schedule.agents])
    kinds = {a.unique_id: a for a in m.schedule.agents}
    m.step()
    da = m.agent_df(steps=True)
    last = max(int(s) for s, _ in da.index)
    seen = set()
    for (s, uid), row in da.iterrows():
        if int(s) != last:
            continue
        seen.add(int(uid))
        same(row["all"], uid, "value recorded", "C17")
        for k, t in enumerate(types):
            v = row[f"r{k}"]
            if isinstance(kinds[int(uid)], t):
                same(v, uid + 1, f"value of agent {uid}, for {t}", "C17")
            else:
                check(v is None or v != v, f"agent {uid} is not a {t}, and {v} was recorded", "C17")
    same(seen, set(kinds), "agents recorded", "C17")


@scenario("C17")
def dataframes(rng):
    """Results of a run, one row per step"""
    class A(BaseAgent):
        def step(self):
            return rng_delays[self.unique_id % len(rng_delays)]
    rng_delays = [rng.number([1, 2, 0.5], lo=0.25) for _ in range(3)]
    n = rng.size(1, 4)

    class M(Environment):
        def init(self):
            self.stepped = [self.schedule.time]
            self.add_agents([A], k=n)

        def step(self):
            super().step()
            self.stepped.append(self.schedule.time)
    steps = rng.size(1, 6)
    reps = rng.choice([{}, dict(model_reporters={"twice": lambda m: m.schedule.time * 2}), dict(agent_reporters={"uid": "unique_id"})])
    env, = Simulation(model=M, name="x", max_steps=steps, exporters=[], dump=False, **reps).run()
    note(rng_delays, n, steps, list(reps))
    df = env.model_df()
    same([float(x) for x in df.index], [float(x) for x in env.stepped], "time of each row", "C17")
    same(list(df["agent_count"]), [n] * len(env.stepped), "agents in each row", "C17")
    if "model_reporters" in reps:
        same([float(x) for x in df["twice"]], [2.0 * x for x in env.stepped], "reporter given to the simulation", "C17")
    if "agent_reporters" in reps:
        d = env.agent_df(steps=True)
        same(len(d), n * len(env.stepped), "rows of the agents", "C17")
        same(list(d["uid"]), [u for _ in env.stepped for u in range(n)], "values", "C17")
        same([(int(s), int(u)) for s, u in d.index], [(k, u) for k in range(len(env.stepped)) for u in range(n)], "steps and agents", "C17")
        d = env.agent_df()
        same([(float(t), int(u)) for t, u in d.index], [(float(t), u) for t in env.stepped for u in range(n)], "times and agents", "C17")
        same(list(d["uid"]), [u for _ in env.stepped for u in range(n)], "values", "C17")
    same([int(x) for x in env.model_df(steps=True).index], list(range(len(env.stepped))), "steps", "C17")
    same([float(x) for x in env.model_df(steps=True)["time"]], [float(x) for x in env.stepped], "times", "C17")


@scenario("C17")
def mutable(rng):
    """Later changes do not alter what was recorded"""
    class A(BaseAgent):
        tags = []

        def step(self):
            self.tags.append(self.now)
            return 1

    class M(Environment):
        def init(self):
            self.history = []
            self.add_agent(A)
            self.add_model_reporter("size", lambda m: len(m.history))
            self.add_agent_reporter("ntags", lambda a: len(a.tags))

        def step(self):
            self.history.append(self.schedule.time)
            super().step()
    m = M()
    n = rng.size(1, 5)
    for _ in range(n):
        m.step()
    df = m.datacollector.get_model_vars_dataframe()
    same(list(df["size"]), list(range(n + 1)), "size", "C17")
    same(list(m.agent_df(steps=True)["ntags"]), list(range(n + 1)), "ntags", "C17")


@scenario("C17")
def noinit(rng):
    """With an environment that is not initialised on creation, nothing is recorded until it steps"""
    class M(Environment):
        def init(self):
            self.add_agent(Counter)

        def plan(self, a):
            return 1
    m = M(init=False)
    same(len(m.datacollector.get_model_vars_dataframe()), 0, "rows", "C17")
    m.add_agent(Counter)
    for k in range(3):
        m.step()
        same(len(m.datacollector.get_model_vars_dataframe()), k + 1, "rows", "C17")


@scenario("C17")
def basic(rng):
    """The most basic environment"""
    from soil.environment import BaseEnvironment

    class M(BaseEnvironment):
        def init(self):
            self.add_agents([Counter], k=n)
            self.add_model_reporter("total", lambda m: sum(a.level for a in m.schedule.agents))

        def plan(self, a):
            return 1
    n = rng.size(1, 3)
    steps = rng.size(0, 4)
    m = M()
    for _ in range(steps):
        m.step()
    df = m.model_df(steps=True)
    same(list(df["total"]), [k * n for k in range(steps + 1)], "reported values", "C17")
    same([float(x) for x in df["time"]], [float(k) for k in range(steps + 1)], "times", "C17")
    same(list(df["agent_count"]), [n] * (steps + 1), "number of agents", "C17")
    same([a.unique_id for a in m.get_agents()], list(range(n)), "agents", "C17")
