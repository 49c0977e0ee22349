#!/opt/venv/bin/python
"""
Edits that keep the behaviour: the checks have to stay quiet on them (a development tool: no check uses it).

  tools/refactorings.py [--only NAME] [--jobs 6]
"""
import argparse
import json
import os
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import PROPS, PY, sh, load, stable

R = []


def r(name, file, *edits):
    R.append((name, file, edits))


# ------------------------------------------------------------------ time.py
r("pq-for-schedule-key", "time.py", ('''        if self._shuffle:
            key = (when, self.model.random.random())
        else:
            key = (when, agent.unique_id)
        if replace:
            heapreplace(self._queue, (key, agent))
        else:
            heappush(self._queue, (key, agent))
''', '''        key = self._key(agent, when)
        entry = (key, agent)
        if not replace:
            heappush(self._queue, entry)
        else:
            heapreplace(self._queue, entry)

    def _key(self, agent, when):
        second = self.model.random.random() if self._shuffle else agent.unique_id
        return (when, second)
'''))
r("pq-step-helper", "time.py", ('''            try:
                when = agent.step() or self.default_interval
                when += now
            except DeadAgent:
                continue

            if when < now:
                raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")

            if when == INFINITY:
                continue

            self._schedule(agent, when)

        self.steps += 1
''', '''            try:
                delay = agent.step()
            except DeadAgent:
                continue
            when = self._next_wake(delay, now)
            if when != INFINITY:
                self._schedule(agent, when)

        self.steps += 1
'''), ('''class TimedActivation(DiscreteActivation):
''', '''def _wake(scheduler, delay, now):
    when = now + (delay or scheduler.default_interval)
    if when < now:
        raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")
    return when


PQueueActivation._next_wake = _wake


class TimedActivation(DiscreteActivation):
'''))
r("pq-end", "time.py", ('''        self.steps += 1

        self.time = next_time

        if next_time == INFINITY:
            self.model.running = False
            self.time = INFINITY
            return
''', '''        self.time = next_time
        self.steps = self.steps + 1
        if self.time == INFINITY:
            self.model.running = False
'''))
r("pq-while-true", "time.py", ('''        while self._queue:
            ((when, _id), agent) = self._queue[0]
            if when > now:
                next_time = when
                break
''', '''        while True:
            if not self._queue:
                break
            head = self._queue[0]
            when, agent = head[0][0], head[1]
            if not when <= now:
                next_time = when
                break
'''))
r("bucket-while-schedule", "time.py", ('''        pos = len(self._queue)
        for (ix, l) in enumerate(self._queue):
            if l[0] == when:
                l[1].append(agent)
                return
            if l[0] > when:
                pos = ix
                break
        self._queue.insert(pos, (when, [agent]))
''', '''        for pos, (at, bucket) in enumerate(self._queue):
            if at < when:
                continue
            if at == when:
                bucket.append(agent)
            else:
                self._queue.insert(pos, (when, [agent]))
            return
        self._queue.append((when, [agent]))
'''))
r("bucket-step-swap", "time.py", ('''            try:
                when = agent.step() or self.default_interval
                when += now
            except DeadAgent:
                continue

            if when < now:
                raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")

            if when != INFINITY:
                self._schedule(agent, when, replace=True)
''', '''            try:
                delay = agent.step()
            except DeadAgent:
                continue
            if not delay:
                delay = self.default_interval
            when = now + delay
            if when == INFINITY:
                continue
            if when < now:
                raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")
            self._schedule(agent, when, replace=True)
'''))
r("bucket-step-helper", "time.py", ('''        bucket = self._queue.popleft()[1]
        if self._shuffle:
            self.model.random.shuffle(bucket)
        for agent in bucket:
            try:
                when = agent.step() or self.default_interval
                when += now
            except DeadAgent:
                continue

            if when < now:
                raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")

            if when != INFINITY:
                self._schedule(agent, when, replace=True)

        self.steps += 1
        if self._queue:
            self.time = self._queue[0][0]
        else:
            self.time = INFINITY
            self.model.running = False
''', '''        _, bucket = self._queue.popleft()
        if self._shuffle:
            self.model.random.shuffle(bucket)
        for agent in bucket:
            self._activate(agent, now)

        self.steps += 1
        if not self._queue:
            self.model.running = False
            self.time = INFINITY
            return
        self.time = self._queue[0][0]

    def _activate(self, agent, now):
        try:
            when = agent.step() or self.default_interval
        except DeadAgent:
            return
        when = when + now
        if when < now:
            raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")
        if when != INFINITY:
            self._schedule(agent, when, replace=True)
'''))
r("add-max", "time.py", ('''        if when is None:
            when = self.time
        else:
            when = max(float(when), self.time)
        self._schedule(agent, when)
        super().add(agent)
''', '''        start = self.time
        if when is not None:
            requested = float(when)
            if requested > start:
                start = requested
        super().add(agent)
        self._schedule(agent, start)
'''))
r("lockstep-loop", "time.py", ('''        end_time = self.time + self.default_interval
        res = None
        while self.scheduler.time < end_time:
            res = self.scheduler.step()
        self.time = end_time
        self.steps += 1
        return res
''', '''        until = self.time + self.default_interval
        res = None
        while True:
            if self.scheduler.time >= until:
                break
            res = self.scheduler.step()
        self.steps += 1
        self.time = until
        return res
'''))
# ------------------------------------------------------------------ agents/__init__.py
r("agent-init-merge", "agents/__init__.py", ('''        for k in self._defaults:
            v = getattr(model, k, None)
            if v is not None:
                setattr(self, k, v)

        for (k, v) in self._defaults.items():
            if not hasattr(self, k) or getattr(self, k) is None:
                setattr(self, k, deepcopy(v))
''', '''        for (k, default) in self._defaults.items():
            v = getattr(model, k, None)
            if v is not None:
                setattr(self, k, v)
            elif getattr(self, k, None) is None:
                setattr(self, k, deepcopy(default))
'''))
r("agent-init-helper", "agents/__init__.py", ('''        for k in self._defaults:
            v = getattr(model, k, None)
            if v is not None:
                setattr(self, k, v)

        for (k, v) in self._defaults.items():
            if not hasattr(self, k) or getattr(self, k) is None:
                setattr(self, k, deepcopy(v))

        for (k, v) in kwargs.items():
            setattr(self, k, v)

        if init:
            self.init()
''', '''        self._init_attributes(model, kwargs)

        if init:
            self.init()

    def _init_attributes(self, model, given):
        for name in self._defaults:
            value = getattr(model, name, None)
            if value is not None:
                setattr(self, name, value)

        for (name, value) in self._defaults.items():
            missing = getattr(self, name, None) is None
            if missing:
                setattr(self, name, deepcopy(value))

        for name in given:
            setattr(self, name, given[name])
'''))
r("generator-step-loop", "agents/__init__.py", ('''        self._check_alive()
        while True:
            if self._coroutine is None:
                self._coroutine = func(self)
            try:
                if self._last_except:
                    val = self._coroutine.throw(self._last_except)
                else:
                    val = self._coroutine.send(self._last_return)
            except StopIteration as ex:
                self._coroutine = None
                val = ex.value
            finally:
                self._last_return = None
                self._last_except = None
            return float(val) if val is not None else val
''', '''        self._check_alive()
        if self._coroutine is None:
            self._coroutine = func(self)
        coro = self._coroutine
        try:
            if self._last_except:
                val = coro.throw(self._last_except)
            else:
                val = coro.send(self._last_return)
        except StopIteration as ex:
            val = ex.value
            self._coroutine = None
        finally:
            self._last_except = None
            self._last_return = None
        if val is None:
            return None
        return float(val)
'''))
r("die-order", "agents/__init__.py", ('''        self.alive = False
        try:
            self.model.schedule.remove(self)
        except KeyError:
            pass
        return time.Delay(time.INFINITY)
''', '''        try:
            self.model.schedule.remove(self)
        except KeyError:
            pass
        finally:
            self.alive = False
        forever = time.INFINITY
        return time.Delay(forever)
'''))
r("prob-inline", "agents/__init__.py", ('''    r = random.random()
    return r < prob
''', '''    threshold = prob
    return threshold > random.random()
'''))
r("filter-generators", "agents/__init__.py", ('''    if state_id is not None:
        f = filter(lambda agent: agent.get("state_id", None) in state_id, f)

    if agent_class is not None:
        f = filter(lambda agent: isinstance(agent, agent_class), f)
''', '''    if agent_class is not None:
        f = (agent for agent in f if isinstance(agent, agent_class))

    if state_id is not None:
        f = (agent for agent in f if agent.get("state_id", None) in state_id)
'''))
r("filter-attrs-helper", "agents/__init__.py", ('''    for k, vs in state.items():
        if not isinstance(vs, list):
            vs = [vs]
        f = filter(lambda agent, k=k, vs=vs: any(getattr(agent, k, None) == v for v in vs), f)

    if limit is not None:
        f = islice(f, limit)

    yield from f
''', '''    for k, vs in state.items():
        f = _with_value(f, k, vs if isinstance(vs, list) else [vs])

    yield from (f if limit is None else islice(f, limit))


def _with_value(agents, key, values):
    def matches(agent):
        current = getattr(agent, key, None)
        return any(current == v for v in values)
    return filter(matches, agents)
'''))
r("filter-for", "agents/__init__.py", ('''    if limit is not None:
        f = islice(f, limit)

    yield from f
''', '''    if limit is not None:
        f = islice(f, limit)

    for agent in f:
        yield agent
'''))
r("filter-ids", "agents/__init__.py", ('''    ids = []

    if unique_id is not None:
        if isinstance(unique_id, list):
            ids += unique_id
        else:
            ids.append(unique_id)

    if id_args:
        ids += id_args

    if unique_id is not None or ids:
''', '''    ids = list(id_args)
    by_id = bool(id_args)

    if unique_id is not None:
        by_id = True
        ids.extend(unique_id if isinstance(unique_id, list) else [unique_id])

    if by_id:
'''))
r("view-getitem", "agents/__init__.py", ('''        for agent in self._agents:
            if agent.unique_id == agent_id:
                return agent
        raise ValueError(f"Agent {agent_id} not found")
''', '''        found = next((a for a in self._agents if a.unique_id == agent_id), None)
        if found is None:
            raise ValueError(f"Agent {agent_id} not found")
        return found
'''))
r("get-hasattr", "agents/__init__.py", ('''        try:
            return getattr(self, key)
        except AttributeError:
            try:
                return getattr(self.model, key)
            except AttributeError:
                return default
''', '''        try:
            return getattr(self, key)
        except AttributeError:
            return getattr(self.model, key, default)
'''))
r("metaagent-order", "agents/__init__.py", ('''            elif (
                isinstance(func, types.FunctionType)
                or isinstance(func, property)
                or isinstance(func, classmethod)
                or attr[0] == "_"
            ):
                new_nmspc[attr] = func
''', '''            elif attr.startswith("_") or isinstance(func, (types.FunctionType, property, classmethod)):
                new_nmspc[attr] = func
'''))
# ------------------------------------------------------------------ agents/fsm.py
r("fsm-step-branch", "agents/fsm.py", ('''        try:
            if isinstance(next_state, str):
                raise ValueError("A state id is not a (state, delay) pair")
            next_state, when = next_state
        except (TypeError, ValueError) as ex:
            try:
                self._set_state(next_state)
                return None
            except ValueError:
                return next_state

        if when is not None:
            when = float(when)
        self._set_state(next_state)
        return when
''', '''        if not isinstance(next_state, str):
            try:
                next_state, when = next_state
            except (TypeError, ValueError):
                pass
            else:
                if when is not None:
                    when = float(when)
                self._set_state(next_state)
                return when

        try:
            self._set_state(next_state)
        except ValueError:
            return next_state
        return None
'''))
r("fsm-set-state", "agents/fsm.py", ('''        if state is None:
            return
        if isinstance(state, str):
            if state not in self._states:
                raise ValueError("{} is not a valid state".format(state))
            state = self._states[state]
        if not isinstance(state, State):
            raise ValueError("{} is not a valid state".format(state))
        self._state = state
''', '''        if state is not None:
            self._state = self._find_state(state)

    def _find_state(self, state):
        found = self._states.get(state) if isinstance(state, str) else state
        if isinstance(found, State):
            return found
        raise ValueError("{} is not a valid state".format(state))
'''))
r("metafsm-comprehension", "agents/fsm.py", ('''        for attr, func in namespace.items():
            if isinstance(func, State):
                if func.default:
                    default_state = func
                states[func.name] = func
''', '''        own = [func for func in namespace.values() if isinstance(func, State)]
        states.update({func.name: func for func in own})
        for func in own:
            default_state = func if func.default else default_state
'''))
r("fsm-init-order", "agents/fsm.py", ('''        if state_id is not None:
            self._set_state(state_id)
        # If more than "dead" state is defined, but no default state
        if len(self._states) > 1 and not self._state:
            raise ValueError(
                f"No default state specified for {type(self)}({self.unique_id})"
            )
        for (k, v) in self._states.items():
            setattr(self, k, v.bind(self))
''', '''        if state_id is not None:
            self._set_state(state_id)
        elif not self._state and len(self._states) > 1:
            # More than the "dead" state is defined, but there is no default state
            raise ValueError(
                f"No default state specified for {type(self)}({self.unique_id})"
            )
        for unbound in self._states.values():
            unbound.bind(self)
'''))
r("state-step", "agents/fsm.py", ('''        if self.generator or self.awaitable:
            f = self.f
            next_state = yield from f(obj)
            return next_state

        else:
            return self.f(obj)
''', '''        if not (self.generator or self.awaitable):
            return self.f(obj)
        return (yield from self.f(obj))
'''))
# ------------------------------------------------------------------ agents/evented.py, events.py
r("process-while", "agents/evented.py", ('''        valid = list()
        for _ in range(len(self._inbox)):
            msg = self._inbox.popleft()
            self._processed += 1
            if msg.expired(self.now):
                continue
            valid.append(msg)
            reply = self.on_receive(msg.payload, sender=msg.sender)
            if isinstance(msg, Ask):
                msg.reply = reply
        return valid
''', '''        valid = []
        pending = len(self._inbox)
        while pending:
            pending -= 1
            msg = self._inbox.popleft()
            self._processed += 1
            if not msg.expired(self.now):
                valid.append(msg)
                self._handle(msg)
        return valid

    def _handle(self, msg):
        reply = self.on_receive(msg.payload, sender=msg.sender)
        if isinstance(msg, Ask):
            msg.reply = reply
'''))
r("process-swap", "agents/evented.py", ('''        valid = list()
        for _ in range(len(self._inbox)):
            msg = self._inbox.popleft()
            self._processed += 1
            if msg.expired(self.now):
                continue
            valid.append(msg)
            reply = self.on_receive(msg.payload, sender=msg.sender)
            if isinstance(msg, Ask):
                msg.reply = reply
        return valid
''', '''        handled = []
        inbox, self._inbox = self._inbox, deque()
        for msg in inbox:
            self._processed += 1
            if msg.expired(self.now):
                continue
            handled.append(msg)
            reply = self.on_receive(msg.payload, sender=msg.sender)
            if isinstance(msg, Ask):
                msg.reply = reply
        return handled
'''))
r("received-while-true", "agents/evented.py", ('''        while self.now < expiration:
            if self._inbox:
                return self.process_messages() if process else list(self._inbox)
            yield self.delay(delay)
        raise TimedOut("No message received")
''', '''        while True:
            if self.now >= expiration:
                raise TimedOut("No message received")
            if len(self._inbox) > 0:
                if process:
                    return self.process_messages()
                return list(self._inbox)
            yield self.delay(delay)
'''))
r("ask-nested", "agents/evented.py", ('''        if expiration is None:
            expiration = float("inf") if timeout is None else self.now + timeout
        while self.now < expiration:
            if ask.reply is not None:
                return ask.reply
            yield self.delay(delay)
        raise TimedOut("No reply received")
''', '''        limit = expiration
        if limit is None:
            limit = float("inf")
            if timeout is not None:
                limit = self.now + timeout
        while self.now < limit:
            answer = ask.reply
            if answer is None:
                yield self.delay(delay)
            else:
                return answer
        raise TimedOut("No reply received")
'''))
r("expired-if", "events.py", ('''        return self.expiration is not None and self.expiration < when
''', '''        if self.expiration is None:
            return False
        return when > self.expiration
'''))
# ------------------------------------------------------------------ agents/network_agents.py
r("netagent-init-helper", "agents/network_agents.py", ('''        if node_id is None:
            nodes = list(self.G.nodes)
            self.random.shuffle(nodes)
            for n_id in nodes:
                if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
                    node_id = n_id
                    break
            else:
                node_id = len(self.G)
                while node_id in self.G:
                    node_id += 1
                self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                self.G.add_node(node_id)
        assert node_id is not None
''', '''        if node_id is None:
            node_id = self._free_node()
        assert node_id is not None
'''), ('''    def count_neighbors(self''', '''    def _free_node(self):
        nodes = list(self.G.nodes)
        self.random.shuffle(nodes)
        for n_id in nodes:
            if self.G.nodes[n_id].get("agent") is None:
                return n_id
        node_id = len(self.G)
        while node_id in self.G:
            node_id += 1
        self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
        self.G.add_node(node_id)
        return node_id

    def count_neighbors(self'''))
r("neighbors-comprehension", "agents/network_agents.py", ('''            neighbor_ids = set()
            for node_id in self.G.neighbors(self.node_id):
                agent = self.G.nodes[node_id].get("agent")
                if agent is not None:
                    neighbor_ids.add(agent.unique_id)
            if unique_ids is not None:
                unique_ids = unique_ids & neighbor_ids
            else:
                unique_ids = neighbor_ids
''', '''            neighbors = [self.G.nodes[node_id].get("agent") for node_id in self.G.neighbors(self.node_id)]
            neighbor_ids = {agent.unique_id for agent in neighbors if agent is not None}
            unique_ids = neighbor_ids if unique_ids is None else neighbor_ids & unique_ids
'''))
r("netdie-order", "agents/network_agents.py", ('''        if not self.alive:
            return None
        if remove:
            self.remove_node()
        return super().die()
''', '''        if self.alive:
            if remove:
                self.remove_node()
            return super().die()
        return None
'''))
# ------------------------------------------------------------------ environment.py
r("add-agent-simple", "environment.py", ('''        if unique_id is None:
            unique_id = self.next_id()

        agent["unique_id"] = unique_id

        agent = dict(**agent)
        unique_id = agent.pop("unique_id", None)
        if unique_id is None:
            unique_id = self.next_id()

        a = agent_class(unique_id=unique_id, model=self, **agent)

        if getattr(a, "alive", True):  # It may have died in its initialization
            self.schedule.add(a)
        return a
''', '''        if unique_id is None:
            unique_id = self.next_id()

        new = agent_class(unique_id=unique_id, model=self, **agent)
        died = not getattr(new, "alive", True)  # It may have died in its initialization
        if not died:
            self.schedule.add(new)
        return new
'''))
r("add-agents-list", "environment.py", ('''        for cls in self.random.choices(agent_classes, weights=weights, k=k):
            self.add_agent(agent_class=cls, **kwargs)
''', '''        classes = self.random.choices(agent_classes, weights=weights, k=k)
        for agent_class in classes:
            self.add_agent(agent_class, **kwargs)
'''))
r("populate-one-list", "environment.py", ('''        toadd = []
        for (cls, (node_id, node)) in zip(classes, self.G.nodes(data=True)):
            if "agent" in node:
                continue
            node["agent"] = None # Reserve
            toadd.append(dict(node_id=node_id, topology=self.G,  agent_class=cls, **agent_params))
        for d in toadd:
            a = self.add_agent(**d)
            if getattr(a, "alive", True):
                self.G.nodes[d["node_id"]]["agent"] = a
''', '''        pending = []
        for (cls, (node_id, node)) in zip(classes, self.G.nodes(data=True)):
            if "agent" not in node:
                node["agent"] = None # Reserve
                pending.append((cls, node_id))
        for (cls, node_id) in pending:
            a = self.add_agent(node_id=node_id, topology=self.G, agent_class=cls, **agent_params)
            if getattr(a, "alive", True):
                self.G.nodes[node_id]["agent"] = a
'''))
r("network-agents-comp", "environment.py", ('''        for (id, data) in self.G.nodes(data=True):
            if "agent" in data:
                agent = data["agent"]
                if getattr(agent, "alive", True):
                    yield agent
''', '''        for (_, data) in self.G.nodes(data=True):
            if "agent" not in data:
                continue
            agent = data["agent"]
            if not getattr(agent, "alive", True):
                continue
            yield agent
'''))
r("broadcast-helper", "environment.py", ('''        for agent in self.get_agents(**kwargs):
            if agent == sender:
                continue
            self.logger.debug(f"Telling {repr(agent)}: {msg} ttl={ttl}")
            try:
                inbox = agent._inbox
            except AttributeError:
                self.logger.info(
                    f"Agent {agent.unique_id} cannot receive events because it does not have an inbox"
                )
                continue
            # Allow for AttributeError exceptions in this part of the code
            inbox.append(
                events.Tell(
                    payload=msg,
                    sender=sender,
                    expiration=expiration if ttl is None else self.now + ttl,
                )
            )
''', '''        if ttl is not None:
            expiration = self.now + ttl
        for agent in self.get_agents(**kwargs):
            if agent != sender:
                self._deliver(agent, msg, sender, expiration)

    def _deliver(self, agent, msg, sender, expiration):
        self.logger.debug(f"Telling {repr(agent)}: {msg} expiration={expiration}")
        if not hasattr(agent, "_inbox"):
            self.logger.info(
                f"Agent {agent.unique_id} cannot receive events because it does not have an inbox"
            )
            return
        agent._inbox.append(events.Tell(payload=msg, sender=sender, expiration=expiration))
'''))
r("env-init-schedule", "environment.py", ('''        self.schedule = schedule
        if schedule is None:
            if schedule_class is None:
                schedule_class = self.schedule_class
            self.schedule = schedule_class(self)

        for (k, v) in env_params.items():
            self[k] = v
''', '''        if schedule is None:
            schedule = (schedule_class if schedule_class is not None else self.schedule_class)(self)
        self.schedule = schedule

        for k in env_params:
            setattr(self, k, env_params[k])
'''))
r("env-step-debug", "environment.py", ('''        super().step()
        self.schedule.step()
        self.datacollector.collect(self)

        if self.logger''', '''        super().step()
        self.schedule.step()
        collector = self.datacollector
        collector.collect(self)
        self._log_step()

    def _log_step(self):
        if self.logger'''))
r("add-node-assign", "environment.py", ('''            node_id = network.find_unassigned(
                G=self.G, shuffle=True, random=self.random
            )
            if node_id is None:
                node_id = f"node_for_{unique_id}"

        if node_id not in self.G.nodes:
            self.G.add_node(node_id)
''', '''            free = network.find_unassigned(G=self.G, shuffle=True, random=self.random)
            node_id = free if free is not None else f"node_for_{unique_id}"

        if node_id not in self.G:
            self.G.add_node(node_id)
'''))
r("agent-reporter-def", "environment.py", ('''            inner = self.datacollector.agent_reporters[name]
            self.datacollector.agent_reporters[name] = lambda a: inner(a) if isinstance(a, agent_type) else None
''', '''            inner = self.datacollector.agent_reporters[name]

            def only_for_type(agent):
                if not isinstance(agent, agent_type):
                    return None
                return inner(agent)

            self.datacollector.agent_reporters[name] = only_for_type
'''))
r("check-agent-nodes", "environment.py", ('''        for agent in self.get_agents():
            if hasattr(agent, "node_id"):
                node_id = agent["node_id"]
                if node_id not in self.G.nodes:
                    raise ValueError(f"Agent {agent} is assigned to node {agent.node_id} which is not in the network")
''', '''        for agent in self.get_agents():
            if not hasattr(agent, "node_id"):
                continue
            if True:
                node_id = agent.node_id
                if node_id not in self.G:
                    raise ValueError(f"Agent {agent} is assigned to node {agent.node_id} which is not in the network")
'''))
r("env-new-reporters", "environment.py", ('''        for k in dir(cls):
            v = getattr(cls, k)
            if isinstance(v, property):
                v = v.fget
            if getattr(v, "add_to_report", False):
                self.add_model_reporter(k, k)

        return self
''', '''        self._add_class_reporters()
        return self

    def _add_class_reporters(self):
        cls = type(self)
        for name in dir(cls):
            attribute = getattr(cls, name)
            func = attribute.fget if isinstance(attribute, property) else attribute
            if getattr(func, "add_to_report", False):
                self.add_model_reporter(name, name)
'''))
# ------------------------------------------------------------------ network.py, datacollection.py
r("unassigned-next", "network.py", ('''    for next_id, data in candidates:
        if "agent" not in data:
            return next_id
    return None
''', '''    return next((node_id for (node_id, data) in candidates if "agent" not in data), None)
'''))
r("unassigned-list", "network.py", ('''    for next_id, data in candidates:
        if "agent" not in data:
            return next_id
    return None
''', '''    free = [node_id for (node_id, data) in candidates if "agent" not in data]
    return free[0] if free else None
'''))
r("collector-setdefault", "datacollection.py", ('''        if 'agent_count' not in model_reporters:
            model_reporters['agent_count'] = lambda m: m.schedule.get_agent_count()
        if 'time' not in model_reporters:
            model_reporters['time'] = lambda m: m.schedule.time
''', '''        model_reporters.setdefault('agent_count', lambda m: m.schedule.get_agent_count())
        model_reporters.setdefault('time', lambda m: m.schedule.time)
'''))
# ------------------------------------------------------------------ simulation.py
r("is-done-single", "simulation.py", ('''            if (max_time is not None) and (max_steps is not None):
                is_done = lambda model: (not model.running) or (model.schedule.time >= max_time) or (model.schedule.steps >= max_steps)
            elif max_time is not None:
                is_done = lambda model: (not model.running) or (model.schedule.time >= max_time)
            elif max_steps is not None:
                is_done = lambda model: (not model.running) or (model.schedule.steps >= max_steps)
            else:
                is_done = lambda model: not model.running
''', '''            def is_done(model):
                if not model.running:
                    return True
                if max_time is not None and model.schedule.time >= max_time:
                    return True
                return max_steps is not None and model.schedule.steps >= max_steps
'''))
r("run-model-helper", "simulation.py", ('''            while not is_done(model):
                self.logger.debug(
                    f'Simulation time {model.schedule.time}/{max_time}.'
                )
                model.step()

        return model
''', '''            self._advance(model, is_done)

        return model

    def _advance(self, model, is_done):
        while True:
            if is_done(model):
                return
            self.logger.debug(
                f'Simulation time {model.schedule.time}/{self.max_time}.'
            )
            model.step()
'''))
r("collect-params-comp", "simulation.py", ('''        parameters = []
        if self.matrix:
            assert isinstance(self.matrix, dict)
            for values in product(*(self.matrix.values())):
                parameters.append({**self.parameters, **dict(zip(self.matrix.keys(), values))})
        elif self.parameters:
            parameters.append(self.parameters)

        if not parameters:
            parameters = [{}]
''', '''        parameters = []
        if self.matrix:
            assert isinstance(self.matrix, dict)
            names = list(self.matrix)
            parameters = [dict(self.parameters, **dict(zip(names, values))) for values in product(*self.matrix.values())]
        elif self.parameters:
            parameters = [self.parameters]

        parameters = parameters or [{}]
'''))
r("run-helper-id", "simulation.py", ('''            sha = hashlib.sha256()
            sha.update(repr(sorted(params.items())).encode())
            params_id = sha.hexdigest()[:7]
''', '''            params_id = self._params_id(params)
'''), ('''    def _collect_params(self):
''', '''    @staticmethod
    def _params_id(params):
        return hashlib.sha256(repr(sorted(params.items())).encode()).hexdigest()[:7]

    def _collect_params(self):
'''))
r("run-notify", "simulation.py", ('''            for env in self._run_iters_for_params(params):
                for exporter in exporters:
                    exporter.iteration_end(env, params, params_id)
                results.append(env)
''', '''            for env in self._run_iters_for_params(params):
                results.append(env)
                for exporter in exporters:
                    exporter.iteration_end(env=env, params=params, params_id=params_id)
'''))
r("get-env-merge", "simulation.py", ('''        agent_reporters = dict(self.agent_reporters or {})
        agent_reporters.update(params.pop("agent_reporters", {}))
        model_reporters = dict(self.model_reporters or {})
        model_reporters.update(params.pop("model_reporters", {}))
''', '''        agent_reporters = {**(self.agent_reporters or {}), **params.pop("agent_reporters", {})}
        model_reporters = {**(self.model_reporters or {}), **params.pop("model_reporters", {})}
'''))
r("iter-queued", "simulation.py", ('''    while _QUEUED:
        (cls, params) = _QUEUED.pop(0)
        yield replace(cls, parameters=params, matrix={})
''', '''    while len(_QUEUED) > 0:
        sim, params = _QUEUED.pop(0)
        queued = replace(sim, parameters=params, matrix={})
        yield queued
'''))
r("run-iters-plain", "simulation.py", ('''                if self.dry_run:
                    def func(*args, **kwargs):
                        return None
                else:
                    func = self._run_model

                for env in tqdm(utils.run_parallel(
                    func=func,
                    iterable=range(self.iterations),
                    **params,
                ), total=self.iterations, leave=False):
                    if env is None and self.dry_run:
                        continue

                    yield env
''', '''                func = self._do_nothing if self.dry_run else self._run_model
                envs = utils.run_parallel(func=func, iterable=range(self.iterations), **params)
                for env in tqdm(envs, total=self.iterations, leave=False):
                    if not self.dry_run or env is not None:
                        yield env
'''), ('''    def _get_env(self''', '''    @staticmethod
    def _do_nothing(*args, **kwargs):
        return None

    def _get_env(self'''))
# ------------------------------------------------------------------ utils.py
r("backup-count", "utils.py", ('''    base, ix = newpath, 0
    while os.path.exists(newpath):
        ix += 1
        newpath = f"{base}_{ix}"
    if remove:
        move(path, newpath)
    else:
        copyfile(path, newpath)
    return newpath
''', '''    newpath = _unused(newpath)
    transfer = move if remove else copyfile
    transfer(path, newpath)
    return newpath


def _unused(path):
    candidate = path
    ix = 0
    while os.path.exists(candidate):
        ix += 1
        candidate = f"{path}_{ix}"
    return candidate
'''))
r("flatten-nested", "utils.py", ('''    if prefix:
        prefix = prefix + "."
    for k, v in d.items():
        # print(k, v)
        res = list(_flatten_dict(v, prefix="{}{}".format(prefix, k)))
        # print('RES:', res)
        yield from res
''', '''    start = f"{prefix}." if prefix else ""
    for k, v in d.items():
        yield from _flatten_dict(v, prefix=f"{start}{k}")
'''))
r("unflatten-setdefault", "utils.py", ('''        for token in tokens[:-1]:
            if token not in target:
                target[token] = {}
            target = target[token]
        target[tokens[-1]] = v
''', '''        *parents, last = tokens
        for token in parents:
            target = target.setdefault(token, {})
        target[last] = v
'''))
r("safe-open", "utils.py", ('''    outdir = os.path.dirname(path)
    if outdir and not os.path.exists(outdir):
        os.makedirs(outdir)
    if backup and "w" in mode:
        try_backup(path)
    return open(path, mode=mode, **kwargs)
''', '''    truncates = "w" in mode
    if backup and truncates:
        try_backup(path)
    folder = os.path.dirname(path)
    if folder:
        os.makedirs(folder, exist_ok=True)
    return open(path, mode=mode, **kwargs)
'''))
# ------------------------------------------------------------------ serialization.py
r("serialize-dict-comp", "serialization.py", ('''    for (k, v) in reversed(list(d.items())):
        if isinstance(v, (dict, list, type)):
            d[k] = serialize_dict(v, known_modules=known_modules)
    return d
''', '''    return {
        k: serialize_dict(v, known_modules=known_modules) if isinstance(v, (dict, list, type)) else v
        for (k, v) in d.items()
    }
'''))
r("serialize-dict-list", "serialization.py", ('''        return [serialize_dict(v, known_modules=known_modules) for v in d]
''', '''        out = []
        for v in d:
            out.append(serialize_dict(v, known_modules=known_modules))
        return out
'''))
r("deserialize-all-comp", "serialization.py", ('''    objects = []
    for name in names:
        mod = deserialize(name, known_modules=known_modules)
        objects.append(mod(*args, **kwargs))
    return objects
''', '''    return [deserialize(name, known_modules=known_modules)(*args, **kwargs) for name in names]
'''))
r("with-source-split", "serialization.py", ('''    if file:
        file = os.path.abspath(file)
        if file not in _SOURCE_USES:
            _add_source_file(file)
        _SOURCE_USES[file] = _SOURCE_USES.get(file, 0) + 1
    try:
        yield
    finally:
        if file:
            _SOURCE_USES[file] -= 1
            if not _SOURCE_USES[file]:  # The last use is responsible for removing the file
                del _SOURCE_USES[file]
                _remove_source_file(file)
''', '''    if not file:
        yield
        return
    file = os.path.abspath(file)
    uses = _SOURCE_USES.get(file, 0)
    if not uses:
        _add_source_file(file)
    _SOURCE_USES[file] = uses + 1
    try:
        yield
    finally:
        left = _SOURCE_USES[file] - 1
        if left:
            _SOURCE_USES[file] = left
        else:
            del _SOURCE_USES[file]
            _remove_source_file(file)
'''))
r("name-helper", "serialization.py", ('''    for kmod in [] if hasattr(builtins(), tname) else known_modules:
        module = get_module(kmod)
        if hasattr(module, tname):
            if getattr(module, tname) is value:
                return tname
            break
    return "{}.{}".format(modname, tname)
''', '''    if not hasattr(builtins(), tname):
        for kmod in known_modules:
            module = get_module(kmod)
            if not hasattr(module, tname):
                continue
            if getattr(module, tname) is value:
                return tname
            break
    return f"{modname}.{tname}"
'''))
r("deserializer-try", "serialization.py", ('''    errors = []
    for modname, tname in options:
        try:
            module = get_module(modname)
            cls = getattr(module, tname)
            return getattr(cls, "deserialize", cls)
        except (ImportError, AttributeError) as ex:
            errors.append((modname, tname, ex))
    raise ValueError('Could not find type "{}". Tried: {}'.format(type_, errors))
''', '''    errors = []
    for option in options:
        (modname, tname) = option
        try:
            cls = getattr(get_module(modname), tname)
        except (ImportError, AttributeError) as ex:
            errors.append((modname, tname, ex))
        else:
            return getattr(cls, "deserialize", cls)
    raise ValueError(f'Could not find type "{type_}". Tried: {errors}')
'''))
# ------------------------------------------------------------------ exporters.py
r("sqlite-order", "exporters.py", ('''        if self.simulation.backup:
            try_backup(self.dbpath, remove=True)
        
        if self.simulation.overwrite:
            if os.path.exists(self.dbpath):
                os.remove(self.dbpath)
''', '''        if self.simulation.backup:
            try_backup(self.dbpath, remove=True)

        if self.simulation.overwrite and os.path.exists(self.dbpath):
            os.remove(self.dbpath)
'''))
r("default-notify", "exporters.py", ('''    def sim_start(self, *args, **kwargs):
        for exporter in self.inner:
            exporter.sim_start(*args, **kwargs)

    def sim_end(self, *args, **kwargs):
        for exporter in self.inner:
            exporter.sim_end(*args, **kwargs)

    def iteration_end(self, *args, **kwargs):
        for exporter in self.inner:
            exporter.iteration_end(*args, **kwargs)''', '''    def _notify(self, event, *args, **kwargs):
        for exporter in self.inner:
            getattr(exporter, event)(*args, **kwargs)

    def sim_start(self, *args, **kwargs):
        self._notify("sim_start", *args, **kwargs)

    def sim_end(self, *args, **kwargs):
        self._notify("sim_end", *args, **kwargs)

    def iteration_end(self, *args, **kwargs):
        self._notify("iteration_end", *args, **kwargs)'''))
r("output-split", "exporters.py", ('''        if not self.dump:
            f = DryRunner(f, copy_to=self.copy_to)
        else:
            try:
                if not os.path.isabs(f):
                    f = os.path.join(self.outdir, f)
            except TypeError:
                pass
        return open_or_reuse(f, mode=mode, backup=self.simulation.backup, **kwargs)
''', '''        target = self._target(f)
        return open_or_reuse(target, mode=mode, backup=self.simulation.backup, **kwargs)

    def _target(self, f):
        if not self.dump:
            return DryRunner(f, copy_to=self.copy_to)
        try:
            return f if os.path.isabs(f) else os.path.join(self.outdir, f)
        except TypeError:
            return f
'''))
# ------------------------------------------------------------------ SISaModel.py
r("sisa-locals", "agents/SISaModel.py", ('''        # Healing
        if self.prob(self.discontent_neutral):
            return self.neutral

        # Superinfected
        content_neighbors = self.count_neighbors(state_id=self.content.id)
        if self.prob(content_neighbors * self.discontent_content):
            return self.content
        return self.discontent
''', '''        if self.prob(self.discontent_neutral):
            return self.neutral
        if self._contagion(self.content, self.discontent_content):
            return self.content
        return self.discontent

    def _contagion(self, state, probability):
        return self.prob(probability * self.count_neighbors(state_id=state.id))
'''))


def attempt(x):
    name, file, edits = x
    work = tempfile.mkdtemp(prefix="ref")
    res = dict(name=name, file=file)
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "docs", "soil_output", "__pycache__"))
        path = os.path.join(repo, "soil", file)
        with open(path) as f:
            src = f.read()
        for old, new in edits:
            if src.count(old) < 1:
                return dict(res, result="DOES NOT APPLY", what=old[:200])
            src = src.replace(old, new, 1)
        with open(path, "w") as f:
            f.write(src)
        run = os.path.join(work, "run")
        os.mkdir(run)
        out = os.path.join(work, "a.json")
        sh([PY, "-m", "contracts.run", "all", "--jobs", "2", "--out", out], run, 900, SOIL_REPO=repo)
        a = load(out) or dict(contracts=[], errors=["no answer"])
        res["refuted"] = sorted({f"{c['name']}: {r['obligation']}: {r.get('info')}"[:300] for c in a["contracts"] for r in c["refuted"]})
        res["undecided"] = [f"{c['name']}: {u}"[:300] for c in a["contracts"] for u in c["undecided"]] + a["errors"] + \
            [f"{c['name']}: unknown {u['obligation']}" for c in a["contracts"] for u in c["unknown"]]
        again = [c["name"] for c in a["contracts"] if c["undecided"] or c["unknown"]]
        for bound in (1, 2, 3) if again else ():
            sh([PY, "-m", "contracts.run", "all", "--jobs", "3", "--out", out, "--bound", str(bound), "--names", ",".join(again)], run, 900, SOIL_REPO=repo)
            res["refuted"] += sorted({f"bound {bound}: {c['name']}: {r['obligation']}: {r.get('info')}"[:300] for c in (load(out) or dict(contracts=[]))["contracts"] for r in c["refuted"]})
        bad = []
        for p in PROPS[file].split():
            out = os.path.join(work, "b.json")
            if os.path.exists(out):
                os.remove(out)
            sh([PY, "-m", "concrete.run", p, "--seed", "1000", "--runs", "150", "--budget", "8", "--out", out], run, 60, SOIL_REPO=repo)
            b = load(out)
            if b is None:
                bad.append(f"{p}: no answer")
            elif b["failures"] or b["errors"]:
                bad.append(f"{p}: {(b['failures'] or b['errors'])[0]}"[:600])
        res["concrete"] = bad
        res["tests"] = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", *stable()], repo, 200, PYTHONPATH=repo, MPLBACKEND="Agg")
        res["result"] = "ALARM" if res["refuted"] or bad else "TESTS" if res["tests"] else "undecided" if res["undecided"] else "quiet"
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    todo = [x for x in R if not a.only or any(k in x[0] for k in a.only.split(","))]
    with ThreadPoolExecutor(a.jobs) as ex:
        for res in ex.map(attempt, todo):
            print(f"{res['result']}: {res['name']} ({res['file']})", flush=True)
            for k in ("what", "refuted", "concrete", "undecided"):
                for v in res.get(k) or [] if k != "what" else [res["what"]] if k in res else []:
                    print("   ", k, v, flush=True)


if __name__ == "__main__":
    main()
