From 399704f317315d545c2c9319fb234033914dc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 01/42] fix: honour the requested time when adding an agent to
 a scheduler

The time was passed as the `replace` argument, so it was ignored by the bucket
scheduler, and it dropped another agent from the queue in the priority queue
scheduler.
---
 soil/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 9d73781..b6e9327 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -59,9 +59,9 @@ class PQueueActivation(DiscreteActivation):
         if when is None:
             when = self.time
         else:
-            when = float(when)
+            when = max(float(when), self.time)
 
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
@@ -131,8 +131,8 @@ class TimedActivation(DiscreteActivation):
         if when is None:
             when = self.time
         else:
-            when = float(when)
-        self._schedule(agent, None, when)
+            when = max(float(when), self.time)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-- 
2.43.0


From 08e9de051381063d5ed7863e6d6329c3617a42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 02/42] fix: do not lose or repeat agents when the queue
 changes during an activation

The priority queue scheduler assumed that the agent being activated was still at
the head of the heap after its step, which is not the case when that step adds
other agents.
---
 soil/time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index b6e9327..1ba8929 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -95,18 +95,19 @@ class PQueueActivation(DiscreteActivation):
                 next_time = when
                 break
 
+            # The queue may change while the agent is being activated
+            heappop(self._queue)
+
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
-                heappop(self._queue)
                 continue
 
             if when == INFINITY:
-                heappop(self._queue)
                 continue
 
-            self._schedule(agent, when, replace=True)
+            self._schedule(agent, when)
 
         self.steps += 1
 
-- 
2.43.0


From b625ea3f2d8ce1d4816f589ebb431d2adcf9bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 03/42] fix: read the default interval from the right model
 attribute

---
 soil/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index 1ba8929..1eed368 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -37,7 +37,7 @@ class DiscreteActivation(BaseScheduler):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
-            self.default_interval = self.model.interval
+            self.default_interval = self.model.default_interval
 
 
 class PQueueActivation(DiscreteActivation):
-- 
2.43.0


From 5b8013928198401dacb7d60d40d1393ba5f6b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 04/42] fix: stop the model when there are no more scheduled
 agents

Otherwise, simulations without a time limit never end once all the agents are
dead.
---
 soil/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/time.py b/soil/time.py
index 1eed368..c0cc3ee 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -182,6 +182,7 @@ class TimedActivation(DiscreteActivation):
             self.time = self._queue[0][0]
         else:
             self.time = INFINITY
+            self.model.running = False
 
 
 class ShuffledTimedActivation(TimedActivation):
-- 
2.43.0


From 2d52076994b5ae15ca3da99d1a51508668f490d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 05/42] fix: reject requests to be activated in the past

They made the clock of the simulation go backwards.
---
 soil/time.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index c0cc3ee..872c5f3 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -104,6 +104,9 @@ class PQueueActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
+            if when < now:
+                raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")
+
             if when == INFINITY:
                 continue
 
@@ -174,6 +177,9 @@ class TimedActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
+            if when < now:
+                raise ValueError(f"Cannot schedule an agent for a time in the past ({when} < {now})")
+
             if when != INFINITY:
                 self._schedule(agent, when, replace=True)
 
-- 
2.43.0


From a3219ce957e31c44be065b64533ca0e27f36c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 06/42] fix: do not activate dead agents

An agent that was killed by another agent (or itself) could still run its step
function, or resume it if it was a generator or coroutine.
---
 soil/agents/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 08f71b5..b44dae5 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -28,6 +28,7 @@ IGNORED_FIELDS = ("model", "logger")
 def decorate_generator_step(func, name):
     @wraps(func)
     def decorated(self):
+        self._check_alive()
         while True:
             if self._coroutine is None:
                 self._coroutine = func(self)
@@ -49,6 +50,7 @@ def decorate_generator_step(func, name):
 def decorate_normal_func(func, name):
     @wraps(func)
     def decorated(self):
+        self._check_alive()
         val = func(self)
         return float(val) if val is not None else val
     return decorated
-- 
2.43.0


From c1f845512bd2f72bb21d253286f487542385de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 07/42] fix: apply every criterion when filtering agents

Only the last attribute was taken into account, because of late binding in the
filters. The dictionary given by the user was modified, and an empty list of ids
selected every agent.
---
 soil/agents/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index b44dae5..1a57924 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -456,7 +456,7 @@ def filter_agents(
     if id_args:
         ids += id_args
 
-    if ids:
+    if unique_id is not None or ids:
         f = (agent for agent in agents if agent.unique_id in ids)
     else:
         f = agents
@@ -477,13 +477,13 @@ def filter_agents(
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
 
-    state = state or dict()
+    state = dict(state or {})
     state.update(kwargs)
 
     for k, vs in state.items():
         if not isinstance(vs, list):
             vs = [vs]
-        f = filter(lambda agent: any(getattr(agent, k, None) == v for v in vs), f)
+        f = filter(lambda agent, k=k, vs=vs: any(getattr(agent, k, None) == v for v in vs), f)
 
     if limit is not None:
         f = islice(f, limit)
-- 
2.43.0


From 8c17b29673a754aedb88f21fef642ce03c8e9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 08/42] fix: allow agents to be added or killed while iterating
 over them

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 1a57924..1889da6 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -277,7 +277,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return list(it)
 
     def iter_agents(self, *args, **kwargs):
-        yield from filter_agents(self.model.schedule._agents, *args, **kwargs)
+        yield from filter_agents(self.model.schedule.agents, *args, **kwargs)
 
     def __str__(self):
         return self.to_str()
-- 
2.43.0


From 9b840747f167e955540cb2826f67180b2f1fb376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 09/42] fix: iterate over agent views and get agents from them
 by id

---
 soil/agents/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 1889da6..11625d6 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -403,13 +403,14 @@ class AgentView(Mapping, Set):
         return len(self._agents)
 
     def __iter__(self):
-        yield from self._agents.values()
+        yield from self._agents
 
     def __getitem__(self, agent_id):
         if isinstance(agent_id, slice):
             raise ValueError(f"Slicing is not supported")
-        if agent_id in self._agents:
-            return self._agents[agent_id]
+        for agent in self._agents:
+            if agent.unique_id == agent_id:
+                return agent
         raise ValueError(f"Agent {agent_id} not found")
 
     def filter(self, *args, **kwargs):
-- 
2.43.0


From 90479f463f6e47b2358e761d92aa0d2dc0078c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 10/42] fix: take the unique_id into account when looking for
 agents in a network

---
 soil/agents/network_agents.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 2d0a948..cbb3363 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -38,7 +38,7 @@ class NetworkAgent(BaseAgent):
 
     def iter_agents(self, unique_id=None, *, limit_neighbors=False, **kwargs):
         unique_ids = None
-        if unique_ids is not None:
+        if unique_id is not None:
             try:
                 unique_ids = set(unique_id)
             except TypeError:
@@ -50,12 +50,13 @@ class NetworkAgent(BaseAgent):
                 agent = self.G.nodes[node_id].get("agent")
                 if agent is not None:
                     neighbor_ids.add(agent.unique_id)
-            if unique_ids:
+            if unique_ids is not None:
                 unique_ids = unique_ids & neighbor_ids
             else:
                 unique_ids = neighbor_ids
             if not unique_ids:
                 return
+        if unique_ids is not None:
             unique_ids = list(unique_ids)
         yield from super().iter_agents(unique_id=unique_ids, **kwargs)
 
-- 
2.43.0


From 6c9eded1e5ad56156fd051b6160d6ab578f3a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 11/42] fix: assign network agents to a free node whenever
 there is one

Nodes were sampled with replacement, so free nodes could be missed. When no node
was free, the id of the new node could be that of an existing (and assigned) node.
---
 soil/agents/network_agents.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index cbb3363..efb486e 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -8,13 +8,16 @@ class NetworkAgent(BaseAgent):
         self.G = topology or self.model.G
         assert self.G is not None, "Network agents should have a network"
         if node_id is None:
-            nodes = self.random.choices(list(self.G.nodes), k=len(self.G))
+            nodes = list(self.G.nodes)
+            self.random.shuffle(nodes)
             for n_id in nodes:
                 if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
                     node_id = n_id
                     break
             else:
                 node_id = len(self.G)
+                while node_id in self.G:
+                    node_id += 1
                 self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                 self.G.add_node(node_id)
         assert node_id is not None
-- 
2.43.0


From 013bbe918dcbd99f66a6f90890ac00548c5628bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 12/42] fix: add agents to a topology without specifying a node

---
 soil/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 743da85..e9c5538 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -292,7 +292,8 @@ class NetworkEnvironment(BaseEnvironment):
         except TypeError:
             self.logger.warning(f"Agent constructor for {agent_class} does not have a node_id attribute. Might be a bug.")
             a = super().add_agent(agent_class, *args, **kwargs)
-        self.G.nodes[node_id]["agent"] = a
+        if node_id is not None:
+            self.G.nodes[node_id]["agent"] = a
         return a
 
     def add_agents(self, *args, k=None, **kwargs):
-- 
2.43.0


From 9807d799247ca3b98ceaded9c0256d5461b8639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 13/42] fix: link nodes to the agent with the given agent_id

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index e9c5538..6bf2d40 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -364,7 +364,7 @@ class NetworkEnvironment(BaseEnvironment):
         """
         for (id, data) in self.G.nodes(data=True):
             if "agent_id" in data:
-                agent = self.get_agents(data["agent_id"])
+                agent = self.agent(data["agent_id"])
                 self.G.nodes[id]["agent"] = agent
                 assert not getattr(agent, "node_id", None) or agent.node_id == id
                 agent.node_id = id
-- 
2.43.0


From be090bceb1ebe6771f128f56142ad764590d630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:37 +0000
Subject: [PATCH 14/42] fix: infinite recursion in agent reporters that are
 limited to a type of agent

---
 soil/environment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 6bf2d40..f401c3b 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -207,11 +207,12 @@ class BaseEnvironment(Model):
         self.datacollector._new_model_reporter(name, func)
 
     def add_agent_reporter(self, name, reporter=None, agent_type=None):
-        if not agent_type and not reporter:
+        if not reporter:
             reporter = name
-        elif agent_type:
-            reporter = lambda a: reporter(a) if isinstance(a, agent_type) else None
         self.datacollector._new_agent_reporter(name, reporter)
+        if agent_type:
+            inner = self.datacollector.agent_reporters[name]
+            self.datacollector.agent_reporters[name] = lambda a: inner(a) if isinstance(a, agent_type) else None
 
     @classmethod
     def run(cls, *,
-- 
2.43.0


From 2edfd919aa484224df1f9b8f9deb00ef258641cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 15/42] fix: return the messages that have been received

The inbox itself was returned, and it is emptied when the messages are processed.
---
 soil/agents/evented.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 5cf69dc..7d81783 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -20,10 +20,7 @@ class EventedAgent(BaseAgent):
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-                msgs = self._inbox
-                if process:
-                    self.process_messages()
-                return msgs
+                return self.process_messages() if process else list(self._inbox)
             yield self.delay(delay)
         raise TimedOut("No message received")
 
-- 
2.43.0


From 6caf280d63983fa71cab8d010ff5f42372a01c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 16/42] fix: deliver falsy replies to the agent that asked, and
 respect the expiration

---
 soil/agents/evented.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 7d81783..20f0e40 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -31,9 +31,10 @@ class EventedAgent(BaseAgent):
     def ask(self, msg, expiration=None, timeout=None, delay=1):
         ask = Ask(timestamp=self.now, payload=msg, sender=self)
         self._inbox.append(ask)
-        expiration = float("inf") if timeout is None else self.now + timeout
+        if expiration is None:
+            expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
-            if ask.reply:
+            if ask.reply is not None:
                 return ask.reply
             yield self.delay(delay)
         raise TimedOut("No reply received")
-- 
2.43.0


From d83567676a95dedf6b881a5f401a639df8f5ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 17/42] fix: keep the messages that arrive while processing the
 inbox

---
 soil/agents/evented.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 20f0e40..24e1662 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -41,7 +41,8 @@ class EventedAgent(BaseAgent):
 
     def process_messages(self):
         valid = list()
-        for msg in self._inbox:
+        for _ in range(len(self._inbox)):
+            msg = self._inbox.popleft()
             self._processed += 1
             if msg.expired(self.now):
                 continue
@@ -49,7 +50,6 @@ class EventedAgent(BaseAgent):
             reply = self.on_receive(msg.payload, sender=msg.sender)
             if isinstance(msg, Ask):
                 msg.reply = reply
-        self._inbox.clear()
         return valid
 
 
-- 
2.43.0


From a3d74f94a6ca18d5b33b9c1d35029fbb494dcd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 18/42] fix: allow state ids with two characters

---
 soil/agents/fsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 85a5fb5..6133894 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -144,6 +144,8 @@ class FSM(BaseAgent, metaclass=MetaFSM):
         next_state = yield from self._state.step(self)
 
         try:
+            if isinstance(next_state, str):
+                raise ValueError("A state id is not a (state, delay) pair")
             next_state, when = next_state
         except (TypeError, ValueError) as ex:
             try:
-- 
2.43.0


From 642161a47ca485fe875a876da5ea4421ca1f009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 19/42] fix: do not leak reporters from one environment to the
 next ones

---
 soil/datacollection.py | 4 ++--
 soil/simulation.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index 9687435..aa40e63 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -3,8 +3,8 @@ from mesa import DataCollector as MDC
 
 class SoilCollector(MDC):
     def __init__(self, model_reporters=None, agent_reporters=None, tables=None, **kwargs):
-        model_reporters = model_reporters or {}
-        agent_reporters = agent_reporters or {}
+        model_reporters = dict(model_reporters or {})
+        agent_reporters = dict(agent_reporters or {})
         tables = tables or {}
         if 'agent_count' not in model_reporters:
             model_reporters['agent_count'] = lambda m: m.schedule.get_agent_count()
diff --git a/soil/simulation.py b/soil/simulation.py
index 389207b..cfbd58f 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -217,9 +217,9 @@ class Simulation:
 
         iteration_id = str(iteration_id)
 
-        agent_reporters = self.agent_reporters
+        agent_reporters = dict(self.agent_reporters or {})
         agent_reporters.update(params.pop("agent_reporters", {}))
-        model_reporters = self.model_reporters
+        model_reporters = dict(self.model_reporters or {})
         model_reporters.update(params.pop("model_reporters", {}))
 
         return self.model(
-- 
2.43.0


From c17c06d5e2b89d367c3a65da8adb83b817296ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 20/42] fix: combine the parameters of a simulation with every
 combination in its matrix

The base parameters were run as an additional configuration, and they were not
used in the configurations of the matrix.
---
 soil/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index cfbd58f..cd12142 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -174,12 +174,12 @@ class Simulation:
     def _collect_params(self):
 
         parameters = []
-        if self.parameters:
-            parameters.append(self.parameters)
         if self.matrix:
             assert isinstance(self.matrix, dict)
             for values in product(*(self.matrix.values())):
-                parameters.append(dict(zip(self.matrix.keys(), values)))
+                parameters.append({**self.parameters, **dict(zip(self.matrix.keys(), values))})
+        elif self.parameters:
+            parameters.append(self.parameters)
 
         if not parameters:
             parameters = [{}]
-- 
2.43.0


From 2b5c1415b86c68b21d679bd7352a6415002adcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 21/42] fix: do not expand the matrix twice in queued
 simulations

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index cd12142..51f27ce 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -45,7 +45,7 @@ def do_not_run():
 def _iter_queued():
     while _QUEUED:
         (cls, params) = _QUEUED.pop(0)
-        yield replace(cls, parameters=params)
+        yield replace(cls, parameters=params, matrix={})
 
 
 # TODO: change documentation for simulation
-- 
2.43.0


From 17cc989bdc1ba27fa66d54ca3ec8b217392c6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 22/42] fix: do not alter lists of values when serializing a
 configuration

Numbers in a list were converted to strings, strings of length two (or empty)
into dictionaries, and the original list was modified.
---
 soil/serialization.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6b70554..e948fa3 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -197,18 +197,19 @@ def serialize(v, known_modules=KNOWN_MODULES):
 
 
 def serialize_dict(d, known_modules=KNOWN_MODULES):
+    if d is None or isinstance(d, (str, bool, int, float)):
+        return d
+    if isinstance(d, list):
+        return [serialize_dict(v, known_modules=known_modules) for v in d]
+    if isinstance(d, type):
+        return serialize(d, known_modules=known_modules)[1]
     try:
         d = dict(d)
     except (ValueError, TypeError) as ex:
         return serialize(d)[0]
     for (k, v) in reversed(list(d.items())):
-        if isinstance(v, dict):
+        if isinstance(v, (dict, list, type)):
             d[k] = serialize_dict(v, known_modules=known_modules)
-        elif isinstance(v, list):
-            for ix in range(len(v)):
-                v[ix] = serialize_dict(v[ix], known_modules=known_modules)
-        elif isinstance(v, type):
-            d[k] = serialize(v, known_modules=known_modules)[1]
     return d
 
 
-- 
2.43.0


From 9b27e84d2dc5ace4405c3ddcf8ac9359822d51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 23/42] fix: honour the output option of the command line
 interface

---
 soil/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index a4ce59d..10faaa6 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -180,8 +180,7 @@ def main(
         sys.path.append(os.getcwd())
     if args.module:
         importlib.import_module(args.module)
-    if output is None:
-        output = args.output
+    output = args.output
 
     debug = debug or args.debug
 
-- 
2.43.0


From 5f5fcd603abef4d66bc57e3e24e2130f86ef6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 24/42] fix: transitions to the discontent state in the SISa
 model

Content agents never became discontent, discontent neighbours were not counted,
and the probability to go from content to neutral was not used.
---
 soil/agents/SISaModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index b5dbbe3..f6cf475 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -64,7 +64,7 @@ class SISaModel(Agent):
             self.model.content_discontent, self.model.variance_c_d
         )
         self.content_neutral = random.normal(
-            self.model.discontent_neutral, self.model.standard_variance
+            self.model.content_neutral, self.model.standard_variance
         )
 
     @default_state
@@ -77,7 +77,7 @@ class SISaModel(Agent):
             return self.content
 
         # Infected
-        discontent_neighbors = self.count_neighbors(state_id=self.discontent)
+        discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.neutral_discontent_infected_prob):
             return self.discontent
         content_neighbors = self.count_neighbors(state_id=self.content.id)
@@ -106,5 +106,5 @@ class SISaModel(Agent):
         # Superinfected
         discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.content_discontent):
-            self.discontent
+            return self.discontent
         return self.content
-- 
2.43.0


From a1a66167e38d5154b9ded877583b5ae09f88abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 25/42] fix: do not reuse the module name of another source
 file

---
 soil/serialization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index e948fa3..6faf272 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -124,7 +124,10 @@ def _add_source_file(file):
     if file in MODULE_FILES:
         logger.warning(f"File {file} already added as module {MODULE_FILES[file]}. Reloading")
         _remove_source_file(file)
-    modname = f"imported_module_{len(MODULE_FILES)}"
+    ix = len(MODULE_FILES)
+    while f"imported_module_{ix}" in KNOWN_MODULES:
+        ix += 1
+    modname = f"imported_module_{ix}"
     loader = importlib.machinery.SourceFileLoader(modname, file)
     spec = importlib.util.spec_from_loader(loader.name, loader)
     my_module = importlib.util.module_from_spec(spec)
-- 
2.43.0


From a972fb648f691368021816f8cb54c16d65c2271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 26/42] fix: do not share the topology between environments

Otherwise, the agents of the first iteration stay in the nodes of the graph in
the rest of them.
---
 soil/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/network.py b/soil/network.py
index 6fac221..22ef039 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -14,7 +14,7 @@ def from_topology(topology, dir_path: str = None):
     if topology is None:
         return nx.Graph()
     if isinstance(topology, nx.Graph):
-        return topology
+        return topology.copy()
 
     # If it's a dict, assume it's a node-link graph
     if isinstance(topology, dict):
-- 
2.43.0


From 995a02177f1985cb370a16cf17ed89b01f91534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 27/42] fix: do not overwrite previous backups of a file

---
 soil/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/utils.py b/soil/utils.py
index 3a00a9b..7518934 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -60,6 +60,10 @@ def try_backup(path, remove=False):
     if not os.path.exists(backup_dir):
         os.makedirs(backup_dir)
     newpath = os.path.join(backup_dir, "{}@{}".format(os.path.basename(path), stamp))
+    base, ix = newpath, 0
+    while os.path.exists(newpath):
+        ix += 1
+        newpath = f"{base}_{ix}"
     if remove:
         move(path, newpath)
     else:
-- 
2.43.0


From a42d3a125cfe6d5613682a0b00f45665c40c2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 28/42] fix: create the output directory of the SQLite exporter

---
 soil/exporters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index 8986453..b009656 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -127,6 +127,7 @@ class SQLite(Exporter):
 
         self.dbpath = os.path.join(self.outdir, f"{self.simulation.name}.sqlite")
         logger.info("Dumping results to %s", self.dbpath)
+        os.makedirs(self.outdir, exist_ok=True)
         if self.simulation.backup:
             try_backup(self.dbpath, remove=True)
         
-- 
2.43.0


From 85fd2b304fa7ccd14c909e06b172c51e0c0abe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 29/42] fix: use the full name of classes that share their name
 with a known class

Otherwise, a different class was loaded when deserializing that name.
---
 soil/serialization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6faf272..0d97550 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -172,17 +172,17 @@ def name(value, known_modules=KNOWN_MODULES):
     if not isinstance(value, type):  # Get the class name first
         value = type(value)
     tname = value.__name__
-    if hasattr(builtins(), tname):
+    if getattr(builtins(), tname, None) is value:
         return tname
     modname = value.__module__
     if modname == "__main__":
         return tname
-    if known_modules and modname in known_modules:
-        return tname
-    for kmod in known_modules:
+    for kmod in [] if hasattr(builtins(), tname) else known_modules:
         module = get_module(kmod)
         if hasattr(module, tname):
-            return tname
+            if getattr(module, tname) is value:
+                return tname
+            break
     return "{}.{}".format(modname, tname)
 
 
-- 
2.43.0


From ce237e5a5e19269ff6706bfa3146835093a79bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 30/42] fix: nested use of the same source file

---
 soil/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/serialization.py b/soil/serialization.py
index 0d97550..6184cc9 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -149,6 +149,8 @@ def _remove_source_file(file):
 @contextmanager
 def with_source(file=None):
     """Add a file to the list of known modules, and remove it afterwards"""
+    if file and os.path.abspath(file) in MODULE_FILES:
+        file = None  # The outermost context is responsible for the file
     if file:
         _add_source_file(file)
     try:
-- 
2.43.0


From 98d4ee2a0eea5ec64f0ecfe259e616b3b5f5e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:14 +0000
Subject: [PATCH 31/42] fix: respect an explicit expiration of zero when
 waiting for messages

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 24e1662..284791c 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -16,7 +16,7 @@ class EventedAgent(BaseAgent):
 
     @coroutine
     def received(self, expiration=None, timeout=60, delay=1, process=True):
-        if not expiration:
+        if expiration is None:
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-- 
2.43.0


From 2859fad2a3b4d86e2d93b2379fd23f34fb3635d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:26 +0000
Subject: [PATCH 32/42] fix: do not change the state of an agent if its delay
 is not valid

---
 soil/agents/fsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 6133894..58ba69a 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -154,6 +154,8 @@ class FSM(BaseAgent, metaclass=MetaFSM):
             except ValueError:
                 return next_state
 
+        if when is not None:
+            when = float(when)
         self._set_state(next_state)
         return when
 
-- 
2.43.0


From 0c9122a79a91189cae6c5c7a82a5e5085a2535a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:41 +0000
Subject: [PATCH 33/42] fix: use the redefined version of an inherited default
 state

---
 soil/agents/fsm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 58ba69a..9fea72b 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -83,9 +83,8 @@ class MetaFSM(MetaAgent):
         default_state = None
         for i in bases:
             if isinstance(i, MetaFSM):
+                default_state = i._state or default_state
                 for state_id, state in i._states.items():
-                    if state.default:
-                        default_state = state
                     states[state_id] = state
 
         # Add new states
@@ -95,6 +94,10 @@ class MetaFSM(MetaAgent):
                     default_state = func
                 states[func.name] = func
 
+        if default_state:
+            # The default state may be an inherited one that has been redefined
+            default_state = states[default_state.name]
+
         namespace.update(
             {
                 "_state": default_state,
-- 
2.43.0


From 7ee9e2a14361b30a8f793bceb7f9a7eddfab3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:49 +0000
Subject: [PATCH 34/42] fix: keep a source file while any of its uses is
 ongoing

When uses of the same file were interleaved, the end of the first one made
the classes unavailable to the rest.
---
 soil/serialization.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6184cc9..6d82d99 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -118,6 +118,8 @@ KNOWN_MODULES = {
 
 MODULE_FILES = {}
 
+_SOURCE_USES = {}  # Number of ongoing uses (with_source) of each source file
+
 def _add_source_file(file):
     """Add a file to the list of known modules"""
     file = os.path.abspath(file)
@@ -149,15 +151,19 @@ def _remove_source_file(file):
 @contextmanager
 def with_source(file=None):
     """Add a file to the list of known modules, and remove it afterwards"""
-    if file and os.path.abspath(file) in MODULE_FILES:
-        file = None  # The outermost context is responsible for the file
     if file:
-        _add_source_file(file)
+        file = os.path.abspath(file)
+        if file not in _SOURCE_USES:
+            _add_source_file(file)
+        _SOURCE_USES[file] = _SOURCE_USES.get(file, 0) + 1
     try:
         yield
     finally:
         if file:
-            _remove_source_file(file)
+            _SOURCE_USES[file] -= 1
+            if not _SOURCE_USES[file]:  # The last use is responsible for removing the file
+                del _SOURCE_USES[file]
+                _remove_source_file(file)
 
 def get_module(modname):
     """Get a module from the list of known modules"""
-- 
2.43.0


From 1d4cc07d514a5fdee4cc2ec73f09bca242f74b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:03 +0000
Subject: [PATCH 35/42] fix: do not register agents that die in their
 initialization

---
 soil/environment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index f401c3b..9a87baf 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -162,7 +162,8 @@ class BaseEnvironment(Model):
 
         a = agent_class(unique_id=unique_id, model=self, **agent)
 
-        self.schedule.add(a)
+        if getattr(a, "alive", True):  # It may have died in its initialization
+            self.schedule.add(a)
         return a
 
     def add_agents(self, agent_classes: List[type], k, weights: Optional[List[float]] = None, **kwargs):
@@ -293,7 +294,7 @@ class NetworkEnvironment(BaseEnvironment):
         except TypeError:
             self.logger.warning(f"Agent constructor for {agent_class} does not have a node_id attribute. Might be a bug.")
             a = super().add_agent(agent_class, *args, **kwargs)
-        if node_id is not None:
+        if node_id is not None and getattr(a, "alive", True):
             self.G.nodes[node_id]["agent"] = a
         return a
 
@@ -406,7 +407,8 @@ class NetworkEnvironment(BaseEnvironment):
             toadd.append(dict(node_id=node_id, topology=self.G,  agent_class=cls, **agent_params))
         for d in toadd:
             a = self.add_agent(**d)
-            self.G.nodes[d["node_id"]]["agent"] = a
+            if getattr(a, "alive", True):
+                self.G.nodes[d["node_id"]]["agent"] = a
         assert all("agent" in node for (_, node) in self.G.nodes(data=True))
         assert len(list(self.network_agents))
 
-- 
2.43.0


From c88d55e8e44fae24b2235ca08e5549b4fffe2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:01 +0000
Subject: [PATCH 36/42] fix: results of runs with and without parameters can be
 stored in the same database

The table of parameters was created without columns if the first run had no parameters
---
 soil/exporters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index b009656..f622842 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -155,7 +155,8 @@ class SQLite(Exporter):
                            "params_id": params_id,
                            "iteration_id": env.id,
                            "key": k,
-                           "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=self.engine, if_exists="append")
+                           "value": serialize(v)[0]} for (k,v) in params.items()],
+                         columns=["simulation_id", "params_id", "iteration_id", "key", "value"]).to_sql("parameters", con=self.engine, if_exists="append")
 
             for (t, df) in self.get_dfs(env, params_id=params_id):
                 df.to_sql(t, con=self.engine, if_exists="append")
-- 
2.43.0


From cb60111dc8a2fa6dbb1e67596ce7e85c63b6ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:01 +0000
Subject: [PATCH 37/42] fix: read_sql does not truncate fractional values

The type of a column is that of the first iteration (e.g. the time was always
whole), and the values of the rest were converted to it
---
 soil/analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index ab7164c..e89174f 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -41,12 +41,14 @@ def read_sql(fpath=None, name=None, include_agents=False):
         fpath = f"sqlite:///{fpath}"
     engine = sqlalchemy.create_engine(fpath)
     with engine.connect() as conn:
-        env = pd.read_sql_table("env", con=conn,
+        # The type of a column in the database depends on the first values that were stored in it.
+        # Hence, use the types of the values themselves, or some of them would be truncated.
+        env = pd.read_sql_query("SELECT * FROM env", con=conn,
                                 index_col="step").reset_index().set_index([
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
-        agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+        agents = pd.read_sql_query("SELECT * FROM agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
         config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
         parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
         try:
-- 
2.43.0


From 66fcabcc1bccef2ea4cf119131ce45692d4a3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:21 +0000
Subject: [PATCH 38/42] fix: keep the limits of the configuration when running
 it from the command line

Without --max_time and --max_steps, the limits of the simulation were removed
---
 soil/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 10faaa6..c13d51a 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -248,9 +248,12 @@ def main(
             if args.only_convert:
                 print(sim.to_yaml())
                 continue
-            max_time = float(args.max_time) if args.max_time != "-1" else None
-            max_steps = float(args.max_steps) if args.max_steps != "-1" else None
-            res.append(sim.run(max_time=max_time, max_steps=max_steps))
+            limits = {}
+            if args.max_time != "-1":
+                limits["max_time"] = float(args.max_time)
+            if args.max_steps != "-1":
+                limits["max_steps"] = float(args.max_steps)
+            res.append(sim.run(**limits))
 
     except Exception as ex:
         if args.pdb:
-- 
2.43.0


From a9fbb5a44257b29ad239caf605786ef833d18d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:35 +0000
Subject: [PATCH 39/42] fix: look for the files of a configuration without a
 file in the current folder

The parent of the current folder was used
---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 51f27ce..d7174f4 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -306,7 +306,7 @@ def iter_from_config(*cfgs, **kwargs):
             d = dict(config)
             d.update(kwargs)
             if "dir_path" not in d:
-                d["dir_path"] = os.path.dirname(path)
+                d["dir_path"] = path if os.path.isdir(path) else os.path.dirname(path)
             yield Simulation(**d)
 
 
-- 
2.43.0


From 7c3550c136b045fd0aa617da4e3dd9060a01e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:36 +0000
Subject: [PATCH 40/42] fix: run_from_file runs the simulations in the files

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index d7174f4..04d0c9c 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -362,7 +362,7 @@ def from_py(pyfile):
 def run_from_file(*files, **kwargs):
     for sim in iter_from_file(*files):
         logger.info(f"Using config(s): {sim.name}")
-        sim.run_simulation(**kwargs)
+        sim.run(**kwargs)
 
 def run(env, iterations=1, num_processes=1, dump=False, name="test", **kwargs):
     return Simulation(model=env, iterations=iterations, name=name, dump=dump, num_processes=num_processes, **kwargs).run()
\ No newline at end of file
-- 
2.43.0


From 3750bf16aed5dc779af5fe9a9b42b261ff3204fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:50 +0000
Subject: [PATCH 41/42] fix: defaults of agent classes follow the resolution
 order with several base classes

With a diamond (class B redefines a default of A, class C does not, and D
inherits from B and C), the redefinition was lost: every base overrode the
ones before it, also with the values it had just inherited.
---
 soil/agents/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 11625d6..a06fc28 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -60,13 +60,8 @@ class MetaAgent(ABCMeta):
     def __new__(mcls, name, bases, namespace):
         defaults = {}
 
-        # Re-use defaults from inherited classes
-        for i in bases:
-            if isinstance(i, MetaAgent):
-                defaults.update(i._defaults)
-
         new_nmspc = {
-            "_defaults": defaults,
+            "_own_defaults": defaults,
         }
 
         for attr, func in namespace.items():
@@ -101,7 +96,13 @@ class MetaAgent(ABCMeta):
 
 
         # Add attributes for their use in the decorated functions
-        return super().__new__(mcls, name, bases, new_nmspc)
+        cls = super().__new__(mcls, name, bases, new_nmspc)
+
+        # Re-use defaults from inherited classes, in the order in which attributes are looked up
+        cls._defaults = {}
+        for i in reversed(cls.__mro__):
+            cls._defaults.update(i.__dict__.get("_own_defaults", {}))
+        return cls
 
 
 class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
-- 
2.43.0


From 8178f52d1eaf6a9bfe4a64e850a0e4b986706516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 42/42] fix: states of state machines follow the resolution
 order with several base classes

A state (or a default state) redefined in one of the bases was lost if
another of the bases had just inherited the original one.
---
 soil/agents/fsm.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 9fea72b..5edbd8f 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -78,18 +78,17 @@ def default_state(func):
 
 class MetaFSM(MetaAgent):
     def __new__(mcls, name, bases, namespace):
+        namespace["_own_states"] = [f for f in namespace.values() if isinstance(f, State)]
+
+        cls = super(MetaFSM, mcls).__new__(
+            mcls=mcls, name=name, bases=bases, namespace=namespace
+        )
+
         states = {}
-        # Re-use states from inherited classes
         default_state = None
-        for i in bases:
-            if isinstance(i, MetaFSM):
-                default_state = i._state or default_state
-                for state_id, state in i._states.items():
-                    states[state_id] = state
-
-        # Add new states
-        for attr, func in namespace.items():
-            if isinstance(func, State):
+        # Re-use states from inherited classes, in the order in which attributes are looked up
+        for i in reversed(cls.__mro__):
+            for func in i.__dict__.get("_own_states", []):
                 if func.default:
                     default_state = func
                 states[func.name] = func
@@ -98,16 +97,8 @@ class MetaFSM(MetaAgent):
             # The default state may be an inherited one that has been redefined
             default_state = states[default_state.name]
 
-        namespace.update(
-            {
-                "_state": default_state,
-                "_states": states,
-            }
-        )
-
-        cls = super(MetaFSM, mcls).__new__(
-            mcls=mcls, name=name, bases=bases, namespace=namespace
-        )
+        cls._state = default_state
+        cls._states = states
         for (k, v) in states.items():
             setattr(cls, k, v)
         return cls
-- 
2.43.0

