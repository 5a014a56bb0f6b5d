From 72def848a1568de50155422e4cf1b43c22cb0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:03 +0000
Subject: [PATCH 01/69] fix: schedulers honour the start time given to add()

The time was passed as the `replace` argument: TimedActivation ignored it, and
PQueueActivation dropped the agent at the head of its queue.
---
 soil/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 9d73781..63d7011 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -61,7 +61,7 @@ class PQueueActivation(DiscreteActivation):
         else:
             when = float(when)
 
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
@@ -132,7 +132,7 @@ class TimedActivation(DiscreteActivation):
             when = self.time
         else:
             when = float(when)
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-- 
2.43.0


From 65c2b07f5f2a53b7ea87692ab25d7cf73fb6422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:03 +0000
Subject: [PATCH 02/69] fix: schedulers read the environment's default_interval
 attribute

---
 soil/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index 63d7011..67c6692 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -37,7 +37,7 @@ class DiscreteActivation(BaseScheduler):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
-            self.default_interval = self.model.interval
+            self.default_interval = self.model.default_interval
 
 
 class PQueueActivation(DiscreteActivation):
-- 
2.43.0


From 0ed733ae313925f7796ff85bcc68088816cf8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:03 +0000
Subject: [PATCH 03/69] fix: PQueueActivation does not drop agents added during
 a step

The running agent was replaced at the head of the queue after its step, but an
agent added during that step may have become the head: it was silently lost and
the running agent was kept twice.
---
 soil/time.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 67c6692..0cf378e 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -95,18 +95,17 @@ class PQueueActivation(DiscreteActivation):
                 next_time = when
                 break
 
+            heappop(self._queue)
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
-                heappop(self._queue)
                 continue
 
             if when == INFINITY:
-                heappop(self._queue)
                 continue
 
-            self._schedule(agent, when, replace=True)
+            self._schedule(agent, when)
 
         self.steps += 1
 
-- 
2.43.0


From 7ff0720c25e3a429ab70527af012825e10348431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:21 +0000
Subject: [PATCH 04/69] fix: schedulers do not activate agents that have died

Only FSM agents were protected (they raise DeadAgent); any other agent that
called die(), or was killed by another agent, kept being activated.
---
 soil/time.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 0cf378e..9c3c420 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -96,13 +96,15 @@ class PQueueActivation(DiscreteActivation):
                 break
 
             heappop(self._queue)
+            if not getattr(agent, "alive", True):
+                continue
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
                 continue
 
-            if when == INFINITY:
+            if when == INFINITY or not getattr(agent, "alive", True):
                 continue
 
             self._schedule(agent, when)
@@ -166,13 +168,15 @@ class TimedActivation(DiscreteActivation):
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for agent in bucket:
+            if not getattr(agent, "alive", True):
+                continue
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
                 continue
 
-            if when != INFINITY:
+            if when != INFINITY and getattr(agent, "alive", True):
                 self._schedule(agent, when, replace=True)
 
         self.steps += 1
-- 
2.43.0


From 6ff3eb13e8a6c351af7f9b925cd05d9129aab481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:21 +0000
Subject: [PATCH 05/69] fix: TimedActivation stops the model when no agent is
 left to activate

As PQueueActivation does. Otherwise a simulation with max_steps, or without any
limit, never ends once every agent has died or returned INFINITY.
---
 soil/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index 9c3c420..6489a8f 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -154,6 +154,7 @@ class TimedActivation(DiscreteActivation):
         an agent will signal when it wants to be scheduled next.
         """
         if not self._queue:
+            self.model.running = False
             return
 
         now = self.time
@@ -184,6 +185,7 @@ class TimedActivation(DiscreteActivation):
             self.time = self._queue[0][0]
         else:
             self.time = INFINITY
+            self.model.running = False
 
 
 class ShuffledTimedActivation(TimedActivation):
-- 
2.43.0


From 5ca106f8c63cf88978ecdcac78852899114c7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:44 +0000
Subject: [PATCH 06/69] fix: FSM states with two-character ids can be returned
 by id

The string was unpacked as a (state, delay) pair.
---
 soil/agents/fsm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 85a5fb5..d75b4a4 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -143,6 +143,11 @@ class FSM(BaseAgent, metaclass=MetaFSM):
         self._check_alive()
         next_state = yield from self._state.step(self)
 
+        if isinstance(next_state, str):
+            # An id is never a (state, delay) pair, even if it has two characters
+            self._set_state(next_state)
+            return None
+
         try:
             next_state, when = next_state
         except (TypeError, ValueError) as ex:
-- 
2.43.0


From 00fa1404c1510dd0de42e2eae052231c5dfa4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:44 +0000
Subject: [PATCH 07/69] fix: a redefined default state replaces the inherited
 one

The agent started by executing the state function of the parent class.
---
 soil/agents/fsm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index d75b4a4..b5eecc4 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -83,9 +83,9 @@ class MetaFSM(MetaAgent):
         default_state = None
         for i in bases:
             if isinstance(i, MetaFSM):
+                if i._state is not None:
+                    default_state = i._state
                 for state_id, state in i._states.items():
-                    if state.default:
-                        default_state = state
                     states[state_id] = state
 
         # Add new states
@@ -95,6 +95,10 @@ class MetaFSM(MetaAgent):
                     default_state = func
                 states[func.name] = func
 
+        # A subclass may redefine the state it inherits as default
+        if default_state is not None:
+            default_state = states[default_state.name]
+
         namespace.update(
             {
                 "_state": default_state,
-- 
2.43.0


From 2f31295a712833aee930f4370cc620ae34b62947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 08/69] fix: received() returns the messages it has processed

It returned the inbox after emptying it, even when every message had expired.
---
 soil/agents/evented.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 5cf69dc..c4b86b5 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -20,10 +20,9 @@ class EventedAgent(BaseAgent):
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-                msgs = self._inbox
-                if process:
-                    self.process_messages()
-                return msgs
+                msgs = self.process_messages() if process else self._inbox
+                if msgs:
+                    return msgs
             yield self.delay(delay)
         raise TimedOut("No message received")
 
-- 
2.43.0


From 53232b3aa2cba5b41d263b509dfa7d0e808d1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 09/69] fix: ask() honours its expiration argument

---
 soil/agents/evented.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index c4b86b5..a08fb44 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -33,7 +33,8 @@ class EventedAgent(BaseAgent):
     def ask(self, msg, expiration=None, timeout=None, delay=1):
         ask = Ask(timestamp=self.now, payload=msg, sender=self)
         self._inbox.append(ask)
-        expiration = float("inf") if timeout is None else self.now + timeout
+        if expiration is None:
+            expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
             if ask.reply:
                 return ask.reply
-- 
2.43.0


From 3bab2d5769ab6ab0d9a486dfa5aaa50a3169b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 10/69] fix: ask() returns replies that are false in a boolean
 context

Replies such as 0, False or an empty list were ignored, and the asker waited
for ever (or timed out).
---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index a08fb44..5f610e2 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -36,7 +36,7 @@ class EventedAgent(BaseAgent):
         if expiration is None:
             expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
-            if ask.reply:
+            if ask.reply is not None:
                 return ask.reply
             yield self.delay(delay)
         raise TimedOut("No reply received")
-- 
2.43.0


From fe801eb91c2b459bdb98c105b99fa21e7215dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 11/69] fix: process_messages() does not lose messages received
 while processing

A handler that sends a message to its own agent made the loop fail, and a
handler that raised left every message to be delivered again.
---
 soil/agents/evented.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 5f610e2..25c31d5 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -43,7 +43,9 @@ class EventedAgent(BaseAgent):
 
     def process_messages(self):
         valid = list()
-        for msg in self._inbox:
+        # Messages that arrive in the meantime are left for the next time
+        for _ in range(len(self._inbox)):
+            msg = self._inbox.popleft()
             self._processed += 1
             if msg.expired(self.now):
                 continue
@@ -51,7 +53,6 @@ class EventedAgent(BaseAgent):
             reply = self.on_receive(msg.payload, sender=msg.sender)
             if isinstance(msg, Ask):
                 msg.reply = reply
-        self._inbox.clear()
         return valid
 
 
-- 
2.43.0


From d98a58cc38ba67a0080a232ff05db1588f0d70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:48 +0000
Subject: [PATCH 12/69] fix: agent filters apply every attribute criterion, not
 only the last one

---
 soil/agents/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 08f71b5..150bc67 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -481,7 +481,9 @@ def filter_agents(
     for k, vs in state.items():
         if not isinstance(vs, list):
             vs = [vs]
-        f = filter(lambda agent: any(getattr(agent, k, None) == v for v in vs), f)
+        f = filter(
+            lambda agent, k=k, vs=vs: any(getattr(agent, k, None) == v for v in vs), f
+        )
 
     if limit is not None:
         f = islice(f, limit)
-- 
2.43.0


From ac872b3f954ad8fa4849edfc00bfeb631bc31b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:48 +0000
Subject: [PATCH 13/69] fix: agent filters do not modify the dictionary given
 by the caller

---
 soil/agents/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 150bc67..03147a0 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -475,8 +475,7 @@ def filter_agents(
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
 
-    state = state or dict()
-    state.update(kwargs)
+    state = dict(state or {}, **kwargs)
 
     for k, vs in state.items():
         if not isinstance(vs, list):
-- 
2.43.0


From eff5a9d3ca00453a4347390895dec5afe0639b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:48 +0000
Subject: [PATCH 14/69] fix: an empty list of ids selects no agents

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 03147a0..daa18de 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -454,7 +454,7 @@ def filter_agents(
     if id_args:
         ids += id_args
 
-    if ids:
+    if ids or unique_id is not None:
         f = (agent for agent in agents if agent.unique_id in ids)
     else:
         f = agents
-- 
2.43.0


From fe364815da046a8ea8f7ab813e40de8bcc43ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 15/69] fix: AgentView works with the agent collections of
 current mesa versions

---
 soil/agents/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index daa18de..5559d6d 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -401,13 +401,14 @@ class AgentView(Mapping, Set):
         return len(self._agents)
 
     def __iter__(self):
-        yield from self._agents.values()
+        yield from self._agents
 
     def __getitem__(self, agent_id):
         if isinstance(agent_id, slice):
             raise ValueError(f"Slicing is not supported")
-        if agent_id in self._agents:
-            return self._agents[agent_id]
+        for agent in self._agents:
+            if agent.unique_id == agent_id:
+                return agent
         raise ValueError(f"Agent {agent_id} not found")
 
     def filter(self, *args, **kwargs):
@@ -420,10 +421,10 @@ class AgentView(Mapping, Set):
         return list(self.filter(*args, **kwargs))
 
     def __contains__(self, agent_id):
-        return agent_id in self._agents
+        return any(agent.unique_id == agent_id for agent in self._agents)
 
     def __str__(self):
-        return str(list(unique_id for unique_id in self.keys()))
+        return str(list(agent.unique_id for agent in self._agents))
 
     def __repr__(self):
         return f"{self.__class__.__name__}({self})"
-- 
2.43.0


From 11a66c6f7b2d7342f04438d77dcbb8cb6a4898d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 16/69] fix: network agents can select agents by unique_id

---
 soil/agents/network_agents.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 2d0a948..f8089fd 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -38,7 +38,7 @@ class NetworkAgent(BaseAgent):
 
     def iter_agents(self, unique_id=None, *, limit_neighbors=False, **kwargs):
         unique_ids = None
-        if unique_ids is not None:
+        if unique_id is not None:
             try:
                 unique_ids = set(unique_id)
             except TypeError:
@@ -50,12 +50,11 @@ class NetworkAgent(BaseAgent):
                 agent = self.G.nodes[node_id].get("agent")
                 if agent is not None:
                     neighbor_ids.add(agent.unique_id)
-            if unique_ids:
+            if unique_ids is not None:
                 unique_ids = unique_ids & neighbor_ids
             else:
                 unique_ids = neighbor_ids
-            if not unique_ids:
-                return
+        if unique_ids is not None:
             unique_ids = list(unique_ids)
         yield from super().iter_agents(unique_id=unique_ids, **kwargs)
 
-- 
2.43.0


From 9897f11784824623aa09eea33e55f2d075110af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 17/69] fix: add_edge() sets the attributes it is given on the
 edge

---
 soil/agents/network_agents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index f8089fd..a8dd854 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -70,7 +70,7 @@ class NetworkAgent(BaseAgent):
         self.G.remove_node(self.node_id)
         self.node_id = None
 
-    def add_edge(self, other, edge_attr_dict=None, *edge_attrs):
+    def add_edge(self, other, edge_attr_dict=None, **edge_attrs):
         if self.node_id not in self.G.nodes(data=False):
             raise ValueError(
                 "{} not in list of existing agents in the network".format(
@@ -83,7 +83,7 @@ class NetworkAgent(BaseAgent):
             )
 
         self.G.add_edge(
-            self.node_id, other.node_id, edge_attr_dict=edge_attr_dict, *edge_attrs
+            self.node_id, other.node_id, **dict(edge_attr_dict or {}, **edge_attrs)
         )
 
     def die(self, remove=True):
-- 
2.43.0


From d0c005a61d8a8a31a8c88683c95a099016fca7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 18/69] fix: network agents without a node get a free node, or
 a new one

---
 soil/agents/network_agents.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index a8dd854..af7c7c7 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -1,4 +1,5 @@
 from . import BaseAgent
+from .. import network
 
 
 class NetworkAgent(BaseAgent):
@@ -8,13 +9,13 @@ class NetworkAgent(BaseAgent):
         self.G = topology or self.model.G
         assert self.G is not None, "Network agents should have a network"
         if node_id is None:
-            nodes = self.random.choices(list(self.G.nodes), k=len(self.G))
-            for n_id in nodes:
-                if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
-                    node_id = n_id
-                    break
-            else:
+            node_id = network.find_unassigned(
+                G=self.G, shuffle=True, random=self.random
+            )
+            if node_id is None:
                 node_id = len(self.G)
+                while node_id in self.G:
+                    node_id += 1
                 self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                 self.G.add_node(node_id)
         assert node_id is not None
-- 
2.43.0


From a2d0ea03787e16acf8cb3543df86ad03617ba26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 19/69] fix: add_agent() accepts a topology without a node

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 743da85..5515d91 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -285,7 +285,7 @@ class NetworkEnvironment(BaseEnvironment):
             self.datacollector.collect(self)
 
     def add_agent(self, agent_class, *args, node_id=None, topology=None, **kwargs):
-        if node_id is None and topology is None:
+        if node_id is None:
             return super().add_agent(agent_class, *args, **kwargs)
         try:
             a = super().add_agent(agent_class, *args, node_id=node_id, **kwargs)
-- 
2.43.0


From 094fa9178e63e93ff0b63bcb734602d48575378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 20/69] fix: nodes with an agent_id are linked to that agent

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 5515d91..10b9402 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -363,7 +363,7 @@ class NetworkEnvironment(BaseEnvironment):
         """
         for (id, data) in self.G.nodes(data=True):
             if "agent_id" in data:
-                agent = self.get_agents(data["agent_id"])
+                agent = self.agent(data["agent_id"])
                 self.G.nodes[id]["agent"] = agent
                 assert not getattr(agent, "node_id", None) or agent.node_id == id
                 agent.node_id = id
-- 
2.43.0


From a992040a8e680fff18629af919002c6cf9dbfc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 21/69] fix: environments do not share the graph they are given

---
 soil/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/network.py b/soil/network.py
index 6fac221..6781690 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -14,7 +14,8 @@ def from_topology(topology, dir_path: str = None):
     if topology is None:
         return nx.Graph()
     if isinstance(topology, nx.Graph):
-        return topology
+        # Agents are assigned to the nodes of the copy, so the original can be re-used
+        return topology.copy()
 
     # If it's a dict, assume it's a node-link graph
     if isinstance(topology, dict):
-- 
2.43.0


From ca4f748d518be03e130550c7bc0a277b8f4794cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:03 +0000
Subject: [PATCH 22/69] fix: from_dict() can ignore extra attributes

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 5559d6d..11316e8 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -177,7 +177,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
                 ignored[k] = v
         if ignored and warn_extra:
             utils.logger.info(
-                f"Ignoring the following arguments for agent class { agent_class.__name__ }: { ignored }"
+                f"Ignoring the following arguments for agent class { cls.__name__ }: { ignored }"
             )
         return cls(model=model, **args)
 
-- 
2.43.0


From 6280883d686ca8f60ca9d0d3e8499b516431cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 23/69] fix: combinations of the matrix include the fixed
 parameters

---
 soil/simulation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 389207b..f2a805a 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -174,15 +174,13 @@ class Simulation:
     def _collect_params(self):
 
         parameters = []
-        if self.parameters:
-            parameters.append(self.parameters)
         if self.matrix:
             assert isinstance(self.matrix, dict)
             for values in product(*(self.matrix.values())):
-                parameters.append(dict(zip(self.matrix.keys(), values)))
+                parameters.append(dict(self.parameters, **dict(zip(self.matrix.keys(), values))))
 
         if not parameters:
-            parameters = [{}]
+            parameters = [dict(self.parameters)]
         if self.dump:
             self.logger.info("Output directory: %s", self.outdir)
 
-- 
2.43.0


From 6d89ee04e6d73c58ca0f5e4af7cd843d6f5c8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 24/69] fix: queued simulations run their own combination of
 the matrix only

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index f2a805a..657fc7d 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -45,7 +45,7 @@ def do_not_run():
 def _iter_queued():
     while _QUEUED:
         (cls, params) = _QUEUED.pop(0)
-        yield replace(cls, parameters=params)
+        yield replace(cls, parameters=params, matrix={})
 
 
 # TODO: change documentation for simulation
-- 
2.43.0


From 505f6b89399d3f903442be5624fe1c54a1514ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 25/69] fix: reporters given as parameters do not leak into
 other iterations

---
 soil/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 657fc7d..42afa3d 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -215,9 +215,9 @@ class Simulation:
 
         iteration_id = str(iteration_id)
 
-        agent_reporters = self.agent_reporters
+        agent_reporters = dict(self.agent_reporters)
         agent_reporters.update(params.pop("agent_reporters", {}))
-        model_reporters = self.model_reporters
+        model_reporters = dict(self.model_reporters)
         model_reporters.update(params.pop("model_reporters", {}))
 
         return self.model(
-- 
2.43.0


From 21a735eee4df976a364577d4e7d25bc6d0f8e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 26/69] fix: the collector does not modify the reporters it is
 given

---
 soil/datacollection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index 9687435..d1d8dd9 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -3,9 +3,9 @@ from mesa import DataCollector as MDC
 
 class SoilCollector(MDC):
     def __init__(self, model_reporters=None, agent_reporters=None, tables=None, **kwargs):
-        model_reporters = model_reporters or {}
-        agent_reporters = agent_reporters or {}
-        tables = tables or {}
+        model_reporters = dict(model_reporters or {})
+        agent_reporters = dict(agent_reporters or {})
+        tables = dict(tables or {})
         if 'agent_count' not in model_reporters:
             model_reporters['agent_count'] = lambda m: m.schedule.get_agent_count()
         if 'time' not in model_reporters:
-- 
2.43.0


From 444210b782b5558eb585e0c9e8769ec7c8a0445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 27/69] fix: run_from_file() runs the simulations

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 42afa3d..36cc9e6 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -360,7 +360,7 @@ def from_py(pyfile):
 def run_from_file(*files, **kwargs):
     for sim in iter_from_file(*files):
         logger.info(f"Using config(s): {sim.name}")
-        sim.run_simulation(**kwargs)
+        sim.run(**kwargs)
 
 def run(env, iterations=1, num_processes=1, dump=False, name="test", **kwargs):
     return Simulation(model=env, iterations=iterations, name=name, dump=dump, num_processes=num_processes, **kwargs).run()
\ No newline at end of file
-- 
2.43.0


From 499172960e3a1482479ea730e08517f3ad963c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 28/69] fix: the command line keeps the limits of the
 simulation unless told otherwise

---
 soil/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index a4ce59d..8a1f1ac 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -249,9 +249,12 @@ def main(
             if args.only_convert:
                 print(sim.to_yaml())
                 continue
-            max_time = float(args.max_time) if args.max_time != "-1" else None
-            max_steps = float(args.max_steps) if args.max_steps != "-1" else None
-            res.append(sim.run(max_time=max_time, max_steps=max_steps))
+            limits = {}
+            if args.max_time != "-1":
+                limits["max_time"] = float(args.max_time)
+            if args.max_steps != "-1":
+                limits["max_steps"] = float(args.max_steps)
+            res.append(sim.run(**limits))
 
     except Exception as ex:
         if args.pdb:
-- 
2.43.0


From 5d4e6ab2a8ee187bf50e6a02a4b233f85072e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 29/69] fix: the command line honours --output

---
 soil/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 8a1f1ac..c13d51a 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -180,8 +180,7 @@ def main(
         sys.path.append(os.getcwd())
     if args.module:
         importlib.import_module(args.module)
-    if output is None:
-        output = args.output
+    output = args.output
 
     debug = debug or args.debug
 
-- 
2.43.0


From 426e95491ba4e03ae03c62249d5ac59b0c66f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 30/69] fix: the number of processes given in the command line
 is a number

---
 soil/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/__init__.py b/soil/__init__.py
index c13d51a..d4d3c5f 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -104,6 +104,7 @@ def main(
     )
     parser.add_argument(
         "--num-processes",
+        type=int,
         default=num_processes,
         help="Number of processes to use for parallel execution. Defaults to 1.",
     )
-- 
2.43.0


From 1d089608de21ea00a4f0833daa7c688b0fcd36a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 31/69] fix: agent reporters can be restricted to a type of
 agent

---
 soil/environment.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 10b9402..d9179f4 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -207,11 +207,17 @@ class BaseEnvironment(Model):
         self.datacollector._new_model_reporter(name, func)
 
     def add_agent_reporter(self, name, reporter=None, agent_type=None):
-        if not agent_type and not reporter:
+        if not reporter:
             reporter = name
-        elif agent_type:
-            reporter = lambda a: reporter(a) if isinstance(a, agent_type) else None
-        self.datacollector._new_agent_reporter(name, reporter)
+        if agent_type:
+            func = reporter
+            if isinstance(func, str):
+                func = lambda a: getattr(a, reporter, None)
+            self.datacollector._new_agent_reporter(
+                name, lambda a: func(a) if isinstance(a, agent_type) else None
+            )
+        else:
+            self.datacollector._new_agent_reporter(name, reporter)
 
     @classmethod
     def run(cls, *,
-- 
2.43.0


From 872a8aee9053ed321c76324c6a0e3e3bca1cdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 32/69] fix: agent_df() reports the time of each record

---
 soil/environment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index d9179f4..cc1651e 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -13,6 +13,7 @@ from copy import deepcopy
 
 
 import networkx as nx
+import pandas as pd
 
 from mesa import Model, Agent
 
@@ -128,7 +129,10 @@ class BaseEnvironment(Model):
             df.index.rename(["step", "agent_id"], inplace=True)
             return df
         model_df = self.datacollector.get_model_vars_dataframe()
-        df.index = df.index.set_levels(model_df.time, level=0).rename(["time", "agent_id"])
+        times = model_df.time.reindex(df.index.get_level_values(0))
+        df.index = pd.MultiIndex.from_arrays(
+            [times, df.index.get_level_values(1)], names=["time", "agent_id"]
+        )
         return df
 
     def model_df(self, steps=False):
-- 
2.43.0


From db021da1be76bccb72fb968835ddad67a7511f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 33/69] fix: a backup does not replace an earlier backup of the
 same second

---
 soil/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/utils.py b/soil/utils.py
index 3a00a9b..5005bf8 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -60,6 +60,10 @@ def try_backup(path, remove=False):
     if not os.path.exists(backup_dir):
         os.makedirs(backup_dir)
     newpath = os.path.join(backup_dir, "{}@{}".format(os.path.basename(path), stamp))
+    base, count = newpath, 0
+    while os.path.exists(newpath):
+        count += 1
+        newpath = "{}.{}".format(base, count)
     if remove:
         move(path, newpath)
     else:
-- 
2.43.0


From 6f2635ded5bb60c66a11b6ea988ef39ea1500330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 34/69] fix: the SQLite exporter creates its output directory

---
 soil/exporters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index 8986453..677ee82 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -125,6 +125,7 @@ class SQLite(Exporter):
 
         from sqlalchemy import create_engine
 
+        os.makedirs(self.outdir, exist_ok=True)
         self.dbpath = os.path.join(self.outdir, f"{self.simulation.name}.sqlite")
         logger.info("Dumping results to %s", self.dbpath)
         if self.simulation.backup:
-- 
2.43.0


From 3b77cb8f745329d83c04489ff6e2bb1ae6508e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 35/69] fix: CSV files have one header, however many
 configurations they hold

---
 soil/exporters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 677ee82..3f80a11 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -174,7 +174,7 @@ class csv(Exporter):
         ):
             for (df_name, df) in self.get_dfs(env, params_id=params_id):
                 with self.output("{}.{}.csv".format(env.id, df_name), mode="a") as f:
-                    df.to_csv(f)
+                    df.to_csv(f, header=(f.tell() == 0))
 
 
 class gexf(Exporter):
-- 
2.43.0


From 77976bc8ebadcc5e80c58cf41f4f8719565f2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 36/69] fix: the gexf exporter can write networks whose nodes
 have agents

---
 soil/exporters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 3f80a11..5bc7abc 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -187,7 +187,10 @@ class gexf(Exporter):
             "[GEXF] Dumping simulation {} iteration {}".format(self.simulation.name, env.id)
         ):
             with self.output("{}.gexf".format(env.id), mode="wb") as f:
-                nx.write_gexf(env.G, f)
+                G = env.G.copy()
+                for (_, data) in G.nodes(data=True):
+                    data.pop("agent", None)
+                nx.write_gexf(G, f)
 
 
 class dummy(Exporter):
-- 
2.43.0


From c4f54ee95556a3d8a2ee9973302da5056e7bd862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 37/69] fix: results of simulations without parameters can be
 read back

---
 soil/exporters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 5bc7abc..40f7ffe 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -155,7 +155,8 @@ class SQLite(Exporter):
                            "params_id": params_id,
                            "iteration_id": env.id,
                            "key": k,
-                           "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=self.engine, if_exists="append")
+                           "value": serialize(v)[0]} for (k,v) in params.items()],
+                         columns=["simulation_id", "params_id", "iteration_id", "key", "value"]).to_sql("parameters", con=self.engine, if_exists="append")
 
             for (t, df) in self.get_dfs(env, params_id=params_id):
                 df.to_sql(t, con=self.engine, if_exists="append")
-- 
2.43.0


From 1554e9d86418eecb963ae26cfb397904b19e4c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 38/69] fix: results of simulations without agent reporters can
 be read back

---
 soil/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index ab7164c..984602d 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -46,7 +46,9 @@ def read_sql(fpath=None, name=None, include_agents=False):
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
-        agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+        agents = pd.DataFrame()
+        if sqlalchemy.inspect(conn).has_table("agents"):
+            agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
         config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
         parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
         try:
-- 
2.43.0


From 850857138811ee87fd90269a8a0046801fdcbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:16 +0000
Subject: [PATCH 39/69] fix: dumped configurations keep the values in their
 lists

---
 soil/serialization.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6b70554..60613bb 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -196,6 +196,17 @@ def serialize(v, known_modules=KNOWN_MODULES):
     return func(v), tname
 
 
+def _serialize_list(v, known_modules=KNOWN_MODULES):
+    items = []
+    for item in v:
+        if isinstance(item, list):
+            item = _serialize_list(item, known_modules=known_modules)
+        elif item is not None and not isinstance(item, (str, bool, int, float)):
+            item = serialize_dict(item, known_modules=known_modules)
+        items.append(item)
+    return items
+
+
 def serialize_dict(d, known_modules=KNOWN_MODULES):
     try:
         d = dict(d)
@@ -205,8 +216,7 @@ def serialize_dict(d, known_modules=KNOWN_MODULES):
         if isinstance(v, dict):
             d[k] = serialize_dict(v, known_modules=known_modules)
         elif isinstance(v, list):
-            for ix in range(len(v)):
-                v[ix] = serialize_dict(v[ix], known_modules=known_modules)
+            d[k] = _serialize_list(v, known_modules=known_modules)
         elif isinstance(v, type):
             d[k] = serialize(v, known_modules=known_modules)[1]
     return d
-- 
2.43.0


From 6e779a3b6c7d6f740f56a57fdb639a9b366c39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:16 +0000
Subject: [PATCH 40/69] fix: the gexf exporter keeps the network of every
 configuration

---
 soil/exporters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 40f7ffe..156579f 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -179,7 +179,7 @@ class csv(Exporter):
 
 
 class gexf(Exporter):
-    def iteration_end(self, env, *args, **kwargs):
+    def iteration_end(self, env, params, params_id, *args, **kwargs):
         if not self.dump:
             logger.info("Not dumping GEXF (NO_DUMP mode)")
             return
@@ -187,7 +187,7 @@ class gexf(Exporter):
         with timer(
             "[GEXF] Dumping simulation {} iteration {}".format(self.simulation.name, env.id)
         ):
-            with self.output("{}.gexf".format(env.id), mode="wb") as f:
+            with self.output("{}.{}.gexf".format(params_id, env.id), mode="wb") as f:
                 G = env.G.copy()
                 for (_, data) in G.nodes(data=True):
                     data.pop("agent", None)
-- 
2.43.0


From 1c3ce867904cbef0ebcce264b76849f77893ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:19 +0000
Subject: [PATCH 41/69] fix: paths in configurations given as a dictionary are
 relative to the current directory

---
 soil/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 60613bb..dd2398b 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -98,7 +98,7 @@ def load_files(*patterns, **kwargs):
 
 def load_config(cfg):
     if isinstance(cfg, dict):
-        yield config.load_config(cfg), os.getcwd()
+        yield config.load_config(cfg), os.path.join(os.getcwd(), "")
     else:
         yield from load_files(cfg)
 
-- 
2.43.0


From bdd3f495e7dffeff74de7681c574c3a1159ead65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:19 +0000
Subject: [PATCH 42/69] fix: a file that cannot be loaded does not affect later
 files

---
 soil/simulation.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 36cc9e6..289e3e5 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -325,30 +325,33 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
         assert _AVOID_RUNNING
         spec = importlib.util.spec_from_file_location(module_name, pyfile)
         folder = os.path.dirname(pyfile)
+        if not spec:
+            raise ValueError(f"{pyfile} does not seem to be a Python module")
         if folder not in sys.path:
             added = True
             sys.path.append(folder)
-        if not spec:
-            raise ValueError(f"{pyfile} does not seem to be a Python module")
         module = importlib.util.module_from_spec(spec)
         sys.modules[module_name] = module
-        spec.loader.exec_module(module)
-        for (_name, sim) in inspect.getmembers(module, lambda x: isinstance(x, Simulation)):
-            sims.append(sim)
-        for sim in _iter_queued():
-            sims.append(sim)
-        if not sims:
-            for (_name, env) in inspect.getmembers(module,
-                                                   lambda x: inspect.isclass(x) and
-                                                   issubclass(x, environment.Environment) and
-                                                   (getattr(x, "__module__", None) != environment.__name__)):
-                sims.append(Simulation(model=env, **kwargs))
-        del sys.modules[module_name]
+        try:
+            spec.loader.exec_module(module)
+            for (_name, sim) in inspect.getmembers(module, lambda x: isinstance(x, Simulation)):
+                sims.append(sim)
+            for sim in _iter_queued():
+                sims.append(sim)
+            if not sims:
+                for (_name, env) in inspect.getmembers(module,
+                                                       lambda x: inspect.isclass(x) and
+                                                       issubclass(x, environment.Environment) and
+                                                       (getattr(x, "__module__", None) != environment.__name__)):
+                    sims.append(Simulation(model=env, **kwargs))
+        finally:
+            _QUEUED.clear()
+            del sys.modules[module_name]
+            if added:
+                sys.path.remove(folder)
     assert not _AVOID_RUNNING
     if not sims:
         raise AttributeError(f"No valid configurations found in {pyfile}")
-    if added:
-        sys.path.remove(folder)
     for sim in sims:
         yield replace(sim, **kwargs)
 
-- 
2.43.0


From dcac8d6a19142c270fd41ac444c52eeb77adc4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:10 +0000
Subject: [PATCH 43/69] fix: classes are not serialized with the name of
 another class

---
 soil/serialization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index dd2398b..20e58d3 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -169,17 +169,19 @@ def name(value, known_modules=KNOWN_MODULES):
     if not isinstance(value, type):  # Get the class name first
         value = type(value)
     tname = value.__name__
-    if hasattr(builtins(), tname):
+    if getattr(builtins(), tname, None) is value:
         return tname
     modname = value.__module__
     if modname == "__main__":
         return tname
-    if known_modules and modname in known_modules:
-        return tname
+    if hasattr(builtins(), tname):
+        return "{}.{}".format(modname, tname)
     for kmod in known_modules:
         module = get_module(kmod)
         if hasattr(module, tname):
-            return tname
+            if getattr(module, tname) is value:
+                return tname
+            break
     return "{}.{}".format(modname, tname)
 
 
-- 
2.43.0


From c31619ee90022a2e679b62c461c124c3a87a80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:52 +0000
Subject: [PATCH 44/69] fix: agents in a Lockstepper know the current time, so
 at() works

---
 soil/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/time.py b/soil/time.py
index 6489a8f..62f115a 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -224,6 +224,7 @@ class Lockstepper:
         end_time = self.time + self.default_interval
         res = None
         while self.scheduler.time < end_time:
+            self.time = self.scheduler.time
             res = self.scheduler.step()
         self.time = end_time
         self.steps += 1
-- 
2.43.0


From dbec4f2f06843df600ffd6dd8aa120b5cc45a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:43 +0000
Subject: [PATCH 45/69] fix: SISaModel agents follow their settings and their
 discontent neighbors

---
 soil/agents/SISaModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index b5dbbe3..f6cf475 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -64,7 +64,7 @@ class SISaModel(Agent):
             self.model.content_discontent, self.model.variance_c_d
         )
         self.content_neutral = random.normal(
-            self.model.discontent_neutral, self.model.standard_variance
+            self.model.content_neutral, self.model.standard_variance
         )
 
     @default_state
@@ -77,7 +77,7 @@ class SISaModel(Agent):
             return self.content
 
         # Infected
-        discontent_neighbors = self.count_neighbors(state_id=self.discontent)
+        discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.neutral_discontent_infected_prob):
             return self.discontent
         content_neighbors = self.count_neighbors(state_id=self.content.id)
@@ -106,5 +106,5 @@ class SISaModel(Agent):
         # Superinfected
         discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.content_discontent):
-            self.discontent
+            return self.discontent
         return self.content
-- 
2.43.0


From ef5273ec8bc38e6cdd77d30b088f8dc9e51495ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:43 +0000
Subject: [PATCH 46/69] fix: BassModel agents can be activated, and influence
 their neighbors

---
 soil/agents/BassModel.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/soil/agents/BassModel.py b/soil/agents/BassModel.py
index 6049bd5..975f479 100644
--- a/soil/agents/BassModel.py
+++ b/soil/agents/BassModel.py
@@ -1,7 +1,8 @@
-from . import FSM, state, default_state
+from . import Agent, state, default_state
+from ..time import INFINITY
 
 
-class BassModel(FSM):
+class BassModel(Agent):
     """
     Settings:
         innovation_prob
@@ -10,9 +11,6 @@ class BassModel(FSM):
 
     sentimentCorrelation = 0
 
-    def step(self):
-        self.behaviour()
-
     @default_state
     @state
     def innovation(self):
@@ -28,4 +26,4 @@ class BassModel(FSM):
 
     @state
     def aware(self):
-        self.die()
\ No newline at end of file
+        return INFINITY
-- 
2.43.0


From b982bdc2244c0435257decd159ad2c27b2f024a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:27 +0000
Subject: [PATCH 47/69] fix: schedulers do not activate agents that have been
 removed from them

schedule.remove(agent), which is how mesa agents leave a simulation, had no
effect on the activations of the agent.
---
 soil/time.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 62f115a..448b2d2 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -39,6 +39,9 @@ class DiscreteActivation(BaseScheduler):
         if hasattr(self.model, 'default_interval'):
             self.default_interval = self.model.default_interval
 
+    def _is_active(self, agent):
+        return getattr(agent, "alive", True) and agent in self._agents
+
 
 class PQueueActivation(DiscreteActivation):
     """
@@ -96,7 +99,7 @@ class PQueueActivation(DiscreteActivation):
                 break
 
             heappop(self._queue)
-            if not getattr(agent, "alive", True):
+            if not self._is_active(agent):
                 continue
             try:
                 when = agent.step() or self.default_interval
@@ -104,7 +107,7 @@ class PQueueActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
-            if when == INFINITY or not getattr(agent, "alive", True):
+            if when == INFINITY or not self._is_active(agent):
                 continue
 
             self._schedule(agent, when)
@@ -169,7 +172,7 @@ class TimedActivation(DiscreteActivation):
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for agent in bucket:
-            if not getattr(agent, "alive", True):
+            if not self._is_active(agent):
                 continue
             try:
                 when = agent.step() or self.default_interval
@@ -177,7 +180,7 @@ class TimedActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
-            if when != INFINITY and getattr(agent, "alive", True):
+            if when != INFINITY and self._is_active(agent):
                 self._schedule(agent, when, replace=True)
 
         self.steps += 1
-- 
2.43.0


From 438fa3656ca112445d4d8b113bd45a2dfd6db6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:51 +0000
Subject: [PATCH 48/69] fix: templates do not modify their configuration when
 they are expanded

The name of the sampler was removed from the configuration, so expanding it
again used a different sampler.
---
 soil/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 20e58d3..ba1d7db 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -65,7 +65,7 @@ def expand_template(config):
 
 
 def params_for_template(config):
-    sampler_config = config.get("sampler", {"N": 100})
+    sampler_config = dict(config.get("sampler", {"N": 100}))
     sampler = sampler_config.pop("method", "SALib.sample.morris.sample")
     sampler = deserializer(sampler)
     bounds = config["vars"]["bounds"]
-- 
2.43.0


From b61b8f21910d892c0ef6886e8b4d8e6949042a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:35 +0000
Subject: [PATCH 49/69] fix: the clock does not stop at the activations of dead
 agents

---
 soil/time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 448b2d2..c42a21e 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -94,13 +94,15 @@ class PQueueActivation(DiscreteActivation):
 
         while self._queue:
             ((when, _id), agent) = self._queue[0]
+            if not self._is_active(agent):
+                heappop(self._queue)
+                continue
+
             if when > now:
                 next_time = when
                 break
 
             heappop(self._queue)
-            if not self._is_active(agent):
-                continue
             try:
                 when = agent.step() or self.default_interval
                 when += now
@@ -184,6 +186,10 @@ class TimedActivation(DiscreteActivation):
                 self._schedule(agent, when, replace=True)
 
         self.steps += 1
+        # The clock does not stop for agents that are no longer active
+        while self._queue and not any(map(self._is_active, self._queue[0][1])):
+            self._queue.popleft()
+
         if self._queue:
             self.time = self._queue[0][0]
         else:
-- 
2.43.0


From 1f5b3892de97ef4b6205ef91d49cbdc9fad140b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:16 +0000
Subject: [PATCH 50/69] fix: defaults of agents with several base classes
 follow the method resolution order

---
 soil/agents/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 11316e8..ad30bc9 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -58,13 +58,8 @@ class MetaAgent(ABCMeta):
     def __new__(mcls, name, bases, namespace):
         defaults = {}
 
-        # Re-use defaults from inherited classes
-        for i in bases:
-            if isinstance(i, MetaAgent):
-                defaults.update(i._defaults)
-
         new_nmspc = {
-            "_defaults": defaults,
+            "_own_defaults": defaults,
         }
 
         for attr, func in namespace.items():
@@ -99,7 +94,13 @@ class MetaAgent(ABCMeta):
 
 
         # Add attributes for their use in the decorated functions
-        return super().__new__(mcls, name, bases, new_nmspc)
+        cls = super().__new__(mcls, name, bases, new_nmspc)
+
+        # Re-use defaults from inherited classes, in the method resolution order
+        cls._defaults = {}
+        for i in reversed(cls.__mro__):
+            cls._defaults.update(i.__dict__.get("_own_defaults", {}))
+        return cls
 
 
 class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
-- 
2.43.0


From d97abb35882e17096b90e6cf5f47f2cd7e4f04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:16 +0000
Subject: [PATCH 51/69] fix: states of agents with several base classes follow
 the method resolution order

---
 soil/agents/fsm.py | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index b5eecc4..08e7c4d 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -78,37 +78,29 @@ def default_state(func):
 
 class MetaFSM(MetaAgent):
     def __new__(mcls, name, bases, namespace):
-        states = {}
-        # Re-use states from inherited classes
-        default_state = None
-        for i in bases:
-            if isinstance(i, MetaFSM):
-                if i._state is not None:
-                    default_state = i._state
-                for state_id, state in i._states.items():
-                    states[state_id] = state
-
-        # Add new states
+        own_states = {}
         for attr, func in namespace.items():
             if isinstance(func, State):
-                if func.default:
-                    default_state = func
-                states[func.name] = func
+                own_states[func.name] = func
 
-        # A subclass may redefine the state it inherits as default
-        if default_state is not None:
-            default_state = states[default_state.name]
-
-        namespace.update(
-            {
-                "_state": default_state,
-                "_states": states,
-            }
-        )
+        namespace["_own_states"] = own_states
 
         cls = super(MetaFSM, mcls).__new__(
             mcls=mcls, name=name, bases=bases, namespace=namespace
         )
+
+        # Re-use states from inherited classes, in the method resolution order
+        states = {}
+        default_state = None
+        for i in reversed(cls.__mro__):
+            for state_id, state in i.__dict__.get("_own_states", {}).items():
+                if state.default:
+                    default_state = state_id
+                states[state_id] = state
+
+        cls._states = states
+        # A subclass may redefine the state it inherits as default
+        cls._state = states.get(default_state)
         for (k, v) in states.items():
             setattr(cls, k, v)
         return cls
-- 
2.43.0


From e9c538f402378c17a7bada760e9a68564085f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 52/69] fix: messages can be logged with keyword arguments

---
 soil/agents/__init__.py | 4 ++--
 soil/environment.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index ad30bc9..e8683fe 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -254,8 +254,8 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
             return
         message = " ".join(str(i) for i in message)
         message = "[@{:>4}]\t{:>10}: {}".format(self.now, repr(self), message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += " {k}={v} ".format(k=k, v=v)
         extra = {}
         extra["now"] = self.now
         extra["unique_id"] = self.unique_id
diff --git a/soil/environment.py b/soil/environment.py
index cc1651e..2ae33cc 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -183,8 +183,8 @@ class BaseEnvironment(Model):
             return
         message = message + " ".join(str(i) for i in args)
         message = " @{:>3}: {}".format(self.now, message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += " {k}={v} ".format(k=k, v=v)
         extra = {}
         extra["now"] = self.now
         extra["id"] = self.id
-- 
2.43.0


From a8791c45ea8ed354070fca84e07b47eb1c20abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 53/69] fix: any model data can be logged at debug level

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 2ae33cc..0bc6c30 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -202,7 +202,7 @@ class BaseEnvironment(Model):
             msg = "Model data:\n"
             max_width = max(len(k) for k in self.datacollector.model_vars.keys())
             for (k, v) in self.datacollector.model_vars.items():
-                msg += f"\t{k:<{max_width}}: {v[-1]:>6}\n"
+                msg += f"\t{k:<{max_width}}: {str(v[-1]):>6}\n"
             self.logger.debug(f"--- Steps: {self.schedule.steps:^5} - Time: {self.now:^5} --- " + msg)
 
     def add_model_reporter(self, name, func=None):
-- 
2.43.0


From aa355b8e7ba00d0c4d1772b30f1cbc73fb66258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 54/69] fix: easy returns the result of the simulation

---
 soil/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index d4d3c5f..4bcc248 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -272,7 +272,6 @@ def main(
     return res
 
 
-@contextmanager
 def easy(cfg, pdb=False, debug=False, **kwargs):
     try:
         return main(cfg, debug=debug, pdb=pdb, **kwargs)[0]
-- 
2.43.0


From bf4653a79488136620d353e15d4672bf8e9b82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 55/69] fix: the text of an agent leaves out the keys to skip

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index e8683fe..e78a067 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -282,7 +282,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return self.to_str()
 
     def to_str(self, keys=None, skip=None, pretty=False):
-        content = dict(self.items(keys=keys))
+        content = dict(self.items(keys=keys, skip=skip))
         if pretty and content:
             d = content
             content = "\n"
-- 
2.43.0


From 26e46b9b97e8fc37ea43a4a38576932c1b00214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 56/69] fix: iterating over an agent gives its keys, so that
 values() works

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index e78a067..e12f41f 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -201,7 +201,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return sum(1 for n in self.keys())
 
     def __iter__(self):
-        return self.items()
+        return self.keys()
 
     def keys(self):
         return (k for k in self.__dict__ if k[0] != "_" and k not in IGNORED_FIELDS)
-- 
2.43.0


From 9156d69fc3d2ef3a59c714d2e165ebaf73bf5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 57/69] fix: an expiration at time zero is not ignored

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 25c31d5..af69860 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -16,7 +16,7 @@ class EventedAgent(BaseAgent):
 
     @coroutine
     def received(self, expiration=None, timeout=60, delay=1, process=True):
-        if not expiration:
+        if expiration is None:
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-- 
2.43.0


From 5fafe051f8d504c3cedbf42cafdd3702d49816c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 58/69] fix: agents can receive messages while they are
 initialised

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index af69860..94d72d1 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -7,9 +7,9 @@ from types import coroutine
 
 class EventedAgent(BaseAgent):
     def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
         self._inbox = deque()
         self._processed = 0
+        super().__init__(*args, **kwargs)
 
     def on_receive(self, *args, **kwargs):
         pass
-- 
2.43.0


From ff3118d3fe426758415f15a3c920c7a449570e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:48 +0000
Subject: [PATCH 59/69] fix: the summary exporter accepts any mix of values

---
 soil/exporters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 156579f..183d613 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -240,7 +240,7 @@ class summary(Exporter):
             description = indent(str(df.describe()), tabs)
             last_line = indent(str(df.iloc[-1:]), tabs)
             # value_counts = indent(str(df.value_counts()), tabs)
-            value_counts = indent(str(df.apply(lambda x: x.value_counts()).T.stack()), tabs)
+            value_counts = indent(str(df.apply(lambda x: x.astype(str).value_counts()).T.stack()), tabs)
 
             msg += dedent("""
             Dataframe {t}:
-- 
2.43.0


From c64131c0243070595a4be78643b7c714a0da02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 60/69] fix: nodes that are reserved do not count as agents of
 the network

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 0bc6c30..7148bd4 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -339,7 +339,7 @@ class NetworkEnvironment(BaseEnvironment):
         for (id, data) in self.G.nodes(data=True):
             if "agent" in data:
                 agent = data["agent"]
-                if getattr(agent, "alive", True):
+                if agent is not None and getattr(agent, "alive", True):
                     yield agent
 
     def add_node(self, agent_class, unique_id=None, node_id=None, **kwargs):
-- 
2.43.0


From d3601a8ec23082dfb54b46330d603ab5d6174d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:37 +0000
Subject: [PATCH 61/69] fix: activations due at time zero are not moved to the
 present

---
 soil/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index c42a21e..8eafaa5 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -142,7 +142,8 @@ class TimedActivation(DiscreteActivation):
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-        when = when or self.time
+        if when is None:
+            when = self.time
         pos = len(self._queue)
         for (ix, l) in enumerate(self._queue):
             if l[0] == when:
-- 
2.43.0


From c00f22f9e70a889d64337997a69761b594e49771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 62/69] fix: exporters requested twice in the command line are
 used once

---
 soil/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 4bcc248..486c50f 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -166,16 +166,15 @@ def main(
     if args.version:
         return
 
-    exporters = exporters or [
-        "default",
-    ]
-    for exp in args.exporter:
-        if exp not in exporters:
-            exporters.append(exp)
+    exporters = list(exporters or ["default"])
+    requested = list(args.exporter)
     if args.csv:
-        exporters.append("csv")
+        requested.append("csv")
     if args.graph:
-        exporters.append("gexf")
+        requested.append("gexf")
+    for exp in requested:
+        if exp not in exporters:
+            exporters.append(exp)
 
     if os.getcwd() not in sys.path:
         sys.path.append(os.getcwd())
-- 
2.43.0


From e2f8dd01ac8ab46ef7038648c83928a1b7e27251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 63/69] fix: an empty topology keeps its kind and attributes

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 7148bd4..c5478c5 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -280,7 +280,7 @@ class NetworkEnvironment(BaseEnvironment):
         self.topology = topology
         self.network_generator = network_generator
         self.network_params = network_params
-        if topology or network_params or network_generator:
+        if topology is not None or network_params or network_generator:
             self.create_network(topology, generator=network_generator, **network_params)
         else:
             self.G = nx.Graph()
-- 
2.43.0


From 64865af36ca08fd059d632cce7a8332988706e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 64/69] fix: a lockstep scheduler without agents does not hang

---
 soil/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index 8eafaa5..3eb84ae 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -235,7 +235,10 @@ class Lockstepper:
         res = None
         while self.scheduler.time < end_time:
             self.time = self.scheduler.time
+            before = self.scheduler.steps
             res = self.scheduler.step()
+            if self.scheduler.time == self.time and self.scheduler.steps == before:
+                break  # Nothing is scheduled
         self.time = end_time
         self.steps += 1
         return res
-- 
2.43.0


From da211df4e7feb8c54ef63cb01dc370b818c592c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:43 +0000
Subject: [PATCH 65/69] fix: environments can log anything, not only text

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index c5478c5..a6802d0 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -181,7 +181,7 @@ class BaseEnvironment(Model):
     def log(self, message, *args, level=logging.INFO, **kwargs):
         if not self.logger.isEnabledFor(level):
             return
-        message = message + " ".join(str(i) for i in args)
+        message = str(message) + " ".join(str(i) for i in args)
         message = " @{:>3}: {}".format(self.now, message)
         for k, v in kwargs.items():
             message += " {k}={v} ".format(k=k, v=v)
-- 
2.43.0


From 4e8a7ddd4d3a136a5331df36b061a2a2888fc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:39 +0000
Subject: [PATCH 66/69] fix: very small or large numbers in templates are still
 numbers

---
 soil/serialization.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index ba1d7db..2bd17a4 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -33,6 +33,13 @@ def load_string(string):
     yield from yaml.load_all(string, Loader=yaml.FullLoader)
 
 
+def _yaml_number(value):
+    """YAML only takes numbers such as 1e-05 for numbers if they have a dot"""
+    if isinstance(value, float) and "e" in str(value) and "." not in str(value):
+        return str(value).replace("e", ".0e")
+    return value
+
+
 def expand_template(config):
     if "template" not in config:
         yield config
@@ -47,7 +54,7 @@ def expand_template(config):
     if not isinstance(template, str):
         template = yaml.dump(template)
 
-    template = Template(template)
+    template = Template(template, finalize=_yaml_number)
 
     params = params_for_template(config)
 
-- 
2.43.0


From ffea992eac0dcf5a0a1f3de91d2a81c6d739403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:45 +0000
Subject: [PATCH 67/69] fix: dumping a network to GEXF leaves the network as it
 was

---
 soil/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/network.py b/soil/network.py
index 6781690..dba30df 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -70,6 +70,7 @@ def find_unassigned(G, shuffle=False, random=random):
 
 
 def dump_gexf(G, f):
+    G = G.copy()  # The network itself is left as it was
     for node in G.nodes():
         if "pos" in G.nodes[node]:
             G.nodes[node]["viz"] = {
-- 
2.43.0


From e4c412d4091849934cd240093d8553b4c7c9def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:45 +0000
Subject: [PATCH 68/69] fix: tuples, sets and bytes in lists are dumped as
 such, not as text

---
 soil/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 2bd17a4..852c3d2 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -210,7 +210,9 @@ def _serialize_list(v, known_modules=KNOWN_MODULES):
     for item in v:
         if isinstance(item, list):
             item = _serialize_list(item, known_modules=known_modules)
-        elif item is not None and not isinstance(item, (str, bool, int, float)):
+        elif isinstance(item, tuple):
+            item = tuple(_serialize_list(item, known_modules=known_modules))
+        elif item is not None and not isinstance(item, (str, bool, int, float, set, bytes)):
             item = serialize_dict(item, known_modules=known_modules)
         items.append(item)
     return items
-- 
2.43.0


From dc47f30c62ae04abaf1895d26c4f100e44c81222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:44 +0000
Subject: [PATCH 69/69] fix: agents that die in their init are not added to the
 model

---
 soil/environment.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index a6802d0..128c3b9 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -166,7 +166,8 @@ class BaseEnvironment(Model):
 
         a = agent_class(unique_id=unique_id, model=self, **agent)
 
-        self.schedule.add(a)
+        if getattr(a, "alive", True):  # It may have died in its init
+            self.schedule.add(a)
         return a
 
     def add_agents(self, agent_classes: List[type], k, weights: Optional[List[float]] = None, **kwargs):
@@ -302,7 +303,8 @@ class NetworkEnvironment(BaseEnvironment):
         except TypeError:
             self.logger.warning(f"Agent constructor for {agent_class} does not have a node_id attribute. Might be a bug.")
             a = super().add_agent(agent_class, *args, **kwargs)
-        self.G.nodes[node_id]["agent"] = a
+        if getattr(a, "alive", True):  # Otherwise, its node may be gone
+            self.G.nodes[node_id]["agent"] = a
         return a
 
     def add_agents(self, *args, k=None, **kwargs):
@@ -413,8 +415,7 @@ class NetworkEnvironment(BaseEnvironment):
             node["agent"] = None # Reserve
             toadd.append(dict(node_id=node_id, topology=self.G,  agent_class=cls, **agent_params))
         for d in toadd:
-            a = self.add_agent(**d)
-            self.G.nodes[d["node_id"]]["agent"] = a
+            self.add_agent(**d)
         assert all("agent" in node for (_, node) in self.G.nodes(data=True))
         assert len(list(self.network_agents))
 
-- 
2.43.0

