From 743b6a256a2f2fc44baed9d5d87901637b07e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 01/43] fix: cancel the agent time-limit alarm on every exit
 from TimeoutFunction

The alarm was only cancelled when the timed function returned normally, and
after the previous SIGALRM handler had been put back: an agent that raised
left a live alarm behind, which later killed the whole process.
---
 Python/research/scripts/demo/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index d81667f..3de08c2 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -626,12 +626,14 @@ class TimeoutFunction:
         # after the method has returned, and throw an exception then.
         if hasattr(signal, 'SIGALRM'):
             old = signal.signal(signal.SIGALRM, self.handle_timeout)
-            signal.alarm(self.timeout)
             try:
-                result = self.function(*args, **keyArgs)
+                signal.alarm(self.timeout)
+                try:
+                    result = self.function(*args, **keyArgs)
+                finally:
+                    signal.alarm(0)
             finally:
                 signal.signal(signal.SIGALRM, old)
-            signal.alarm(0)
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From 9975a2ea3c242e09510237c3c5a1a96f00518857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 02/43] fix: restore the working directory when loading a
 layout fails

---
 Python/research/scripts/demo/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/layout.py b/Python/research/scripts/demo/layout.py
index ebba32a..ee6ef5d 100644
--- a/Python/research/scripts/demo/layout.py
+++ b/Python/research/scripts/demo/layout.py
@@ -139,8 +139,8 @@ def getLayout(name, back = 2):
     if layout == None and back >= 0:
         curdir = os.path.abspath('.')
         os.chdir('..')
-        layout = getLayout(name, back -1)
-        os.chdir(curdir)
+        try: layout = getLayout(name, back -1)
+        finally: os.chdir(curdir)
     return layout
 
 def tryToLoad(fullname):
-- 
2.43.0


From fdc6a982a15437ffb0affdbdac218f730ae08b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 03/43] fix: give every copied game state its own agent
 configurations

AgentState.copy shared the Configuration objects (and GameStateData the
_eaten list) with the original, so an agent that changed the observation it
was handed moved the real agents of the running game.
---
 Python/research/scripts/demo/game.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 3950f27..a3bf64d 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -21,7 +21,7 @@
 # For more info, see http://inst.eecs.berkeley.edu/~cs188/sp09/pacman.html
 
 from util import *
-import time, os
+import copy, time, os
 import traceback
 import sys
 
@@ -145,8 +145,8 @@ class AgentState:
         return hash(hash(self.configuration) + 13 * hash(self.scaredTimer))
 
     def copy( self ):
-        state = AgentState( self.start, self.isPacman )
-        state.configuration = self.configuration
+        state = AgentState( copy.copy(self.start), self.isPacman )
+        state.configuration = copy.copy(self.configuration)
         state.scaredTimer = self.scaredTimer
         state.numCarrying = self.numCarrying
         state.numReturned = self.numReturned
@@ -381,7 +381,7 @@ class GameStateData:
             self.capsules = prevState.capsules[:]
             self.agentStates = self.copyAgentStates( prevState.agentStates )
             self.layout = prevState.layout
-            self._eaten = prevState._eaten
+            self._eaten = prevState._eaten[:]
             self.score = prevState.score
 
         self._foodEaten = None
-- 
2.43.0


From 4f82bb8b1a7cc3f12831a135fccbd14af01dddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 04/43] fix: restore stdout and stderr when an agent error ends
 a muted game

---
 Python/research/scripts/demo/game.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index a3bf64d..8abd394 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -568,6 +568,14 @@ class Game:
         """
         Main control loop for game play.
         """
+        stdout, stderr = sys.stdout, sys.stderr
+        try:
+            self._play()
+        finally:
+            # An exception may have left through a muted section
+            if self.muteAgents: sys.stdout, sys.stderr = stdout, stderr
+
+    def _play( self ):
         self.display.initialize(self.state.data)
         self.numMoves = 0
 
-- 
2.43.0


From 6c3e3a22bdbb0253931d92edcf8795b6f10371c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 05/43] fix: leave the sample builder unchanged when a join or
 an edge set is rejected

join_sample and build_from_edges added edges one by one before the conflict
or unknown component that makes them fail was met, so a rejected call left an
arbitrary (set iteration order dependent) part of the edges behind.
---
 Python/research/scripts/relnet/sample_graph.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index cd4e8e3..87c2507 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -137,13 +137,16 @@ class SampleGraphBuilder:
             assert self.is_edges_connected(edges), \
                 f"[SampleGraphBuilder.build_from_edges] Passed edges are not form connected graph, edges: {edges}"
 
+        new_edges: Set[RelationEdge] = set({})
         for endpoints, relation in edges:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
-            edge = self._components_provider.get_edge(frozenset(nodes), relation)
+            new_edges.add(self._components_provider.get_edge(frozenset(nodes), relation))
+
+        for edge in new_edges:
             self._edges.add(edge)
             self._endpoints[edge.endpoints] = edge
-            self._nodes.update(nodes)
+            self._nodes.update(edge.endpoints)
 
         return self.build()
 
@@ -238,7 +241,12 @@ class SampleGraphBuilder:
                 join_edges(not_connected)
 
         if sample.edges:
-            join_edges(set(sample.edges))
+            nodes, edges, endpoints = set(self._nodes), set(self._edges), dict(self._endpoints)
+            try:
+                join_edges(set(sample.edges))
+            except BaseException:  # Not joinable sample should not be joined partially
+                self._nodes, self._edges, self._endpoints = nodes, edges, endpoints
+                raise
         else:  # Single node graph
             assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._nodes), \
                 f"[SampleGraphBuilder.join_sample] Single node sample can be joined only " \
-- 
2.43.0


From cde9df9bed74469fbfd0f00db0e342bd8f1ec07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:08 +0000
Subject: [PATCH 06/43] fix: make_joined skips factor combinations that
 disagree on any shared variable

can_join_samples only compares the variables common to all of the samples, so
a combination of three or more factors of which two disagree reached the
sample builder, and make_joined failed with an AssertionError.
---
 Python/research/scripts/relnet/relation_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 85b9abd..2c38053 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -313,7 +313,7 @@ class RelationGraph(SampleSpace):
                     [join_factors(outcomes[1:], acc.copy().add(o, c)) for o, c in outcomes[0].items()])
             else:
                 ss = acc.build()
-                if ss.can_join_samples():
+                if ss and ss.is_all_values_match():
                     bo, cs = acc.build().make_joined_sample()
                     return SampleSetBuilder(self._components_provider, {bo: prod(cs)}).build()
                 else:
-- 
2.43.0


From a52090a9b3e4fd6a1f30cdce92f8a37b59f8a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 07/43] fix: group single node samples by their variable, not
 by the characters of its name

---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..c43fc49 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({frozenset(sample.included_variables)})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0


From 8de27ca1648fd104bb530297c06f2860fdd178bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 08/43] fix: components provider keeps its own copy of the
 variables and relations

Changing the dictionary or the sets after a network was created changed the
variables and values of the already built, immutable, graphs.
---
 Python/research/scripts/relnet/graph_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index d6b9d08..7a5ee14 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -169,8 +169,8 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
         assert relations, \
             f"[BuilderComponentsProvider.__init__] Set of relations should not be empty."
 
-        self._variables: Dict[Any, Set[Any]] = variables
-        self._relations: Set[Any] = relations
+        self._variables: Dict[Any, Set[Any]] = {var: set(values) for var, values in variables.items()}
+        self._relations: Set[Any] = set(relations)
         self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}
         self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}
 
-- 
2.43.0


From 7633f672563d35d721beb9746fc63b15fed2f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 09/43] fix: activation graph of evidence that no outcome
 supports is all zero

It failed with ZeroDivisionError.
---
 Python/research/scripts/relnet/conditional_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/conditional_graph.py b/Python/research/scripts/relnet/conditional_graph.py
index 9a13e8b..20eb8cd 100644
--- a/Python/research/scripts/relnet/conditional_graph.py
+++ b/Python/research/scripts/relnet/conditional_graph.py
@@ -106,7 +106,7 @@ class ConditionalGraph(SampleSpace):
         return ActivationGraph(
             self._components_provider,
             self.outcomes.length,
-            {ActiveNode(var, {v: w / self.outcomes.length for v, w in values.items()}, in_query)
+            {ActiveNode(var, {v: w / max(self.outcomes.length, 1) for v, w in values.items()}, in_query)
              for var, (values, in_query) in grouped_values.items()},
             {ActiveEdge(set(endpoints), relations, in_query)
              for endpoints, (relations, in_query) in grouped_relations.items()},
-- 
2.43.0


From fffdbeda3c6de44051875ee9ad5040d4e1725029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 10/43] fix: sampling no longer runs past a distribution whose
 sum is rounded down

With 4 legal actions and prob_attack=0.7 a DirectionalGhost failed with
IndexError when the random number was close enough to 1.
---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 3de08c2..143fce7 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -497,7 +497,7 @@ def sample(distribution, values = None):
         distribution = normalize(distribution)
     choice = random.random()
     i, total= 0, distribution[0]
-    while choice > total:
+    while choice > total and i < len(distribution) - 1: # the total may be rounded to less than 1
         i += 1
         total += distribution[i]
     return values[i]
-- 
2.43.0


From ac6913187961049fa7cfdcf89e64b6f4dacc2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 11/43] fix: wait_for_keys waits for a key

A dictionary view never equals [], so stepping by keyboard (frameTime < 0) did
not stop at all.
---
 Python/research/scripts/demo/graphicsUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsUtils.py b/Python/research/scripts/demo/graphicsUtils.py
index 22e6ae1..097b6d1 100644
--- a/Python/research/scripts/demo/graphicsUtils.py
+++ b/Python/research/scripts/demo/graphicsUtils.py
@@ -309,7 +309,7 @@ def keys_waiting():
 def wait_for_keys():
     keys = []
     while keys == []:
-        keys = keys_pressed()
+        keys = list(keys_pressed())
         sleep(0.05)
     return keys
 
-- 
2.43.0


From 06de457b98ebf787834e16e58b4ce85b306ef83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 12/43] fix: measure agent time with the monotonic clock

A step of the system clock during a move was charged to the agent: forwards it
lost the game for an agent well within its limits, backwards it cancelled time
used.
---
 Python/research/scripts/demo/game.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 8abd394..8bd0837 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -597,9 +597,9 @@ class Game:
                     try:
                         timed_func = TimeoutFunction(agent.registerInitialState, int(self.rules.getMaxStartupTime(i)))
                         try:
-                            start_time = time.time()
+                            start_time = time.monotonic()
                             timed_func(self.state.deepCopy())
-                            time_taken = time.time() - start_time
+                            time_taken = time.monotonic() - start_time
                             self.totalAgentTimes[i] += time_taken
                         except TimeoutFunctionException:
                             print("Agent %d ran out of time on startup!" % i, file=sys.stderr)
@@ -631,11 +631,11 @@ class Game:
                     try:
                         timed_func = TimeoutFunction(agent.observationFunction, int(self.rules.getMoveTimeout(agentIndex)))
                         try:
-                            start_time = time.time()
+                            start_time = time.monotonic()
                             observation = timed_func(self.state.deepCopy())
                         except TimeoutFunctionException:
                             skip_action = True
-                        move_time += time.time() - start_time
+                        move_time += time.monotonic() - start_time
                         self.unmute()
                     except Exception as data:
                         self._agentCrash(agentIndex, quiet=False)
@@ -654,7 +654,7 @@ class Game:
                 try:
                     timed_func = TimeoutFunction(agent.getAction, int(self.rules.getMoveTimeout(agentIndex)) - int(move_time))
                     try:
-                        start_time = time.time()
+                        start_time = time.monotonic()
                         if skip_action:
                             raise TimeoutFunctionException()
                         action = timed_func( observation )
@@ -665,7 +665,7 @@ class Game:
                         self.unmute()
                         return
 
-                    move_time += time.time() - start_time
+                    move_time += time.monotonic() - start_time
 
                     if move_time > self.rules.getMoveWarningTime(agentIndex):
                         self.totalAgentTimeWarnings[agentIndex] += 1
-- 
2.43.0


From ade2c8a81bb1de459e11ec00d45191a4da52e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 13/43] fix: an agent whose observation used up the move time
 gets no unlimited move

The time left for getAction could come out as 0 (or less), which signal.alarm
takes as no limit at all.
---
 Python/research/scripts/demo/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 8bd0837..d159837 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -655,7 +655,7 @@ class Game:
                     timed_func = TimeoutFunction(agent.getAction, int(self.rules.getMoveTimeout(agentIndex)) - int(move_time))
                     try:
                         start_time = time.monotonic()
-                        if skip_action:
+                        if skip_action or timed_func.timeout <= 0: # no time left, and alarm(0) means no limit
                             raise TimeoutFunctionException()
                         action = timed_func( observation )
                     except TimeoutFunctionException:
-- 
2.43.0


From 7a93bad44f0512306f00dfea7c7e55524f15c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 14/43] fix: recording a game never overwrites an earlier
 record

The file name has a resolution of one second and no year, so games of two
runGames calls could share it.
---
 Python/research/scripts/demo/pacman.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Python/research/scripts/demo/pacman.py b/Python/research/scripts/demo/pacman.py
index 423bf80..adb5814 100644
--- a/Python/research/scripts/demo/pacman.py
+++ b/Python/research/scripts/demo/pacman.py
@@ -618,6 +618,7 @@ def runGames( layout, pacman, ghosts, display, numGames, record, numTraining = 0
         if record:
             import time, pickle
             fname = ('recorded-game-%d' % (i + 1)) +  '-'.join([str(t) for t in time.localtime()[1:6]])
+            while os.path.exists(fname): fname += '-' # two games of the same second, or a clock set back
             f = open(fname, 'wb')
             components = {'layout': layout, 'actions': game.moveHistory}
             pickle.dump(components, f)
-- 
2.43.0


From 8c801dd4dc31d03d2263881b58961f73f665ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:34 +0000
Subject: [PATCH 15/43] fix: joining a sample set does not depend on the order
 of its samples

---
 Python/research/scripts/relnet/sample_set.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c43fc49..fe0e65f 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -188,8 +188,13 @@ class SampleSet(Samples):
         :return: (new_sample, list_of_counts)
         """
         sgb = SampleGraphBuilder(self._components_provider)
-        for s in self._samples.keys():
-            sgb.join_sample(s)
+        joined_nodes: Set[Any] = set({})
+        to_join = list(self._samples.keys())
+        while to_join:  # Join connected samples first, so result not depends on order of samples
+            sample = next((s for s in to_join if not joined_nodes.isdisjoint(s.nodes)), to_join[0])
+            sgb.join_sample(sample)
+            joined_nodes.update(sample.nodes)
+            to_join.remove(sample)
         return sgb.build(), list(self._samples.values())
 
     def is_all_values_match(self) -> bool:
-- 
2.43.0


From 357fdcb49bcb20d7009562b28e12be5ce2473b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:48 +0000
Subject: [PATCH 16/43] fix: a refused remove_all removes nothing

---
 Python/research/scripts/relnet/sample_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index fe0e65f..0916ec5 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -339,7 +339,11 @@ class SampleSetBuilder(Samples):
         :param samples: sample set to be removed
         :return: self
         """
-        for sample in samples.samples():
+        to_remove = samples.samples()
+        assert to_remove.issubset(self._samples.keys()), \
+            f"[SampleSetBuilder.remove_all] Some of samples {to_remove} not in this sample set"
+
+        for sample in to_remove:
             self.remove(sample)
         return self
 
-- 
2.43.0


From 352e379c987f9be8a8a92d7b61ede85149a1f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:15 +0000
Subject: [PATCH 17/43] fix: get_edge looks endpoints up, other threads may be
 adding nodes

---
 Python/research/scripts/relnet/graph_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index 7a5ee14..fb7b4ee 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -194,7 +194,7 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
             return node
 
     def get_edge(self, endpoints: frozenset[ValueNode], relation: Any) -> RelationEdge:
-        assert endpoints.issubset(self.nodes.values()), \
+        assert all(self.nodes.get(ep.var_val()) == ep for ep in endpoints), \
             f"[BuilderComponentsProvider.get_edge] Endpoints nodes should be created first, " \
             f"got {endpoints} where nodes {self.nodes}"
         assert (relation.relation if isinstance(relation, DirectedRelation) else relation) in self._relations, \
-- 
2.43.0


From d20c5652ab0e8d64df9390e407cf59ae75c416c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 18/43] fix: outcomes page keeps the nodes of different
 outcomes apart

---
 Python/research/scripts/relnet/sample_space.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 70cf7a4..fa40089 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -206,14 +206,14 @@ class SampleSpace:
         for i, (outcome, count) in enumerate(self.outcomes.items()):
             node_list = list(outcome.nodes)
             head_node = node_list[0]
-            net.add_node(head_node.string_id + str(i), label=f"{head_node.string_id}@{outcome.name}({count})")
+            net.add_node(f"{i}:{head_node.string_id}", label=f"{head_node.string_id}@{outcome.name}({count})")
 
             for node in node_list[1:]:
-                net.add_node(node.string_id + str(i), label=node.string_id)
+                net.add_node(f"{i}:{node.string_id}", label=node.string_id)
 
             for edge in outcome.edges:
                 ep = list(edge.endpoints)
-                net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i), label=str(edge.relation))
+                net.add_edge(f"{i}:{ep[0].string_id}", f"{i}:{ep[1].string_id}", label=str(edge.relation))
 
         if self._evidence:
             for node in self._evidence.nodes:
-- 
2.43.0


From 52753baf4ff8db707e11fff81110c8bdc4f9e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:00 +0000
Subject: [PATCH 19/43] fix: outcomes page can show the empty outcome

---
 Python/research/scripts/relnet/sample_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index fa40089..2f25c10 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -204,6 +204,10 @@ class SampleSpace:
         net = Network(height=height, width=width)
 
         for i, (outcome, count) in enumerate(self.outcomes.items()):
+            if outcome.is_k_0:  # Empty outcome have no node to be head
+                net.add_node(f"{i}:", label=f"@{outcome.name}({count})")
+                continue
+
             node_list = list(outcome.nodes)
             head_node = node_list[0]
             net.add_node(f"{i}:{head_node.string_id}", label=f"{head_node.string_id}@{outcome.name}({count})")
-- 
2.43.0


From d6d4cd7232a7df488e43a6516386872f48ee1241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:33 +0000
Subject: [PATCH 20/43] fix: losing to several ghosts at once costs 500 points
 once

---
 Python/research/scripts/demo/pacman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/pacman.py b/Python/research/scripts/demo/pacman.py
index adb5814..c28e34a 100644
--- a/Python/research/scripts/demo/pacman.py
+++ b/Python/research/scripts/demo/pacman.py
@@ -441,7 +441,7 @@ class GhostRules:
             # Added for first-person
             state.data._eaten[agentIndex] = True
         else:
-            if not state.data._win:
+            if not state.data._win and not state.data._lose: # Several ghosts may touch Pacman at once
                 state.data.scoreChange -= 500
                 state.data._lose = True
     collide = staticmethod( collide )
-- 
2.43.0


From 7525b634fa708cd9dac99ed2c29a063659fb5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 21/43] fix: a record never replaces one that another process
 creates at the same moment

---
 Python/research/scripts/demo/pacman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/pacman.py b/Python/research/scripts/demo/pacman.py
index c28e34a..e30eb20 100644
--- a/Python/research/scripts/demo/pacman.py
+++ b/Python/research/scripts/demo/pacman.py
@@ -619,7 +619,7 @@ def runGames( layout, pacman, ghosts, display, numGames, record, numTraining = 0
             import time, pickle
             fname = ('recorded-game-%d' % (i + 1)) +  '-'.join([str(t) for t in time.localtime()[1:6]])
             while os.path.exists(fname): fname += '-' # two games of the same second, or a clock set back
-            f = open(fname, 'wb')
+            f = open(fname, 'xb') # never the file of a game that another process records at this moment
             components = {'layout': layout, 'actions': game.moveHistory}
             pickle.dump(components, f)
             f.close()
-- 
2.43.0


From 1349bc76efe5492157304e0813defb376f6e4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 22/43] fix: a timed function that catches its timeout
 exception has still timed out

---
 Python/research/scripts/demo/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 143fce7..02baf14 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -618,6 +618,7 @@ class TimeoutFunction:
         self.function = function
 
     def handle_timeout(self, signum, frame):
+        self.expired = True
         raise TimeoutFunctionException()
 
     def __call__(self, *args, **keyArgs):
@@ -625,15 +626,20 @@ class TimeoutFunction:
         # when this function runs too long.  Otherwise check the time taken
         # after the method has returned, and throw an exception then.
         if hasattr(signal, 'SIGALRM'):
+            self.expired = False
             old = signal.signal(signal.SIGALRM, self.handle_timeout)
             try:
                 signal.alarm(self.timeout)
                 try:
                     result = self.function(*args, **keyArgs)
+                except Exception:
+                    if self.expired: raise TimeoutFunctionException()
+                    raise
                 finally:
                     signal.alarm(0)
             finally:
                 signal.signal(signal.SIGALRM, old)
+            if self.expired: raise TimeoutFunctionException() # the function caught the exception
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From dd7d6bd6b1f699377e56194f51d1d98787ae4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 23/43] fix: grouping intersecting samples keeps the samples of
 a group that already spans the merged variable pairs

---
 Python/research/scripts/relnet/sample_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 0916ec5..629feba 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -154,7 +154,8 @@ class SampleSet(Samples):
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
-                        sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        merged = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | merged  # May already be such group
                         group()
                         return
         group()
-- 
2.43.0


From daa576444d00674800464b32538ed5c296a77276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:13 +0000
Subject: [PATCH 24/43] fix: two empty samples are completely similar instead
 of failing with a division by zero

---
 Python/research/scripts/relnet/sample_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 87c2507..2c27d5c 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -439,7 +439,8 @@ class SampleGraph:
         """
         intersect_hash = self.hash.intersection(other.hash)
         differ_hash = self.hash.symmetric_difference(other.hash)
-        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))
+        total = len(intersect_hash) + len(differ_hash)
+        return len(intersect_hash) / total if total else 1.0  # two empty samples completely match
 
     def belt_nodes(
             self,
-- 
2.43.0


From e530cd53c80cde5bfc91d5275ba7359f4a8b4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:25 +0000
Subject: [PATCH 25/43] fix: sampling never returns a value of probability zero

---
 Python/research/scripts/demo/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 02baf14..a52f269 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -497,7 +497,8 @@ def sample(distribution, values = None):
         distribution = normalize(distribution)
     choice = random.random()
     i, total= 0, distribution[0]
-    while choice > total and i < len(distribution) - 1: # the total may be rounded to less than 1
+    last = max((j for j, p in enumerate(distribution) if p > 0), default=len(distribution) - 1)
+    while choice >= total and i < last: # the total may be rounded to less than 1
         i += 1
         total += distribution[i]
     return values[i]
-- 
2.43.0


From 7b6d5ba265761a03283421b1e4f734d5578b6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 26/43] fix: chooseFromDistribution of a plain dictionary
 samples its values instead of failing

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index a52f269..c38b310 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -489,7 +489,7 @@ def nSample(distribution, values, n):
     return samples
 
 def sample(distribution, values = None):
-    if type(distribution) == Counter:
+    if isinstance(distribution, dict): # Counter or plain dictionary
         items = sorted(distribution.items())
         distribution = [i[1] for i in items]
         values = [i[0] for i in items]
-- 
2.43.0


From fab2b776cf64b6d4ab4f3f74ae4500fdc8d1f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 27/43] fix: chooseFromDistribution of pairs always returns an
 element of positive probability

---
 Python/research/scripts/demo/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index c38b310..b73a4d2 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -528,9 +528,13 @@ def chooseFromDistribution( distribution ):
         return sample(distribution)
     r = random.random()
     base = 0.0
+    last = None
     for prob, element in distribution:
         base += prob
-        if r <= base: return element
+        if prob > 0:
+            last = element
+            if r < base: return element
+    return last # the total may be rounded to less than 1
 
 def nearestPoint( pos ):
     """
-- 
2.43.0


From 4dbf4a425a797000c6726fcf282a438807477249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 28/43] fix: nSample does not run off the end of a distribution
 that is rounded to less than one

---
 Python/research/scripts/demo/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index b73a4d2..8911c32 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -479,8 +479,9 @@ def nSample(distribution, values, n):
     rand.sort()
     samples = []
     samplePos, distPos, cdf = 0,0, distribution[0]
+    last = max((j for j, p in enumerate(distribution) if p > 0), default=len(distribution) - 1)
     while samplePos < n:
-        if rand[samplePos] < cdf:
+        if rand[samplePos] < cdf or distPos == last: # the total may be rounded to less than 1
             samplePos += 1
             samples.append(values[distPos])
         else:
-- 
2.43.0


From 0975b605dbd908f14155ebfb41d2f266ecfe73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 29/43] fix: without SIGALRM, time limits are measured with the
 monotonic clock

---
 Python/research/scripts/demo/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 8911c32..7aab4f9 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -647,9 +647,9 @@ class TimeoutFunction:
                 signal.signal(signal.SIGALRM, old)
             if self.expired: raise TimeoutFunctionException() # the function caught the exception
         else:
-            startTime = time.time()
+            startTime = time.monotonic()
             result = self.function(*args, **keyArgs)
-            timeElapsed = time.time() - startTime
+            timeElapsed = time.monotonic() - startTime
             if timeElapsed >= self.timeout:
                 self.handle_timeout(None, None)
         return result
-- 
2.43.0


From 676ea65972d408d24e60de5ba0892b43189dc3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:23 +0000
Subject: [PATCH 30/43] fix: a file named flag in the working directory does
 not change how Pacman is drawn

---
 Python/research/scripts/demo/graphicsUtils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Python/research/scripts/demo/graphicsUtils.py b/Python/research/scripts/demo/graphicsUtils.py
index 097b6d1..c32ab4f 100644
--- a/Python/research/scripts/demo/graphicsUtils.py
+++ b/Python/research/scripts/demo/graphicsUtils.py
@@ -215,10 +215,7 @@ def moveCircle(id, pos, r, endpoints=None):
         e = list(endpoints)
     while e[0] > e[1]: e[1] = e[1] + 360
 
-    if os.path.isfile('flag'):
-        edit(id, ('extent', e[1] - e[0]))
-    else:
-        edit(id, ('start', e[0]), ('extent', e[1] - e[0]))
+    edit(id, ('start', e[0]), ('extent', e[1] - e[0]))
     move_to(id, x0, y0)
 
 def edit(id, *args):
-- 
2.43.0


From 663d6c8976eabc744c35ecdd9e54da2e81954d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 31/43] fix: closing the window in the last second does not
 leave it on the screen

---
 Python/research/scripts/demo/graphicsUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/graphicsUtils.py b/Python/research/scripts/demo/graphicsUtils.py
index c32ab4f..1b53cfd 100644
--- a/Python/research/scripts/demo/graphicsUtils.py
+++ b/Python/research/scripts/demo/graphicsUtils.py
@@ -146,10 +146,10 @@ def end_graphics():
     try:
         try:
             sleep(1)
-            if _root_window != None:
-                _root_window.destroy()
         except SystemExit as e:
             print('Ending graphics raised an exception:', e)
+        if _root_window != None:
+            _root_window.destroy()
     finally:
         _root_window = None
         _canvas = None
-- 
2.43.0


From 14f45ae8ea585ae943abcfebbbad15db823df350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 32/43] fix: any number of sample sets can be joined, so
 make_joined works on large factors

---
 Python/research/scripts/relnet/sample_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 629feba..916efa2 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -272,12 +272,12 @@ class SampleSetBuilder(Samples):
         :param sample_sets: smple sets to be joined
         :return: joined sample set
         """
-        if len(sample_sets) > 1:
-            return sample_sets[0].union(SampleSetBuilder.join_sample_set(sample_sets[1:]))
-        else:
-            assert sample_sets, \
-                "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
-            return sample_sets[0]
+        assert sample_sets, \
+            "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
+        joined = sample_sets[-1]
+        for sample_set in reversed(sample_sets[:-1]):  # No recursion, since there may be thousands of sample sets
+            joined = sample_set.union(joined)
+        return joined
 
     def __init__(
             self,
-- 
2.43.0


From dce5ce1502075809796b85ad5742789472f24876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 33/43] fix: any number of groups of samples can be merged by
 group_intersecting

---
 Python/research/scripts/relnet/sample_set.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 916efa2..923a580 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -150,15 +150,16 @@ class SampleSet(Samples):
             else:
                 sample_acc[key] = {sample: count}
 
-        def group():
+        def group() -> bool:
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
                         merged = sample_acc.pop(k_a) | sample_acc.pop(k_b)
                         sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | merged  # May already be such group
-                        group()
-                        return
-        group()
+                        return True
+            return False
+        while group():  # No recursion, since there may be thousands of groups
+            pass
         grouped = {
             frozenset({v for vs in key for v in vs}): SampleSet(self._components_provider, samples)
             for key, samples in sample_acc.items()}
-- 
2.43.0


From aff75d09512d2840323e132f9d806bd82a22a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 34/43] fix: samples with thousands of nodes can be built from
 edges and joined

---
 .../research/scripts/relnet/sample_graph.py   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 2c27d5c..405eef7 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -47,13 +47,13 @@ class SampleGraphBuilder:
             tracing_map[endpoints[0]].add(endpoints[1])
             tracing_map[endpoints[1]].add(endpoints[0])
 
-        def trace(start_node: (Any, Any)):
-            if start_node not in traced:
-                traced.add(start_node)
-                for next_node in tracing_map[start_node]:
-                    trace(next_node)
+        to_trace = [next(iter(tracing_map.keys()))]
+        while to_trace:  # No recursion, since there may be thousands of nodes
+            node = to_trace.pop()
+            if node not in traced:
+                traced.add(node)
+                to_trace.extend(tracing_map[node])
 
-        trace(next(iter(tracing_map.keys())))
         return len(tracing_map) == len(traced)
 
     @staticmethod
@@ -213,7 +213,7 @@ class SampleGraphBuilder:
         def is_connected(edge: RelationEdge) -> bool:
             return not edge.endpoints.isdisjoint(self._nodes) or not self._nodes
 
-        def join_edges(edges: Set[RelationEdge]) -> None:
+        def join_edges(edges: Set[RelationEdge]) -> Set[RelationEdge]:
             not_connected = set({})
 
             for edge in edges:
@@ -237,13 +237,14 @@ class SampleGraphBuilder:
                 f"[SampleGraphBuilder.join_sample] One or both endpoint should be previously added, " \
                 f"to keep graph connected, got not connected edges  {edges} where previously added {self._nodes}"
 
-            if not_connected:
-                join_edges(not_connected)
+            return not_connected
 
         if sample.edges:
             nodes, edges, endpoints = set(self._nodes), set(self._edges), dict(self._endpoints)
             try:
-                join_edges(set(sample.edges))
+                to_join = set(sample.edges)
+                while to_join:  # No recursion, since there may be thousands of edges
+                    to_join = join_edges(to_join)
             except BaseException:  # Not joinable sample should not be joined partially
                 self._nodes, self._edges, self._endpoints = nodes, edges, endpoints
                 raise
-- 
2.43.0


From 8ec2b6fb55a16c08942bcd9b2e3cf74d217104f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 35/43] fix: thousands of factors can be joined without
 exhausting the recursion limit

---
 .../research/scripts/relnet/relation_graph.py | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 2c38053..a64d68d 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -19,6 +19,7 @@ created: 2021-08-09
 """
 
 from typing import List, Dict, Set, Any, Tuple, Optional, Callable
+from itertools import product
 from math import prod
 
 from .graph_components import SampleGraphComponentsProvider, BuilderComponentsProvider
@@ -248,22 +249,19 @@ class RelationGraph(SampleSpace):
         join_variables = variables if (variables is not None) else {v for v, _ in self.included_variables()}
         outcomes_acc: SampleSetBuilder = self.outcomes.builder()
 
-        def cross_join(groups: List[SampleSet], joints: SampleSetBuilder) -> SampleSet:
+        def cross_join(groups: List[SampleSet]) -> SampleSet:
             ssb = SampleSetBuilder(self._components_provider)
-            if not groups:  # To join if groups empty
-                joints_set = joints.build()
+            for joint in product(*[g.items() for g in groups]):  # No recursion, since there may be thousands of groups
+                joints_set = SampleSet(self._components_provider, dict(joint))
                 if joints_set and joints_set.is_all_values_match():
-                    joined_sample, counts = joints.build().make_joined_sample()
+                    joined_sample, counts = joints_set.make_joined_sample()
                     ssb.add(joined_sample, prod(counts))
-            else:
-                for s, c in groups[0].items():
-                    ssb.add_all(cross_join(groups[1:], joints.copy().add(s, c)))
             return ssb.build()
 
         for join_var in join_variables:
             join_outcomes = outcomes_acc.build().filter_samples(lambda o: join_var in o.included_variables)
             groped_outcomes = join_outcomes.group_intersecting()
-            joined_outcomes = cross_join(list(groped_outcomes.values()), SampleSetBuilder(self._components_provider))
+            joined_outcomes = cross_join(list(groped_outcomes.values()))
             outcomes_acc.remove_all(join_outcomes)
             outcomes_acc.add_all(joined_outcomes)
 
@@ -307,17 +305,14 @@ class RelationGraph(SampleSpace):
         :return: New instance of relation graph which contains joined distribution
         """
 
-        def join_factors(outcomes: List[Dict[SampleGraph, int]], acc: SampleSetBuilder) -> SampleSet:
-            if outcomes:
-                return SampleSetBuilder.join_sample_set(
-                    [join_factors(outcomes[1:], acc.copy().add(o, c)) for o, c in outcomes[0].items()])
-            else:
-                ss = acc.build()
+        def join_factors(outcomes: List[Dict[SampleGraph, int]]) -> SampleSet:
+            ssb = SampleSetBuilder(self._components_provider)
+            for joint in product(*[os.items() for os in outcomes]):  # No recursion, since there may be many factors
+                ss = SampleSet(self._components_provider, dict(joint))
                 if ss and ss.is_all_values_match():
-                    bo, cs = acc.build().make_joined_sample()
-                    return SampleSetBuilder(self._components_provider, {bo: prod(cs)}).build()
-                else:
-                    return SampleSetBuilder(self._components_provider).empty()
+                    bo, cs = ss.make_joined_sample()
+                    ssb.add(bo, prod(cs))
+            return ssb.build()
 
         factors: frozenset[SampleSet] = self.factorized()
 
@@ -326,9 +321,7 @@ class RelationGraph(SampleSpace):
             joined_factor = SampleSetBuilder(self._components_provider)
             for val in values:
                 outcomes_for_val = [{o: c for o, c in f.items() if o.have_value(var, val)} for f in factors_for_var]
-                joined_factor.add_all(join_factors(
-                    [os for os in outcomes_for_val if os],
-                    SampleSetBuilder(self._components_provider)))
+                joined_factor.add_all(join_factors([os for os in outcomes_for_val if os]))
             factors = factors.difference(factors_for_var)
             factors = factors.union(frozenset({joined_factor.build()}))
 
-- 
2.43.0


From c2e95fb782e5ffe492b81739706cdff74fde013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 36/43] fix: external nodes of samples with thousands of nodes
 can be found

---
 .../research/scripts/relnet/sample_graph.py   | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 405eef7..98c5cf1 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -483,19 +483,15 @@ class SampleGraph:
                                 if None then select all neighbors.
         :return: Dict[external_node, Set[relation_edge_which_lead_to_internal_node]]
         """
-        acc_nodes = self.belt_nodes(internal_nodes, relation_filter)
-        if acc_nodes:
-            for node, edges in self.external_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter).items():
-                if node in acc_nodes:
-                    assert acc_nodes[node].isdisjoint(edges), \
-                        "[SampleGraph.external_nodes] sample graph can't have identical edges " \
-                        "and they can't be checked twice, look like bug."
-                    acc_nodes[node].update(edges)
-                else:
-                    acc_nodes[node] = edges
-            return acc_nodes
-        else:
-            return {}  # All value nodes checked
+        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = {}
+        belt = self.belt_nodes(internal_nodes, relation_filter)
+        while belt:  # No recursion, since there may be thousands of steps
+            assert acc_nodes.keys().isdisjoint(belt.keys()), \
+                "[SampleGraph.external_nodes] node can't be checked twice, look like bug."
+            acc_nodes.update(belt)
+            internal_nodes = internal_nodes.union(belt.keys())
+            belt = self.belt_nodes(internal_nodes, relation_filter)
+        return acc_nodes  # All value nodes checked
 
     def variables_subgraph_hash(self, variables: Set[Any]) -> frozenset[Any]:
         """
-- 
2.43.0


From f6cd112c51e4833a53b7edb917fa57b17a39eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 37/43] fix: marginal distribution of folded node does not
 overflow on counts beyond the range of floats

---
 Python/research/scripts/relnet/folded_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 8d63adc..526afc4 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -63,7 +63,7 @@ class FoldedNode(VariableNode):
         then normalize all counts ant return.
         :return:  Dict[value, normalized_marginal_probability]
         """
-        acc: Dict[Any, float] = {v: 0.0 for v in self.values}
+        acc: Dict[Any, int] = {v: 0 for v in self.values}
         total: int = 0
 
         for value_node, count in self.value_nodes:
-- 
2.43.0


From 61e309bf389aeca1009f66f52344bc6d882e76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 38/43] fix: activation does not overflow on counts beyond the
 range of floats

---
 Python/research/scripts/relnet/conditional_graph.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Python/research/scripts/relnet/conditional_graph.py b/Python/research/scripts/relnet/conditional_graph.py
index 20eb8cd..3a20d1c 100644
--- a/Python/research/scripts/relnet/conditional_graph.py
+++ b/Python/research/scripts/relnet/conditional_graph.py
@@ -18,6 +18,7 @@ website: github.com/alexcab
 created: 2021-08-09
 """
 
+from fractions import Fraction
 from typing import Dict, Any, Set, Optional
 
 from .activation_graph import ActivationGraph, ActiveNode, ActiveEdge
@@ -66,17 +67,17 @@ class ConditionalGraph(SampleSpace):
         :param name: optional name for activation graph, if None then self.name will passed
         :return ActivationGraph: activation graph:
         """
-        grouped_values: Dict[Any, (Dict[Any, float], bool)] = {
-            var: ({val: 0.0 for val in values}, var in self.evidence.included_variables)
+        grouped_values: Dict[Any, (Dict[Any, Fraction], bool)] = {
+            var: ({val: Fraction(0) for val in values}, var in self.evidence.included_variables)
             for var, values in self._components_provider.variables()}
 
         grouped_relations: Dict[frozenset[Any], (Dict[Any, int], bool)] = {}
 
         for outcome, count in self.outcomes.items():
-            similarity = outcome.similarity(self.evidence)
+            similarity = Fraction(outcome.similarity(self.evidence))  # Counts may be beyond the range of floats
             external_nodes = outcome.external_nodes(set(self.evidence.nodes), relation_filter)
             out_query_nodes = {node: (similarity * count, False) for node in external_nodes.keys()}
-            in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes.intersection(outcome.nodes)}
+            in_query_nodes = {node: (Fraction(count), True) for node in self.evidence.nodes.intersection(outcome.nodes)}
             out_query_edges = {(edge, False) for rel_edges in external_nodes.values() for edge in rel_edges}
             in_query_edges = {(edge, True) for edge in self.evidence.edges}
 
@@ -106,7 +107,7 @@ class ConditionalGraph(SampleSpace):
         return ActivationGraph(
             self._components_provider,
             self.outcomes.length,
-            {ActiveNode(var, {v: w / max(self.outcomes.length, 1) for v, w in values.items()}, in_query)
+            {ActiveNode(var, {v: float(w / max(self.outcomes.length, 1)) for v, w in values.items()}, in_query)
              for var, (values, in_query) in grouped_values.items()},
             {ActiveEdge(set(endpoints), relations, in_query)
              for endpoints, (relations, in_query) in grouped_relations.items()},
-- 
2.43.0


From 13c5e09cb775dc567fadf5af0b73b4986dc85898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 39/43] fix: show the belief distributions in every cell, not
 only in the first

---
 Python/research/scripts/demo/graphicsDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index bd53e9a..67a1e79 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -589,7 +589,7 @@ class PacmanGraphics:
     def updateDistributions(self, distributions):
         "Draws an agent's belief distributions"
         # copy all distributions so we don't change their state
-        distributions = map(lambda x: x.copy(), distributions)
+        distributions = [x.copy() for x in distributions]
         if self.distributionImages == None:
             self.drawDistributions(self.previousState)
         for x in range(len(self.distributionImages)):
-- 
2.43.0


From aecf3eb45effba155efb6d984d84e436f76a76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 40/43] fix: forget the expanded cells of an earlier game when
 a new window is opened

---
 Python/research/scripts/demo/graphicsDisplay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index 67a1e79..e462c27 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -185,6 +185,7 @@ class PacmanGraphics:
         self.make_window(self.width, self.height)
         self.infoPane = InfoPane(layout, self.gridSize)
         self.currentState = layout
+        self.expandedCells = []  # Those of an earlier game have gone with its window
 
     def drawDistributions(self, state):
         walls = state.layout.walls
-- 
2.43.0


From 8da7a9f68f60dae2bf415350d0f540e58c0bfd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 41/43] fix: Counter.argMax works on the views of Python 3

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 7aab4f9..3f9a919 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -295,7 +295,7 @@ class Counter(dict):
         Returns the key with the highest value.
         """
         if len(self.keys()) == 0: return None
-        all = self.items()
+        all = list(self.items())
         values = [x[1] for x in all]
         maxIndex = values.index(max(values))
         return all[maxIndex][0]
-- 
2.43.0


From 5943f98406d727f521a5717b0ea7fb83ef7da028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 42/43] fix: Counter.sortedKeys works on the views of Python 3

---
 Python/research/scripts/demo/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 3f9a919..ff5d428 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -312,9 +312,7 @@ class Counter(dict):
         >>> a.sortedKeys()
         ['second', 'third', 'first']
         """
-        sortedItems = self.items()
-        compare = lambda x, y:  sign(y[1] - x[1])
-        sortedItems.sort(cmp=compare)
+        sortedItems = sorted(self.items(), key=lambda item: item[1], reverse=True)
         return [x[0] for x in sortedItems]
 
     def totalCount(self):
-- 
2.43.0


From 9656f28df3a6d9fbe7236bde6d26a141196faf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 43/43] fix: PriorityQueue.update adds a new item to a queue
 with a priority function

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index ff5d428..73a475e 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -203,7 +203,7 @@ class PriorityQueue:
                 heapq.heapify(self.heap)
                 break
         else:
-            self.push(item, priority)
+            PriorityQueue.push(self, item, priority) # a subclass may push without a priority
 
 class PriorityQueueWithFunction(PriorityQueue):
     """
-- 
2.43.0

