From 0f80150d5481287b8be7448ec0220ff72f3554c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 1/9] fix: edge_count under-counts self-loops (and a self-loop
 passes for a DAG)

---
 core/src/directed_graph.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 767923e..60b18e6 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -8,7 +8,7 @@ use crate::graph::*;
 /// edge attributes
 #[derive(Debug, PartialEq)]
 pub struct DirectedGraph {
-    // Each edge is indexed by both its vertices => 1 edge appears twice in the map
+    // Each edge is indexed by both its vertices => 1 edge appears twice in the map (once for a self-loop)
     edge_map: HashMap<VertexId, Vec<Edge>>,
 }
 
@@ -32,12 +32,8 @@ impl DirectedGraph {
     }
 
     pub fn edge_count(&self) -> usize {
-        let mut total_count: usize = 0;
-        for (_, edges) in &self.edge_map {
-            total_count += edges.len();
-        }
-        // Each edge is saved twice => the count should be a multiple of 2, and divided by 2
-        total_count / 2
+        // An edge is saved twice, but a self-loop only once => counting edges from their source only
+        self.edges().count()
     }
 
     pub fn contains_vertex(&self, vertex_id: VertexId) -> bool {
-- 
2.43.0


From bbc8dafa42828b4f1177ad5a58cb11b38e6cc841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 2/9] fix: --max-score builds a minimum score constraint

---
 command/src/arg_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/arg_utils.rs b/command/src/arg_utils.rs
index 5d72cca..be3f976 100644
--- a/command/src/arg_utils.rs
+++ b/command/src/arg_utils.rs
@@ -103,7 +103,7 @@ pub fn build_constraint_min_score(score: i64) -> Constraint {
 }
 
 pub fn build_constraint_max_score(score: i64) -> Constraint {
-    MinScore(score)
+    MaxScore(score)
 }
 
 pub fn build_constraint_exact_score(score: i64) -> Vec<Constraint> {
-- 
2.43.0


From 15dd7b0dcaaf89e98ab1e58de68287d74e5e0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 3/9] fix: constraints that do not mention cycles are rejected
 as incompatible

---
 core/src/constraint/checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/constraint/checker.rs b/core/src/constraint/checker.rs
index 299ea74..1aa4d5e 100644
--- a/core/src/constraint/checker.rs
+++ b/core/src/constraint/checker.rs
@@ -98,7 +98,7 @@ fn check_cycle_inclusion_exclusion(constraints: &Vec<Constraint>) -> Result<(),
     let contains_no_cycle = negated_constraints(constraints)
         .find(|c| **c == ContainsCycle)
         .is_some();
-    if contains_cycle != contains_no_cycle {
+    if !(contains_cycle && contains_no_cycle) {
         ok()
     } else {
         fail(format![
-- 
2.43.0


From f926f6ce76edecbc06e547e7fc0e9b0f97892f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 4/9] fix: augmenting paths never follow backward edges, so
 max_flow can miss flow

---
 core/src/algorithm/max_flow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 009f4b9..69815e2 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -202,7 +202,7 @@ impl<'a> Iterator for AugmentingPathIter<'a> {
             let backward_edges = self
                 .graph
                 .inbound_edges(*vid)
-                .map(|Edge(_, v)| (v, Backward));
+                .map(|Edge(v, _)| (v, Backward));
             // forward + backward edges
             (foward_edges.chain(backward_edges))
                 .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
-- 
2.43.0


From b68264b0703c4fda61478d769b9c53160a1af545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 5/9] fix: dag_shortest_paths panics when a later vertex is not
 reachable from start

---
 core/src/algorithm/shortest_path.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/core/src/algorithm/shortest_path.rs b/core/src/algorithm/shortest_path.rs
index 5c37b25..e6c38f3 100644
--- a/core/src/algorithm/shortest_path.rs
+++ b/core/src/algorithm/shortest_path.rs
@@ -36,22 +36,21 @@ where
         .skip_while(|v| **v != start)
         .for_each(|v| {
             graph.outbound_edges(*v).for_each(|edge| {
-                // FIXME is it necessarily true here ...
-                let ScoredPath { path, score } = scores
-                    .get(v)
-                    .expect("The current score of the processed vertex should be in the map");
-                let Edge(_, w) = edge;
-                let new_score = score + scorefn(&edge);
-                if let Some(current_score) = scores.get(w).map(|x| x.score) {
-                    // we found a shorter path to w => we update
-                    if new_score < current_score {
+                // A vertex coming after start in the order is not necessarily reachable from it
+                if let Some(ScoredPath { path, score }) = scores.get(v) {
+                    let Edge(_, w) = edge;
+                    let new_score = score + scorefn(&edge);
+                    if let Some(current_score) = scores.get(w).map(|x| x.score) {
+                        // we found a shorter path to w => we update
+                        if new_score < current_score {
+                            let new_path = path.append(*w);
+                            scores.insert(*w, scored_path_of(new_path, new_score));
+                        }
+                    } else {
                         let new_path = path.append(*w);
                         scores.insert(*w, scored_path_of(new_path, new_score));
-                    }
-                } else {
-                    let new_path = path.append(*w);
-                    scores.insert(*w, scored_path_of(new_path, new_score));
-                };
+                    };
+                }
             });
         });
     scores
-- 
2.43.0


From 6646af3a755e8d8028a97422922beada613a8b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 6/9] fix: best-first search settles vertices on discovery, so
 weighted shortest paths are not shortest

---
 core/src/iter/iter_best.rs | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/core/src/iter/iter_best.rs b/core/src/iter/iter_best.rs
index 3f40749..9714461 100644
--- a/core/src/iter/iter_best.rs
+++ b/core/src/iter/iter_best.rs
@@ -25,27 +25,28 @@ where
 {
     type Item = ScoredPath;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.queue.pop() {
-            None => None,
-            Some(weighted_path) => {
-                let vid = weighted_path.path.last().unwrap();
-                self.graph
-                    .outbound_edges(*vid)
-                    .map(|Edge(_, v)| v)
-                    .for_each(|v| {
-                        if !self.visited.contains(v) {
-                            self.visited.insert(*v);
-                            let new_path = weighted_path.path.append(*v);
-                            let new_scored_path = ScoredPath {
-                                path: weighted_path.path.append(*v),
-                                score: (self.scorefn)(self.graph, &new_path),
-                            };
-                            self.queue.push(new_scored_path)
-                        }
-                    });
-                Some(weighted_path)
+        while let Some(weighted_path) = self.queue.pop() {
+            let vid = weighted_path.path.last().unwrap();
+            // A vertex is visited when its best path leaves the queue, not as soon as it is discovered
+            if !self.visited.insert(*vid) {
+                continue;
             }
+            self.graph
+                .outbound_edges(*vid)
+                .map(|Edge(_, v)| v)
+                .for_each(|v| {
+                    if !self.visited.contains(v) {
+                        let new_path = weighted_path.path.append(*v);
+                        let new_scored_path = ScoredPath {
+                            path: weighted_path.path.append(*v),
+                            score: (self.scorefn)(self.graph, &new_path),
+                        };
+                        self.queue.push(new_scored_path)
+                    }
+                });
+            return Some(weighted_path);
         }
+        None
     }
 }
 
@@ -62,7 +63,6 @@ where
     let score = scorefn(&graph, &path);
     let mut iter = empty_best_iter(graph, scorefn);
     iter.queue.push(ScoredPath { path, score });
-    iter.visited.insert(start_vertex);
     iter
 }
 
-- 
2.43.0


From f102781bd609e55a155abc71882f58cc7b3e6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 7/9] fix: reading a graph file panics on ids that do not fit
 and on invalid UTF-8

---
 core/src/format/gcmd.rs  | 20 ++++++++++----------
 core/src/format/tgf.rs   | 10 +++++-----
 core/src/format/utils.rs | 10 +++++++++-
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fd77c0a..fdfed8c 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -49,19 +49,19 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        Ok(AddEdge(
+            utils::parse_vertex_id(&cap[1])?,
+            utils::parse_vertex_id(&cap[2])?,
+        ))
     } else if let Some(cap) = ADD_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        Ok(AddVertex(utils::parse_vertex_id(&cap[1])?))
     } else if let Some(cap) = REMOVE_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(RemoveEdge(VertexId(*v1), VertexId(*v2)))
+        Ok(RemoveEdge(
+            utils::parse_vertex_id(&cap[1])?,
+            utils::parse_vertex_id(&cap[2])?,
+        ))
     } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(RemoveVertex(VertexId(*v1)))
+        Ok(RemoveVertex(utils::parse_vertex_id(&cap[1])?))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 6b7ea0a..f8b6228 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -33,12 +33,12 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        Ok(AddEdge(
+            utils::parse_vertex_id(&cap[1])?,
+            utils::parse_vertex_id(&cap[2])?,
+        ))
     } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        Ok(AddVertex(utils::parse_vertex_id(&cap[1])?))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 5c89f31..7c1fccd 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -1,6 +1,7 @@
 //! Module providing helper to read/write to graph files
 
 use crate::directed_graph::DirectedGraph;
+use crate::graph::VertexId;
 use crate::graph_command::GraphCommand;
 use std::fs::File;
 use std::io::{BufRead, BufReader};
@@ -39,7 +40,7 @@ where
     let reader = BufReader::new(file);
     let mut result: Vec<GraphCommand> = vec![];
     for (index, line) in reader.lines().enumerate() {
-        let line = line.unwrap(); // Ignore errors.
+        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
         if !line.is_empty() && !is_comment(&line) {
             match parse_line(&line) {
                 Ok(command) => result.push(command),
@@ -49,3 +50,10 @@ where
     }
     Ok(result)
 }
+
+/// Parses a vertex id. The id can be rejected even if made of digits only (ie too big to be a vertex id)
+pub fn parse_vertex_id(id: &str) -> Result<VertexId, String> {
+    id.parse::<u64>()
+        .map(VertexId)
+        .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])
+}
-- 
2.43.0


From de3a675dbda12e08ab85f9a4aa58ad68d459caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:24 +0000
Subject: [PATCH 8/9] fix: write errors are swallowed when the buffered graph
 file is dropped

---
 core/src/format/gcmd.rs | 4 ++--
 core/src/format/tgf.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fdfed8c..b2fa01a 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -87,7 +87,7 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln![buffered, "AddEdge {} {}", src, dest]?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 /// Updates an existing file with a list of GraphCommand
@@ -99,7 +99,7 @@ pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Res
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 fn command_into_line(command: GraphCommand) -> String {
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index f8b6228..77c30cc 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -64,7 +64,7 @@ pub fn save(graph: &DirectedGraph, filename: String) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln!(buffered, "{} {}", src, dest)?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From cac3c86c94ded14c6dd88066affb4e1aa9494ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:49 +0000
Subject: [PATCH 9/9] fix: let gc-cycle's include and exclude options take
 several vertices or edges

---
 command/src/bin/gc-cycle.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f22fa24..9bb6559 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -140,28 +140,32 @@ fn main() {
                 .long("include-all")
                 .help("Return all the cycles from the graph that are including all the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("exclude-all")
                 .long("exclude-all")
                 .help("Return all the cycles from the graph that not including any of the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("include-all-edges")
                 .long("include-all-edges")
                 .help("Return all the cycles from the graph that are including all the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .arg(
             Arg::with_name("exclude-all-edges")
                 .long("exclude-all-edges")
                 .help("Return all the cycles from the graph that not including any of the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .get_matches();
 
-- 
2.43.0

