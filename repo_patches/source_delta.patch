From 6a3b8039f85a1a83b0639640b599c3e1154d326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 01/20] fix: do not print internal drain names on stdout when
 processing

A left-over debugging println! put the set of configured drain names at the
top of the output of every pa2 process.
---
 src/config_manip.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index fcce13a..f19835a 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -651,7 +651,6 @@ fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
     let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
-    println!("{:?}", existing_drains);
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From 9d0f5b06e0f81fd3a09a29597eabac963642ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 02/20] fix: a faucet which cannot open its source ends its
 output instead of hanging pa2

---
 src/faucet.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index ef5142d..de705ff 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -91,9 +91,14 @@ impl StartableControl for Faucet {
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
-                let file = async_std::fs::File::open(filename).await
-                    .map_err(|e| MotionError::OpenIOError(journey, Instant::now(), e))?;
-                Pull::File(journey, file, ReadSplitControl::new())
+                match async_std::fs::File::open(filename).await {
+                    Ok(file) => Pull::File(journey, file, ReadSplitControl::new()),
+                    Err(e) => {
+                        // Nothing will ever be sent, so those downstream must see the end of their input
+                        self.stdout = None;
+                        return Err(MotionError::OpenIOError(journey, Instant::now(), e));
+                    }
+                }
             },
             _ => Pull::None,
         });
-- 
2.43.0


From d5a465477b82f59731868ae66398a7000c2dd981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 03/20] fix: an empty faucet source / drain destination is NULL
 input / output, as the help says

---
 src/drain.rs  | 2 +-
 src/faucet.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drain.rs b/src/drain.rs
index d57186e..7fb7b67 100644
--- a/src/drain.rs
+++ b/src/drain.rs
@@ -63,7 +63,7 @@ impl StartableControl for Drain {
         if let Some(pull) = std::mem::take(&mut self.stdin) {
 
             let push = match (pull.journey(), std::mem::take(&mut self.write_location)) {
-                (Some(PullJourney { .. }), Some(f)) if f == "/dev/null" => Push::None,
+                (Some(PullJourney { .. }), Some(f)) if f.is_empty() || f == "/dev/null" => Push::None,
                 (Some(PullJourney { src, dst }), Some(f)) if f == "-" => Push::Stdout(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stdout()),
                 (Some(PullJourney { src, dst }), Some(f)) if f == "_" => Push::Stderr(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stderr()),
                 (Some(PullJourney { src, dst }), Some(filename)) => {
diff --git a/src/faucet.rs b/src/faucet.rs
index de705ff..924b991 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -90,6 +90,7 @@ impl StartableControl for Faucet {
         let read_location = std::mem::take(&mut self.read_location);
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
+            (Some(_), Some(f)) if f.is_empty() => Pull::None,
             (Some(journey), Some(filename)) => {
                 match async_std::fs::File::open(filename).await {
                     Ok(file) => Pull::File(journey, file, ReadSplitControl::new()),
-- 
2.43.0


From d62cd804b5c1d5209b2421a87c1f307965d0bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 04/20] fix: report a command which cannot be started instead
 of panicking

---
 src/launch.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index bc254fb..7b91489 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -180,11 +180,16 @@ impl <E: IntoIterator<Item = (K, V)>,
             false => { child_builder.stderr(async_std::process::Stdio::null()); }
         }
 
-        let mut child = child_builder.spawn().map_err(
-            |_c| {
-                MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned()))
+        let mut child = match child_builder.spawn() {
+            Ok(child) => child,
+            Err(_) => {
+                // Nothing will ever be sent, so those downstream must see the end of their input
+                self.stdout = None;
+                self.stderr = None;
+                self.exit_status = None;
+                return Err(MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned())));
             }
-        ).unwrap();
+        };
 
         let child_stdin_push = match std::mem::take(&mut child.stdin) {
             Some(stdin) => {
-- 
2.43.0


From 90ef5968a07b8da6d134992e7b98bfe69754b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 05/20] fix: a junction which fails closes its other outputs,
 rather than leaving them waiting forever

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ffd1ed..6ed76d0 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -176,6 +176,7 @@ impl StartableControl for Junction {
                 Ok((false, n)) => { read_count += n }
                 Err(e) => {
                     self.stdin.clear();
+                    self.stdout.clear();
                     return MotionResult::Err(e);
                 }
             }
-- 
2.43.0


From 751b7741cc8014877e509e3268b7d882cd285448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 06/20] fix: junction inputs of equal, non lowest, priority
 share one group

---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ed76d0..5e83d92 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -88,6 +88,7 @@ impl Junction {
                 self.stdin.push(vec![])
             }
             if priority > old_priority {
+                old_priority = priority;
                 self.stdin.push(vec![])
             }
             if let Some(v) = self.stdin.last_mut() {
-- 
2.43.0


From d00274f4d623f2b822600475dc6d8666503931a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 07/20] fix: controlling a regulator never waits for the
 regulator

Resuming blocked until the regulator had picked up the preceding pause, which
it only does between messages. Meanwhile nobody read the buffer sizes, so the
buffer stopped, which could stop the regulator as well: a deadlock. The same
happened when the regulator ended early, as that left the channel open.
---
 src/regulator.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/regulator.rs b/src/regulator.rs
index 512f0c1..c82e23c 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -7,7 +7,7 @@ use crate::connectable::ConnectableAddOutputError;
 use crate::connectable::ConnectableAddInputError;
 use crate::motion::SpyMessage;
 use async_std::channel::Sender;
-use async_std::channel::{SendError, Receiver, bounded};
+use async_std::channel::{SendError, Receiver, bounded, unbounded};
 use super::motion::{ MotionResult, MotionNotifications, Pull, Push, motion_close, motion_worker };
 use crate::startable_control::StartableControl;
 use async_trait::async_trait;
@@ -40,7 +40,9 @@ impl Regulator {
 
     pub fn get_control(&mut self) -> RegulatorControl {
         assert!(self.control.is_none(), "Each regulator can only have one control");
-        let (send, recv) = bounded(1);
+        // It must never be necessary to wait for the regulator, which only looks at this between messages,
+        // as whoever is waiting would not be observing the size of the buffers.
+        let (send, recv) = unbounded();
         self.control = Some(recv);
         RegulatorControl {
             paused: false,
@@ -92,7 +94,11 @@ impl Connectable for Regulator {
 impl StartableControl for Regulator {
 
     async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> MotionResult<usize> {
-        self.start_secret(spy).await
+        let result = self.start_secret(spy).await;
+        if let Some(c) = &self.control {
+            c.close();
+        }
+        result
     }
 
 }
@@ -108,7 +114,7 @@ impl Regulator {
         let mut notifications = MotionNotifications::empty();
         async fn control(opt_rec: &mut Option<Receiver<()>>) {
             if let Some(rec) = opt_rec {
-                if rec.try_recv().is_ok() {
+                while rec.try_recv().is_ok() {
                     let _x = rec.recv().await;
                 }
             }
-- 
2.43.0


From 5474831e9b515b9a866c87147a7d820b97310a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 08/20] fix: wait for a launched program which nothing is
 connected from

pa2 exited as soon as the last message was written to such a program, while it
was still working on it.
---
 src/launch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/launch.rs b/src/launch.rs
index 7b91489..1a47688 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -261,6 +261,9 @@ impl <E: IntoIterator<Item = (K, V)>,
                     None => { async_std::task::sleep(std::time::Duration::from_millis(100)).await; }
                 }
             }
+        } else {
+            // Even when nobody wants the exit status the program must be allowed to finish it's work
+            let _ = child.status().await;
         }
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), MotionResult<usize>)) -> MotionResult<usize> {
-- 
2.43.0


From 59349b816b45eab04587d61703557d7617559622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 09/20] fix: report connections which cannot be converted
 instead of panicking

process and config manipulate panicked on a JoinString which does not parse,
and on a list of connections which does not form a chain.
---
 src/bin/pa2.rs | 14 ++++++++++++--
 src/config.rs  | 14 ++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 33ce179..b9b0b87 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -463,6 +463,16 @@ enum UserResponse {
 }
 
 
+fn read_convertible_config(config_format: &ConfigFormat, config_in: &str) -> Result<Config, String> {
+    let mut config = read_config(config_format, config_in)?;
+    let errs = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect::<Vec<String>>();
+    if errs.is_empty() {
+        return Ok(config);
+    }
+    Err(format!("Process {}", errs.join("\n * ")))
+}
+
+
 fn process_user_config_action(result_config: Result<UserRequest, String>) -> Result<UserResponse, String> {
 
     match result_config {
@@ -510,11 +520,11 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             return Err(format!("We found the following warnings / errors: \n\n * {}\n", errs.join("\n * ")));
         },
         Ok(UserRequest::Manipulate { config_in, config_format }) => {
-            let config = read_config(&config_format, &config_in)?;
+            let config = read_convertible_config(&config_format, &config_in)?;
             Ok(connection_manipulation_light(config)).map(UserResponse::Config)
         },
         Ok(UserRequest::Process { config_in, config_format }) => {
-            let mut config = connection_manipulation(read_config(&config_format, &config_in)?);
+            let mut config = connection_manipulation(read_convertible_config(&config_format, &config_in)?);
 
             let errs = Config::lint(&mut config).into_iter()
                 .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
diff --git a/src/config.rs b/src/config.rs
index 21c3203..22115bd 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -438,6 +438,14 @@ impl Config {
 
     }
 
+    /// Every item needs to be able to pass data onto the one which follows it
+    fn is_connectable(connections: &[Connection]) -> bool {
+        connections.len() != 1 && connections.windows(2).all(|pair| {
+            !matches!(pair[0], Connection::EndConnection { .. }) && !matches!(pair[1], Connection::StartConnection { .. })
+        })
+    }
+
+
     /// Goes through and converts DeserializedConnection::JoinString to DeserializedConnection::Connections
     pub fn convert_connections(connections: &mut BTreeMap<String, DeserializedConnection>) -> HashSet<ConfigLintWarning> {
 
@@ -453,6 +461,12 @@ impl Config {
                                 }
                             }
                         },
+                        DeserializedConnection::Connections(cs) if !Config::is_connectable(cs) => {
+                            return Some(ConfigLintWarning::InvalidConnection {
+                                id: k.to_string(),
+                                join: serde_json::to_string(cs).unwrap_or_default()
+                            });
+                        },
                         DeserializedConnection::Connections(_) => None
                     };
                     if let Some(x) = replace_with {
-- 
2.43.0


From 6a71e99c0a2e7a14a1466dd6a934e51e51696ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 10/20] fix: a buffer without an input closes its output,
 rather than leaving it waiting forever

---
 src/buffer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9dbb728..116957e 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -84,8 +84,11 @@ impl StartableControl for Buffer {
         let (monitor_i_snd, monitor_i_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
         let (monitor_o_snd, monitor_o_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
 
-        let stdin = std::mem::take(&mut self.stdin).ok_or(MotionError::NoneError)?;
-        let stdout = std::mem::take(&mut self.stdout).ok_or(MotionError::NoneError)?;
+        // Take both before giving up on either, so that whatever is connected sees that it has been closed
+        let stdin = std::mem::take(&mut self.stdin);
+        let stdout = std::mem::take(&mut self.stdout);
+        let stdin = stdin.ok_or(MotionError::NoneError)?;
+        let stdout = stdout.ok_or(MotionError::NoneError)?;
 
         let push_a = Push::Sender(
             Journey { src: 0, dst: 0, src_port: None, breakable: stdout.journey().ok_or(MotionError::NoneError)?.breakable },
-- 
2.43.0


From 9ef8c8e9b3c0f37d65db29f52dd0582bd1b78cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 11/20] fix: allow several regulators to watch the same buffer

A second regulator watching a buffer made pa2 panic at start.
---
 src/buffer.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 116957e..c80a663 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -24,7 +24,7 @@ pub struct Buffer {
     stdout_size: usize,
     stdout: Option<Push>,
     stdin: Option<Pull>,
-    buffer_size_monitor: Option<Sender<BufferSizeMessage>>,
+    buffer_size_monitors: Vec<Sender<BufferSizeMessage>>,
 }
 
 
@@ -58,14 +58,13 @@ impl Buffer {
             stdout_size: 8,
             stdin: None,
             stdout: None,
-            buffer_size_monitor: None,
+            buffer_size_monitors: vec![],
         }
     }
 
     pub fn add_buffer_size_monitor(&mut self) -> Receiver<BufferSizeMessage> {
-        assert!(self.buffer_size_monitor.is_none(), "Each buffer can only be monitored once");
         let (tx, rx) = bounded(self.stdout_size);
-        self.buffer_size_monitor = Some(tx);
+        self.buffer_size_monitors.push(tx);
         rx
     }
 
@@ -112,7 +111,7 @@ impl StartableControl for Buffer {
             stdout,
         );
 
-        async fn total_in_buffer(sender: Option<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
+        async fn total_in_buffer(senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
             let mut size: usize = 0;
             let mut back_off = BackOff::new();
             let mut last = 0;
@@ -144,13 +143,12 @@ impl StartableControl for Buffer {
                         panic!("SHOULD NOT BE HERE");
                     }
                 }
-                match (last != size, &sender) {
-                    (true, Some(s)) => {
-                        last = size;
-                        s.send(BufferSizeMessage(size)).await
-                    },
-                    _ => Ok(()),
-                }?;
+                if last != size {
+                    last = size;
+                    for s in senders.iter() {
+                        s.send(BufferSizeMessage(size)).await?;
+                    }
+                }
                 if m_in.is_empty() && m_in.is_closed() && m_out.is_empty() && m_out.is_closed() {
                     return Ok(size as usize);
                 }
@@ -166,7 +164,7 @@ impl StartableControl for Buffer {
         }
 
         let r_out_prep = r_a.join(r_b).join(
-            total_in_buffer(std::mem::take(&mut self.buffer_size_monitor), monitor_i_rcv, monitor_o_rcv)
+            total_in_buffer(std::mem::take(&mut self.buffer_size_monitors), monitor_i_rcv, monitor_o_rcv)
         ).await;
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
-- 
2.43.0


From 863c572addbf26d107d98d7c4c944ea0dc77d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 12/20] fix: quote names which are not identifiers in the DOT
 output

Connection sets or components named like 'a-b', '1st' or 'node' resulted in a
graph which dot could not read.
---
 src/graph.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index a48f415..9e08d51 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -73,6 +73,19 @@ pub fn convert_connection_components_fold<'a>(mut acc: HashMap<&'a ComponentType
     acc
 }
 
+/// What is not an identifier, or is a keyword, needs to be quoted
+fn dot_id(s: &str) -> String {
+    let is_keyword = ["node", "edge", "graph", "digraph", "subgraph", "strict"].contains(&s.to_lowercase().as_str());
+    let is_identifier = !is_keyword
+        && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && s.chars().next().map(|c| !c.is_ascii_digit()).unwrap_or(false);
+    if is_identifier {
+        return s.to_string();
+    }
+    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
+}
+
+
 pub fn get_graph(subgraph: Vec<Subgraph>) -> String {
     let mut stmts: Vec<Stmt> = vec![Stmt::Attribute(attr!("labeljust","l")),Stmt::Attribute(attr!("newrank","true"))];
     let mut more_stmts = subgraph.into_iter().map(|sg| { Stmt::Subgraph(sg) }).collect();
@@ -125,7 +138,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     fn node_id(component_type: &ComponentType, name: &str) -> NodeId {
-        NodeId(Id::Plain(format!("{}_{}", component_type_to_letter(component_type), name)), None)
+        NodeId(Id::Plain(dot_id(&format!("{}_{}", component_type_to_letter(component_type), name))), None)
     }
 
     fn get_connection_set_name(possible_graph_connection_for_connection_set: Option<&GraphConnection>, component_type: &ComponentType, component_name: &str) -> String {
@@ -169,7 +182,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         BTreeMap::new(),
         |mut acc, (component_type, component_names)| {
             for component_name in component_names {
-                let label = component_name;
+                let label = dot_id(component_name);
                 let connection_set_graph_connection: Option<&GraphConnection> = connections.iter().find(|connection| {
                     (
                         (connection.src.1 == *component_name) && (connection.src.0 == *component_type)
@@ -221,7 +234,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     let mut stmts: Vec<Stmt> = graph_components.into_iter().fold(FrontAndBack::new(), |mut acc, (connection_set, nodes)| {
-        let title = format!("\"{}:\"", connection_set);
+        let title = dot_id(&format!("{}:", connection_set));
         let rank = if connection_set_with_faucet.contains(&connection_set) { "min" }
             else if connection_set_with_drain.contains(&connection_set) { "max" }
             else { "same" };
@@ -233,7 +246,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         }
         stmts.append(&mut stmts_to_add.into_iter().collect::<Vec<Stmt>>());
         let subgraph = Stmt::Subgraph(Subgraph {
-            id: id!(format!("cluster_nodes_{}", connection_set)),
+            id: id!(dot_id(&format!("cluster_nodes_{}", connection_set))),
             stmts
         });
         if connection_set_with_faucet.contains(&connection_set) {
-- 
2.43.0


From 4bad7f1f1a3f275fabdb813e760be9dd777fcb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 13/20] fix: refuse arguments which are not UTF-8 instead of
 panicking

---
 src/bin/pa2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index b9b0b87..1e03bf4 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -12,7 +12,7 @@ use pipeawesome2::config::Config;
 use clap::ArgMatches;
 use clap::SubCommand;
 use std::collections::HashMap;
-use clap::{ App, Arg };
+use clap::{ App, AppSettings, Arg };
 
 
 fn get_clap_app() -> App<'static, 'static> {
@@ -58,6 +58,7 @@ fn get_clap_app() -> App<'static, 'static> {
         .author("Matthew Forrester, githib.com@speechmarks.com")
         .version(clap::crate_version!())
         .about("Like UNIX pipes, but on sterroids")
+        .global_setting(AppSettings::StrictUtf8)
 
         .subcommand(
             SubCommand::with_name("process")
-- 
2.43.0


From f5828b6a8358e5e10cae493bf125bbdb3590472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 14/20] fix: refuse a priority which is not an integer instead
 of taking it to be 0

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 22115bd..645fe57 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -747,7 +747,7 @@ pub fn load_connection_from_string(s: &str) -> Result<Vec<Connection>, ParseErro
                 = s:$(['a'..='z' | 'A'..='Z' | '0'..='9' | '_' ]+) { s.to_string() }
 
             rule port_preference() -> isize
-                = n:$("-"?['0'..='9']*) { n.parse().unwrap_or(0) }
+                = n:$("-"?['0'..='9']+) {? n.parse().or(Err("priority")) }
 
             rule in_port() -> InputPort
                 = "[" p:port_preference() "]" { InputPort { breakable: Breakable::Terminate, priority: p } }
-- 
2.43.0


From 345bb1d1a8cdd0cc0c677ed5461d35c1b2c439a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 15/20] fix: refuse any argument which is not UTF-8 before clap
 reads it, as clap panics on --x with such bytes

---
 src/bin/pa2.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 1e03bf4..d17123e 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -12,7 +12,7 @@ use pipeawesome2::config::Config;
 use clap::ArgMatches;
 use clap::SubCommand;
 use std::collections::HashMap;
-use clap::{ App, AppSettings, Arg };
+use clap::{ App, Arg };
 
 
 fn get_clap_app() -> App<'static, 'static> {
@@ -58,7 +58,6 @@ fn get_clap_app() -> App<'static, 'static> {
         .author("Matthew Forrester, githib.com@speechmarks.com")
         .version(clap::crate_version!())
         .about("Like UNIX pipes, but on sterroids")
-        .global_setting(AppSettings::StrictUtf8)
 
         .subcommand(
             SubCommand::with_name("process")
@@ -551,6 +550,12 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
 
 fn main() {
 
+    // Clap itself panics on some of these
+    if let Some(arg) = std::env::args_os().find(|a| a.to_str().is_none()) {
+        eprintln!("error: Invalid UTF-8 was detected in the argument {:?}", arg);
+        std::process::exit(1);
+    }
+
     let matches = get_clap_app().get_matches();
 
     let r = match process_user_config_action(get_user_config_action(&matches)) {
-- 
2.43.0


From 23a5d9914be5809d7938bd550162d3e63c93c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 16/20] fix: a buffer whose output was closed reports what
 happened and to which connection

---
 src/buffer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index c80a663..47bdf52 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -170,6 +170,8 @@ impl StartableControl for Buffer {
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
             match input {
                 ((MotionResult::Ok(stdin_count), MotionResult::Ok(_)), _x) => Ok(stdin_count),
+                // The side which knows what it is connected to is the one which can say what went wrong
+                ((_, MotionResult::Err(e)), _x) => Err(e),
                 _ => Err(MotionError::NoneError),
             }
         }
-- 
2.43.0


From 68768fb942bd32c077e2bfa8377b0e4e87946703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 17/20] fix: an exit status nobody takes only stops the run
 when the connection is of kind T

---
 src/launch.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/launch.rs b/src/launch.rs
index 1a47688..04f0f52 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -250,7 +250,12 @@ impl <E: IntoIterator<Item = (K, V)>,
                 };
                 match msg {
                     Some(m) => {
-                        exit_status_tx.send(m.clone()).await.map_err(|e| MotionError::SendError(*journey, Instant::now(), e))?;
+                        match exit_status_tx.send(m.clone()).await {
+                            Err(e) if journey.breakable == Breakable::Terminate => {
+                                return Err(MotionError::SendError(*journey, Instant::now(), e));
+                            },
+                            _ => (),
+                        }
                         if let (Some(spy), src, dst, Some(src_port)) = (spy, journey.src, journey.dst, journey.src_port) {
                             let spy_msg = SpyMessage { src, msg: IODataWrapper::IOData(m), dst, src_port };
                             spy.send(spy_msg).await.map_err(|e| MotionError::SpyWriteError(Instant::now(), e))?;
-- 
2.43.0


From ae12d6f01883967242a377a7e3cd46f9b76570e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 18/20] fix: an error report names the drain which could not be
 opened

---
 src/bin_support.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin_support.rs b/src/bin_support.rs
index 97440c5..46fb803 100644
--- a/src/bin_support.rs
+++ b/src/bin_support.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use crate::{waiter::WaiterError, config::ComponentType, motion::Journey};
+use crate::{waiter::WaiterError, config::ComponentType, motion::{Journey, PullJourney}};
 
 pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name: &HashMap<usize, (ComponentType, String)>) -> String {
 
@@ -14,7 +14,11 @@ pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name
     };
     let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err| err.journey()).flatten() {
         Some(Journey { dst, .. }) => id_to_component_type_name.get(&dst),
-        _ => None
+        // A component which could not read it's input, or could not even start to, is the destination
+        _ => match waiter_err.caused_by_error().map(|err| err.pull_journey()).flatten() {
+            Some(PullJourney { dst, .. }) => id_to_component_type_name.get(&dst).filter(|(t, n)| waiter_src == Some((t, n))),
+            _ => None
+        }
     };
 
     let (src, dst) = match (waiter_src, motion_src, motion_dst) {
-- 
2.43.0


From 159d5ff173e3a430b2004a0b4275eec1fba47dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 19/20] fix: a buffer which nothing can leave no longer keeps a
 regulator paused

---
 src/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 47bdf52..ee91e83 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -111,7 +111,7 @@ impl StartableControl for Buffer {
             stdout,
         );
 
-        async fn total_in_buffer(senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
+        async fn total_in_buffer(mut senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
             let mut size: usize = 0;
             let mut back_off = BackOff::new();
             let mut last = 0;
@@ -149,6 +149,10 @@ impl StartableControl for Buffer {
                         s.send(BufferSizeMessage(size)).await?;
                     }
                 }
+                if m_out.is_empty() && m_out.is_closed() {
+                    // Nothing more will leave the buffer, so nobody should wait for it to become smaller
+                    senders.clear();
+                }
                 if m_in.is_empty() && m_in.is_closed() && m_out.is_empty() && m_out.is_closed() {
                     return Ok(size as usize);
                 }
-- 
2.43.0


From ed4f48d5077926f4e768a1db2eb47e54d3d68ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 20/20] fix: any number of errors can be put in order for the
 report

---
 src/waiter.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/waiter.rs b/src/waiter.rs
index 5a22ba4..145f7b0 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -409,12 +409,8 @@ impl Waiter {
 
         l.into_iter().fold(Ok(0), folder)
             .map_err(|mut v| {
-                v.sort_by(|e1, e2| {
-                    if let (Some(i1), Some(i2)) = (e1.instant(), e2.instant()) {
-                        return i1.duration_since(start_instant).cmp(&i2.duration_since(start_instant));
-                    }
-                    std::cmp::Ordering::Equal
-                });
+                // Those without a time come first, as sorting needs a total order
+                v.sort_by_key(|e| e.instant().map(|i| i.duration_since(start_instant)));
                 v
             })
 
-- 
2.43.0

