From 3f6f898e70a20751f9b9fc2fb1f3e8f4478c0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 01/21] fix: opposing checkers in the home board must not
 unlock bearing off from a lower point

The guard summed the points above, so an opposing point cancelled out
own checkers that still had to be moved first.
---
 src/backgammon/backgammon_logic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..b9bdedf 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,8 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    let higher_points_clear = board[m_idx_usize + 1..6].iter().all(|&n| n >= 0);
+                    if n_pieces_on_point < 0 && higher_points_clear {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +588,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let higher_points_clear = board[18..m_idx_usize].iter().all(|&n| n <= 0);
+                    if n_pieces_on_point > 0 && higher_points_clear {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From 413f86449aba4b5cc2735efb6832642ab10f966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 02/21] fix: do not offer moves that waste a die when both dice
 can be played

---
 src/backgammon/backgammon_logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index b9bdedf..2a73459 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -409,7 +409,10 @@ impl LearnableGame for Backgammon {
         };
         let action_trees = Self::_get_action_trees(&all_moves, self.board, self.player);
         // parse trees into actions here
-        let actions = Self::extract_sequences_list(action_trees);
+        let mut actions = Self::extract_sequences_list(action_trees);
+        // Both dice have to be played whenever some order of play allows it
+        let max_len = actions.iter().map(|a| a.len()).max().unwrap_or(0);
+        actions.retain(|a| a.len() == max_len);
         Self::remove_duplicate_states(self.board, actions, self.player)
     }
 }
-- 
2.43.0


From e70a30b200fcee4e46a676422dfd1f48c431b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 03/21] fix: rollouts must look for a winner in the position
 they reached

simulate() kept asking the position it started from, so every playout
ran past the end of the game and was scored as a draw.
---
 src/mcts/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..598cfed 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,7 +178,7 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
+            if let Some(winner) = curr_state.check_winner() {
                 return if winner == player {1.}
                 else if winner == -player {-1.}
                 else {0.};
-- 
2.43.0


From b4c44a58d05f39a3b1abbe081eaffe7ee3dfd944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 04/21] fix: mct_search must not panic on positions without a
 legal move

---
 src/mcts/simple_mcts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..52876d3 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,6 +27,10 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
+            backpropagate(selected_node_idx, value, &mut store)
+        } else if selected_node.expandable_moves.is_empty() {
+            // The player to move is blocked, there is nothing to expand
+            let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(selected_node_idx, value, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
-- 
2.43.0


From 13c09607c8775a02b4d3ad79a320d23cdaffc70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 05/21] fix: single game alpha_mcts crashed on every search

The policy still had its batch dimension when it was indexed by action,
and terminal leaves asked the (ongoing) root for its winner.
---
 src/mcts/alpha_mcts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..bd4b6a5 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -37,7 +37,7 @@ pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut No
     
     let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
 
-    let policy_vec = turn_policy_to_probs(&policy, &root_node);
+    let policy_vec = turn_policy_to_probs(&policy.get(0), &root_node);
     root_node.alpha_expand(store, policy_vec);
     if root_node.children.len() < 2 {
         // Don't apply dirichlet on a node with a single child
@@ -69,14 +69,17 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
-        let value = if !selected_node.is_terminal() {
+        let value = if let Some(winner) = selected_node.state.check_winner() {
+            let root_player = state.get_player();
+            if winner == root_player {1.}
+            else if winner == -root_player {-1.}
+            else {0.}
+        } else {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.get(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
-        } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From 8628c1f8609ab7810259f3de1be0cb53b885a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 06/21] fix: a batched search must not re-evaluate leaves of
 earlier iterations

Games whose selection ended in a terminal leaf kept their previous (or
node 0 of another game) selection and had it backpropagated again.
---
 src/mcts/alpha_mcts.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index bd4b6a5..c0b39a3 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -135,15 +135,12 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                 - values ranging from 0 to N_SELF_PLAY_BATCHES
                 - used to track how many games are still not completed
             - Selected_nodes:
-                - N_SELF_PLAY_BATCHES node values
-                - selected_nodes[i] refers to the node that was last selected for game[i]
+                - at most N_SELF_PLAY_BATCHES node values
+                - the nodes selected in the current iteration that still have to be evaluated
 
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
-
     let pb = match pb {
         Some(p) => p,
         None => ProgressBar::new(mcts_config.iterations as u64)
@@ -151,7 +148,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
 
     for _ in 0..mcts_config.iterations {
         // Clear selected node indices
-        let mut node_selected = false;
+        let mut selected_nodes_idxs = vec![];
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -165,12 +162,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From f4e747a666ee21ae22745f6bf8f1414d9c0bd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 07/21] fix: stop playing a self-play game once it hit the
 round limit

Its positions were recorded as a draw and, if the extra move won, once
more with the winner.
---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From f37638a08a3b8ce9e19387141827e47f1e6d9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 08/21] fix: recorded policy targets must stay probabilities
 after temperature

---
 src/alphazero/alpha_no_parallel.rs | 4 +++-
 src/alphazero/alpha_parallel.rs    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..7dc666c 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -54,13 +54,15 @@ impl AlphaZero {
 
             // Apply temperature to pi
             let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+            let pi_sum = temperatured_pi.sum(None);
+            let temperatured_pi = temperatured_pi.divide(&pi_sum);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
             // Save results to memory
             memory.push(MemoryFragment {
                 outcome: state.get_player(),
-                ps: pi,
+                ps: temperatured_pi,
                 state: state.as_tensor(),
             });
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 64e246c..4c16dab 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -162,7 +162,10 @@ impl AlphaZero {
                 .map(|i| store.get_node_ref(i))
                 .collect_vec();
             let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / self.config.temperature) // Apply temperature
+                .pow_(1.0 / self.config.temperature); // Apply temperature
+            let prob_sums = prob_tensor.sum_dim_intlist(1, true, None);
+            let prob_tensor = prob_tensor
+                .divide(&prob_sums) // Keep them probabilities
                 .to_device(tch::Device::Cpu); // Move to CPU for faster access
 
             for (processed_idx, (init_idx, state)) in states.values_mut().enumerate() {
-- 
2.43.0


From c475c5bd4214fc9f703ba009026674dae3702e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 09/21] fix: save each self-play iteration's own data

Every sp-x directory also repeated the data of the iterations before it.
---
 src/alphazero/alpha_parallel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 4c16dab..d26cef1 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -50,7 +50,6 @@ impl AlphaZero {
                 pb_self_play.set_message(format!("Self-play iteration #{}", sp_i + 1));
 
                 let mut res = self.self_play_parallel::<T>();
-                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Saving training data... Self-play iteration #{}",
                     sp_i + 1
@@ -59,7 +58,8 @@ impl AlphaZero {
                 // Make self play dir
                 let sp_dir_path = format!("{}/sp-{}", &lrn_path, sp_i);
                 let _ = fs::create_dir(&sp_dir_path);
-                self.save_training_data(&memory, Path::new(&sp_dir_path));
+                self.save_training_data(&res, Path::new(&sp_dir_path));
+                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Self-play iteration #{} complete, saved training data",
                     sp_i + 1
-- 
2.43.0


From 31c38aa1ef0b85aca97dffada88b560ec30320da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 10/21] fix: train must find the data of a single self-play
 iteration

`train --run-id x --learn y --self-play z` trained on nothing, and a run
id that happened to contain "sp" was taken for a self-play directory.
---
 src/main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 66eda67..b50f837 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -217,15 +217,21 @@ fn handle_command<T: LearnableGame>(command: Commands, conf: &Config) {
 
 fn get_all_paths_rec(dir: &Path, res: &mut Vec<PathBuf>) -> io::Result<()> {
     if dir.is_dir() {
+        // The requested directory might already be a self-play directory
+        if is_self_play_dir(dir) {
+            res.push(dir.to_path_buf());
+            return Ok(());
+        }
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
-            let path = entry.path();
-            if path.file_name().unwrap().to_str().unwrap().contains("sp") {
-                res.push(path);
-            } else {
-                get_all_paths_rec(&path, res)?;
-            }
+            get_all_paths_rec(&entry.path(), res)?;
         }
     }
     Ok(())
 }
+
+fn is_self_play_dir(dir: &Path) -> bool {
+    dir.file_name()
+        .and_then(|name| name.to_str())
+        .map_or(false, |name| name.starts_with("sp-"))
+}
-- 
2.43.0


From 4d6fbf00ce3329f3376979535a2bd17578bccea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 11/21] fix: AlphaZero::new ignored the checkpoint it loaded

The checkpoint was loaded into an empty VarStore, so learn and train
always started from random weights.
---
 src/alphazero/alphazero.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..81a6f6f 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,20 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        // The network's variables have to exist before a checkpoint can be loaded into them
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +100,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From cfd2c26a6ed4b167fd6b0e1b4db2e6e80bb76037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 12/21] fix: create the model directory of a game

Without ./models/<game> every save failed and learning lost its models.
---
 src/alphazero/alphazero.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 81a6f6f..fa77bac 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -6,6 +6,7 @@ use rand::{distributions::WeightedIndex, prelude::Distribution, seq::SliceRandom
 
 use std::{
     cmp::min,
+    fs,
     path::{Path, PathBuf},
 };
 use tch::{
@@ -100,6 +101,12 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
+        // Models are saved here while learning and after training
+        let model_dir = format!("./models/{}", T::name());
+        if let Err(e) = fs::create_dir_all(&model_dir) {
+            println!("Unable to create {}, caught error: {}", model_dir, e);
+        }
+
         let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-- 
2.43.0


From 4d5f7a10b1eb887dd771e524b79836767163e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 13/21] fix: load training data that holds a single position

squeeze() also removed the sample dimension.
---
 src/alphazero/alphazero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index fa77bac..34f757f 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -193,9 +193,9 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
-- 
2.43.0


From 1369825d3a3865aa9a0989f9e651dc4b1e2f02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 14/21] fix: drawn games are draws in sequential self-play too

---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 7dc666c..ec17754 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -75,7 +75,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if winner == mem.outcome { 1 } else if winner == -mem.outcome { -1 } else { 0 },
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From a8caee1a5e019c94a04f13c87116ff9d0cc8b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 15/21] fix: back up search values for the player who picks the
 move

Every node accumulated values as if both sides shared one goal, so the
opponent's replies were picked to help the searching player (and network
values were mixed between sides): the tic-tac-toe search let a third of
single threats go unblocked.
---
 src/mcts/alpha_mcts.rs  | 14 ++++++++------
 src/mcts/simple_mcts.rs | 21 ++++++++++++++-------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index c0b39a3..2198801 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -69,10 +69,11 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let idx = alpha_select_leaf_node(root_node_idx, &store, mcts_config.c);
         let mut selected_node = store.get_node(idx);
 
+        // Both values are from the perspective of the player to move on the selected node
+        let player = selected_node.state.get_player();
         let value = if let Some(winner) = selected_node.state.check_winner() {
-            let root_player = state.get_player();
-            if winner == root_player {1.}
-            else if winner == -root_player {-1.}
+            if winner == player {1.}
+            else if winner == -player {-1.}
             else {0.}
         } else {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
@@ -82,7 +83,7 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
             eval.double_value(&[0]) as f32
         };
 
-        backpropagate(idx, value, &mut store);
+        backpropagate(idx, value, player, &mut store);
     }
     get_prob_tensor(state, root_node_idx, &store)
 }
@@ -160,7 +161,7 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                 let value = if winner == root_player {1.}
                     else if winner == -root_player {-1.}
                     else {0.};
-                backpropagate(idx, value as f32, store);
+                backpropagate(idx, value as f32, root_player, store);
             } else {
                 selected_nodes_idxs.push(selected_node.idx);
             }
@@ -194,8 +195,9 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
             let prob_tensor = turn_policy_to_probs_tensor(&policy_i, &node);
             // Expand selected node
             node.alpha_expand_tensor(store, &prob_tensor);
+            // The network evaluates the position for the player to move
             let value = eval_i.double_value(&[0]) as f32;
-            backpropagate(node.idx, value, store);
+            backpropagate(node.idx, value, node.state.get_player(), store);
         }
     }
 }
diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index 52876d3..e734087 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,16 +27,16 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
-            backpropagate(selected_node_idx, value, &mut store)
+            backpropagate(selected_node_idx, value, player, &mut store)
         } else if selected_node.expandable_moves.is_empty() {
             // The player to move is blocked, there is nothing to expand
             let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
-            backpropagate(selected_node_idx, value, &mut store)
+            backpropagate(selected_node_idx, value, player, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
             let new_node = store.get_node(new_node_idx);
             let value = new_node.simulate(player, mcts_config.simulate_round_limit);
-            backpropagate(new_node_idx, value, &mut store)
+            backpropagate(new_node_idx, value, player, &mut store)
         }
     }
     select_most_visits(root_node_idx, &store)
@@ -97,11 +97,18 @@ pub fn select_leaf_node<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>,
     select_leaf_node(select_ucb(node_idx, store, c).idx, store, c)
 }
 
-pub fn backpropagate<T: LearnableGame>(node_idx: usize, result: f32, store: &mut NodeStore<T>) {
+/**
+ * Adds the result, given from the perspective of player, to the node and all of its ancestors.
+ * The value of a node is kept from the perspective of the player who picks it (the one to move on its parent),
+ * so that selection always maximizes the value of the player to move.
+ */
+pub fn backpropagate<T: LearnableGame>(node_idx: usize, result: f32, player: i8, store: &mut NodeStore<T>) {
+    let parent = store.get_node_ref(node_idx).parent;
+    let picked_by = store.get_node_ref(parent.unwrap_or(node_idx)).state.get_player();
     let node = store.get_node_as_mut(node_idx);
     node.visits += 1.0;
-    node.value += result;
-    if let Some(parent) = node.parent {
-        backpropagate(parent, result, store)
+    node.value += if picked_by == player { result } else { -result };
+    if let Some(parent) = parent {
+        backpropagate(parent, result, player, store)
     }
 }
-- 
2.43.0


From 590ec4125ea9892c94e515c9be2cebc1b043db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 16/21] verif hooks: report finished search trees (only with
 --cfg die_e_verif)

---
 src/lib.rs              |  2 ++
 src/mcts/alpha_mcts.rs  |  4 +++
 src/mcts/node_store.rs  |  5 +++
 src/mcts/simple_mcts.rs |  2 ++
 src/verif_hooks.rs      | 69 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 82 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 6599d0a..f1065ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,8 @@ pub mod mcts;
 pub mod versus;
 pub mod base;
 pub mod tictactoe;
+#[cfg(die_e_verif)]
+pub mod verif_hooks;
 
 /*
 
diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 2198801..9f8ec4a 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -85,6 +85,8 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
 
         backpropagate(idx, value, player, &mut store);
     }
+    #[cfg(die_e_verif)]
+    crate::verif_hooks::record_tree("alpha", mcts_config.iterations, &store);
     get_prob_tensor(state, root_node_idx, &store)
 }
 
@@ -200,4 +202,6 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
             backpropagate(node.idx, value, node.state.get_player(), store);
         }
     }
+    #[cfg(die_e_verif)]
+    crate::verif_hooks::record_tree("alpha_parallel", mcts_config.iterations, store);
 }
diff --git a/src/mcts/node_store.rs b/src/mcts/node_store.rs
index ec7c9ad..1d12ef2 100644
--- a/src/mcts/node_store.rs
+++ b/src/mcts/node_store.rs
@@ -60,6 +60,11 @@ impl <T: LearnableGame> NodeStore<T> {
         &mut self.nodes[idx]
     }
 
+    #[cfg(die_e_verif)]
+    pub fn n_nodes(&self) -> usize {
+        self.nodes.len()
+    }
+
     pub fn is_empty(&self) -> bool {
         self.nodes.is_empty()
     }
diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index e734087..81ef891 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -39,6 +39,8 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             backpropagate(new_node_idx, value, player, &mut store)
         }
     }
+    #[cfg(die_e_verif)]
+    crate::verif_hooks::record_tree("mcts", mcts_config.iterations, &store);
     select_most_visits(root_node_idx, &store)
 }
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..712a1df
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,69 @@
+//! Observation points for the external monitors, only compiled with `--cfg die_e_verif`.
+//! Searches report the tree they built, nothing here feeds back into them.
+
+use std::sync::{
+    atomic::{AtomicBool, Ordering},
+    Mutex,
+};
+
+use crate::{base::LearnableGame, mcts::node_store::NodeStore};
+
+#[derive(Debug, Clone)]
+pub struct NodeSnap {
+    pub idx: usize,
+    pub parent: Option<usize>,
+    pub children: Vec<usize>,
+    pub visits: f32,
+    pub value: f32,
+    pub policy: f32,
+    /// serialized move that led here
+    pub action: Option<String>,
+    pub n_expandable: usize,
+    /// serialized game state
+    pub state: String,
+}
+
+#[derive(Debug, Clone)]
+pub struct TreeSnap {
+    pub kind: &'static str,
+    pub iterations: usize,
+    pub nodes: Vec<NodeSnap>,
+}
+
+static ENABLED: AtomicBool = AtomicBool::new(false);
+static TREES: Mutex<Vec<TreeSnap>> = Mutex::new(vec![]);
+
+pub fn enable(on: bool) {
+    ENABLED.store(on, Ordering::SeqCst);
+}
+
+pub fn take_trees() -> Vec<TreeSnap> {
+    std::mem::take(&mut *TREES.lock().unwrap_or_else(|e| e.into_inner()))
+}
+
+pub fn snapshot<T: LearnableGame>(kind: &'static str, iterations: usize, store: &NodeStore<T>) -> TreeSnap {
+    let nodes = (0..store.n_nodes())
+        .map(|i| {
+            let node = store.get_node_ref(i);
+            NodeSnap {
+                idx: node.idx,
+                parent: node.parent,
+                children: node.children.clone(),
+                visits: node.visits,
+                value: node.value,
+                policy: node.policy,
+                action: node.action_taken.as_ref().map(|a| serde_json::to_string(a).unwrap()),
+                n_expandable: node.expandable_moves.len(),
+                state: serde_json::to_string(&node.state).unwrap(),
+            }
+        })
+        .collect();
+    TreeSnap { kind, iterations, nodes }
+}
+
+pub fn record_tree<T: LearnableGame>(kind: &'static str, iterations: usize, store: &NodeStore<T>) {
+    if ENABLED.load(Ordering::SeqCst) {
+        let tree = snapshot(kind, iterations, store);
+        TREES.lock().unwrap_or_else(|e| e.into_inner()).push(tree);
+    }
+}
-- 
2.43.0


From 53253355a71134a8169681c91f46e14a00565445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 17/21] fix: small temperatures turned all move probabilities
 to zero

Probabilities were raised to 1 / temperature unscaled and underflowed to
zero, which passed the turn of a player with legal moves or panicked.
---
 src/alphazero/alpha_no_parallel.rs |  8 +++-----
 src/alphazero/alpha_parallel.rs    |  9 +++------
 src/alphazero/alphazero.rs         |  6 +++---
 src/mcts/utils.rs                  | 10 ++++++++++
 src/versus.rs                      |  5 ++---
 5 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index ec17754..1b78920 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -1,5 +1,5 @@
 use crate::{
-    base::LearnableGame, mcts::alpha_mcts::alpha_mcts,
+    base::LearnableGame, mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature},
 };
 
 use super::alphazero::{AlphaZero, MemoryFragment};
@@ -44,7 +44,7 @@ impl AlphaZero {
         loop {
             println!("{}", state.to_pretty_str());
             // Get probabilities from mcts
-            let mut pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
+            let pi = match alpha_mcts(&state, &self.model, &self.mcts_config) {
                 Some(pi) => pi,
                 None => {
                     state.skip_turn();
@@ -53,9 +53,7 @@ impl AlphaZero {
             };
 
             // Apply temperature to pi
-            let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
-            let pi_sum = temperatured_pi.sum(None);
-            let temperatured_pi = temperatured_pi.divide(&pi_sum);
+            let temperatured_pi = apply_temperature(&pi, self.config.temperature);
             // Select an action from probabilities
             let selected_action = Self::weighted_select_tensor_idx(&temperatured_pi);
 
diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index d26cef1..4dde3c3 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -6,7 +6,7 @@ use itertools::Itertools;
 use crate::{
     base::LearnableGame,
     mcts::{
-        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::get_prob_tensor_parallel,
+        alpha_mcts::alpha_mcts_parallel, node_store::NodeStore, utils::{apply_temperature, get_prob_tensor_parallel},
     },
 };
 
@@ -161,11 +161,8 @@ impl AlphaZero {
             let roots = (0..states.len())
                 .map(|i| store.get_node_ref(i))
                 .collect_vec();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / self.config.temperature); // Apply temperature
-            let prob_sums = prob_tensor.sum_dim_intlist(1, true, None);
-            let prob_tensor = prob_tensor
-                .divide(&prob_sums) // Keep them probabilities
+            let prob_tensor = get_prob_tensor_parallel(&roots, &store);
+            let prob_tensor = apply_temperature(&prob_tensor, self.config.temperature)
                 .to_device(tch::Device::Cpu); // Move to CPU for faster access
 
             for (processed_idx, (init_idx, state)) in states.values_mut().enumerate() {
diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 34f757f..4354bf1 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -19,7 +19,7 @@ use super::nnet::ResNet;
 
 use crate::{
     constants::{DEFAULT_TYPE, DEVICE},
-    mcts::alpha_mcts::alpha_mcts, MctsConfig, base::LearnableGame,
+    mcts::{alpha_mcts::alpha_mcts, utils::apply_temperature}, MctsConfig, base::LearnableGame,
 };
 
 #[derive(Debug)]
@@ -145,11 +145,11 @@ impl AlphaZero {
     }
 
     pub fn get_next_move_for_state<T: LearnableGame>(&self, current_state: &T) -> T::Move {
-        let mut pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
+        let pi = match alpha_mcts(current_state, &self.model, &self.mcts_config) {
             Some(pi) => pi,
             None => return T::EMPTY_MOVE
         };
-        let temperatured_pi = pi.pow_(1.0 / self.config.temperature);
+        let temperatured_pi = apply_temperature(&pi, self.config.temperature);
         let selected_action = AlphaZero::weighted_select_tensor_idx(&temperatured_pi);
         current_state.decode(selected_action as u32)
     }
diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index 961c197..a9fc18e 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -34,6 +34,16 @@ pub fn get_prob_tensor<T: LearnableGame>(
     Some(probs.div(prob_sum))
 }
 
+/**
+ * Raises action probabilities (along the last dimension) to 1 / temperature and turns them into probabilities again.
+ * Scaled by the largest one first, small temperatures would otherwise turn all of them to zero.
+ */
+pub fn apply_temperature(probs: &Tensor, temperature: f64) -> Tensor {
+    let scaled = probs.divide(&probs.amax([-1_i64].as_slice(), true)).pow_(1.0 / temperature);
+    let sum = scaled.sum_dim_intlist(-1, true, None);
+    scaled.divide(&sum)
+}
+
 /**
  * Given a vec of root nodes of size N
  * returns a tensor of action pick probabilities N 1352
diff --git a/src/versus.rs b/src/versus.rs
index 38edd1f..d525000 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -6,7 +6,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use serde::{Serialize, Deserialize};
 use nanoid::nanoid;
 
-use crate::{mcts::{simple_mcts::mct_search, utils::get_prob_tensor_parallel, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame};
+use crate::{mcts::{simple_mcts::mct_search, utils::{apply_temperature, get_prob_tensor_parallel}, alpha_mcts::alpha_mcts_parallel, node_store::NodeStore}, alphazero::{alphazero::AlphaZero, nnet::ResNet}, MctsConfig, base::LearnableGame};
 
 
 /*
@@ -278,8 +278,7 @@ fn get_actions_for_player<T: LearnableGame>(player: &Player, games: &[T], mcts_c
             let mut store = NodeStore::new();
             alpha_mcts_parallel(&mut store, games, model, mcts_config, Some(ProgressBar::hidden()));
             let roots = store.get_root_nodes();
-            let prob_tensor = get_prob_tensor_parallel(&roots, &store)
-                .pow_(1.0 / temp)
+            let prob_tensor = apply_temperature(&get_prob_tensor_parallel(&roots, &store), temp)
                 .to_device(tch::Device::Cpu);
 
             roots
-- 
2.43.0


From d1c7bd7991d8dd4eb9a65fc4c7b516dc627edab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 18/21] fix: exploration noise of a small concentration was not
 a number

---
 src/mcts/noise.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/mcts/noise.rs b/src/mcts/noise.rs
index 3376a45..cd201bb 100644
--- a/src/mcts/noise.rs
+++ b/src/mcts/noise.rs
@@ -1,4 +1,4 @@
-use rand::thread_rng;
+use rand::{thread_rng, Rng};
 use rand_distr::{Dirichlet, Distribution};
 use tch::Tensor;
 
@@ -6,14 +6,26 @@ use crate::{constants::{DEVICE, DEFAULT_TYPE}, base::LearnableGame};
 
 use super::{node::Node, node_store::NodeStore};
 
+/*
+    A small alpha puts nearly all of the noise on one entry, when even that one is rounded to zero it is drawn here
+*/
+fn sample_dirichlet(alpha: f32, size: usize) -> Vec<f32> {
+    let mut rng = thread_rng();
+    let mut sample = Dirichlet::new(&vec![alpha as f64; size]).unwrap().sample(&mut rng);
+    if sample.iter().any(|x| !x.is_finite()) {
+        sample = vec![0.; size];
+        sample[rng.gen_range(0..size)] = 1.;
+    }
+    sample.into_iter().map(|x| x as f32).collect()
+}
+
 impl <T: LearnableGame> Node <T> {
     pub fn apply_dirichlet(&self, alpha: f32, eps: f32, store: &mut NodeStore<T>) {
         assert!(
             self.visits > 0.,
             "unable to apply dirichlet, node has no visits!"
         );
-        let dirichlet = Dirichlet::new(&vec![alpha; self.children.len()]).unwrap();
-        let sample = dirichlet.sample(&mut thread_rng());
+        let sample = sample_dirichlet(alpha, self.children.len());
         for (child_idx, noise) in self.children.iter().zip(sample) {
             let child = store.get_node_as_mut(*child_idx);
             child.policy = noise * eps + child.policy * (1. - eps)
@@ -26,8 +38,7 @@ impl <T: LearnableGame> Node <T> {
 */
 pub fn apply_dirichlet(tensor: &Tensor, alpha: f32, eps: f32) -> Tensor {
     let n_policies = tensor.size()[1] as usize;
-    let dirichlet = Dirichlet::new(&vec![alpha; n_policies]).unwrap();
-    let diriclet_tensor = Tensor::from_slice(&dirichlet.sample(&mut thread_rng()))
+    let diriclet_tensor = Tensor::from_slice(&sample_dirichlet(alpha, n_policies))
         .to_device_(*DEVICE, DEFAULT_TYPE, false, false)
         .unsqueeze(0);
     (1. - eps) * tensor + eps * diriclet_tensor
-- 
2.43.0


From 8a6b8b25562f2d14e8be79ee1374d2e876807bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:11 +0000
Subject: [PATCH 19/21] fix: priors were not numbers when the network left
 nothing for the legal moves

---
 src/mcts/utils.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mcts/utils.rs b/src/mcts/utils.rs
index a9fc18e..2c5069c 100644
--- a/src/mcts/utils.rs
+++ b/src/mcts/utils.rs
@@ -76,9 +76,11 @@ pub fn turn_policy_to_probs_tensor_parallel<T: LearnableGame>(store: &NodeStore<
         })
     }).unzip();
     let _ = mask.index_put_(&[Some(Tensor::from_slice(&xs)), Some(Tensor::from_slice(&ys))], &Tensor::from(1_f32), false);
-    let selected_moves_tensor = policy * mask;
+    let selected_moves_tensor = policy * &mask;
     let moves_sum = selected_moves_tensor.sum_dim_intlist(1, true, None);
-    selected_moves_tensor.divide(&moves_sum)
+    // Nothing is left for the moves of a node if all of them were rounded to zero, they are equally likely then
+    let equal = mask.divide(&mask.sum_dim_intlist(1, true, None));
+    selected_moves_tensor.divide(&moves_sum).where_self(&moves_sum.gt(0.), &equal)
 }
 
 pub fn turn_policy_to_probs_tensor<T: LearnableGame>(policy: &Tensor, node: &Node<T>) -> Tensor {
@@ -87,7 +89,10 @@ pub fn turn_policy_to_probs_tensor<T: LearnableGame>(policy: &Tensor, node: &Nod
         node.state.encode(m) as i32
     }).collect_vec();
     let indices_tensor = vec![Some(Tensor::from_slice(&indices))];
-    let values_to_put = policy.index(&indices_tensor);
+    let mut values_to_put = policy.index(&indices_tensor);
+    if !values_to_put.sum(None).is_nonzero() {
+        values_to_put = values_to_put.ones_like();
+    }
     let _ = result.index_put_(&indices_tensor, &values_to_put, false);
     let sum = result.sum(None);
     result / sum
@@ -101,6 +106,9 @@ pub fn turn_policy_to_probs<T: LearnableGame>(policy: &Tensor, node: &Node<T>) -
         encoded_values.push(encoded_value as usize);
         values[encoded_value as usize] = policy.double_value(&[encoded_value as i64]) as f32;
     }
+    if encoded_values.iter().all(|&encoded_value| values[encoded_value] == 0.) {
+        encoded_values.iter().for_each(|&encoded_value| values[encoded_value] = 1.);
+    }
     let sum: f32 = values.iter().sum();
 
     for i in 0..encoded_values.len() {
-- 
2.43.0


From dc63a5f6b066eb6e77dfa75995dfa684f5e8a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:45 +0000
Subject: [PATCH 20/21] fix: report a game that could not be written completely

---
 src/versus.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/versus.rs b/src/versus.rs
index d525000..95d4a82 100644
--- a/src/versus.rs
+++ b/src/versus.rs
@@ -58,6 +58,8 @@ pub fn save_game<T: LearnableGame>(game: &Game<T>, game_path: &str) -> Result<()
     let serialized = serde_json::to_string_pretty(game)?;
     let mut writer = std::io::BufWriter::new(file);
     writer.write_all(serialized.as_bytes())?;
+    // Dropping the writer would ignore a failed write
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 549d3ed302c1b99c19da8f3fa8a36bcdf55b551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:30 +0000
Subject: [PATCH 21/21] fix: an interrupted save no longer destroys the best
 model

---
 src/alphazero/alpha_versus.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/alpha_versus.rs b/src/alphazero/alpha_versus.rs
index 7739762..4d3a2d0 100644
--- a/src/alphazero/alpha_versus.rs
+++ b/src/alphazero/alpha_versus.rs
@@ -1,4 +1,4 @@
-use std::path::PathBuf;
+use std::{fs, path::{Path, PathBuf}};
 
 use tch::nn::VarStore;
 
@@ -18,7 +18,7 @@ impl AlphaZero {
         let best_model_path = PathBuf::from(best_model_path_str);
         if !best_model_path.exists() {
             println!("No best model was found, saving current model as best...");
-            match self.model.vs.save(&best_model_path) {
+            match self.save_best_model(&best_model_path) {
                 Ok(_) => println!("model saved!"),
                 Err(e) => println!("unable to save model, caught error: {}", e),
             }
@@ -46,7 +46,7 @@ impl AlphaZero {
             Some(_) => unreachable!(),
         };
         if is_model_better {
-            match self.model.vs.save(best_model_path) {
+            match self.save_best_model(&best_model_path) {
                 Ok(_) => self.pb.println("saved new best model").unwrap(),
                 Err(_) => self
                     .pb
@@ -56,6 +56,16 @@ impl AlphaZero {
         }
     }
 
+    /**
+     * Replaces the best model in one step, being interrupted while saving must not cost the previous one
+     */
+    fn save_best_model(&self, best_model_path: &Path) -> Result<(), Box<dyn std::error::Error>> {
+        let new_path = best_model_path.with_file_name("best_model_new.ot");
+        self.model.vs.save(&new_path)?;
+        fs::rename(&new_path, best_model_path)?;
+        Ok(())
+    }
+
     pub fn play_vs_model<T: LearnableGame>(&self, other_model: ResNet) -> Option<usize> {
         let vs_self = VarStore::new(*DEVICE);
         let mut nnet_self = ResNet::new::<T>(vs_self);
-- 
2.43.0

