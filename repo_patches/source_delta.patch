From 5b7c85bae3ff077745b6d5d6d12aec09b30df67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 01/89] fix: make replay buffer checkpoints restorable and
 crash-safe

load() did not restore which transitions can be sampled, restored nothing but
add_count into a buffer that had not stored anything yet, and could leave a half
overwritten buffer when a file was truncated; save() could not store id lists, and
when interrupted while saving an iteration again left a mix of two checkpoints.
---
 .../replay_memory/circular_replay_buffer.py   | 107 +++++++++++++-----
 1 file changed, 76 insertions(+), 31 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ce5fabd..1eb1d06 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -274,6 +274,15 @@ CHECKPOINT_DURATION = 4
 
 REQUIRED_KEYS = ["observation", "action", "reward", "terminal"]
 
+# Private members a restored buffer needs: without them it would know neither what
+# its arrays hold nor which transitions can be sampled.
+CHECKPOINTED_PRIVATE_MEMBERS = [
+    "_storage_types",
+    "_is_index_valid",
+    "_num_valid_indices",
+    "_num_transitions_in_current_episode",
+]
+
 
 class ReplayBuffer(object):
     """A simple Replay Buffer.
@@ -365,10 +374,16 @@ class ReplayBuffer(object):
         ), f"{kwarg_keys} doesn't contain all of {REQUIRED_KEYS}"
 
         # arbitrary order for extra keys
-        self._extra_keys = list(kwarg_keys - set(REQUIRED_KEYS))
+        extra_keys = list(kwarg_keys - set(REQUIRED_KEYS))
 
         self._storage_types: List[ReplayElement] = [
-            make_replay_element(k, kwargs[k]) for k in REQUIRED_KEYS + self._extra_keys
+            make_replay_element(k, kwargs[k]) for k in REQUIRED_KEYS + extra_keys
+        ]
+        self._initialize_from_storage_types()
+
+    def _initialize_from_storage_types(self):
+        self._extra_keys = [
+            elem.name for elem in self._storage_types if elem.name not in REQUIRED_KEYS
         ]
         self._key_to_replay_elem = {
             elem.name: elem for elem in self.get_storage_signature()
@@ -769,14 +784,18 @@ class ReplayBuffer(object):
         """Return the dict of elements of the class for checkpointing.
         Returns:
           checkpointable_elements: dict containing all non private (starting with
-          _) members + all the arrays inside self._store.
+          _) members + the private members which sampling depends on + all the
+          arrays inside self._store.
         """
         checkpointable_elements = {}
         for member_name, member in self.__dict__.items():
             if member_name == "_store":
                 for array_name, array in self._store.items():
                     checkpointable_elements[STORE_FILENAME_PREFIX + array_name] = array
-            elif not member_name.startswith("_"):
+            elif (
+                not member_name.startswith("_")
+                or member_name in CHECKPOINTED_PRIVATE_MEMBERS
+            ):
                 checkpointable_elements[member_name] = member
         return checkpointable_elements
 
@@ -795,24 +814,33 @@ class ReplayBuffer(object):
 
         checkpointable_elements = self._return_checkpointable_elements()
 
+        # If this iteration was saved before, drop that checkpoint first, so that being
+        # interrupted leaves an incomplete checkpoint rather than a mix of the two.
         for attr in checkpointable_elements:
             filename = self._generate_filename(checkpoint_dir, attr, iteration_number)
-            with open(filename, "wb") as f:
+            if os.path.exists(filename):
+                os.remove(filename)
+
+        for attr, element in checkpointable_elements.items():
+            filename = self._generate_filename(checkpoint_dir, attr, iteration_number)
+            # A file only gets its final name once it is completely written
+            tmp_filename = f"{filename}.tmp"
+            with open(tmp_filename, "wb") as f:
                 with gzip.GzipFile(fileobj=f) as outfile:
                     # Checkpoint the np arrays in self._store with np.save instead of
                     # pickling the dictionary is critical for file size and performance.
                     # STORE_FILENAME_PREFIX indicates that the variable is contained in
                     # self._store.
                     if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        np.save(
-                            outfile, self._store[array_name].numpy(), allow_pickle=False
-                        )
+                        array = np.asarray(element)
+                        # id lists are stored in arrays of Python objects
+                        np.save(outfile, array, allow_pickle=array.dtype == object)
                     # Some numpy arrays might not be part of storage
-                    elif isinstance(self.__dict__[attr], np.ndarray):
-                        np.save(outfile, self.__dict__[attr], allow_pickle=False)
+                    elif isinstance(element, np.ndarray):
+                        np.save(outfile, element, allow_pickle=False)
                     else:
-                        pickle.dump(self.__dict__[attr], outfile)
+                        pickle.dump(element, outfile)
+            os.replace(tmp_filename, filename)
 
             # After writing a checkpoint file, we garbage collect the checkpoint file
             # that is four versions old.
@@ -836,25 +864,42 @@ class ReplayBuffer(object):
           NotFoundError: If not all expected files are found in directory.
         """
         # TODO: Load tensors from torch files.
-        save_elements = self._return_checkpointable_elements()
-        # We will first make sure we have all the necessary files available to avoid
-        # loading a partially-specified (i.e. corrupted) replay buffer.
-        for attr in save_elements:
+
+        def open_checkpoint_file(attr):
             filename = self._generate_filename(checkpoint_dir, attr, suffix)
             if not os.path.exists(filename):
                 raise FileNotFoundError(None, None, "Missing file: {}".format(filename))
-        # If we've reached this point then we have verified that all expected files
-        # are available.
-        for attr in save_elements:
-            filename = self._generate_filename(checkpoint_dir, attr, suffix)
-            with open(filename, "rb") as f:
-                with gzip.GzipFile(fileobj=f) as infile:
-                    if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        self._store[array_name] = torch.from_numpy(
-                            np.load(infile, allow_pickle=False)
-                        )
-                    elif isinstance(self.__dict__[attr], np.ndarray):
-                        self.__dict__[attr] = np.load(infile, allow_pickle=False)
-                    else:
-                        self.__dict__[attr] = pickle.load(infile)
+            return gzip.open(filename, "rb")
+
+        # A buffer that hasn't stored anything yet takes the arrays from the checkpoint
+        with open_checkpoint_file("_storage_types") as infile:
+            storage_types = pickle.load(infile)
+        store_attrs = [STORE_FILENAME_PREFIX + elem.name for elem in storage_types]
+        attrs = [
+            attr
+            for attr in self._return_checkpointable_elements()
+            if not attr.startswith(STORE_FILENAME_PREFIX)
+        ]
+        # We will first read everything, to avoid loading a partially-specified
+        # (i.e. corrupted) replay buffer.
+        loaded = {}
+        for attr in attrs + store_attrs:
+            with open_checkpoint_file(attr) as infile:
+                if attr.startswith(STORE_FILENAME_PREFIX):
+                    array = np.load(infile, allow_pickle=True)
+                    loaded[attr] = (
+                        array if array.dtype == object else torch.from_numpy(array)
+                    )
+                elif isinstance(self.__dict__[attr], np.ndarray):
+                    loaded[attr] = np.load(infile, allow_pickle=False)
+                else:
+                    loaded[attr] = pickle.load(infile)
+        # If we've reached this point then all expected files are available & readable.
+        for attr in attrs:
+            self.__dict__[attr] = loaded[attr]
+        self._store = {}
+        self._initialized_buffer = False
+        if storage_types:
+            self._initialize_from_storage_types()
+        for attr in store_attrs:
+            self._store[attr[len(STORE_FILENAME_PREFIX) :]] = loaded[attr]
-- 
2.43.0


From ec62bfc9712facb56f26929f3cc6702b93ad58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 02/89] fix: export every valid transition once to the
 pre-timeline data frame

It exported size transitions sampled with replacement, so some were duplicated and
others dropped.
---
 reagent/replay_memory/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..b0c8599 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -27,7 +27,7 @@ def replay_buffer_to_pre_timeline_df(
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
     n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    batch = replay_buffer.sample_all_valid_transitions()
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0


From a92012c2e9d23c855356a1b54c9c3e3f0947437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 03/89] fix: never sample a zero-priority leaf of the sum tree

Rounding (a query value of 1, or sums that drifted as deltas were added) could
lead the descent into an empty subtree, even past the capacity.
---
 reagent/replay_memory/sum_tree.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/reagent/replay_memory/sum_tree.py b/reagent/replay_memory/sum_tree.py
index f50afd0..3a0b5ad 100644
--- a/reagent/replay_memory/sum_tree.py
+++ b/reagent/replay_memory/sum_tree.py
@@ -115,8 +115,11 @@ class SumTree(object):
             left_child = node_index * 2
 
             left_sum = nodes_at_this_depth[left_child]
-            # Each subtree describes a range [0, a), where a is its value.
-            if query_value < left_sum:  # Recurse into left subtree.
+            right_sum = nodes_at_this_depth[left_child + 1]
+            # Each subtree describes a range [0, a), where a is its value. The query
+            # can only be past the end of that range by rounding, so never follow it
+            # into a right subtree which has nothing to sample.
+            if query_value < left_sum or right_sum == 0.0:  # Recurse into left subtree.
                 node_index = left_child
             else:  # Recurse into right subtree.
                 node_index = left_child + 1
@@ -173,13 +176,18 @@ class SumTree(object):
             )
         self.max_recorded_priority = max(value, self.max_recorded_priority)
 
-        delta_value = value - self.nodes[-1][node_index]
+        self.nodes[-1][node_index] = value
 
-        # Now traverse back the tree, adjusting all sums along the way.
-        for nodes_at_this_depth in reversed(self.nodes):
-            # Note: Adding a delta leads to some tolerable numerical inaccuracies.
-            nodes_at_this_depth[node_index] += delta_value
+        # Now traverse back the tree, recomputing all sums along the way. (Adding the
+        # change in value instead would let rounding errors accumulate, up to nonzero
+        # sums over leaves that are all zero.)
+        for depth in range(len(self.nodes) - 2, -1, -1):
+            left_child = node_index // 2 * 2
+            children = self.nodes[depth + 1]
             node_index //= 2
+            self.nodes[depth][node_index] = (
+                children[left_child] + children[left_child + 1]
+            )
 
         assert node_index == 0, (
             "Sum tree traversal failed, final node index " "is not 0."
-- 
2.43.0


From a1caaf33ebb6dbedf681375b7d6e393fe0e9854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 04/89] fix: prioritized replay never returns an invalid index

When the attempts ran out within one element of the batch, the last invalid index
was returned instead of raising; also support the default batch size.
---
 reagent/replay_memory/prioritized_replay_buffer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..c8c7432 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -109,6 +109,14 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    # Ran out of attempts on this index
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
@@ -137,7 +145,7 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
             if element_name == "sampling_probabilities":
                 batch = torch.from_numpy(
                     self.get_priority(transition.indices.numpy().astype(np.int32))
-                ).view(batch_size, 1)
+                ).view(-1, 1)
             else:
                 batch = getattr(transition, element_name)
             batch_arrays.append(batch)
-- 
2.43.0


From f53a1df44345bbad27e8f13f0d50c7112d6013b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 05/89] fix: sample a single row of id list features

---
 reagent/replay_memory/circular_replay_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 1eb1d06..b7c4a0a 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -738,7 +738,11 @@ class ReplayBuffer(object):
         stack_indices = indices.unsqueeze(1) + torch.arange(-self._stack_size + 1, 1)
         # pyre-fixme[16]: `Tensor` has no attribute `__imod__`.
         stack_indices %= self._replay_capacity
-        retval = self._store[key][stack_indices]
+        store = self._store[key]
+        if isinstance(store, np.ndarray):
+            # numpy takes a tensor of one element for a scalar index
+            stack_indices = stack_indices.numpy()
+        retval = store[stack_indices]
         return self._key_to_replay_elem[key].metadata.sample_to_output(retval)
 
     def _get_steps(self, multistep_indices: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 81eaf30ec66643b4498a7cc58a7f3684197422e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 06/89] fix: keep unwritten rewards out of multi-step returns

---
 reagent/replay_memory/circular_replay_buffer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index b7c4a0a..78260ea 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -727,8 +727,10 @@ class ReplayBuffer(object):
     ):
         # default behavior is to sum up multi_step reward
         masks = torch.arange(self._update_horizon) < steps.unsqueeze(1)
-        rewards = self._store["reward"][multistep_indices] * self._decays * masks
-        return rewards.sum(dim=1)
+        rewards = self._store["reward"][multistep_indices] * self._decays
+        # Steps past the terminal may not have been written yet, so their contents can
+        # be anything. Multiplying by 0 wouldn't get rid of nan.
+        return rewards.masked_fill(~masks, 0.0).sum(dim=1)
 
     def _get_stack_for_indices(self, key: str, indices: torch.Tensor) -> torch.Tensor:
         """ Get stack of transition data. """
-- 
2.43.0


From aa53dc8bfeb17c5cac0c49985ae482edc4ce0d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 07/89] fix: let the next checkpoint reuse the file an
 interrupted one left

---
 reagent/replay_memory/circular_replay_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 78260ea..bf2f771 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -830,7 +830,7 @@ class ReplayBuffer(object):
         for attr, element in checkpointable_elements.items():
             filename = self._generate_filename(checkpoint_dir, attr, iteration_number)
             # A file only gets its final name once it is completely written
-            tmp_filename = f"{filename}.tmp"
+            tmp_filename = os.path.join(checkpoint_dir, "unfinished_ckpt.tmp")
             with open(tmp_filename, "wb") as f:
                 with gzip.GzipFile(fileobj=f) as outfile:
                     # Checkpoint the np arrays in self._store with np.save instead of
-- 
2.43.0


From a2a7c8ccd96c22e599181626522700df825a05ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 08/89] fix: refuse a negative priority before anything is
 added

---
 reagent/replay_memory/prioritized_replay_buffer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index c8c7432..65fc19c 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -81,6 +81,14 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         self.sum_tree.set(self.cursor(), priority)
         super(PrioritizedReplayBuffer, self)._add_transition(transition)
 
+    def _check_add_types(self, **kwargs):
+        super(PrioritizedReplayBuffer, self)._check_add_types(**kwargs)
+        # The sum tree would only refuse it once the add is half done
+        if kwargs["priority"] < 0.0:
+            raise ValueError(
+                "Priority should be nonnegative. Got {}".format(kwargs["priority"])
+            )
+
     def sample_index_batch(self, batch_size: int) -> torch.Tensor:
         """Returns a batch of valid indices sampled as in Schaul et al. (2015).
         Args:
-- 
2.43.0


From ca7720e1eaa84c184c6e3e6373d2fe3d41c3c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 09/89] fix: start a new training step generator for each
 batch, also after an interrupted one

---
 reagent/training/reagent_lightning_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..d836ab5 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -94,7 +94,9 @@ class ReAgentLightningModule(pl.LightningModule):
     # pyre-fixme[14]: `training_step` overrides method defined in `LightningModule`
     #  inconsistently.
     def training_step(self, batch, batch_idx: int, optimizer_idx: int):
-        if self._training_step_generator is None:
+        # An interrupted batch leaves its generator behind; the first optimizer
+        # always starts a new batch
+        if optimizer_idx == 0 or self._training_step_generator is None:
             if self._training_batch_type and isinstance(batch, dict):
                 batch = self._training_batch_type.from_dict(batch)
             self._training_step_generator = self.train_step_gen(batch, batch_idx)
-- 
2.43.0


From ea96d4582d7439f68c7fecb76526232cc82ca67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 10/89] fix: SoftUpdate leaves the targets alone when the
 trainer yields None

---
 reagent/optimizer/soft_update.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/optimizer/soft_update.py b/reagent/optimizer/soft_update.py
index e6819c6..3cc2477 100644
--- a/reagent/optimizer/soft_update.py
+++ b/reagent/optimizer/soft_update.py
@@ -46,6 +46,9 @@ class SoftUpdate(torch.optim.Optimizer):
         if closure is not None:
             with torch.enable_grad():
                 loss = closure()
+            if loss is None:
+                # The trainer yielded None, i.e., no update for this batch
+                return None
 
         for group in self.param_groups:
             params = group["params"]
-- 
2.43.0


From 81cfbe3d923d630173dd80ff3c6f942bd27c4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 11/89] fix: SlateQ training does not modify the next actions
 of the batch

---
 reagent/training/slate_q_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 815278f..53be5bf 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -78,7 +78,7 @@ class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
             assert terminal_mask.shape == (
                 action.shape[0],
             ), f"{terminal_mask.shape} != 0th dim of {action.shape}"
-            action[terminal_mask] = torch.zeros_like(action[terminal_mask])
+            action = action.masked_fill(terminal_mask.unsqueeze(1), 0)
         docs = state.candidate_docs
         assert docs is not None
         return docs.select_slate(action)
-- 
2.43.0


From 58bb8a27f2d2666445ac2a79044d22b4e6d7ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 12/89] fix: QR-DQN lists its CPE optimizers in the order their
 losses are yielded

---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From 1ded73bdd4ca8919a69212cf88bce4d2df832d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 13/89] fix: CRR yields once per optimizer in batches without
 an actor update

---
 reagent/training/discrete_crr_trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..01cb705 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -280,8 +280,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -317,5 +316,8 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         # Use the soft update rule to update the target networks.
         # Note: this yield has to be the last one, since SoftUpdate is the last
         # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
-        yield result
+        if batch_idx % self.delayed_policy_update == 0:
+            yield self.soft_update_result()
+        else:
+            # Yielding None prevents the target networks from updating
+            yield None
-- 
2.43.0


From ef756e1e49ce8c596e86d656e0c690c145a4e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 14/89] fix: batch constrained DQN does not modify the action
 masks of the batch

---
 reagent/training/dqn_trainer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..fe89511 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -175,7 +175,9 @@ class DQNTrainer(DQNTrainerBaseLightning):
                     training_batch.next_state,
                     self.bcq_drop_threshold,
                 )
-                possible_next_actions_mask *= action_on_policy
+                possible_next_actions_mask = (
+                    possible_next_actions_mask * action_on_policy
+                )
             next_q_values, max_q_action_idxs = self.get_max_q_values_with_target(
                 all_next_q_values,
                 all_next_q_values_target,
@@ -221,12 +223,11 @@ class DQNTrainer(DQNTrainerBaseLightning):
 
         if self.maxq_learning:
             possible_actions_mask = training_batch.possible_actions_mask
-
-        if self.bcq:
-            action_on_policy = get_valid_actions_from_imitator(
-                self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
-            )
-            possible_actions_mask *= action_on_policy
+            if self.bcq:
+                action_on_policy = get_valid_actions_from_imitator(
+                    self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
+                )
+                possible_actions_mask = possible_actions_mask * action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 3be3d4dfd3fd7b17bc54e27adb9ce59857cc57f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 15/89] fix: checkpoints carry the state of the learning rate
 schedules

---
 reagent/optimizer/optimizer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/reagent/optimizer/optimizer.py b/reagent/optimizer/optimizer.py
index 9b91eab..3d5902e 100644
--- a/reagent/optimizer/optimizer.py
+++ b/reagent/optimizer/optimizer.py
@@ -63,6 +63,19 @@ class Optimizer:
         for lr_scheduler in self.lr_schedulers:
             lr_scheduler.step()
 
+    def state_dict(self):
+        state = dict(self.optimizer.state_dict())
+        if self.lr_schedulers:
+            state["lr_schedulers"] = [s.state_dict() for s in self.lr_schedulers]
+        return state
+
+    def load_state_dict(self, state_dict):
+        state = dict(state_dict)
+        # Older checkpoints don't have the state of the schedulers
+        for lr_scheduler, s in zip(self.lr_schedulers, state.pop("lr_schedulers", [])):
+            lr_scheduler.load_state_dict(s)
+        self.optimizer.load_state_dict(state)
+
     def __getattr__(self, attr):
         return getattr(self.optimizer, attr)
 
-- 
2.43.0


From 67bec976f5af3d1e172ecc0305c7a2091fad4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 16/89] fix: SAC takes the entropy temperature from log_alpha,
 which checkpoints restore

---
 reagent/training/sac_trainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/training/sac_trainer.py b/reagent/training/sac_trainer.py
index d3ff892..25788c0 100644
--- a/reagent/training/sac_trainer.py
+++ b/reagent/training/sac_trainer.py
@@ -122,7 +122,7 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         if alpha_optimizer is not None:
             self.target_entropy = target_entropy
             self.log_alpha = torch.nn.Parameter(
-                torch.tensor([np.log(self.entropy_temperature)])
+                torch.tensor([float(np.log(self.entropy_temperature))])
             )
 
         self.logged_action_uniform_prior = logged_action_uniform_prior
@@ -193,6 +193,10 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         discount = torch.full_like(reward, self.gamma)
         not_done_mask = training_batch.not_terminal
 
+        if self.alpha_optimizer is not None:
+            # log_alpha is what checkpoints carry
+            self.entropy_temperature = self.log_alpha.exp().detach()
+
         #
         # First, optimize Q networks; minimizing MSE between
         # Q(s, a) & r + discount * V'(next_s)
-- 
2.43.0


From 8f4da68b4d34c6788dd25cc73a85e405573a0583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 17/89] fix: discrete DQN managers save Lightning checkpoints,
 so that they can be warm started

---
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 53f9d9b..1413f03 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -162,7 +162,7 @@ class DiscreteDQNBase(ModelManager):
         self.trainer.set_reporter(reporter)
         assert data_module
 
-        train_eval_lightning(
+        self._lightning_trainer = train_eval_lightning(
             train_dataset=train_dataset,
             eval_dataset=eval_dataset,
             trainer_module=self.trainer,
-- 
2.43.0


From 0654675c61478748d87880061aa3d7129fde72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 18/89] fix: trainers saved concurrently do not share one local
 file

---
 reagent/workflow/model_managers/model_manager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 31b7250..39d024a 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -3,6 +3,8 @@
 import abc
 import dataclasses
 import logging
+import os
+import tempfile
 import time
 from typing import Dict, List, Optional, Tuple
 
@@ -321,10 +323,11 @@ class ModelManager(metaclass=RegistryMeta):
             # HACK: since lightning_trainer.save_checkpoint can only deal with
             # local file paths (not even file handlers), we save to local file
             # first, and then use PathManager
-            local_path = "/tmp/lightning_save_checkpoint_local_copy"
-            lightning_trainer.save_checkpoint(local_path)
-            with open(local_path, "rb") as local_f:
-                checkpoint_contents = local_f.read()
+            with tempfile.TemporaryDirectory() as local_dir:
+                local_path = os.path.join(local_dir, "checkpoint")
+                lightning_trainer.save_checkpoint(local_path)
+                with open(local_path, "rb") as local_f:
+                    checkpoint_contents = local_f.read()
             with PathManager.open(output_path, "wb") as output_f:
                 output_f.write(checkpoint_contents)
         else:
-- 
2.43.0


From 92bb21130d4ca40d338afdb81c1e95b69ef5afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 19/89] fix: a session that was interrupted after its last
 epoch has nothing left to train

---
 reagent/training/reagent_lightning_module.py | 6 ++++++
 reagent/workflow/utils.py                    | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index d836ab5..7003f68 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -154,3 +154,9 @@ class StoppingEpochCallback(pl.Callback):
         logger.info(f"cleanly stopped: {cleanly_stopped}")
         if cleanly_stopped:
             pl_module.increase_next_stopping_epochs(self.num_epochs)
+        elif trainer.current_epoch > pl_module._next_stopping_epoch.item():
+            # The interrupted session had finished its last epoch already; leave
+            # the counters like after that epoch & skip training
+            trainer.current_epoch -= 1
+            trainer.global_step -= 1
+            trainer.max_epochs = trainer.current_epoch
diff --git a/reagent/workflow/utils.py b/reagent/workflow/utils.py
index 182f9a5..e04c145 100644
--- a/reagent/workflow/utils.py
+++ b/reagent/workflow/utils.py
@@ -138,5 +138,6 @@ def train_eval_lightning(
         callbacks=[StoppingEpochCallback(num_epochs)],
     )
     trainer.fit(trainer_module, datamodule=datamodule)
-    trainer.test()
+    # Test the trained weights; there is no best checkpoint if nothing was left to train
+    trainer.test(ckpt_path=None)
     return trainer
-- 
2.43.0


From 9ec28aed12c61a5d8b897050209323275b025efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 20/89] fix: summary_writer looks at the logger of the module

---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index 7003f68..10ede68 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From b08e34f077056b97560db0639398572d03b29e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 21/89] fix: evolution strategy workers pass the process group
 as the group of the all_reduce

---
 reagent/training/gradient_free/es_worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/es_worker.py b/reagent/training/gradient_free/es_worker.py
index 4176021..81e90ef 100644
--- a/reagent/training/gradient_free/es_worker.py
+++ b/reagent/training/gradient_free/es_worker.py
@@ -41,7 +41,7 @@ class EsWorker:
         logger.info("Pushing reward")
 
         # Sum the rewards across all machines
-        distributed.all_reduce(rewards, self.process_group)
+        distributed.all_reduce(rewards, group=self.process_group)
 
         # Divide the rewards by the number of machines.  We do this because
         # there is no "average" all_reduce operator.
-- 
2.43.0


From 3a1e4f7d2c942082f362ec799887d34321ad54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 22/89] fix: the evolution pool can be imported outside of
 Facebook

---
 reagent/training/gradient_free/evolution_pool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/evolution_pool.py b/reagent/training/gradient_free/evolution_pool.py
index 0af0528..26c7b30 100644
--- a/reagent/training/gradient_free/evolution_pool.py
+++ b/reagent/training/gradient_free/evolution_pool.py
@@ -5,12 +5,15 @@ import logging
 from typing import Dict, List
 
 import torch
-import torch.fb.rendezvous.zeus
 import torch.nn
 import torch.optim
+from reagent.core.fb_checker import IS_FB_ENVIRONMENT
 from reagent.parameters import EvolutionParameters
 
 
+if IS_FB_ENVIRONMENT:
+    import torch.fb.rendezvous.zeus  # noqa
+
 logger = logging.getLogger(__name__)
 
 MAX_RNG_SEED = 100000
-- 
2.43.0


From 5a392da58b9eed6e3c4a16d1db6d9d80c4f917ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 23/89] fix: operators that fail or outlive the DAG timeout no
 longer crash the decision service

---
 .../reagent/serving/core/OperatorRunner.cpp   | 53 ++++++++++++++-----
 serving/reagent/serving/core/OperatorRunner.h | 21 ++++++++
 2 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/serving/reagent/serving/core/OperatorRunner.cpp b/serving/reagent/serving/core/OperatorRunner.cpp
index 0848262..283b7ea 100644
--- a/serving/reagent/serving/core/OperatorRunner.cpp
+++ b/serving/reagent/serving/core/OperatorRunner.cpp
@@ -9,9 +9,11 @@ StringOperatorDataMap OperatorRunner::run(
     const std::vector<std::shared_ptr<Operator>>& operators,
     const StringOperatorDataMap& constants, const DecisionRequest& request,
     const OperatorData& extraInput) {
-  StringOperatorDataMap finishedOperators;
-  std::mutex finishedOperatorMutex;
-  tf::Taskflow taskflow;
+  // The tasks outlive this call if it times out
+  auto dagRun = std::make_shared<Run>(request);
+  auto run = dagRun.get();
+  auto& finishedOperators = run->finishedOperators;
+  auto& taskflow = run->taskflow;
 
   std::unordered_map<std::string, tf::Task> operatorTaskMap;
 
@@ -28,29 +30,37 @@ StringOperatorDataMap OperatorRunner::run(
   // Create tasks for all operators
   for (const auto& op : operators) {
     operatorTaskMap[op->getName()] = taskflow.emplace(
-        [op, &request, &finishedOperators, &finishedOperatorMutex]() {
+        [op, run]() {
           // Resolve input symbols
           StringOperatorDataMap namedInputs;
           {
-            std::lock_guard<std::mutex> lock(finishedOperatorMutex);
+            std::lock_guard<std::mutex> lock(run->mutex);
             for (const auto& inputDepEntry : op->getInputDepMap()) {
               const auto& inputName = inputDepEntry.first;
               const auto& depOperatorName = inputDepEntry.second;
-              auto it = finishedOperators.find(depOperatorName);
-              if (it == finishedOperators.end()) {
+              auto it = run->finishedOperators.find(depOperatorName);
+              if (it == run->finishedOperators.end()) {
+                // The operator that we depend on failed
                 LOG(ERROR) << "Could not find data for finished operator";
+                return;
               }
               namedInputs[inputName] = it->second;
             }
           }
 
-          // Run the op
-          OperatorData outputData = op->run(request, namedInputs);
+          try {
+            // Run the op
+            OperatorData outputData = op->run(run->request, namedInputs);
 
-          // Set output data
-          {
-            std::lock_guard<std::mutex> lock(finishedOperatorMutex);
-            finishedOperators[op->getName()] = outputData;
+            // Set output data
+            std::lock_guard<std::mutex> lock(run->mutex);
+            run->finishedOperators[op->getName()] = outputData;
+          } catch (const std::exception& e) {
+            // Exceptions may not leave the threads of the executor
+            std::lock_guard<std::mutex> lock(run->mutex);
+            if (run->error.empty()) {
+              run->error = op->getName() + ": " + e.what();
+            }
           }
         });
   }
@@ -67,14 +77,29 @@ StringOperatorDataMap OperatorRunner::run(
     }
   }
 
-  auto runStatus = taskExecutor_.run(taskflow).wait_for(DAG_TIMEOUT);
+  {
+    std::lock_guard<std::mutex> lock(timedOutRunsMutex_);
+    timedOutRuns_.remove_if([](auto& it) {
+      return it.second.wait_for(std::chrono::seconds(0)) ==
+          std::future_status::ready;
+    });
+  }
+
+  auto future = taskExecutor_.run(taskflow);
+  auto runStatus = future.wait_for(DAG_TIMEOUT);
   if (runStatus == std::future_status::timeout) {
+    std::lock_guard<std::mutex> lock(timedOutRunsMutex_);
+    timedOutRuns_.emplace_back(dagRun, std::move(future));
     LOG_AND_THROW("DAG Timeout");
   }
   if (runStatus != std::future_status::ready) {
     LOG_AND_THROW("Unknown error in DAG");
   }
 
+  if (!run->error.empty()) {
+    LOG_AND_THROW("Operator failed: " << run->error);
+  }
+
   if (finishedOperators.size() != operators.size() + 1 + constants.size()) {
     LOG_AND_THROW("DAG Incomplete");
   }
diff --git a/serving/reagent/serving/core/OperatorRunner.h b/serving/reagent/serving/core/OperatorRunner.h
index 84e8133..911b9ea 100644
--- a/serving/reagent/serving/core/OperatorRunner.h
+++ b/serving/reagent/serving/core/OperatorRunner.h
@@ -4,6 +4,9 @@
 
 #include "reagent/serving/core/Operator.h"
 
+#include <list>
+#include <mutex>
+
 namespace reagent {
 class OperatorRunner {
  public:
@@ -15,6 +18,24 @@ class OperatorRunner {
                             const OperatorData& extraInput);
 
  protected:
+  // Everything that the tasks of one run use.
+  struct Run {
+    explicit Run(const DecisionRequest& r) : request(r) {}
+
+    DecisionRequest request;
+    StringOperatorDataMap finishedOperators;
+    std::string error; // Of the first operator that failed
+    std::mutex mutex; // Guards finishedOperators and error
+    tf::Taskflow taskflow;
+  };
+  using RunFuture = decltype(std::declval<tf::Executor&>().run(
+      std::declval<tf::Taskflow&>()));
+
+  // Runs that timed out: their tasks are still in the executor.
+  std::mutex timedOutRunsMutex_;
+  std::list<std::pair<std::shared_ptr<Run>, RunFuture>> timedOutRuns_;
+
+  // Destroyed first, which waits for all tasks.
   tf::Executor taskExecutor_;
 };
 }  // namespace reagent
-- 
2.43.0


From b83735e445ab3bb88c3f113c65f93db150baae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 24/89] fix: InMemoryLogJoiner can be used by concurrent
 requests

---
 .../reagent/serving/core/InMemoryLogJoiner.cpp  | 17 ++++++++++++-----
 .../reagent/serving/core/InMemoryLogJoiner.h    |  2 ++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/serving/reagent/serving/core/InMemoryLogJoiner.cpp b/serving/reagent/serving/core/InMemoryLogJoiner.cpp
index 62dac2b..f526483 100644
--- a/serving/reagent/serving/core/InMemoryLogJoiner.cpp
+++ b/serving/reagent/serving/core/InMemoryLogJoiner.cpp
@@ -10,20 +10,25 @@ void InMemoryLogJoiner::logDecision(
   decisionWithFeedback.decision_request = decisionRequest;
   decisionWithFeedback.decision_response = decisionResponse;
   decisionWithFeedback.operator_outputs = operator_outputs;
+  std::lock_guard<std::mutex> lock(mutex_);
   unjoinedData_[key] = std::move(decisionWithFeedback);
 }
 
 void InMemoryLogJoiner::logFeedback(Feedback feedback) {
   addRewardToFeedback(&feedback);
   std::string request_id = feedback.request_id;
-  auto it = unjoinedData_.find(request_id);
-  if (it == unjoinedData_.end()) {
-    return;
+  DecisionWithFeedback dwf1;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = unjoinedData_.find(request_id);
+    if (it == unjoinedData_.end()) {
+      return;
+    }
+    dwf1 = it->second;
+    unjoinedData_.erase(it);
   }
-  DecisionWithFeedback dwf1 = it->second;
   DecisionWithFeedback dwf2;
   dwf2.feedback = feedback;
-  unjoinedData_.erase(it);
   json j1 = dwf1;
   json j2 = dwf2;
   deserializeAndJoinDecisionAndFeedback({j1.dump(), j2.dump()});
@@ -33,6 +38,7 @@ DecisionWithFeedback InMemoryLogJoiner::deserializeAndJoinDecisionAndFeedback(
     StringList decisionAndFeedback) {
   DecisionWithFeedback mergedDwf =
       LogJoiner::deserializeAndJoinDecisionAndFeedback(decisionAndFeedback);
+  std::lock_guard<std::mutex> lock(mutex_);
   loggedData_.push_back(mergedDwf);
   nlohmann::json json;
   to_json(json, mergedDwf);
@@ -43,6 +49,7 @@ DecisionWithFeedback InMemoryLogJoiner::deserializeAndJoinDecisionAndFeedback(
 }
 
 std::deque<DecisionWithFeedback> InMemoryLogJoiner::getLoggedData() {
+  std::lock_guard<std::mutex> lock(mutex_);
   return loggedData_;
 }
 
diff --git a/serving/reagent/serving/core/InMemoryLogJoiner.h b/serving/reagent/serving/core/InMemoryLogJoiner.h
index 20d86a2..33c69e0 100644
--- a/serving/reagent/serving/core/InMemoryLogJoiner.h
+++ b/serving/reagent/serving/core/InMemoryLogJoiner.h
@@ -2,6 +2,7 @@
 
 #include <boost/filesystem.hpp>
 #include <fstream>
+#include <mutex>
 #include "reagent/serving/core/LogJoiner.h"
 
 namespace reagent {
@@ -40,6 +41,7 @@ class InMemoryLogJoiner : public LogJoiner {
   std::deque<DecisionWithFeedback> getLoggedData();
 
  protected:
+  std::mutex mutex_; // Guards all members below
   std::unique_ptr<std::ofstream> logStream_;
   std::deque<DecisionWithFeedback> loggedData_;
   std::unordered_map<std::string, DecisionWithFeedback> unjoinedData_;
-- 
2.43.0


From 05256cc0f3c06fe8c82d2500b74d2feb4e039325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 25/89] fix: LocalRealTimeCounter can be used by concurrent
 operators and requests

---
 serving/reagent/serving/core/LocalRealTimeCounter.cpp | 5 +++++
 serving/reagent/serving/core/LocalRealTimeCounter.h   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/serving/reagent/serving/core/LocalRealTimeCounter.cpp b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
index 8e28826..8407f5a 100644
--- a/serving/reagent/serving/core/LocalRealTimeCounter.cpp
+++ b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
@@ -3,6 +3,7 @@
 namespace reagent {
 
 int64_t LocalRealTimeCounter::getNumSamples(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto it = counts_.find(key);
   if (it == counts_.end()) {
     return 0;
@@ -11,6 +12,7 @@ int64_t LocalRealTimeCounter::getNumSamples(const std::string& key) {
 }
 
 double LocalRealTimeCounter::getMean(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto it = counts_.find(key);
   if (it == counts_.end()) {
     return 0;
@@ -24,6 +26,7 @@ double LocalRealTimeCounter::getMean(const std::string& key) {
 }
 
 double LocalRealTimeCounter::getVariance(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto it = counts_.find(key);
   if (it == counts_.end()) {
     return 0;
@@ -38,6 +41,7 @@ double LocalRealTimeCounter::getVariance(const std::string& key) {
 }
 
 void LocalRealTimeCounter::addValue(const std::string& key, double value) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto it = counts_.find(key);
   if (it == counts_.end()) {
     counts_[key] = std::deque<double>();
@@ -50,6 +54,7 @@ void LocalRealTimeCounter::addValue(const std::string& key, double value) {
 }
 
 void LocalRealTimeCounter::clear(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto it = counts_.find(key);
   if (it != counts_.end()) {
     it->second.clear();
diff --git a/serving/reagent/serving/core/LocalRealTimeCounter.h b/serving/reagent/serving/core/LocalRealTimeCounter.h
index e04804b..1bd6cb4 100644
--- a/serving/reagent/serving/core/LocalRealTimeCounter.h
+++ b/serving/reagent/serving/core/LocalRealTimeCounter.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <mutex>
+
 #include "reagent/serving/core/RealTimeCounter.h"
 
 namespace reagent {
@@ -23,6 +25,7 @@ class LocalRealTimeCounter : public RealTimeCounter {
   virtual void clear(const std::string& key) override;
 
  protected:
+  std::recursive_mutex mutex_; // Guards counts_
   std::unordered_map<std::string, std::deque<double>> counts_;
   int windowSize_;
 };
-- 
2.43.0


From 12bfe60d7390622fd0597cb10d9c1c72469b175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 26/89] fix: SharedParameterHandler can be used by concurrent
 operators

---
 serving/reagent/serving/core/SharedParameterHandler.cpp | 2 ++
 serving/reagent/serving/core/SharedParameterHandler.h   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/serving/reagent/serving/core/SharedParameterHandler.cpp b/serving/reagent/serving/core/SharedParameterHandler.cpp
index 411b19d..e41a82a 100644
--- a/serving/reagent/serving/core/SharedParameterHandler.cpp
+++ b/serving/reagent/serving/core/SharedParameterHandler.cpp
@@ -4,6 +4,7 @@ namespace reagent {
 SharedParameterHandler::SharedParameterHandler() {}
 
 StringDoubleMap SharedParameterHandler::getValues(const std::string& name) {
+  std::lock_guard<std::mutex> lock(mutex_);
   if (parameters_.find(name) == parameters_.end()) {
     // Add the parameter
     parameters_[name] = std::make_shared<SharedParameterInfo>(name);
@@ -20,6 +21,7 @@ bool SharedParameterHandler::acquireLockToModifyParameter(const std::string&) {
 void SharedParameterHandler::updateParameter(
     const std::string& name,
     const StringDoubleMap& values) {
+  std::lock_guard<std::mutex> lock(mutex_);
   auto it = parameters_.find(name);
   if (it == parameters_.end()) {
     LOG_AND_THROW("Tried to update a parameter that doesn't exist: " << name);
diff --git a/serving/reagent/serving/core/SharedParameterHandler.h b/serving/reagent/serving/core/SharedParameterHandler.h
index 52f7295..2400bb6 100644
--- a/serving/reagent/serving/core/SharedParameterHandler.h
+++ b/serving/reagent/serving/core/SharedParameterHandler.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <mutex>
+
 #include "reagent/serving/core/Headers.h"
 
 namespace reagent {
@@ -43,6 +45,7 @@ class SharedParameterHandler {
       const StringDoubleMap& values);
 
  protected:
+  std::mutex mutex_; // Guards parameters_
   std::unordered_map<std::string, std::shared_ptr<SharedParameterInfo>>
       parameters_;
 
-- 
2.43.0


From 70efc8cff42bfa68ca0309daa8837f39104eaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 27/89] fix: SoftmaxRanker can rank for concurrent requests

---
 serving/reagent/serving/operators/SoftmaxRanker.cpp | 6 +++++-
 serving/reagent/serving/operators/SoftmaxRanker.h   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/operators/SoftmaxRanker.cpp b/serving/reagent/serving/operators/SoftmaxRanker.cpp
index 2becc73..5ec4699 100644
--- a/serving/reagent/serving/operators/SoftmaxRanker.cpp
+++ b/serving/reagent/serving/operators/SoftmaxRanker.cpp
@@ -48,7 +48,11 @@ RankedActionList SoftmaxRanker::run(const StringDoubleMap& input,
     // Sample from weighted distribution
     std::discrete_distribution<int> dist(std::begin(tmpValues),
                                          std::end(tmpValues));
-    int sample = dist(generator_);
+    int sample;
+    {
+      std::lock_guard<std::mutex> lock(generatorMutex_);
+      sample = dist(generator_);
+    }
     rollingPropensity *= tmpValues[sample];
 
     // Select and remove sampled item from list to rank
diff --git a/serving/reagent/serving/operators/SoftmaxRanker.h b/serving/reagent/serving/operators/SoftmaxRanker.h
index 726bc8b..85a7bca 100644
--- a/serving/reagent/serving/operators/SoftmaxRanker.h
+++ b/serving/reagent/serving/operators/SoftmaxRanker.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <mutex>
+
 #include "reagent/serving/core/Headers.h"
 #include "reagent/serving/core/Operator.h"
 
@@ -18,6 +20,7 @@ class SoftmaxRanker : public Operator {
   virtual RankedActionList run(const StringDoubleMap& input, double temperature);
 
  protected:
+  std::mutex generatorMutex_; // Guards generator_
   std::mt19937 generator_;
 };
 }  // namespace reagent
-- 
2.43.0


From c140cb0c6e00e88ba5a4dc782a4c649e516b6a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 28/89] fix: Ucb can pull arms for concurrent requests and
 complete a batch only once

---
 serving/reagent/serving/operators/Ucb.cpp | 8 ++++++--
 serving/reagent/serving/operators/Ucb.h   | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/operators/Ucb.cpp b/serving/reagent/serving/operators/Ucb.cpp
index ebbac84..7e88cd7 100644
--- a/serving/reagent/serving/operators/Ucb.cpp
+++ b/serving/reagent/serving/operators/Ucb.cpp
@@ -80,7 +80,11 @@ RankedActionList Ucb::runInternal(const DecisionRequest& request,
   } else {
     std::uniform_int_distribution<int> distribution(
         0, armsWithoutPulls.size() - 1);
-    int armToPullIndex = distribution(generator_);
+    int armToPullIndex;
+    {
+      std::lock_guard<std::mutex> lock(mutex_);
+      armToPullIndex = distribution(generator_);
+    }
     // Pick an empty arm at random
     armToPull = armsWithoutPulls[armToPullIndex];
     propensity = 1.0 / armsWithoutPulls.size();
@@ -98,8 +102,8 @@ void Ucb::giveFeedback(const Feedback& feedback,
   auto armName = std::get<RankedActionList>(pastOutput).at(0).name;
   const auto armKey = getArmKey(planName_, name_, armName);
   const auto batchKey = getBatchKey(planName_, name_, armName);
+  std::lock_guard<std::mutex> lock(mutex_);
   realTimeCounter_->addValue(batchKey, *(feedback.computed_reward));
-  // Note: this is not at all thread safe, will improve later.
   if ((realTimeCounter_->getNumSamples(batchKey) % batchSize) == 0) {
     realTimeCounter_->addValue(armKey, realTimeCounter_->getMean(batchKey));
     realTimeCounter_->clear(batchKey);
diff --git a/serving/reagent/serving/operators/Ucb.h b/serving/reagent/serving/operators/Ucb.h
index cff8c43..4054440 100644
--- a/serving/reagent/serving/operators/Ucb.h
+++ b/serving/reagent/serving/operators/Ucb.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <mutex>
+
 #include "reagent/serving/core/Headers.h"
 
 #include "reagent/serving/core/Operator.h"
@@ -30,6 +32,7 @@ class Ucb : public Operator {
   double getArmExpectation(const std::string& armName);
 
  protected:
+  std::mutex mutex_; // Guards generator_ and the batches in the counters
   std::mt19937 generator_;
 };
 }  // namespace reagent
-- 
2.43.0


From 4d5f2683ac2e8c0fa78af05ced52c163a1f77a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 29/89] fix: the maximum of negative rewards is not zero

---
 serving/reagent/serving/core/DecisionService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/core/DecisionService.cpp b/serving/reagent/serving/core/DecisionService.cpp
index 8869204..4d60ca2 100644
--- a/serving/reagent/serving/core/DecisionService.cpp
+++ b/serving/reagent/serving/core/DecisionService.cpp
@@ -73,7 +73,10 @@ void DecisionService::computeRewardAndLogFeedback(Feedback feedback) {
     it.computed_reward = reward;
     switch (plan->getConfig().reward_aggregator) {
       case DRA_MAX:
-        aggregateReward = std::max(aggregateReward, reward);
+        // All rewards may be negative
+        aggregateReward = &it == &feedback.actions.front()
+            ? reward
+            : std::max(aggregateReward, reward);
         break;
       case DRA_SUM:
         aggregateReward = aggregateReward + reward;
-- 
2.43.0


From f883a14cd9dedb0d0f6628ab3d506be27f1a7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:30 +0000
Subject: [PATCH 30/89] fix: expressions that cannot be evaluated are reported
 instead of evaluating to NaN

---
 serving/reagent/serving/core/DecisionPlan.cpp    | 6 +++++-
 serving/reagent/serving/operators/Expression.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/core/DecisionPlan.cpp b/serving/reagent/serving/core/DecisionPlan.cpp
index 427d4be..eee6026 100644
--- a/serving/reagent/serving/core/DecisionPlan.cpp
+++ b/serving/reagent/serving/core/DecisionPlan.cpp
@@ -19,7 +19,11 @@ double DecisionPlan::evaluateRewardFunction(const StringDoubleMap& metrics) {
   expression.register_symbol_table(symbolTable);
 
   exprtk::parser<double> parser;
-  parser.compile(config_.reward_function, expression);
+  if (!parser.compile(config_.reward_function, expression)) {
+    // The feedback may lack a metric
+    LOG_AND_THROW("Cannot evaluate reward function: "
+                  << config_.reward_function);
+  }
 
   double value = expression.value();
   return value;
diff --git a/serving/reagent/serving/operators/Expression.cpp b/serving/reagent/serving/operators/Expression.cpp
index a9d5302..b264ec7 100644
--- a/serving/reagent/serving/operators/Expression.cpp
+++ b/serving/reagent/serving/operators/Expression.cpp
@@ -46,7 +46,10 @@ double Expression::runInternal(
   expression.register_symbol_table(symbolTable);
 
   exprtk::parser<double> parser;
-  parser.compile(equation, expression);
+  if (!parser.compile(equation, expression)) {
+    // An input may lack a value
+    LOG_AND_THROW("Cannot evaluate equation: " << equation);
+  }
 
   double value = expression.value();
   return value;
-- 
2.43.0


From e87be95164c9abadb0ee68f1448529ca3c99f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 31/89] fix: a cleared counter has the mean and the variance of
 one without samples

The mean of no values was computed as 0 / 0.
---
 serving/reagent/serving/core/LocalRealTimeCounter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/core/LocalRealTimeCounter.cpp b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
index 8407f5a..059f228 100644
--- a/serving/reagent/serving/core/LocalRealTimeCounter.cpp
+++ b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
@@ -14,7 +14,7 @@ int64_t LocalRealTimeCounter::getNumSamples(const std::string& key) {
 double LocalRealTimeCounter::getMean(const std::string& key) {
   std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto it = counts_.find(key);
-  if (it == counts_.end()) {
+  if (it == counts_.end() || it->second.empty()) {
     return 0;
   }
   auto& v = it->second;
@@ -28,7 +28,7 @@ double LocalRealTimeCounter::getMean(const std::string& key) {
 double LocalRealTimeCounter::getVariance(const std::string& key) {
   std::lock_guard<std::recursive_mutex> lock(mutex_);
   auto it = counts_.find(key);
-  if (it == counts_.end()) {
+  if (it == counts_.end() || it->second.empty()) {
     return 0;
   }
   auto& v = it->second;
-- 
2.43.0


From c7847b8a12afdc6c24c62fe4caca230e4b15bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 32/89] fix: PropensityFit keeps the shifts of actions that are
 not in the current targets

Feedback with other targets replaced the shared parameter by the shifts of
its own targets, so that everything learned for other actions was lost.
---
 serving/reagent/serving/operators/PropensityFit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/operators/PropensityFit.cpp b/serving/reagent/serving/operators/PropensityFit.cpp
index 66fcde2..89fcad8 100644
--- a/serving/reagent/serving/operators/PropensityFit.cpp
+++ b/serving/reagent/serving/operators/PropensityFit.cpp
@@ -81,7 +81,8 @@ void PropensityFit::giveFeedbackInternal(
       }
     }
 
-    StringDoubleMap newShifts;
+    // Other requests may have other targets: keep the shifts of all actions
+    StringDoubleMap newShifts = shifts;
     for (const auto& it : targets) {
       std::string counterKey = createCounterKey(planName_, name_, it.first);
       int64_t numSamples = realTimeCounter_->getNumSamples(counterKey);
-- 
2.43.0


From c81a2013d3628a07c430fb4ecea5cbc53b39ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 33/89] fix: concurrent feedback does not lose shifts of
 PropensityFit

The shifts were read, changed and written back without a lock, so that one of
two concurrent feedbacks had no effect.
---
 serving/reagent/serving/operators/PropensityFit.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serving/reagent/serving/operators/PropensityFit.cpp b/serving/reagent/serving/operators/PropensityFit.cpp
index 89fcad8..24f514d 100644
--- a/serving/reagent/serving/operators/PropensityFit.cpp
+++ b/serving/reagent/serving/operators/PropensityFit.cpp
@@ -14,6 +14,13 @@ std::string createCounterKey(
   return configPath + "/" + operatorName + "/" + action;
 }
 
+// Guards the read-modify-write of the shifts.  Operators of one name share
+// their shifts, also across plan updates.
+std::mutex& getShiftsMutex() {
+  static std::mutex shiftsMutex;
+  return shiftsMutex;
+}
+
 } // namespace
 
 namespace reagent {
@@ -69,6 +76,7 @@ void PropensityFit::giveFeedbackInternal(
     realTimeCounter_->addValue(counterKey, actionFeedback.second);
   }
 
+  std::lock_guard<std::mutex> lock(getShiftsMutex());
   // TODO: Implement pid controller to replace this fixed shift
   auto parameterName = getParameterName(planName_);
   if (sharedParameterHandler_->acquireLockToModifyParameter(parameterName)) {
-- 
2.43.0


From 8daddc7b9340f64e4fdc51230afa306fe8a3b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 34/89] fix: EpsilonGreedyRanker reports the probability of its
 choices

An action picked by exploring was reported with the probability of exploring
at all, not of picking this one of n actions, and the greedy action as if
exploring never picked it.
---
 .../serving/operators/EpsilonGreedyRanker.cpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp b/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
index d747445..5a76aff 100644
--- a/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
+++ b/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
@@ -28,16 +28,20 @@ RankedActionList EpsilonGreedyRanker::runInternal(
 
   while (names.size() > 0) {
     double r = (double(std::rand()) / RAND_MAX);
-    int idx;
+    const int greedyIdx = std::distance(
+        tmpValues.begin(), max_element(tmpValues.begin(), tmpValues.end()));
+    int idx = greedyIdx;
 
     if (r < epsilon) {
       idx = std::rand() % names.size();
-      rollingPropensity *= epsilon;
-    } else {
-      idx = std::distance(
-          tmpValues.begin(), max_element(tmpValues.begin(), tmpValues.end()));
-      rollingPropensity *= (1.0 - epsilon);
     }
+    // Exploring picks every remaining action, also the greedy one, with equal
+    // probability
+    double propensity = epsilon / names.size();
+    if (idx == greedyIdx) {
+      propensity += 1.0 - epsilon;
+    }
+    rollingPropensity *= propensity;
 
     rankedList.push_back({names[idx], rollingPropensity});
     names.erase(names.begin() + idx);
-- 
2.43.0


From a4757332fc8ace5b7f025609c40fac33964a01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 35/89] fix: requests without actions and meaningless
 parameters are refused

Ucb and Softmax took the maximum of an empty array for a request without
actions, and Ucb divided by a batch size of zero, which ends the process.
A temperature of zero gave propensities of NaN.
---
 serving/reagent/serving/operators/Softmax.cpp       | 6 ++++++
 serving/reagent/serving/operators/SoftmaxRanker.cpp | 3 +++
 serving/reagent/serving/operators/Ucb.cpp           | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/serving/reagent/serving/operators/Softmax.cpp b/serving/reagent/serving/operators/Softmax.cpp
index b0e91f1..77c8684 100644
--- a/serving/reagent/serving/operators/Softmax.cpp
+++ b/serving/reagent/serving/operators/Softmax.cpp
@@ -13,6 +13,12 @@ OperatorData Softmax::run(const DecisionRequest&,
 }
 
 StringDoubleMap Softmax::run(const StringDoubleMap& input, double temperature) {
+  if (!(temperature > 0)) {
+    LOG_AND_THROW("Temperature must be > 0: " << temperature);
+  }
+  if (input.empty()) {
+    return StringDoubleMap();
+  }
   Eigen::ArrayXd v(input.size());
   StringList names;
   for (auto& it : input) {
diff --git a/serving/reagent/serving/operators/SoftmaxRanker.cpp b/serving/reagent/serving/operators/SoftmaxRanker.cpp
index 5ec4699..df55643 100644
--- a/serving/reagent/serving/operators/SoftmaxRanker.cpp
+++ b/serving/reagent/serving/operators/SoftmaxRanker.cpp
@@ -22,6 +22,9 @@ OperatorData SoftmaxRanker::run(const DecisionRequest&,
 
 RankedActionList SoftmaxRanker::run(const StringDoubleMap& input,
                                     double temperature) {
+  if (!(temperature > 0)) {
+    LOG_AND_THROW("Temperature must be > 0: " << temperature);
+  }
   std::vector<double> values;
   StringList names;
   for (auto& it : input) {
diff --git a/serving/reagent/serving/operators/Ucb.cpp b/serving/reagent/serving/operators/Ucb.cpp
index 7e88cd7..5a052b9 100644
--- a/serving/reagent/serving/operators/Ucb.cpp
+++ b/serving/reagent/serving/operators/Ucb.cpp
@@ -36,6 +36,9 @@ OperatorData Ucb::run(const DecisionRequest& request,
 RankedActionList Ucb::runInternal(const DecisionRequest& request,
                                   const std::string& method) {
   auto arms = Operator::getActionNamesFromRequest(request);
+  if (arms.empty()) {
+    LOG_AND_THROW("There are no arms to choose from");
+  }
 
   int64_t totalPulls = 0;
   Eigen::ArrayXd armPulls(arms.size());
@@ -98,6 +101,9 @@ void Ucb::giveFeedback(const Feedback& feedback,
   int batchSize = 1;
   if (pastInputs.count("batch_size")) {
     batchSize = int(std::get<int64_t>(pastInputs.at("batch_size")));
+    if (batchSize < 1) {
+      LOG_AND_THROW("Batch size must be >= 1: " << batchSize);
+    }
   }
   auto armName = std::get<RankedActionList>(pastOutput).at(0).name;
   const auto armKey = getArmKey(planName_, name_, armName);
-- 
2.43.0


From 1a661244b9c14c5d935709a2bb800857b7538fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:15 +0000
Subject: [PATCH 36/89] fix: one unreadable config file does not keep the
 service from starting

The directories that recursive_directory_iterator visits, dangling links and
files that vanish were read like plans: the size of such a file is -1 or
arbitrary, and the exception this raises was not caught.
---
 .../reagent/serving/core/DiskConfigProvider.cpp    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/core/DiskConfigProvider.cpp b/serving/reagent/serving/core/DiskConfigProvider.cpp
index 0f9a161..1ed6fc7 100644
--- a/serving/reagent/serving/core/DiskConfigProvider.cpp
+++ b/serving/reagent/serving/core/DiskConfigProvider.cpp
@@ -9,7 +9,10 @@ void DiskConfigProvider::initialize(DecisionService* decisionService) {
   LOG(INFO) << "READING CONFIGS FROM " << configDir_;
   for (auto& file :
        boost::filesystem::recursive_directory_iterator(configDir_)) {
-    readConfig(file.path().string());
+    boost::system::error_code ec;
+    if (boost::filesystem::is_regular_file(file.status(ec))) {
+      readConfig(file.path().string());
+    }
   }
 }
 
@@ -17,11 +20,17 @@ inline std::string ReadFile(const std::string& fileName) {
   std::ifstream ifs(fileName.c_str(),
                     std::ios::in | std::ios::binary | std::ios::ate);
 
+  if (!ifs) {
+    LOG_AND_THROW("Could not open " << fileName);
+  }
   std::ifstream::pos_type fileSize = ifs.tellg();
   ifs.seekg(0, std::ios::beg);
 
   std::vector<char> bytes(fileSize);
   ifs.read(bytes.data(), fileSize);
+  if (!ifs) {
+    LOG_AND_THROW("Could not read " << fileName);
+  }
 
   return std::string(bytes.data(), fileSize);
 }
@@ -32,9 +41,10 @@ void DiskConfigProvider::readConfig(const std::string& path) {
           .string();
   DecisionConfig decisionConfig;
 
-  std::string contents = ReadFile(path);
+  std::string contents;
 
   try {
+    contents = ReadFile(path);
     decisionConfig = nlohmann::json::parse(contents).get<DecisionConfig>();
   } catch (const std::exception& e) {
     // Parsing of JSON failed. Super sad panda :(
-- 
2.43.0


From 36e767c19ecae42264c2595dddc3144cda8aa69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:38 +0000
Subject: [PATCH 37/89] fix: Ucb completes a batch once while its plan is
 replaced

The old and the new operator of a replaced plan share the counters but not the
lock.
---
 serving/reagent/serving/operators/Ucb.cpp | 4 +++-
 serving/reagent/serving/operators/Ucb.h   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/operators/Ucb.cpp b/serving/reagent/serving/operators/Ucb.cpp
index 5a052b9..57adbc0 100644
--- a/serving/reagent/serving/operators/Ucb.cpp
+++ b/serving/reagent/serving/operators/Ucb.cpp
@@ -108,7 +108,9 @@ void Ucb::giveFeedback(const Feedback& feedback,
   auto armName = std::get<RankedActionList>(pastOutput).at(0).name;
   const auto armKey = getArmKey(planName_, name_, armName);
   const auto batchKey = getBatchKey(planName_, name_, armName);
-  std::lock_guard<std::mutex> lock(mutex_);
+  // Operators of one name share their batches, also across plan updates
+  static std::mutex batchMutex;
+  std::lock_guard<std::mutex> lock(batchMutex);
   realTimeCounter_->addValue(batchKey, *(feedback.computed_reward));
   if ((realTimeCounter_->getNumSamples(batchKey) % batchSize) == 0) {
     realTimeCounter_->addValue(armKey, realTimeCounter_->getMean(batchKey));
diff --git a/serving/reagent/serving/operators/Ucb.h b/serving/reagent/serving/operators/Ucb.h
index 4054440..b4cb0d8 100644
--- a/serving/reagent/serving/operators/Ucb.h
+++ b/serving/reagent/serving/operators/Ucb.h
@@ -32,7 +32,7 @@ class Ucb : public Operator {
   double getArmExpectation(const std::string& armName);
 
  protected:
-  std::mutex mutex_; // Guards generator_ and the batches in the counters
+  std::mutex mutex_; // Guards generator_
   std::mt19937 generator_;
 };
 }  // namespace reagent
-- 
2.43.0


From 397284f8a2a6fb507a1109d09b21617d302261aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 38/89] fix: a linked config file makes a plan of its own name

relative() resolves links, so that the plan was registered under the path of
the file the link points to.
---
 serving/reagent/serving/core/DiskConfigProvider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/core/DiskConfigProvider.cpp b/serving/reagent/serving/core/DiskConfigProvider.cpp
index 1ed6fc7..c38cb00 100644
--- a/serving/reagent/serving/core/DiskConfigProvider.cpp
+++ b/serving/reagent/serving/core/DiskConfigProvider.cpp
@@ -37,7 +37,8 @@ inline std::string ReadFile(const std::string& fileName) {
 
 void DiskConfigProvider::readConfig(const std::string& path) {
   auto planName =
-      boost::filesystem::relative(boost::filesystem::path(path), configDir_)
+      // does not follow links: the plan is named after the file in configDir_
+      boost::filesystem::path(path).lexically_relative(configDir_)
           .string();
   DecisionConfig decisionConfig;
 
-- 
2.43.0


From ea9bae3dfeb5a2c4b0aab03fe25e178baac61e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 39/89] fix: publishing survives a crash and other publishers
 of the same file

---
 reagent/publishers/file_system_publisher.py | 51 +++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index 01c5774..6712f78 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -1,5 +1,8 @@
 #!/usr/bin/env python3
 
+import fcntl
+import functools
+import json
 import logging
 import os
 from typing import Dict, Optional
@@ -18,7 +21,7 @@ from reagent.workflow.types import (
 try:
     # pyre-fixme[21]: Could not find `tinydb`.
     # pyre-fixme[21]: Could not find `tinydb`.
-    from tinydb import Query, TinyDB
+    from tinydb import Query, Storage, TinyDB
 
     HAS_TINYDB = True
 
@@ -36,6 +39,41 @@ VALUE_FIELD = "torchscript_path"
 
 if HAS_TINYDB:
 
+    class _AtomicJSONStorage(Storage):
+        """
+        Replaces the file in one step, so that a process dying while it publishes
+        doesn't take the published models with it. The file isn't kept open.
+        """
+
+        def __init__(self, path: str):
+            super().__init__()
+            self._path = path
+
+        def read(self):
+            if not os.path.exists(self._path) or os.path.getsize(self._path) == 0:
+                return None
+            with open(self._path) as f:
+                return json.load(f)
+
+        def write(self, data):
+            tmp_path = f"{self._path}.tmp"
+            with open(tmp_path, "w") as f:
+                json.dump(data, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_path, self._path)
+
+    def _exclusive(func):
+        """ Other processes may publish to the same file """
+
+        @functools.wraps(func)
+        def wrapper(self, *args, **kwargs):
+            with open(f"{self.publishing_file}.lock", "a") as lock:
+                fcntl.flock(lock, fcntl.LOCK_EX)
+                return func(self, *args, **kwargs)
+
+        return wrapper
+
     @dataclass
     class FileSystemPublisher(ModelPublisher):
         """Uses a file to serve as a key-value store.
@@ -49,9 +87,13 @@ if HAS_TINYDB:
 
         def __post_init_post_parse__(self):
             self.publishing_file = os.path.abspath(self.publishing_file)
-            self.db: TinyDB = TinyDB(self.publishing_file)
             logger.info(f"Using TinyDB at {self.publishing_file}.")
 
+        @property
+        def db(self) -> TinyDB:
+            # TinyDB caches; what other processes have published must be seen
+            return TinyDB(self.publishing_file, storage=_AtomicJSONStorage)
+
         def get_latest_published_model(
             self, model_manager: ModelManager, module_name: str
         ) -> str:
@@ -71,6 +113,7 @@ if HAS_TINYDB:
                     )
             return results[0][VALUE_FIELD]
 
+        @_exclusive
         def do_publish(
             self,
             model_manager: ModelManager,
@@ -79,8 +122,10 @@ if HAS_TINYDB:
             child_workflow_id: int,
             recurring_period: Optional[RecurringPeriod],
         ) -> NoPublishingResults:
-            for module_name, path in training_output.output_paths.items():
+            for path in training_output.output_paths.values():
+                # before anything is published
                 assert os.path.exists(path), f"Given path {path} doesn't exist."
+            for module_name, path in training_output.output_paths.items():
                 Model = Query()
                 # find if there's already been something stored
                 key = f"{module_name}_{str(model_manager)}"
-- 
2.43.0


From eaed6a228c38ce5245293ef32eb5077ce787f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 40/89] fix: save each serving module, and not over the model
 of another training

---
 .../workflow/model_managers/model_manager.py  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 39d024a..f74c2ba 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -2,6 +2,7 @@
 
 import abc
 import dataclasses
+import itertools
 import logging
 import os
 import tempfile
@@ -31,6 +32,20 @@ from torch.utils.tensorboard import SummaryWriter
 logger = logging.getLogger(__name__)
 
 
+def _new_output_path(stem: str) -> str:
+    """
+    Reserve a file; models of other trainings (which may end in the same second) are
+    not overwritten
+    """
+    for i in itertools.count():
+        path = f"{stem}_{i}.torchscript" if i else f"{stem}.torchscript"
+        try:
+            with open(path, "x"):
+                return path
+        except FileExistsError:
+            continue
+
+
 class ModelManager(metaclass=RegistryMeta):
     """
     ModelManager manages how to train models.
@@ -273,8 +288,9 @@ class ModelManager(metaclass=RegistryMeta):
         output_paths = {}
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
-            torchscript_output_path = f"model_{round(time.time())}.torchscript"
-            serving_module = self.build_serving_module()
+            torchscript_output_path = _new_output_path(
+                f"model_{module_name}_{round(time.time())}"
+            )
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From ed2b407147437c600646db4478ab14495d313908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 41/89] fix: a model that validation rejects is not published

---
 reagent/workflow/training.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/reagent/workflow/training.py b/reagent/workflow/training.py
index 8103c65..d7cecc3 100644
--- a/reagent/workflow/training.py
+++ b/reagent/workflow/training.py
@@ -207,7 +207,7 @@ def query_and_train(
     if validator is not None:
         results = run_validator(validator, results)
 
-    if publisher is not None:
+    if publisher is not None and _should_publish(results):
         results = run_publisher(
             publisher,
             model,
@@ -225,12 +225,20 @@ def run_validator(
 ) -> RLTrainingOutput:
     assert (
         training_output.validation_result is None
-    ), f"validation_output was set to f{training_output.validation_output}"
+    ), f"validation_result was set to {training_output.validation_result}"
     model_validator = validator.value
     validation_result = model_validator.validate(training_output)
     return dataclasses.replace(training_output, validation_result=validation_result)
 
 
+def _should_publish(training_output: RLTrainingOutput) -> bool:
+    validation_result = training_output.validation_result
+    if validation_result is None or validation_result.value.should_publish:
+        return True
+    logger.info(f"Not publishing; validation result: {validation_result}")
+    return False
+
+
 def run_publisher(
     publisher: ModelPublisher__Union,
     model_chooser: ModelManager__Union,
@@ -241,7 +249,7 @@ def run_publisher(
 ) -> RLTrainingOutput:
     assert (
         training_output.publishing_result is None
-    ), f"publishing_output was set to f{training_output.publishing_output}"
+    ), f"publishing_result was set to {training_output.publishing_result}"
     model_publisher = publisher.value
     model_manager = model_chooser.value
     publishing_result = model_publisher.publish(
-- 
2.43.0


From 9f71ebea9c58d04e3010d3f078ef3a540d6bb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 42/89] fix: reader options of the workflow and of the model
 manager are used

---
 reagent/workflow/model_managers/actor_critic_base.py | 2 +-
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/actor_critic_base.py b/reagent/workflow/model_managers/actor_critic_base.py
index f93c25a..d6c2a83 100644
--- a/reagent/workflow/model_managers/actor_critic_base.py
+++ b/reagent/workflow/model_managers/actor_critic_base.py
@@ -257,7 +257,7 @@ class ActorCriticBase(ModelManager):
             num_epochs=num_epochs,
             use_gpu=self.use_gpu,
             batch_preprocessor=batch_preprocessor,
-            reader_options=self.reader_options,
+            reader_options=self.reader_options or reader_options,
             checkpoint_path=self._lightning_checkpoint_path,
             resource_options=resource_options or ResourceOptions(),
         )
diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 1413f03..f4c44fe 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -131,7 +131,7 @@ class DiscreteDQNBase(ModelManager):
             reward_options=reward_options,
             setup_data=setup_data,
             saved_setup_data=saved_setup_data,
-            reader_options=reader_options,
+            reader_options=self.reader_options or reader_options,
             model_manager=self,
         )
 
-- 
2.43.0


From 667cffdd5d13f4c98dcc2fad5b697469228bbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 43/89] fix: the greedy sampler reports the log-probability of
 its choice

Its action is certain, so its log-probability is 0 (not 1), and log_prob()
is 0 for the greedy action and -inf for every other one (not the reverse).
---
 reagent/gym/policies/samplers/discrete_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..595beda 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
@@ -95,8 +95,8 @@ class GreedyActionSampler(Sampler):
         greedy_indices = self._get_greedy_indices(scores)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
-        lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp = torch.full((scores.shape[0],), -float("inf"), device=scores.device)
+        lp[match] = 0.0
         return lp
 
 
-- 
2.43.0


From 968aa7d2f7256c6bdaae1114951efb83972038d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 44/89] fix: the epsilon-greedy sampler samples from its
 distribution

sample_action() raised on every call, and log_prob() called it; it mixed up
batch size and number of actions and returned probabilities. Actions masked
with a score of -inf are not explored.
---
 .../gym/policies/samplers/discrete_sampler.py | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index 595beda..ff4839c 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -121,37 +121,42 @@ class EpsilonGreedyActionSampler(Sampler):
         assert minimum_epsilon <= epsilon_decay
         self.minimum_epsilon = minimum_epsilon
 
-    def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
+    def _get_distribution(
+        self, scores: torch.Tensor
+    ) -> torch.distributions.Categorical:
         assert scores.dim() == 2, (
             "scores dim is %d" % scores.dim()
         )  # batch_size x num_actions
-        batch_size, num_actions = scores.shape
-
+        num_actions = scores.shape[1]
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
-
-        rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
-
-        greedy_prob = 1 - self.epsilon + rand_prob
-        p[argmax] = greedy_prob
+        argmax = F.one_hot(scores.argmax(dim=1), num_actions).to(scores.dtype)
+        # impossible actions have score -inf; they are not explored either
+        possible = (scores != -float("inf")).to(scores.dtype)
+        rand_prob = possible / possible.sum(dim=1, keepdim=True)
+        return torch.distributions.Categorical(
+            probs=self.epsilon * rand_prob + (1 - self.epsilon) * argmax
+        )
 
-        m = torch.distributions.Categorical(probs=p)
+    # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
+    #  its type `no_grad` is not callable.
+    @torch.no_grad()
+    def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
+        m = self._get_distribution(scores)
+        batch_size, num_actions = scores.shape
         raw_action = m.sample()
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
-        log_prob = m.log_prob(raw_action)
+        log_prob = self.log_prob(scores, action)
         assert log_prob.shape == (batch_size,)
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
+    # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
+    #  its type `no_grad` is not callable.
+    @torch.no_grad()
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
+        probs = self._get_distribution(scores).probs
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        return probs.gather(1, action.argmax(dim=1, keepdim=True)).squeeze(1).log()
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From 9597f5b459eb9a463c77967ea033154774f05cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 45/89] fix: the Gaussian sampler uses the functions its actor
 network has

and its log_prob() passes the action on.
---
 reagent/gym/policies/samplers/continuous_sampler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..627bafd 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -13,9 +13,9 @@ class GaussianSampler(Sampler):
     def _sample_action(self, loc: torch.Tensor, scale_log: torch.Tensor):
         r = torch.randn_like(scale_log, device=scale_log.device)
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
-        action = torch.tanh(loc + r * scale_log.exp())
+        action = self.actor_network._squash_raw_action(loc + r * scale_log.exp())
         # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
+        log_prob = self.actor_network._normal_log_prob(r, scale_log)
         squash_correction = self.actor_network._squash_correction(action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
         return action, log_prob
@@ -36,7 +36,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +49,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From 5bbb2ab6af9ffbde28e356f4c478a57d27967ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 46/89] fix: FrechetSort truncates rankings to topk, not
 batches

---
 reagent/samplers/frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..ecc8dd0 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
-- 
2.43.0


From bf330b80db67ce09d855a6502edcd474743ff8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 47/89] fix: discounted values of every logged metric, not only
 of the first

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..0531443 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From 56de072733753870f2a3a2831e364dedd920b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 48/89] fix: the reward is not one of the logged metrics that
 are scored

---
 reagent/training/dqn_trainer_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/dqn_trainer_base.py b/reagent/training/dqn_trainer_base.py
index 03a90c6..cf3dd2e 100644
--- a/reagent/training/dqn_trainer_base.py
+++ b/reagent/training/dqn_trainer_base.py
@@ -168,7 +168,8 @@ class DQNTrainerBaseLightning(DQNTrainerMixin, RLTrainerMixin, ReAgentLightningM
             self._actions,
             self.rl_parameters.gamma,
             self.trainer,
-            metrics_to_score=self.metrics_to_score,
+            # the reward is always scored and is none of the logged metrics
+            metrics_to_score=self.metrics_to_score[:-1],
         )
 
     def _calculate_cpes(
-- 
2.43.0


From f736f885deb75aa0a2c533efcd4bb513e127d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 49/89] fix: doubly robust estimates of a metric use the
 predictions of that metric

---
 reagent/evaluation/evaluation_data_page.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0531443..dccefac 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -598,12 +598,14 @@ class EvaluationDataPage(NamedTuple):
         assert self.model_metrics is not None, "metrics must not be none"
         assert self.model_metrics_values is not None, "metrics must not be none"
 
+        model_rewards = self.model_metrics[:, i * num_actions : (i + 1) * num_actions]
         return self._replace(
             logged_rewards=self.logged_metrics[:, i : i + 1],
             logged_values=self.logged_metrics_values[:, i : i + 1],
-            model_rewards=self.model_metrics[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
+            model_rewards=model_rewards,
+            model_rewards_for_logged_action=torch.sum(
+                model_rewards * self.action_mask, dim=1, keepdim=True
+            ),
             model_values=self.model_metrics_values[
                 :, i * num_actions : (i + 1) * num_actions
             ],
-- 
2.43.0


From d586744e2c759b4e5ff81be3284aeeec0114f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 50/89] fix: normalized rewards of a one-step trajectory are
 not NaN

---
 reagent/training/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/training/utils.py b/reagent/training/utils.py
index 62563c9..1a0f33d 100644
--- a/reagent/training/utils.py
+++ b/reagent/training/utils.py
@@ -32,6 +32,9 @@ def whiten(x: torch.Tensor, subtract_mean: bool) -> torch.Tensor:
     numer = x
     if subtract_mean:
         numer -= x.mean()
+    if x.numel() < 2:
+        # A single value has no spread to divide by
+        return numer
     return numer / (x.std() + EPS)
 
 
-- 
2.43.0


From 261aeb9d8503f908cf49c9daed98153b11424b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 51/89] fix: a trajectory that failed in REINFORCE does not
 train the value net

---
 reagent/training/reinforce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 3ba0ae2..00876b7 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -94,9 +94,7 @@ class Reinforce(Trainer):
             # subtract learned value function baselines from rewards
             baselines = self.value_net(training_batch.state).squeeze()
             # use reward-to-go as label for training the value function
-            self.value_net_losses.append(
-                self.value_loss_fn(baselines, offset_reinforcement)
-            )
+            value_net_loss = self.value_loss_fn(baselines, offset_reinforcement)
             # detach bcs we want REINFORCE to tweak policy, not baseline
             offset_reinforcement = offset_reinforcement - baselines.detach()
 
@@ -109,6 +107,8 @@ class Reinforce(Trainer):
                 )
             ).float()
         self.losses.append(-(offset_reinforcement.float()) @ characteristic_eligibility)
+        if self.value_net is not None:
+            self.value_net_losses.append(value_net_loss)
         self.step += 1
         if self.step % self.params.update_freq == 0:
             self.update_model()
-- 
2.43.0


From 03c03d6f96b9cb91f40d02c93c1fbd96642b6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 52/89] fix: REINFORCE's first update waits for update_freq
 trajectories

---
 reagent/training/reinforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 00876b7..9a50244 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -50,7 +50,7 @@ class Reinforce(Trainer):
         else:
             self.value_net = None
             self.value_net_optimizer = None
-        self.step = 1
+        self.step = 0
         self.losses = []
 
     def update_model(self):
-- 
2.43.0


From 46cde8d13cf678ab49dbd917147717e5ea156a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 53/89] fix: PPO goes on training after an update that failed

---
 reagent/training/ppo_trainer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 67a80cb..b81263b 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -88,6 +88,14 @@ class PPOTrainer(Trainer):
         If value network is being trained, also perform gradient descent steps for its loss.
         """
         assert len(self.traj_buffer) == self.update_freq
+        try:
+            self._run_update_epochs()
+        finally:
+            # empty the buffer, also when the update fails: the next trajectories
+            # start a new one
+            self.traj_buffer = []
+
+    def _run_update_epochs(self):
         for _ in range(self.update_epochs):
             # iterate through minibatches of PPO updates in random order
             random_order = torch.randperm(len(self.traj_buffer))
@@ -110,7 +118,6 @@ class PPOTrainer(Trainer):
                     value_net_loss = torch.stack(value_net_loss).mean()
                     value_net_loss.backward()
                     self.value_net_optimizer.step()
-        self.traj_buffer = []  # empty the buffer
 
     def train(self, training_batch: rlt.PolicyGradientInput) -> None:
         self.traj_buffer.append(training_batch)
-- 
2.43.0


From 9281536a4f3938e129dfe3789aff12c75c8a66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 54/89] fix: REINFORCE and PPO trainers save members they have

---
 reagent/training/ppo_trainer.py | 5 ++++-
 reagent/training/reinforce.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index b81263b..630a601 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -183,4 +183,7 @@ class PPOTrainer(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "policy"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 9a50244..8834c48 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -117,4 +117,7 @@ class Reinforce(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "actor"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
-- 
2.43.0


From 6b15eddf67449b19b6dd5b7055b4903325cbffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 55/89] fix: encoder scores keep their batch dimension

A batch of one slate, or slates of one item, lost a dimension and could not
be scored or trained on.
---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From 45c6d70f43782cbb1a3696dc53eacf0f5f890252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 56/89] fix: saved trainers include the step prediction and
 simulation baseline networks

They were trained but not saved, so a restart continued with new ones.
---
 reagent/training/ranking/seq2slate_sim_trainer.py  | 2 ++
 reagent/training/world_model/seq2reward_trainer.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/training/ranking/seq2slate_sim_trainer.py b/reagent/training/ranking/seq2slate_sim_trainer.py
index d9df4f1..5ee9425 100644
--- a/reagent/training/ranking/seq2slate_sim_trainer.py
+++ b/reagent/training/ranking/seq2slate_sim_trainer.py
@@ -121,6 +121,8 @@ class Seq2SlateSimulationTrainer(Trainer):
 
     def warm_start_components(self):
         components = ["seq2slate_net"]
+        if self.baseline_net:
+            components.append("baseline_net")
         return components
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
diff --git a/reagent/training/world_model/seq2reward_trainer.py b/reagent/training/world_model/seq2reward_trainer.py
index e22f6aa..7e26823 100644
--- a/reagent/training/world_model/seq2reward_trainer.py
+++ b/reagent/training/world_model/seq2reward_trainer.py
@@ -218,5 +218,5 @@ class Seq2RewardTrainer(Trainer):
         return mse, step_entropy_loss
 
     def warm_start_components(self):
-        components = ["seq2reward_network"]
+        components = ["seq2reward_network", "step_predict_network"]
         return components
-- 
2.43.0


From b25a9206ee291034bd0b2f3ae434ea835c58fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 57/89] fix: the imitator is updated every minibatches_per_step
 batches

Its batches were not counted, so it was updated for each of them, with
gradients divided by minibatches_per_step.
---
 reagent/training/imitator_training.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/training/imitator_training.py b/reagent/training/imitator_training.py
index 25aef36..c547327 100644
--- a/reagent/training/imitator_training.py
+++ b/reagent/training/imitator_training.py
@@ -49,6 +49,7 @@ class ImitatorTrainer(RLTrainer):
             actual_action_idxs = torch.max(learning_input.action, dim=1)[1]
 
             if train:
+                self.minibatch += 1
                 imitator_loss = torch.nn.CrossEntropyLoss()
                 bcq_loss = imitator_loss(action_preds, actual_action_idxs)
                 bcq_loss.backward()
-- 
2.43.0


From 33593c0a7f3fc8349656754f0768e2ca78289920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 58/89] fix: improbable sequences do not make the on-policy
 slate gradient NaN

The probability of a long slate underflows; the quotient 0 / 0 made every
parameter of the network NaN.
---
 reagent/training/ranking/seq2slate_dr_trainer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/training/ranking/seq2slate_dr_trainer.py b/reagent/training/ranking/seq2slate_dr_trainer.py
index d63d110..d62bec1 100644
--- a/reagent/training/ranking/seq2slate_dr_trainer.py
+++ b/reagent/training/ranking/seq2slate_dr_trainer.py
@@ -75,8 +75,9 @@ class Seq2SlateDifferentiableRewardTrainer(Trainer):
                 importance_sampling, self.parameters.ips_clamp
             )
         else:
-            importance_sampling = (
-                torch.exp(per_seq_log_probs) / torch.exp(per_seq_log_probs).detach()
+            # a quotient of probabilities would be 0 / 0 for improbable sequences
+            importance_sampling = torch.exp(
+                per_seq_log_probs - per_seq_log_probs.detach()
             )
         assert importance_sampling.requires_grad
 
-- 
2.43.0


From 866ef464f6dd17d3279f01cc503db3715b17dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 59/89] fix: parallel OPE workers unpack the task list they are
 given

A task file holds a list of (estimators, input) experiments, but
run_evaluation unpacked it as one (estimators, inputs) pair, so every
parallel evaluation failed or reported nothing.
---
 reagent/ope/estimators/estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..d5efbac 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -198,19 +198,18 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            estimator_results = results.setdefault(estimator_name, [])
             try:
                 estimator_results.append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From fd496ee6467a8f007d99d225dcc1f26c8e52a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 60/89] fix: an unreadable OPE task file is an error, not an
 empty result

run_evaluation returned None and Evaluator.evaluate skipped it, so all
experiments of that worker silently disappeared from the report.
---
 reagent/ope/estimators/estimator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index d5efbac..e667b23 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -200,7 +200,8 @@ def run_evaluation(
         with open(file_name, "rb") as fp:
             experiments = pickle.load(fp)
     except Exception as err:
-        return None
+        logger.error(f"cannot read the experiments in {file_name}: {err}")
+        raise
     results = {}
     for estimators, input in experiments:
         for estimator in estimators:
-- 
2.43.0


From 8aad3415f06bb69e4b4d5a7ba29fc08d723eac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 61/89] fix: weighted IPS divides the total weighted reward by
 the total weight

It divided the average by the total, so the estimate shrank with the
number of logged samples.
---
 reagent/ope/estimators/contextual_bandits_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..d6cc99a 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -351,7 +351,7 @@ class IPSEstimator(Estimator):
             log_reward=log_avg.average,
             estimated_reward=tgt_avg.average
             if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            else tgt_avg.total / acc_weight.total,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From 0a280925f34eb9963e1739d0b1cdfc99f0b986e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 62/89] fix: Switch-DR counts the model based value of every
 action once

Actions above the threshold were counted twice for samples whose logged
action is below it, and actions below it not at all for the others.
---
 reagent/ope/estimators/contextual_bandits_estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index d6cc99a..5cbdaeb 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -651,12 +651,12 @@ class SwitchDREstimator(SwitchEstimator):
         tgt_props: torch.Tensor,
     ) -> torch.Tensor:
         ips_scores = (weights * actions).sum(dim=1, keepdim=True)
-        dr = ips_scores * (logged_rewards - est_rewards_for_logged_action) + (
+        # The model based part covers every action; only the importance weighted
+        # correction is switched off where the weight exceeds the threshold
+        correction = ips_scores * (logged_rewards - est_rewards_for_logged_action)
+        return correction * (ips_scores <= threshold).float() + (
             tgt_props * est_rewards
         ).sum(dim=1, keepdim=True)
-        return dr * (ips_scores <= threshold).float() + (
-            est_rewards * tgt_props * (weights > threshold).float()
-        ).sum(dim=1, keepdim=True)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 9c26e749ff1217f381eab8e1a9a2f8beac0e6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 63/89] fix: DR and Switch estimators do not score with a stale
 reward model

Like DM they now give no estimate when their reward model cannot be
trained on this input, instead of using whatever model an earlier input
left behind, and an evaluator skips an estimate that is not available.
---
 .../ope/estimators/contextual_bandits_estimators.py  | 12 ++++++++++--
 reagent/ope/estimators/estimator.py                  |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 5cbdaeb..6767c98 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -391,7 +391,11 @@ class DoublyRobustEstimator(DMEstimator):
         **kwargs,
     ) -> Optional[EstimatorResult]:
         logger.info("OPE DR Evaluating")
-        self._train_model(train_samples, force_train)
+        if (
+            not self._train_model(train_samples, force_train)
+            and not input.has_model_outputs
+        ):
+            return None
         log_avg = RunningAverage()
         tgt_avg = RunningAverage()
         tgt_vals = []
@@ -562,7 +566,11 @@ class SwitchEstimator(DMEstimator):
         **kwargs,
     ) -> Optional[EstimatorResult]:
         logger.info("OPE Switch Evaluating")
-        self._train_model(train_samples, force_train)
+        if (
+            not self._train_model(train_samples, force_train)
+            and not input.has_model_outputs
+        ):
+            return None
 
         if "exp_base" in kwargs:
             exp_base = kwargs["exp_base"]
diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index e667b23..b7619d4 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -75,12 +75,15 @@ class EstimatorResults:
     results: List[EstimatorResult] = field(default_factory=list)
     device = None
 
-    def append(self, result: EstimatorResult):
+    def append(self, result: Optional[EstimatorResult]):
         """Append a data point
 
         Args:
-            result: result from an experimental run
+            result: result from an experimental run, None if not available
         """
+        if result is None:
+            logging.warning("  Estimate not available")
+            return
         er = result.estimated_reward
         if math.isnan(er) or math.isinf(er):
             logging.warning(f"  Invalid estimate: {er}")
-- 
2.43.0


From 07939e659b6a89def99a63b6f043f24581e1ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 64/89] fix: one-step episodes keep their step dimension in
 policy gradient inputs

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 247242d..af0dbb3 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -454,7 +454,9 @@ class PolicyGradientInputMaker:
         return _stack([_stack_slate(slate) for slate in observation])
 
     def __call__(self, trajectory: Trajectory):
-        action = torch.from_numpy(np.stack(trajectory.action).squeeze())
+        action = torch.from_numpy(np.stack(trajectory.action))
+        # drop a singleton action dimension, never that of the episode's steps
+        action = action.reshape(action.shape[0], -1).squeeze(1)
         if self.num_actions is not None:
             action = F.one_hot(action, self.num_actions).float()
             assert len(action.shape) == 2, f"{action.shape}"
-- 
2.43.0


From 53c4aba5c480fa666f4c0a8b2ad29812844abd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 65/89] fix: ChangingArms rows without legal arms at the end of
 a batch own no ids

---
 reagent/gym/envs/changing_arms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 17afeea..fa6d0ee 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -164,8 +164,7 @@ class ChangingArms(EnvWrapper):
             else:
                 assert batch_idx == prev_batch_idx
         # handle the case of trailing empty batches
-        if batch_idx < batch_size - 1:
-            offsets.extend([i] * (batch_size - 1 - batch_idx))
+        offsets.extend([len(id_list_val)] * (batch_size - 1 - prev_batch_idx))
         assert len(offsets) == batch_size, f"{len(offsets)} != {batch_size}."
         id_list_offsets = torch.tensor(offsets)
 
-- 
2.43.0


From c50a3b76851006e770b1eb2be344fd54c8606c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 66/89] fix: exported plans name their reward aggregator

---
 serving/reagent/serving/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serving/reagent/serving/config/config.py b/serving/reagent/serving/config/config.py
index 34205f9..a18e364 100644
--- a/serving/reagent/serving/config/config.py
+++ b/serving/reagent/serving/config/config.py
@@ -106,9 +106,9 @@ class Constant(ConfigBase):
 
 
 class DecisionRewardAggreation(Enum):
-    DRA_INVALID = (None,)
-    DRA_SUM = ("sum",)
-    DRA_MAX = ("max",)
+    DRA_INVALID = None
+    DRA_SUM = "sum"
+    DRA_MAX = "max"
 
 
 class DecisionConfig(ConfigBase):
-- 
2.43.0


From 7fce2f36995367ea0432861103bfe21e3de38c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 67/89] fix: the plans of one app are exported to the files
 they belong in

---
 serving/reagent/serving/config/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serving/reagent/serving/config/main.py b/serving/reagent/serving/config/main.py
index 5abb909..0585d2a 100644
--- a/serving/reagent/serving/config/main.py
+++ b/serving/reagent/serving/config/main.py
@@ -40,7 +40,7 @@ def export(app_id, config_dir):
         if not os.path.exists(sub_config_dir):
             os.makedirs(sub_config_dir)
         for config_name, config in configs.items():
-            config_file = os.path.join(sub_config_dir, config_name, ".json")
+            config_file = os.path.join(sub_config_dir, config_name + ".json")
             print(f"{app_id}:{config_name} exported to {config_file}")
             with open(config_file, "w") as f:
                 json.dump(config, f, indent=2)
-- 
2.43.0


From 4c29b0013f94a9e77a7dc3d4cad67bb6b219b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 68/89] fix: UCB plans name the operator the service knows

---
 serving/reagent/serving/config/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/config/operators.py b/serving/reagent/serving/config/operators.py
index 2a4e368..24a3257 100644
--- a/serving/reagent/serving/config/operators.py
+++ b/serving/reagent/serving/config/operators.py
@@ -82,7 +82,7 @@ def SoftmaxRanker(temperature: float, values: Dict, seed: int = None):
     pass
 
 
-def UCB(method: str, batch_size: int = 1):
+def Ucb(method: str, batch_size: int = 1):
     """The operator that implements UCB algorithms
 
     Args:
@@ -95,3 +95,6 @@ def UCB(method: str, batch_size: int = 1):
 for op in set(globals()) - __globals - {"__globals"}:
     globals()[op] = namespace.DecisionOperation(globals()[op])
 del __globals
+
+# The service knows the operator as Ucb
+UCB = Ucb
-- 
2.43.0


From e2c0477966cb374e7eba0843f21a7d71567f64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 69/89] fix: a plan can be built more than once

---
 serving/reagent/serving/config/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serving/reagent/serving/config/builder.py b/serving/reagent/serving/config/builder.py
index 7f8a512..1d5e615 100644
--- a/serving/reagent/serving/config/builder.py
+++ b/serving/reagent/serving/config/builder.py
@@ -42,6 +42,8 @@ class DecisionPlanBuilder(object):
         return self
 
     def serialize(self):
+        self.operators = []
+        self.constants = []
         visited = set()
         next_id = [0]
 
-- 
2.43.0


From 2fff588d8066d624449d2ae8e55708282338e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 70/89] fix: applications are imported on Python 3.12

---
 serving/reagent/serving/config/applications/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/config/applications/__init__.py b/serving/reagent/serving/config/applications/__init__.py
index 75764bf..c970833 100644
--- a/serving/reagent/serving/config/applications/__init__.py
+++ b/serving/reagent/serving/config/applications/__init__.py
@@ -1,13 +1,15 @@
 #!/usr/bin/env python3
 # Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
 
+import importlib
 import pkgutil
 
 
 __all__ = []
 print(list(pkgutil.walk_packages(__path__)))
 
-for loader, module_name, _ in pkgutil.walk_packages(__path__):
+for _, module_name, _ in pkgutil.walk_packages(__path__, prefix=__name__ + "."):
+    _module = importlib.import_module(module_name)
+    module_name = module_name[len(__name__) + 1 :]
     __all__.append(module_name)
-    _module = loader.find_module(module_name).load_module(module_name)
     globals()[module_name] = _module
-- 
2.43.0


From b0273e486887210ac31a09732d1d6cd0a474bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 71/89] fix: exported maps and lists of mixed numbers keep
 their fractions

---
 serving/reagent/serving/config/serialize.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/serving/reagent/serving/config/serialize.py b/serving/reagent/serving/config/serialize.py
index 780c1d2..dc09827 100644
--- a/serving/reagent/serving/config/serialize.py
+++ b/serving/reagent/serving/config/serialize.py
@@ -33,6 +33,16 @@ def _extend_tuple_type(cls, value):
     return sub_cls_list
 
 
+def _item_type(values):
+    """
+    The type shared by all values; integers among floats count as floats
+    """
+    for item_type in (str, int, (int, float)):
+        if all(isinstance(v, item_type) for v in values):
+            return float if item_type == (int, float) else item_type
+    raise TypeError(f"{values} type not supported")
+
+
 def _value_to_json(cls, value):
     cls_type = _get_class_type(cls)
     assert _is_optional(cls) or value is not None
@@ -57,7 +67,7 @@ def _value_to_json(cls, value):
                 raise TypeError(
                     f"Can not properly decide the type of {value} since it is empty"
                 )
-            real_cls = type(value[0])
+            real_cls = _item_type(value)
             if issubclass(real_cls, str):
                 name = "list_string_value"
             elif issubclass(real_cls, int):
@@ -71,10 +81,9 @@ def _value_to_json(cls, value):
                 raise TypeError(
                     f"Can not properly decide the type of {value} since it is empty"
                 )
-            items = list(value.items())
-            key_real_cls, value_real_cls = type(items[0][0]), type(items[0][1])
-            if not issubclass(key_real_cls, str):
+            if not all(isinstance(key, str) for key in value):
                 raise TypeError(f"{value} type not supported")
+            value_real_cls = _item_type(list(value.values()))
             if issubclass(value_real_cls, str):
                 name = "map_string_value"
             elif issubclass(value_real_cls, int):
-- 
2.43.0


From 3dc054a0ebe8b08fdb2a8b43d9cc4e7ccdecc471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 72/89] fix: integers given for float parameters of operators
 are exported as floats

---
 serving/reagent/serving/config/namespace.py | 18 +++++++++++++++++-
 serving/reagent/serving/config/operators.py | 10 +++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/serving/reagent/serving/config/namespace.py b/serving/reagent/serving/config/namespace.py
index 37b7176..f50d5cd 100644
--- a/serving/reagent/serving/config/namespace.py
+++ b/serving/reagent/serving/config/namespace.py
@@ -2,6 +2,7 @@
 # Copyright 2004-present Facebook. All Rights Reserved.
 
 import inspect
+from typing import Dict
 
 
 class DecisionOperator(object):
@@ -13,9 +14,24 @@ class DecisionOperator(object):
         raise NotImplementedError
 
 
+def _to_declared_type(declared, value):
+    """
+    The service does not convert integers given for parameters that are floats
+    """
+    if declared is float and isinstance(value, int):
+        return float(value)
+    if declared == Dict[str, float] and isinstance(value, dict):
+        return {k: _to_declared_type(float, v) for k, v in value.items()}
+    return value
+
+
 def DecisionOperation(op):
     def __init__(self, *args, **kwargs):
-        self.args = inspect.getcallargs(op, *args, **kwargs)
+        declared = op.__annotations__
+        self.args = {
+            name: _to_declared_type(declared.get(name), value)
+            for name, value in inspect.getcallargs(op, *args, **kwargs).items()
+        }
         DecisionOperator.__init__(self)
 
     def arguments(self):
diff --git a/serving/reagent/serving/config/operators.py b/serving/reagent/serving/config/operators.py
index 24a3257..c542ee5 100644
--- a/serving/reagent/serving/config/operators.py
+++ b/serving/reagent/serving/config/operators.py
@@ -19,7 +19,7 @@ def ActionValueScoring(model_id: int, snapshot_id: int):
     pass
 
 
-def EpsilonGreedyRanker(epsilon: float, values: Dict, seed: int = None):
+def EpsilonGreedyRanker(epsilon: float, values: Dict[str, float], seed: int = None):
     """The operator that implements iterative epsilon greedy ranker
 
     Args:
@@ -37,7 +37,7 @@ def Expression(equation: str):
     pass
 
 
-def Frechet(values: Dict, rho: float, gamma: float, seed: int = None):
+def Frechet(values: Dict[str, float], rho: float, gamma: float, seed: int = None):
     """The operator that implements Frechet ranking
 
     Args:
@@ -55,7 +55,7 @@ def InputFromRequest():
     pass
 
 
-def PropensityFit(input: Dict, targets: Dict):
+def PropensityFit(input: Dict[str, float], targets: Dict[str, float]):
     """The operator that shifts the input to match the distribution in targets
 
     Args:
@@ -64,7 +64,7 @@ def PropensityFit(input: Dict, targets: Dict):
     pass
 
 
-def Softmax(temperature: float, values: Dict):
+def Softmax(temperature: float, values: Dict[str, float]):
     """The operator to use softmax for normalization
 
     Args:
@@ -73,7 +73,7 @@ def Softmax(temperature: float, values: Dict):
     pass
 
 
-def SoftmaxRanker(temperature: float, values: Dict, seed: int = None):
+def SoftmaxRanker(temperature: float, values: Dict[str, float], seed: int = None):
     """The operator that implements iterative softmax ranker
 
     Args:
-- 
2.43.0


From e7b7bb82cc010e3dbb5e45c52293b68e98156dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 73/89] fix: PrioritizedReplayBuffer refuses priorities that
 are not finite

---
 reagent/replay_memory/prioritized_replay_buffer.py | 6 ++++--
 reagent/replay_memory/sum_tree.py                  | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 65fc19c..be11351 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -84,9 +84,11 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
     def _check_add_types(self, **kwargs):
         super(PrioritizedReplayBuffer, self)._check_add_types(**kwargs)
         # The sum tree would only refuse it once the add is half done
-        if kwargs["priority"] < 0.0:
+        if not 0.0 <= kwargs["priority"] < np.inf:
             raise ValueError(
-                "Priority should be nonnegative. Got {}".format(kwargs["priority"])
+                "Priority should be nonnegative and finite. Got {}".format(
+                    kwargs["priority"]
+                )
             )
 
     def sample_index_batch(self, batch_size: int) -> torch.Tensor:
diff --git a/reagent/replay_memory/sum_tree.py b/reagent/replay_memory/sum_tree.py
index 3a0b5ad..e0f392b 100644
--- a/reagent/replay_memory/sum_tree.py
+++ b/reagent/replay_memory/sum_tree.py
@@ -168,11 +168,12 @@ class SumTree(object):
             nonnegative. Setting value = 0 will cause the element to never be
             sampled.
         Raises:
-          ValueError: If the given value is negative.
+          ValueError: If the given value is negative or not finite.
         """
-        if value < 0.0:
+        # (nan and inf would make every sum above them useless)
+        if not 0.0 <= value < math.inf:
             raise ValueError(
-                "Sum tree values should be nonnegative. Got {}".format(value)
+                "Sum tree values should be nonnegative and finite. Got {}".format(value)
             )
         self.max_recorded_priority = max(value, self.max_recorded_priority)
 
-- 
2.43.0


From f928681ae749dc4f0ead568d57ba9d875126b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 74/89] fix: CEM planner works with few candidates and with
 ensembles

---
 reagent/models/cem_planner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..0f0aa46 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,10 +185,11 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(self.cem_pop_size // 10, 1) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
-            acc_reward_vec[i] = self.acc_rewards_of_one_solution(
-                init_state, solutions[i], i
+            # A solution is worth what its trajectories are worth on average
+            acc_reward_vec[i] = np.mean(
+                self.acc_rewards_of_one_solution(init_state, solutions[i], i)
             )
         return acc_reward_vec
 
-- 
2.43.0


From 2087a1d7b1170d9af53240f72648d55c6762ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 75/89] fix: StateEmbedEnvironment forgets refused steps and
 restores the model's mode

---
 reagent/gym/envs/pomdp/state_embed_env.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/reagent/gym/envs/pomdp/state_embed_env.py b/reagent/gym/envs/pomdp/state_embed_env.py
index ee8bfb8..26f9af2 100644
--- a/reagent/gym/envs/pomdp/state_embed_env.py
+++ b/reagent/gym/envs/pomdp/state_embed_env.py
@@ -87,14 +87,16 @@ class StateEmbedEnvironment(gym.Env):
 
         mdnrnn_state = torch.tensor(mdnrnn_state, dtype=torch.float).unsqueeze(1)
         mdnrnn_action = torch.tensor(mdnrnn_action, dtype=torch.float).unsqueeze(1)
-        mdnrnn_output = self.mdnrnn(
-            rlt.FeatureData(mdnrnn_state), rlt.FeatureData(mdnrnn_action)
-        )
+        try:
+            mdnrnn_output = self.mdnrnn(
+                rlt.FeatureData(mdnrnn_state), rlt.FeatureData(mdnrnn_action)
+            )
+        finally:
+            self.mdnrnn.mdnrnn.train(old_mdnrnn_mode)
         hidden_embed = (
             mdnrnn_output.all_steps_lstm_hidden[-1].squeeze().detach().cpu().numpy()
         )
         state_embed = np.hstack((hidden_embed, state))
-        self.mdnrnn.mdnrnn.train(old_mdnrnn_mode)
         logger.debug(
             f"Embed_state\nrecent states: {np.array(self.recent_states)}\n"
             f"recent actions: {np.array(self.recent_actions)}\n"
@@ -115,10 +117,12 @@ class StateEmbedEnvironment(gym.Env):
             action_np = np.zeros(self.action_dim)
             action_np[action] = 1.0
         else:
-            action_np = action
+            # the caller may go on using its array
+            action_np = np.array(action)
+        next_raw_state, reward, terminal, info = self.env.step(action)
+        # a step which the environment refuses is no part of the history
         self.recent_states.append(self.cur_raw_state)
         self.recent_actions.append(action_np)
-        next_raw_state, reward, terminal, info = self.env.step(action)
         logger.debug("action {}, reward {}\n".format(action, reward))
         self.cur_raw_state = next_raw_state
         next_embed_state = self.embed_state(next_raw_state)
-- 
2.43.0


From 031dcec19ba7c6c2f518787ff8be7f8b1db2488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 76/89] fix: LinDynaEnv hands out copies of its state

---
 reagent/gym/envs/dynamics/linear_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/envs/dynamics/linear_dynamics.py b/reagent/gym/envs/dynamics/linear_dynamics.py
index 1faa7da..8900180 100644
--- a/reagent/gym/envs/dynamics/linear_dynamics.py
+++ b/reagent/gym/envs/dynamics/linear_dynamics.py
@@ -56,7 +56,7 @@ class LinDynaEnv(Env):
             float
         )
         self.step_cnt = 0
-        return self.state
+        return self.state.copy()
 
     def step(self, action):
         assert len(action) == self.action_dim
@@ -76,4 +76,4 @@ class LinDynaEnv(Env):
         if self.step_cnt >= self.max_steps:
             terminal = True
         self.state = next_state
-        return next_state, reward, terminal, None
+        return next_state.copy(), reward, terminal, None
-- 
2.43.0


From ad0d7ea20e189999291baf327aa905451449891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 77/89] fix: replay buffer stores copies of id lists and id
 score lists

---
 reagent/replay_memory/circular_replay_buffer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index bf2f771..8f64df7 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -150,7 +150,8 @@ class IDListMetadata(ElementMetadata):
         return np.empty(array_shape, dtype=np.object)
 
     def input_to_storage(self, input):
-        return input
+        # the caller may go on using its lists
+        return {k: list(v) for k, v in input.items()}
 
     def sample_to_output(self, sample):
         # TODO: implement for stack size > 1
@@ -212,7 +213,8 @@ class IDScoreListMetadata(ElementMetadata):
         return np.empty(array_shape, dtype=np.object)
 
     def input_to_storage(self, input):
-        return input
+        # the caller may go on using its lists
+        return {k: (list(ids), list(scores)) for k, (ids, scores) in input.items()}
 
     def sample_to_output(self, sample):
         # TODO: implement for stack size > 1
-- 
2.43.0


From 2617ce45aa6c65116a531de9104d694fd57ff834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 78/89] fix: replay buffer refuses sparse features with missing
 keys

---
 reagent/replay_memory/circular_replay_buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 8f64df7..02d77dc 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -136,6 +136,8 @@ class IDListMetadata(ElementMetadata):
 
     def validate(self, name: str, input):
         assert isinstance(input, dict), f"{name}: {type(input)} isn't dict"
+        missing = set(self.keys) - set(input)
+        assert not missing, f"{name}: {missing} not in {input}"
         for k, v in input.items():
             assert isinstance(k, str), f"{name}: {k} ({type(k)}) is not str"
             assert k in self.keys, f"{name}: {k} not in {self.keys}"
@@ -190,6 +192,8 @@ class IDScoreListMetadata(ElementMetadata):
 
     def validate(self, name: str, input):
         assert isinstance(input, dict), f"{name}: {type(input)} isn't dict"
+        missing = set(self.keys) - set(input)
+        assert not missing, f"{name}: {missing} not in {input}"
         for k, v in input.items():
             assert isinstance(k, str), f"{name}: {k} ({type(k)}) is not str"
             assert k in self.keys, f"{name}: {k} not in {self.keys}"
-- 
2.43.0


From 2fc94fcfcfb89183bf7d80db7cb9611333993dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 79/89] fix: policies that hold TorchScript modules are
 evaluated in one process with newer torch

---
 reagent/core/multiprocess_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reagent/core/multiprocess_utils.py b/reagent/core/multiprocess_utils.py
index d26ad85..5b894bd 100644
--- a/reagent/core/multiprocess_utils.py
+++ b/reagent/core/multiprocess_utils.py
@@ -1,12 +1,21 @@
 #!/usr/bin/env python3
 # Copyright (c) Facebook, Inc. and its affiliates. All rights reserved.
 
+import pickle
 from functools import partial
 from typing import Any, Callable, Dict, List
 
 import cloudpickle
 
 
+def _serialize_argument(arg: Any) -> bytes:
+    try:
+        return cloudpickle.dumps(arg)
+    except RuntimeError as e:
+        # How torch refuses ScriptModule depends on its version
+        raise pickle.PicklingError(str(e)) from e
+
+
 def deserialize_and_run(
     serialized_fn: bytes,
     serialized_args: List[bytes],
@@ -28,10 +37,10 @@ def wrap_function_arguments(fn, *args, **kwargs):
     serialized_fn = cloudpickle.dumps(fn)
     serialized_args: List[Any] = []
     for a in args:
-        serialized_args.append(cloudpickle.dumps(a))
+        serialized_args.append(_serialize_argument(a))
     serialized_kwargs: Dict[str, Any] = {}
     for k, v in kwargs.items():
-        serialized_kwargs[k] = cloudpickle.dumps(v)
+        serialized_kwargs[k] = _serialize_argument(v)
     return partial(
         deserialize_and_run, serialized_fn, serialized_args, serialized_kwargs
     )
-- 
2.43.0


From 512bb77278ef87d78ad7958c80af3e24c8a7ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 80/89] fix: offline_gym seeds the environment

---
 reagent/workflow/gym_batch_rl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/workflow/gym_batch_rl.py b/reagent/workflow/gym_batch_rl.py
index 7427f23..f43c970 100644
--- a/reagent/workflow/gym_batch_rl.py
+++ b/reagent/workflow/gym_batch_rl.py
@@ -47,6 +47,9 @@ def offline_gym(
     """
     initialize_seed(seed)
     env = Gym(env_name=env_name)
+    if seed is not None:
+        # environments have generators of their own
+        env.seed(seed)
 
     replay_buffer = ReplayBuffer(replay_capacity=num_train_transitions, batch_size=1)
     fill_replay_buffer(env, replay_buffer, num_train_transitions)
-- 
2.43.0


From b6362396ec9778a921a4ace7952222a81b2218cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 81/89] fix: first-visit Monte Carlo uses the first visits

---
 reagent/ope/trainers/rl_tabular_trainers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..cbac2d0 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -262,7 +262,8 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
+                        # going backwards, the first visit comes last
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -334,7 +335,8 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
+                            # going backwards, the first visit comes last
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From a095c9acdf112fddb24b8dae250522cd7e5af0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 82/89] fix: values of actions use the values of the next
 states

---
 reagent/ope/trainers/rl_tabular_trainers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index cbac2d0..98570ae 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -88,8 +88,9 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for s, rp in sr_dist.items():
+            next_value = 0.0 if s is None or s.is_terminal else self.state_value(s)
+            value += rp.prob * (rp.reward + self._gamma * next_value)
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From 49c005fff09708dfa52383969f45645ff0694f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 83/89] fix: TabularPolicy.load restores the exploration
 probabilities

---
 reagent/ope/trainers/rl_tabular_trainers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 98570ae..bfbd659 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -19,12 +19,15 @@ from reagent.ope.utils import RunningAverage
 class TabularPolicy(RLPolicy):
     def __init__(self, action_space: ActionSpace, epsilon: float = 0.0, device=None):
         super().__init__(action_space, device)
+        self._state_space = {}
+        self._set_epsilon(epsilon)
+
+    def _set_epsilon(self, epsilon: float):
         self._epsilon = epsilon
-        as_size = len(action_space)
+        as_size = len(self._action_space)
         self._exploitation_prob = 1.0 - epsilon
-        self._exploration_prob = epsilon / len(action_space)
+        self._exploration_prob = epsilon / as_size
         self._uniform_probs: List[float] = as_size * [1.0 / as_size]
-        self._state_space = {}
 
     def update(self, state: State, actions: Sequence[float]) -> float:
         old_dist = self._uniform_probs
@@ -64,10 +67,12 @@ class TabularPolicy(RLPolicy):
     def load(self, path) -> bool:
         try:
             with open(path, "rb") as f:
-                self._action_space, self._epsilon, self._state_space = pickle.load(f)
+                action_space, epsilon, state_space = pickle.load(f)
         except Exception:
             return False
         else:
+            self._action_space, self._state_space = action_space, state_space
+            self._set_epsilon(epsilon)
             return True
 
 
-- 
2.43.0


From 6250e41c75c97cbe4c33789e5d32c84d3881d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 84/89] fix: the value of an episode is that of its first state

---
 reagent/ope/estimators/sequential_estimators.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..130eb84 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -199,16 +199,13 @@ class RLEstimator(Estimator):
     def _estimate_value(
         self, gamma: float, mdps: Sequence[Mdp], value_function: ValueFunction
     ) -> float:
+        # The value of a state already includes the discounted rewards after it
         avg = RunningAverage()
         for mdp in mdps:
-            discount = 1.0
-            r = 0.0
-            for t in mdp:
-                if t.last_state is None:
-                    break
-                r += discount * value_function(t.last_state)
-                discount *= gamma
-            avg.add(r)
+            if len(mdp) == 0 or mdp[0].last_state is None:
+                avg.add(0.0)
+            else:
+                avg.add(value_function(mdp[0].last_state))
         return avg.average
 
 
-- 
2.43.0


From d7d6fc67769de1447cf4b2d638e4c43ee249c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 85/89] fix: sequential importance weights count episodes that
 have ended

---
 reagent/ope/estimators/sequential_estimators.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 130eb84..adca99b 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -264,7 +264,6 @@ class IPSEstimator(RLEstimator):
     ) -> torch.Tensor:
         pi_e = torch.ones((episodes, horizon))
         pi_b = torch.ones((episodes, horizon))
-        mask = torch.ones((episodes, horizon))
         j = 0
         for ts in mdp_transitions:
             i = 0
@@ -273,19 +272,17 @@ class IPSEstimator(RLEstimator):
                     assert t.last_state is not None
                     pi_e[i, j] = policy(t.last_state)[t.action]
                     pi_b[i, j] = t.action_prob
-                else:
-                    mask[i, j] = 0.0
                 i += 1
             j += 1
         pi_e = pi_e.to(device=self._device)
         pi_b = pi_b.to(device=self._device)
-        mask = mask.to(device=self._device)
-        rho = pi_e.div_(pi_b).cumprod(1).mul_(mask)
+        # Episodes that have ended count on, with their last ratio and no reward
+        rho = pi_e.div_(pi_b).cumprod(1)
         if self._weighted:
             weight = rho.sum(0)
+            weight.add_(weight.lt(1.0e-15) * episodes)
         else:
-            weight = mask.sum(0)
-        weight.add_(weight.lt(1.0e-15) * episodes)
+            weight = episodes
         ws = rho / weight
         return self._weight_clamper(ws)
 
-- 
2.43.0


From f447f2daaa3e3951bf1402c5ddf7705d19a4469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 86/89] fix: MAGIC discounts the value of the next state

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index adca99b..6409aa2 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -434,7 +434,7 @@ class MAGICEstimator(IPSEstimator):
         wdr = wdrs[:, -1].sum(0)
         next_vs = torch.zeros((n, horizon), device=self._device)
         next_vs[:, :-1] = vs[:, 1:]
-        gs = wdrs + ws * next_vs * discount
+        gs = wdrs + ws * next_vs * discount * input.gamma
         gs_normal = gs.sub(torch.mean(gs, 0))
         assert n > 1
         omiga = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", gs_normal, gs_normal)
-- 
2.43.0


From f70c23abb6d4e7bc2cd0281ea1d30304bf7ce859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 87/89] fix: EpsilonGreedyRLPolicy has an action space

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 6409aa2..b6ecc11 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy.action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From 4a6213e7f408d8b2c4483867b94600663870fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 88/89] fix: sequential estimates of a page include the last
 step of the longest episodes

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..5fba9f1 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From 6a66eb5a115d9353eafab573b432bd90509b599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 89/89] fix: sequential doubly robust estimates of OPEvaluator
 are not weighted

---
 reagent/evaluation/ope_adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 5fba9f1..75933cd 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -260,7 +260,9 @@ class OPEvaluator(Evaluator):
         )
 
         self.ope_seq_dr_estimator = SequentialOPEstimatorAdapter(
-            SeqDREstimator(device=self._device), gamma, device=self._device
+            SeqDREstimator(weighted=False, device=self._device),
+            gamma,
+            device=self._device,
         )
         self.ope_seq_weighted_dr_estimator = SequentialOPEstimatorAdapter(
             SeqDREstimator(weighted=True, device=self._device),
-- 
2.43.0

