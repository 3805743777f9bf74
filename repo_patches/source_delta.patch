From ebd6283bea94a9dde8657a86d095f436bb0ed21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:52 +0000
Subject: [PATCH 001/125] fix: evaluation ignores the fit period of a previous
 learn call

VectorCore.evaluate(n_steps=...) after learn(n_episodes_per_fit=...) deactivated
environments because the period of the previous learn was still set.
---
 mushroom_rl/core/_impl/core_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/_impl/core_logic.py b/mushroom_rl/core/_impl/core_logic.py
index db187e3..74a442f 100644
--- a/mushroom_rl/core/_impl/core_logic.py
+++ b/mushroom_rl/core/_impl/core_logic.py
@@ -32,6 +32,9 @@ class CoreLogic(object):
             self.fit_required = self._fit_episodes_condition
 
     def initialize_evaluate(self):
+        self._n_steps_per_fit = None
+        self._n_episodes_per_fit = None
+
         self.fit_required = lambda: False
 
     def initialize_run(self, n_steps, n_episodes, initial_states, quiet):
-- 
2.43.0


From df6c81e6c8312f53186a0af86280d0b7c8d90f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:52 +0000
Subject: [PATCH 002/125] fix: VectorCore applies the state preprocessors once
 to the reset states

They were applied to the (states, infos) tuple and then a second time.
---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..8e89cf6 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From bb810b9a3e1f099d466df1969584b0f4cdbde117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:26 +0000
Subject: [PATCH 003/125] fix: Dataset.from_array keeps the policy states

They were dropped, so flattening the run of a stateful policy lost its memory.
---
 mushroom_rl/core/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..11e6f67 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -212,11 +212,14 @@ class Dataset(Serializable):
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                               policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                               policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                              policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From 6ba790651b0363fe34c760b08b19aae392fbbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:26 +0000
Subject: [PATCH 004/125] fix: list datasets support concatenation, views and
 clearing with policy states

Concatenation raised, views and clear() left out the policy states, the policy
state getters read the wrong tuple and numpy flags were not counted as episode ends.
---
 mushroom_rl/core/_impl/list_dataset.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..426ac82 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
@@ -73,23 +73,29 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
         if isinstance(index, (int, slice)):
             view._dataset = self._dataset[index]
+            view._policy_dataset = self._policy_dataset[index] if self._is_stateful else list()
         else:
             view._dataset = [self._dataset[i] for i in index]
+            view._policy_dataset = [self._policy_dataset[i] for i in index] if self._is_stateful else list()
 
         if self._mask is not None:
             if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
+                view._mask = self._mask[index]
             else:
                 view._mask = [self._mask[i] for i in index]
 
         if copy:
-            return view.copy()
+            return deepcopy(view)
         else:
             return view
 
@@ -100,8 +106,7 @@ class ListDataset(Serializable):
         result = self.create_new_instance(self)
         last_step = self._dataset[-1]
         modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
-        result._dataset = self._dataset + other._dataset
+        result._dataset = self._dataset[:-1] + [modified_last_step] + other._dataset
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
@@ -132,11 +137,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
@@ -154,9 +159,9 @@ class ListDataset(Serializable):
     def n_episodes(self):
         n_episodes = 0
         for sample in self._dataset:
-            if sample[5] is True:
+            if sample[5]:
                 n_episodes += 1
-        if self._dataset[-1][5] is not True:
+        if not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
@@ -165,6 +170,7 @@ class ListDataset(Serializable):
         self._add_save_attr(
             _dataset='pickle',
             _policy_dataset='pickle',
-            _is_stateful='primitive'
+            _is_stateful='primitive',
+            _mask='pickle'
         )
 
-- 
2.43.0


From 0e729b1c182844345aac51cc440506e925c3440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:26 +0000
Subject: [PATCH 005/125] fix: dataset views index the stored policy states and
 masks

The preallocated buffers were indexed instead, so negative slices and copies of a
partially filled dataset returned the wrong policy states and masks.
---
 mushroom_rl/core/_impl/numpy_dataset.py | 12 ++++++------
 mushroom_rl/core/_impl/torch_dataset.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..8399610 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..33c1bcb 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
-- 
2.43.0


From 120b787000d2520ac5a5a4fe0d6187edeb0e9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:26 +0000
Subject: [PATCH 006/125] fix: torch datasets save their policy states and
 mask, dataset infos their device

---
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 mushroom_rl/core/dataset.py             | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 33c1bcb..87da2b9 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -282,7 +282,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 11e6f67..4c1d0c6 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
-- 
2.43.0


From 344c3afc24df4c32098b97caaa98ee4e8973e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:26 +0000
Subject: [PATCH 007/125] fix: copies of step infos keep the parsed values and
 are independent

The structured storage was dropped, so parsing a copy (e.g. the infos of a flattened
parallel run) emptied it, and the arrays were shared with the original.
---
 mushroom_rl/core/extra_info.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..623e016 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -210,8 +210,10 @@ class ExtraInfo(Serializable, UserDict):
         info._storage = self._storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
-        info.data = self.data.copy()
-            
+        info._structured_storage = {key: self._array_backend.copy(value)
+                                    for key, value in self._structured_storage.items()}
+        info.data = {key: self._array_backend.copy(value) for key, value in self.data.items()}
+
         return info
 
     def get_view(self, index, copy=False):
-- 
2.43.0


From 67dfea2bfd16248e033e0fc6f92a100ab7966d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:15 +0000
Subject: [PATCH 008/125] fix: parallel fit blocks contain every sample exactly
 once

When the fit period is not a multiple of the number of environments the residual
steps were lost, repeated or taken from unused buffer rows; infos were not cut to the
block and the end-of-trajectory flag leaked into the residual steps.
---
 .../core/_impl/vectorized_core_logic.py       |  4 +++
 mushroom_rl/core/dataset.py                   | 25 ++++++++++---------
 mushroom_rl/core/vectorized_core.py           |  2 +-
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 24ec612..9e30628 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -64,7 +64,11 @@ class VectorizedCoreLogic(CoreLogic):
         self._episodes_progress_bar.update(completed)
 
     def after_fit_vectorized(self, last):
+        residual_steps = 0
+        if self._n_steps_per_fit is not None:
+            residual_steps = self._current_steps_counter - self._n_steps_per_fit
         super().after_fit()
+        self._current_steps_counter = residual_steps
         if self._n_episodes_per_fit is not None:
             self._running_envs = self._array_backend.zeros(self._n_envs, dtype=bool)
             return self._array_backend.ones(self._n_envs, dtype=bool)
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 4c1d0c6..97e83df 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -571,17 +571,16 @@ class VectorizedDataset(Dataset):
             n_steps_dataset = self._data.mask.sum().item()
 
             if n_steps_dataset > n_steps_per_fit:
-                n_extra_steps = n_steps_dataset - n_steps_per_fit
-                n_parallel_steps = int(np.ceil(n_extra_steps / self._dataset_info.n_envs))
-                view_size = slice(-n_parallel_steps, None)
-                residual_data = self._data.get_view(view_size, copy=True)
-                mask = residual_data.mask
-                original_shape = mask.shape
-                mask.flatten()[n_extra_steps:] = False
-                residual_data.mask = mask.reshape(original_shape)
-
-                residual_info = self._info.get_view(view_size, copy=True)
-                residual_episode_info = self._episode_info.get_view(view_size, copy=True)
+                # keep the steps that flatten(n_steps_per_fit) leaves out, it takes them environment by environment
+                env_mask = self._data.mask.T
+                step_number = env_mask.reshape(-1).cumsum(0).reshape(env_mask.shape)
+                residual_mask = (env_mask & (step_number > n_steps_per_fit)).T
+                rows = residual_mask.any(1)
+                residual_data = self._data.get_view(rows, copy=True)
+                residual_data.mask = residual_mask[rows]
+
+                residual_info = self._info.get_view(rows, copy=True)
+                residual_episode_info = self._episode_info.get_view(rows, copy=True)
 
         super().clear()
         self._initialize_theta_list(n_envs)
@@ -601,7 +600,7 @@ class VectorizedDataset(Dataset):
         next_states = self._array_backend.pack_padded_sequence(self._data.next_state, self._data.mask)
         absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, self._data.mask)
 
-        last_padded = self._data.last
+        last_padded = self._array_backend.copy(self._data.last)
         last_padded[-1, :] = True
         lasts = self._array_backend.pack_padded_sequence(last_padded, self._data.mask)
 
@@ -627,6 +626,8 @@ class VectorizedDataset(Dataset):
         flat_theta_list = self._flatten_theta_list()
 
         flat_info = self._info.flatten(self.mask)
+        if n_steps_per_fit is not None:
+            flat_info = flat_info.get_view(slice(n_steps_per_fit))
         flat_episode_info = self._episode_info.flatten(self.mask)
 
         return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 8e89cf6..bd8d780 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -120,7 +120,7 @@ class VectorCore(object):
 
             last = samples[5]
 
-            if self._core_logic.fit_required():
+            while self._core_logic.fit_required():
                 fit_dataset = dataset.flatten(self._core_logic.n_steps_per_fit)
                 self.agent.fit(fit_dataset)
                 last = self._core_logic.after_fit_vectorized(last)
-- 
2.43.0


From 15b95fa044eafaeefee7f0a9e714903cf0f1a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:15 +0000
Subject: [PATCH 009/125] fix: parallel evaluation from a set of initial states

Every environment received the same single state (of which the worker processes kept
only the first component) instead of the next one of the set.
---
 mushroom_rl/core/_impl/vectorized_core_logic.py | 16 ++++++++++------
 mushroom_rl/core/multiprocess_environment.py    |  6 +-----
 mushroom_rl/core/vectorized_core.py             |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 9e30628..d1e900d 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -44,13 +44,17 @@ class VectorizedCoreLogic(CoreLogic):
 
         return mask
 
-    def get_initial_state(self, initial_states):
-        if initial_states is None or self._total_episodes_counter >= self._n_episodes:
-            initial_state = None
-        else:
-            initial_state = initial_states[self._total_episodes_counter]  # FIXME
+    def get_initial_state(self, initial_states, reset_mask):
+        if initial_states is None:
+            return None
+
+        n_resets = reset_mask.sum().item()
+        n_started = self._total_episodes_counter + self._running_envs.sum().item() - n_resets
+
+        index = self._array_backend.zeros(self._n_envs, dtype=int)
+        index[reset_mask] = self._array_backend.arange(n_started, n_started + n_resets)
 
-        return initial_state
+        return initial_states[index]
 
     def after_step(self, last):
         n_active_envs = self._running_envs.sum().item()
diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..f91048f 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,7 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                res = env.reset(data)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index bd8d780..bacd701 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -181,7 +181,7 @@ class VectorCore(object):
         """
         reset_mask = last & mask
             
-        initial_state = self._core_logic.get_initial_state(initial_states)
+        initial_state = self._core_logic.get_initial_state(initial_states, reset_mask)
 
         state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
-- 
2.43.0


From 3798ca33e252a054aa3c52f212f9f1f0fce19668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:32 +0000
Subject: [PATCH 010/125] fix: concatenating to an empty dataset

---
 mushroom_rl/core/_impl/list_dataset.py  | 6 +++---
 mushroom_rl/core/_impl/numpy_dataset.py | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 426ac82..a58b9fa 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -104,9 +104,9 @@ class ListDataset(Serializable):
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-        last_step = self._dataset[-1]
-        modified_last_step = last_step[:-1] + (True,)
-        result._dataset = self._dataset[:-1] + [modified_last_step] + other._dataset
+        result._dataset = self._dataset + other._dataset
+        if len(self) > 0:
+            result._dataset[len(self) - 1] = self._dataset[-1][:-1] + (True,)
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8399610..8e4a73a 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -209,7 +209,8 @@ class NumpyDataset(Serializable):
         result._next_states = np.concatenate((self.next_state, other.next_state))
         result._absorbing = np.concatenate((self.absorbing, other.absorbing))
         result._last = np.concatenate((self.last, other.last))
-        result._last[len(self)-1] = True
+        if len(self) > 0:
+            result._last[len(self)-1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 87da2b9..35d57e1 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -209,7 +209,8 @@ class TorchDataset(Serializable):
         result._next_states = torch.concatenate((self.next_state, other.next_state))
         result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
         result._last = torch.concatenate((self.last, other.last))
-        result._last[len(self) - 1] = True
+        if len(self) > 0:
+            result._last[len(self) - 1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
-- 
2.43.0


From 73210a411e4164e303b474d5933e61a5ab33fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:32 +0000
Subject: [PATCH 011/125] fix: negative dataset indices count from the last
 stored sample

They addressed the unused end of the preallocated buffers.
---
 mushroom_rl/core/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 97e83df..635ec60 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -270,8 +270,8 @@ class Dataset(Serializable):
     def __getitem__(self, index):
         if isinstance(index, (slice, np.ndarray)) or isinstance(index, (slice, torch.Tensor)):
             return self.get_view(index)
-        elif isinstance(index, int) and index < len(self._data):
-            return self._data[index]
+        elif isinstance(index, int) and -len(self._data) <= index < len(self._data):
+            return self._data[index % len(self._data)]
         else:
             raise IndexError
 
-- 
2.43.0


From 50fcef219b3207db8830216cc374c29b138cf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:32 +0000
Subject: [PATCH 012/125] fix: parsing a list dataset returns its lists instead
 of an exception class

---
 mushroom_rl/core/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 635ec60..08e1ef3 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -519,6 +519,8 @@ class Dataset(Serializable):
             return self._array_backend.arrays_to_numpy(*arrays)
         elif to == 'torch':
             return self._array_backend.arrays_to_torch(*arrays)
+        elif to == self._array_backend.get_backend_name():
+            return arrays
         else:
             return NotImplementedError
 
-- 
2.43.0


From 5ca864c4f880ea169e27bdfa47ed2575cc651f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:15 +0000
Subject: [PATCH 013/125] fix: views of a dataset can be concatenated

Their list of policy parameters was None, which made the sum of two views raise.
---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 08e1ef3..6836f5a 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -260,6 +260,7 @@ class Dataset(Serializable):
         dataset._info = self._info.get_view(index, copy)
         dataset._episode_info = self._episode_info.get_view(index, copy)
         dataset._data = self._data.get_view(index, copy)
+        dataset._theta_list = list()
 
         return dataset
 
-- 
2.43.0


From b5323f3d710e6f2a6c6062c265ee3fd84d0cf9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:36 +0000
Subject: [PATCH 014/125] fix: an empty dataset has zero episodes

---
 mushroom_rl/core/_impl/list_dataset.py  | 2 +-
 mushroom_rl/core/_impl/numpy_dataset.py | 2 +-
 mushroom_rl/core/_impl/torch_dataset.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index a58b9fa..a41d3b6 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -161,7 +161,7 @@ class ListDataset(Serializable):
         for sample in self._dataset:
             if sample[5]:
                 n_episodes += 1
-        if not self._dataset[-1][5]:
+        if len(self) > 0 and not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8e4a73a..854f8fd 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -267,7 +267,7 @@ class NumpyDataset(Serializable):
     def n_episodes(self):
         n_episodes = self.last.sum()
 
-        if not self.last[-1]:
+        if len(self) > 0 and not self.last[-1]:
             n_episodes += 1
 
         return n_episodes
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 35d57e1..ee6cdb8 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -267,7 +267,7 @@ class TorchDataset(Serializable):
     def n_episodes(self):
         n_episodes = self.last.sum()
 
-        if not self.last[-1]:
+        if len(self) > 0 and not self.last[-1]:
             n_episodes += 1
 
         return n_episodes
-- 
2.43.0


From 93a5b2e15f1a9a8bd1c497609a8ecc523c908881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:36 +0000
Subject: [PATCH 015/125] fix: dataset metrics and initial states of torch and
 list datasets

Metrics of list datasets raised, the torch median of an even number of episodes was the
lower middle value, and a single torch initial state could not be stacked.
---
 mushroom_rl/core/array_backend.py | 4 ++--
 mushroom_rl/core/dataset.py       | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..2ad3d4c 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -388,7 +388,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def median(array):
-        return array.median()
+        return array.quantile(0.5)
 
     @staticmethod
     def sqrt(array):
@@ -396,7 +396,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def from_list(array):
-        if len(array) > 1 and isinstance(array[0], torch.Tensor):
+        if len(array) > 0 and isinstance(array[0], torch.Tensor):
             return torch.stack(array)
         else:
             return torch.tensor(array)
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 6836f5a..a992f00 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -510,6 +510,8 @@ class Dataset(Serializable):
 
         if len(dataset) > 0:
             J = dataset.compute_J(gamma)
+            if isinstance(J, list):
+                J = np.array(J)
             median = self._array_backend.median(J)
             return J.min(), J.max(), J.mean(), median, len(J)
         else:
-- 
2.43.0


From 47900222ace6c1dae44a981c4d6d8db6b7c7162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:24 +0000
Subject: [PATCH 016/125] fix: step infos stay aligned when concatenated or
 extended after parsing

Concatenating a dataset with unparsed infos to one with parsed infos swapped their
order, keys first seen after a parse raised, steps without any info were forgotten,
parsing to another backend prevented further appends and list datasets could not
concatenate infos.
---
 mushroom_rl/core/array_backend.py |  8 ++++--
 mushroom_rl/core/extra_info.py    | 42 +++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 2ad3d4c..9a0a6f7 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -40,7 +40,7 @@ class ArrayBackend(object):
             to = cls.get_backend_name()
         if backend is None:
             backend = ArrayBackend.get_array_backend_from(arrays[0])
-        if to == 'numpy':
+        if to in ('numpy', 'list'):
             return backend.arrays_to_numpy(*arrays) if len(arrays) > 1 else backend.arrays_to_numpy(*arrays)[0]
         elif to == 'torch':
             return backend.arrays_to_torch(*arrays) if len(arrays) > 1 else backend.arrays_to_torch(*arrays)[0]
@@ -470,6 +470,10 @@ class ListBackend(ArrayBackend):
         cls.check_device(device)
         return np.ones_like(array, dtype=dtype)
 
+    @staticmethod
+    def concatenate(list_of_arrays, dim=0):
+        return NumpyBackend.concatenate(list_of_arrays, dim)
+
     @staticmethod
     def copy(array):
         return array.copy()
@@ -496,7 +500,7 @@ class ListBackend(ArrayBackend):
     
     @staticmethod
     def none():
-        return None
+        return np.nan
     
     @staticmethod
     def shape(array):
diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 623e016..d9a1100 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -1,5 +1,9 @@
 from collections import UserDict
 import numbers
+
+import numpy as np
+import torch
+
 from .array_backend import ArrayBackend
 from mushroom_rl.core.serialization import Serializable
 
@@ -61,6 +65,10 @@ class ExtraInfo(Serializable, UserDict):
                     assert isinstance(env_data, dict)
                     self._update_key_mapping(env_data, True)
 
+        # without any information, the steps are kept until some information is added
+        if not self._key_mapping:
+            return
+
         # calculate the size for the array
         if self._structured_storage:
             length_structured_storage = self._structured_storage[next(iter(self._structured_storage.keys()))].shape[0]
@@ -78,7 +86,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
@@ -135,11 +143,15 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        self.parse()
+        other.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
-        info._storage = self._storage + other._storage
+        if not self._key_mapping and not other._key_mapping:
+            info._storage = self._storage + other._storage
 
-        info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, self._array_backend, other._array_backend)
-        info.data = self._concatenate_dictionary(self.data, other.data, self._array_backend, other._array_backend)
+        info._structured_storage = self._concatenate_dictionary(self._structured_storage, other._structured_storage, self._array_backend, other._array_backend, len(self._storage), len(other._storage))
+        info.data = self._concatenate_dictionary(self.data, other.data, self._array_backend, other._array_backend, len(self._storage), len(other._storage))
 
         #combine key_mapping
         info._key_mapping = self._key_mapping.copy()
@@ -175,7 +187,7 @@ class ExtraInfo(Serializable, UserDict):
         array2 = array1_backend.convert(array2, backend=array2_backend)
         return array1_backend.concatenate((array1, array2))
     
-    def _concatenate_dictionary(self, dict1, dict2, backend1, backend2):
+    def _concatenate_dictionary(self, dict1, dict2, backend1, backend2, empty_length1=0, empty_length2=0):
         """
         Concatenate dict1 with dict2.
 
@@ -184,17 +196,14 @@ class ExtraInfo(Serializable, UserDict):
             dict2 (dict): Flat dictionary containing arrays of backend2
             backend1 (ArrayBackend): Backend of arrays in dict1.
             backend2 (ArrayBackend): Backend of arrays in dict2.
+            empty_length1 (int, 0): Number of steps described by dict1 if it is empty.
+            empty_length2 (int, 0): Number of steps described by dict2 if it is empty.
 
         Returns
             dict: Concatenation of dict1 and dict2
         """
-        if not dict1:
-            return dict2
-        if not dict2:
-            return dict1
-        
-        array_length_dict1 = backend1.shape(dict1[next(iter(dict1.keys()))])[0]
-        array_length_dict2 = backend2.shape(dict2[next(iter(dict2.keys()))])[0]
+        array_length_dict1 = backend1.shape(dict1[next(iter(dict1.keys()))])[0] if dict1 else empty_length1
+        array_length_dict2 = backend2.shape(dict2[next(iter(dict2.keys()))])[0] if dict2 else empty_length2
 
         r = {}
 
@@ -360,7 +369,14 @@ class ExtraInfo(Serializable, UserDict):
         if value is None:
             return ArrayBackend.get_array_backend(to).none()
         
-        return ArrayBackend.convert(value, to=to, backend=self._array_backend)
+        if to == 'list':
+            return value
+
+        backend = self._array_backend
+        if isinstance(value, (np.ndarray, torch.Tensor)):
+            backend = ArrayBackend.get_array_backend_from(value)
+
+        return ArrayBackend.convert(value, to=to, backend=backend)
 
     def _create_key(self, key_path):
         """
-- 
2.43.0


From c945761d89412b6aa9c84a75ee9e8026c210a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:15 +0000
Subject: [PATCH 017/125] fix: prioritized sampling with equal sibling
 priorities

The variate was not mapped into the randomly chosen child, which biased the draw and
could select an empty leaf.
---
 mushroom_rl/rl_utils/replay_memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..1bfa48a 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -425,7 +425,8 @@ class SumTree(Serializable):
             return idx
 
         if self._tree[left] == self._tree[right]:
-            return self._retrieve(s, np.random.choice([left, right]))
+            s_child = s if s <= self._tree[left] else s - self._tree[left]
+            return self._retrieve(s_child, np.random.choice([left, right]))
 
         if s <= self._tree[left]:
             return self._retrieve(s, left)
-- 
2.43.0


From eae30f4e196cecac220ac381c28c72bd3ec6e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:15 +0000
Subject: [PATCH 018/125] fix: n-step returns leave the rewards of the added
 dataset unchanged

They were accumulated in place in the caller's data.
---
 mushroom_rl/rl_utils/replay_memory.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 1bfa48a..24fb7c9 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -71,18 +71,19 @@ class ReplayMemory(Serializable):
         i = 0
         while i < len(dataset) - n_steps_return + 1:
             j = 0
+            n_steps_reward = reward[i]
             while j < n_steps_return - 1:
                 if last[i + j]:
                     i += j + 1
                     break
                 j += 1
-                reward[i] += gamma ** j * reward[i + j]
+                n_steps_reward = n_steps_reward + gamma ** j * reward[i + j]
             else:
 
                 if self._full:
                     self._dataset.state[self._idx] = state[i]
                     self._dataset.action[self._idx] = action[i]
-                    self._dataset.reward[self._idx] = reward[i]
+                    self._dataset.reward[self._idx] = n_steps_reward
 
                     self._dataset.next_state[self._idx] = next_state[i + j]
                     self._dataset.absorbing[self._idx] = absorbing[i + j]
@@ -94,7 +95,7 @@ class ReplayMemory(Serializable):
 
                 else:
 
-                    sample = [state[i], action[i], reward[i], next_state[i + j], absorbing[i + j], last[i + j]]
+                    sample = [state[i], action[i], n_steps_reward, next_state[i + j], absorbing[i + j], last[i + j]]
 
                     if self._dataset.is_stateful:
                         sample += [policy_state[i], policy_next_state[i+j]]
@@ -321,18 +322,19 @@ class SumTree(Serializable):
         i = 0
         while i < len(dataset) - n_steps_return + 1:
             j = 0
+            n_steps_reward = reward[i]
             while j < n_steps_return - 1:
                 if last[i + j]:
                     i += j + 1
                     break
                 j += 1
-                reward[i] += gamma ** j * reward[i + j]
+                n_steps_reward = n_steps_reward + gamma ** j * reward[i + j]
             else:
 
                 if self._full:
                     self.dataset.state[self._idx] = state[i]
                     self.dataset.action[self._idx] = action[i]
-                    self.dataset.reward[self._idx] = reward[i]
+                    self.dataset.reward[self._idx] = n_steps_reward
 
                     self.dataset.next_state[self._idx] = next_state[i + j]
                     self.dataset.absorbing[self._idx] = absorbing[i + j]
@@ -344,7 +346,7 @@ class SumTree(Serializable):
 
                 else:
 
-                    sample = [state[i], action[i], reward[i], next_state[i + j], absorbing[i + j], last[i + j]]
+                    sample = [state[i], action[i], n_steps_reward, next_state[i + j], absorbing[i + j], last[i + j]]
 
                     if self.dataset.is_stateful:
                         sample += [policy_state[i], policy_next_state[i+j]]
-- 
2.43.0


From 8816d904701de7d536bbaa44efd4b6eeb63918a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:15 +0000
Subject: [PATCH 019/125] fix: sequences of a full memory do not join the
 oldest and the newest samples

---
 mushroom_rl/rl_utils/replay_memory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 24fb7c9..09dccb9 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -224,6 +224,10 @@ class SequenceReplayMemory(ReplayMemory):
                 begin_seq = np.maximum(i - self._truncation_length + 1, 0)
                 end_seq = i + 1
 
+                # the oldest stored sample does not follow the newest one
+                if begin_seq < self._idx <= i:
+                    begin_seq = self._idx
+
                 # the sequence can contain more than one trajectory, check to only include one
                 lasts_absorbing = self._dataset.last[begin_seq: i]
                 begin_traj = self._backend.where(lasts_absorbing > 0)
@@ -233,7 +237,7 @@ class SequenceReplayMemory(ReplayMemory):
                     begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
+                if more_than_one_traj or begin_seq == 0 or begin_seq == self._idx or self._dataset.last[begin_seq-1]:
                     prev_actions = self._dataset.action[begin_seq:end_seq - 1]
                     init_prev_action = self._backend.zeros(1, *self._action_space_shape)
                     if len(prev_actions) == 0:
-- 
2.43.0


From c3c60e087b69eb72d7cc7ef9d5cdd573ee37d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:15 +0000
Subject: [PATCH 020/125] fix: a prioritized memory saved without its data is
 empty when loaded

The priorities were restored without the samples they belong to.
---
 mushroom_rl/rl_utils/replay_memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 09dccb9..fe3779a 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -294,9 +294,9 @@ class SumTree(Serializable):
         super().__init__()
         self._add_save_attr(
             _max_size="primitive",
-            _idx="primitive",
-            _full="primitive",
-            _tree="numpy",
+            _idx="primitive!",
+            _full="primitive!",
+            _tree="numpy!",
             _mdp_info="mushroom",
             _agent_info="mushroom",
             dataset="mushroom!")
@@ -471,6 +471,9 @@ class SumTree(Serializable):
         if self.dataset is None:
             dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
             self.dataset = Dataset(dataset_info, n_steps=self._max_size)
+            self._tree = np.zeros(2 * self._max_size - 1)
+            self._idx = 0
+            self._full = False
 
 
 class PrioritizedReplayMemory(Serializable):
-- 
2.43.0


From fc2a68bd96543d1773e0bfae84dd9b57ca53ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:35 +0000
Subject: [PATCH 021/125] fix: dueling network with the maximum advantage

---
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 35d7880..b3c58be 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -36,7 +36,7 @@ class DuelingNetwork(nn.Module):
         if self._avg_advantage:
             q -= advantage.mean(1).reshape(-1, 1)
         else:
-            q -= advantage.max(1).reshape(-1, 1)
+            q -= advantage.max(1)[0].reshape(-1, 1)
 
         if action is None:
             return q
-- 
2.43.0


From 06d4fbb82b1d1194d41fc1a0ec405b4b0527e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:12 +0000
Subject: [PATCH 022/125] fix: recurrent PPO sequences do not join the first
 episodes of a dataset

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..d7e3b06 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -111,11 +111,12 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                prev_seq = max(begin_seq - 1, 0)
+                lasts_absorbing = last[prev_seq: i].int() + absorbing[prev_seq: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = prev_seq + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From ac2fdea59be5daf2c473b432e6a4e09e769e0bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:56 +0000
Subject: [PATCH 023/125] fix: DDPG and TD3 learn with the policies that have a
 state (Ornstein-Uhlenbeck)

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 57e3bd3..127c720 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -96,7 +96,7 @@ class DDPG(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             q_next = self._next_q(next_state, absorbing)
             q = reward + self.mdp_info.gamma * q_next
-- 
2.43.0


From 3274f155e9315c7be855bf60827ba5d7b28f94a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:56 +0000
Subject: [PATCH 024/125] fix: recurrent Gaussian policy log probability with
 one-dimensional actions

---
 mushroom_rl/policy/recurrent_torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..21f37c4 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -35,7 +35,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return action, policy_state
 
     def log_prob_t(self, state, action, policy_state, lengths):
-        return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
+        return self.distribution_t(state, policy_state, lengths).log_prob(action)[:, None]
 
     def entropy_t(self, state=None):
         return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
-- 
2.43.0


From fcd974d42d83f51c5b64013139f8212de4d590a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 025/125] fix: DDPG masks terminal transitions of torch batches

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 127c720..e81daef 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -134,7 +134,7 @@ class DDPG(DeepAC):
         a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
         q = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
 
-- 
2.43.0


From 29ec027c888c83ab2786568b72a9e8cc189b919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 026/125] fix: TD3 smooths torch target actions and masks
 terminal transitions

---
 .../actor_critic/deep_actor_critic/td3.py         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 65cf027..4b0432b 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -1,8 +1,9 @@
-import numpy as np
+import torch
 
 from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DDPG
 from mushroom_rl.policy import Policy
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class TD3(DDPG):
@@ -81,14 +82,14 @@ class TD3(DDPG):
         """
         a = self._target_actor_approximator(next_state, **self._actor_predict_params)
 
-        low = self.mdp_info.action_space.low
-        high = self.mdp_info.action_space.high
-        eps = np.random.normal(scale=self._noise_std(), size=a.shape)
-        eps_clipped = np.clip(eps, -self._noise_clip(), self._noise_clip.get_value())
-        a_smoothed = np.clip(a + eps_clipped, low, high)
+        low = TorchUtils.to_float_tensor(self.mdp_info.action_space.low)
+        high = TorchUtils.to_float_tensor(self.mdp_info.action_space.high)
+        eps = self._noise_std() * torch.randn_like(a)
+        eps_clipped = torch.clamp(eps, -self._noise_clip(), self._noise_clip.get_value())
+        a_smoothed = torch.clamp(a + eps_clipped, low, high)
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
-- 
2.43.0


From 650da6defe08ddf3dbb51409f5e5a5bc175cd025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:55 +0000
Subject: [PATCH 027/125] fix: optional mushroom attributes of a full save are
 loaded

The samples of a replay memory saved with full_save=True were written but never restored.
---
 mushroom_rl/core/serialization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index fc0a2a3..b76d618 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -124,8 +124,7 @@ class Serializable(object):
 
                 if method == 'primitive' and att in primitive_dictionary:
                     setattr(loaded_object, att, primitive_dictionary[att])
-                elif file_name in zip_file.namelist() or \
-                        (method == 'mushroom' and mandatory):
+                elif file_name in zip_file.namelist() or method == 'mushroom':
                     load_method = getattr(cls, '_load_{}'.format(method))
                     if load_method is None:
                         raise NotImplementedError('Method _load_{} is not'
-- 
2.43.0


From 157101736138ffbc8b67deb6e97dc353a5e5b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:06 +0000
Subject: [PATCH 028/125] fix: running standardization accounts for the
 variance within a batch

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 3df64cd..a2d375e 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -62,7 +62,7 @@ class RunningStandardization(Serializable):
         self._n += batch_size
         alpha = max(batch_size / self._n, self._alpha)
         new_m = (1 - alpha) * self._m + alpha * value.mean(0)
-        new_s = self._s + (value.mean(0) - self._m) * (value.mean(0) - new_m)
+        new_s = self._s + ((value - self._m) * (value - new_m)).sum(0)
         self._m, self._s = new_m, new_s
 
     @property
-- 
2.43.0


From 086a4c29ea15a4ebfb31d6d27131b322896177d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:07 +0000
Subject: [PATCH 029/125] fix: Monte-Carlo advantage of a single sample

---
 mushroom_rl/rl_utils/value_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/value_functions.py b/mushroom_rl/rl_utils/value_functions.py
index 3b6b338..3c2650e 100644
--- a/mushroom_rl/rl_utils/value_functions.py
+++ b/mushroom_rl/rl_utils/value_functions.py
@@ -23,9 +23,9 @@ def compute_advantage_montecarlo(V, s, ss, r, absorbing, gamma):
         and the advantage function.
     """
     with torch.no_grad():
-        r = r.squeeze()
+        r = r.reshape(-1)
         q = torch.zeros(len(r))
-        v = V(s).squeeze()
+        v = V(s).reshape(-1)
 
         q_next = V(ss[-1]).squeeze().item()
         for rev_k in range(len(r)):
-- 
2.43.0


From b33c4ec425152b333aa94a2a96b6ccbd35556732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:27 +0000
Subject: [PATCH 030/125] fix: maximum likelihood of a one-dimensional
 full-covariance Gaussian

---
 mushroom_rl/distributions/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/distributions/gaussian.py b/mushroom_rl/distributions/gaussian.py
index 8a278fb..53ddf41 100644
--- a/mushroom_rl/distributions/gaussian.py
+++ b/mushroom_rl/distributions/gaussian.py
@@ -333,7 +333,7 @@ class GaussianCholeskyDistribution(Distribution):
     def mle(self, theta, weights=None):
         if weights is None:
             self._mu = np.mean(theta, axis=0)
-            sigma = np.cov(theta, rowvar=False)
+            sigma = np.atleast_2d(np.cov(theta, rowvar=False))
         else:
             sumD = np.sum(weights)
             sumD2 = np.sum(weights**2)
-- 
2.43.0


From 5ce0419202e68368570be809ab8e0008cf632831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 031/125] fix: MORE quadratic surrogate does not double the
 mixed terms

---
 .../algorithms/policy_search/black_box_optimization/more.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..939e2b8 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -94,7 +94,7 @@ class MORE(BlackBoxOptimization):
         R = np.zeros((n,n ))
         uid = np.triu_indices(n)
         R[uid] = beta[1 + n:]
-        R.T[uid] = R[uid]
+        R = 0.5 * (R + R.T)
         
         w, v = np.linalg.eig(R)
         w[w >= 0.0] = -1e-12
-- 
2.43.0


From fa3d0d86cd1621fabb2dc37c6b2b7ea597c49f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 032/125] fix: vectorized black-box optimization without a
 context

---
 .../black_box_optimization/black_box_optimization.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..8733444 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,11 +64,13 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
+            context = self._context_builder(initial_states, **episode_info)
+            if context is not None:
+                context = context[start_mask]
 
             if self._deterministic:
                 if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
+                    theta[start_mask] = self.distribution.mean(context)
                 else:
                     theta[start_mask] = self._agent_backend.from_list(
                         [self.distribution.mean() for _ in range(start_mask.sum())])
-- 
2.43.0


From 2556d7786e0d78fd99c700ac0da1bd0ecfbcd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:33 +0000
Subject: [PATCH 033/125] fix: vector policy changes its number of policies and
 returns the policy states

---
 mushroom_rl/policy/vector_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..c37c0b9 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,16 +30,16 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        if len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From b6b84dfac1a2327354ed0b633f3368a1cc795ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:08 +0000
Subject: [PATCH 034/125] fix: GPOMDP does not keep the rewards of an
 unfinished episode

---
 mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
index bf2acd6..736fd11 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
@@ -99,4 +99,5 @@ class GPOMDP(PolicyGradient):
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
         self.list_sum_d_log_pi = list()
+        self.list_reward = list()
         self.step_count = 0
-- 
2.43.0


From 820e341bd8e3e2e4cad053f5cad4940b815b1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:26 +0000
Subject: [PATCH 035/125] fix: vectorized black-box optimization needs no
 context information

---
 .../black_box_optimization/black_box_optimization.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index 8733444..8abfc98 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,9 +64,9 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)
-            if context is not None:
-                context = context[start_mask]
+            context = None
+            if self.distribution.is_contextual:
+                context = self._context_builder(initial_states, **episode_info)[start_mask]
 
             if self._deterministic:
                 if context is not None:
-- 
2.43.0


From 4c596432286aec5fd101a86d7e82ae5f056146cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 036/125] fix: variance parameters with one or several entries

---
 mushroom_rl/rl_utils/variance_parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..b8bdeec 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
@@ -159,6 +159,9 @@ class WindowedVarianceParameter(Parameter):
                 when the parameter depend on another parameter value.
 
         """
+        if self._n_updates.table.size == 1:
+            idx = (0,) * len(self.shape)
+
         x = kwargs['target']
         factor = kwargs.get('factor', 1.)
 
-- 
2.43.0


From 52960da53e13a11066189172568547296607e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 037/125] fix: decreasing variance parameter is one half at the
 tolerance

---
 mushroom_rl/rl_utils/variance_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index b8bdeec..9d6c7b0 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -104,7 +104,7 @@ class VarianceDecreasingParameter(VarianceParameter):
         if self._exponential:
             return np.exp(sigma * np.log(.5) / self._tol)
         else:
-            return 1. / (sigma + self._tol)
+            return self._tol / (sigma + self._tol)
 
 
 class WindowedVarianceParameter(Parameter):
-- 
2.43.0


From 3673afc896a09cd62d856db61c2611d070047d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 038/125] fix: minimizing optimizers leave the gradient passed
 in unchanged

---
 mushroom_rl/rl_utils/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..e70f4f7 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -152,7 +152,7 @@ class AdamOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From 025d595dfa3fff6b86b6ff14e858fc36ad95d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 039/125] fix: Adam optimizer saves its eps

---
 mushroom_rl/rl_utils/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index e70f4f7..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -147,6 +147,7 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
-- 
2.43.0


From 6cef201acb7d2004be80a9285e9cd22d433d0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:06 +0000
Subject: [PATCH 040/125] fix: optimizers accept any number as learning rate

---
 mushroom_rl/rl_utils/optimizers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index 9dd2d96..bb20855 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from mushroom_rl.core.serialization import Serializable
-from mushroom_rl.rl_utils.parameters import Parameter
+from mushroom_rl.rl_utils.parameters import to_parameter
 
 
 class Optimizer(Serializable):
@@ -19,10 +19,7 @@ class Optimizer(Serializable):
             maximize (bool, True): by default Optimizers do a gradient ascent step. Set to False for gradient descent.
 
         """
-        if isinstance(lr, float):
-            self._lr = Parameter(lr)
-        else:
-            self._lr = lr
+        self._lr = to_parameter(lr)
         self._maximize = maximize
 
         self._add_save_attr(
-- 
2.43.0


From d7b622298c9cd4e6a0ba73710f4689865f794687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 041/125] fix: reset of pendulum environments leaves the given
 state unchanged

---
 mushroom_rl/environments/cart_pole.py         | 2 +-
 mushroom_rl/environments/inverted_pendulum.py | 2 +-
 mushroom_rl/environments/segway.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/cart_pole.py b/mushroom_rl/environments/cart_pole.py
index 2111cdd..3968d37 100644
--- a/mushroom_rl/environments/cart_pole.py
+++ b/mushroom_rl/environments/cart_pole.py
@@ -59,7 +59,7 @@ class CartPole(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = state.copy()
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_u = 0
diff --git a/mushroom_rl/environments/inverted_pendulum.py b/mushroom_rl/environments/inverted_pendulum.py
index df060d4..3fa5e06 100644
--- a/mushroom_rl/environments/inverted_pendulum.py
+++ b/mushroom_rl/environments/inverted_pendulum.py
@@ -63,7 +63,7 @@ class InvertedPendulum(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = state.copy()
             self._state[0] = normalize_angle(self._state[0])
             self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
 
diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..9a6aab4 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -61,7 +61,7 @@ class Segway(Environment):
 
             self._state = np.array([angle, 0., 0.])
         else:
-            self._state = state
+            self._state = state.copy()
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_x = 0
-- 
2.43.0


From 8850c3fd88debcf715487bcf9862d2fc7b7da7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 042/125] fix: Segway observation space bounds of the angle

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 9a6aab4..24bccf1 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -36,7 +36,7 @@ class Segway(Environment):
 
         self._random = random_start
 
-        high = np.array([-np.pi / 2, 15, 75])
+        high = np.array([np.pi / 2, 15, 75])
 
         # MDP properties
         dt = 1e-2
-- 
2.43.0


From d106b3e6ba473a52055f00f646f9d3eb1ffb2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:42 +0000
Subject: [PATCH 043/125] fix: LQR value gradient of a batch of states

---
 mushroom_rl/solvers/lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/lqr.py b/mushroom_rl/solvers/lqr.py
index ffd0934..ccb0bb2 100644
--- a/mushroom_rl/solvers/lqr.py
+++ b/mushroom_rl/solvers/lqr.py
@@ -170,7 +170,7 @@ def compute_lqr_V_gaussian_policy_gradient_K(s, lqr, K, Sigma):
 
         dPi = vec_dPi.reshape(Q.shape)
 
-        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1, 1) \
+        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s) \
                    + gamma * np.trace(Sigma @ B.T @ dPi @ B) / (1.0 - gamma)
 
     return -dJ
-- 
2.43.0


From 96bd66e98eff25838d45469419dc0875cb86ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:52 +0000
Subject: [PATCH 044/125] fix: taxi rewards the goal also when it is reached by
 slipping

---
 mushroom_rl/environments/generators/taxi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 2ef85d6..f0e214f 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -206,7 +206,7 @@ def compute_reward(grid_map, cell_list, passenger_list, rew):
                     j_idx = j = np.where((c == goal).all(axis=1))[0] + len(
                         cell_list) * i
 
-                    r[i_idx, a, j_idx] = rew[np.sum(passenger_states[i])]
+                    r[i_idx, :, j_idx] = rew[np.sum(passenger_states[i])]
 
     return r
 
-- 
2.43.0


From a28d29d495b517932afaacb1d4ddca709a3f58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:52 +0000
Subject: [PATCH 045/125] fix: last row of a map without a final newline

---
 mushroom_rl/environments/generators/grid_world.py | 3 +++
 mushroom_rl/environments/generators/taxi.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mushroom_rl/environments/generators/grid_world.py b/mushroom_rl/environments/generators/grid_world.py
index 1f4a2a3..d019dda 100644
--- a/mushroom_rl/environments/generators/grid_world.py
+++ b/mushroom_rl/environments/generators/grid_world.py
@@ -71,6 +71,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+    if row:
+        grid_map.append(row)
+
     return grid_map, cell_list
 
 
diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index f0e214f..a2a6b5b 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -83,6 +83,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+    if row:
+        grid_map.append(row)
+
     return grid_map, cell_list, passenger_list
 
 
-- 
2.43.0


From 265e848afe2d3e7a2ca6c382b03591156859e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 046/125] fix: derivative of CMAC approximators

---
 mushroom_rl/approximators/parametric/cmac.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 90b7c70..8e10650 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -76,19 +76,3 @@ class CMAC(LinearApproximator):
             prediction[i] = np.sum(self._w[:, idx], axis=-1)
 
         return prediction.squeeze()
-
-    def diff(self, state, action=None):
-        """
-        Compute the derivative of the output w.r.t. ``state``, and ``action`` if provided.
-
-        Args:
-            state (np.ndarray): the state;
-            action (np.ndarray, None): the action.
-
-        Returns:
-            The derivative of the output w.r.t. ``state``, and ``action`` if provided.
-
-        """
-
-        phi = self._phi(state)
-        return super().diff(phi, action)
-- 
2.43.0


From 116858ebc30347eac9e70bb263bf8a7f4623a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 047/125] fix: CMAC predictions of single inputs

---
 mushroom_rl/approximators/parametric/cmac.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 8e10650..f95e1cd 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -41,9 +41,7 @@ class CMAC(LinearApproximator):
 
         """
         y_hat = self.predict(x)
-        delta_y = np.atleast_2d(y - y_hat)
-        if self._w.shape[0] > 1:
-            delta_y = delta_y.T
+        delta_y = (y.reshape(y_hat.shape) - y_hat).T
 
         phi = np.atleast_2d(self._phi(x))
         sum_phi = np.sum(phi, axis=0)
@@ -75,4 +73,4 @@ class CMAC(LinearApproximator):
         for i, idx in enumerate(indexes):
             prediction[i] = np.sum(self._w[:, idx], axis=-1)
 
-        return prediction.squeeze()
+        return prediction
-- 
2.43.0


From be6c069c3f45975107d3fdeeaf4457ec348730c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 048/125] fix: CMAC fit with samples outside the tilings

---
 mushroom_rl/approximators/parametric/cmac.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index f95e1cd..6a73f0a 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -46,6 +46,7 @@ class CMAC(LinearApproximator):
         phi = np.atleast_2d(self._phi(x))
         sum_phi = np.sum(phi, axis=0)
         n = np.sum(phi, axis=1, keepdims=True)
+        n[n == 0] = 1.
         phi_n = phi / n
         sum_phi[sum_phi == 0] = 1.
 
-- 
2.43.0


From f01c44e29a8e703a397734e1da22eacf3660c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:05 +0000
Subject: [PATCH 049/125] fix: approximators copy the weights they are given

---
 mushroom_rl/approximators/parametric/linear.py | 4 ++--
 mushroom_rl/utils/torch.py                     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/linear.py b/mushroom_rl/approximators/parametric/linear.py
index 55c4b0f..65f1cdf 100644
--- a/mushroom_rl/approximators/parametric/linear.py
+++ b/mushroom_rl/approximators/parametric/linear.py
@@ -27,7 +27,7 @@ class LinearApproximator(Serializable):
         output_dim = output_shape[0]
 
         if weights is not None:
-            self._w = weights.reshape((output_dim, -1))
+            self._w = weights.reshape((output_dim, -1)).copy()
         elif input_dim is not None:
             self._w = np.zeros((output_dim, input_dim))
         else:
@@ -100,7 +100,7 @@ class LinearApproximator(Serializable):
             w (np.ndarray): the set of weights to set.
 
         """
-        self._w = w.reshape(self._w.shape)
+        self._w = w.reshape(self._w.shape).copy()
 
     def phi(self, x):
         if self._phi is not None:
diff --git a/mushroom_rl/utils/torch.py b/mushroom_rl/utils/torch.py
index b0b01b8..327ad92 100644
--- a/mushroom_rl/utils/torch.py
+++ b/mushroom_rl/utils/torch.py
@@ -36,7 +36,7 @@ class TorchUtils(object):
 
             w = weights[idx:idx + c].reshape(shape)
 
-            w_tensor = torch.as_tensor(w, device=cls.get_device(device)).type(p.data.dtype)
+            w_tensor = torch.as_tensor(w, device=cls.get_device(device)).type(p.data.dtype).clone()
 
             p.data = w_tensor
             idx += c
-- 
2.43.0


From 0c7745c91f30c3fd7667e3b5fc452dcacfd666a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:57 +0000
Subject: [PATCH 050/125] fix: variance of the extremes of a torch ensemble

---
 mushroom_rl/approximators/ensemble.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index d1f65c7..785c141 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -102,18 +102,15 @@ class Ensemble(Serializable):
             elif prediction == 'sum':
                 results = predictions.sum(0)
             elif prediction == 'min':
-                results = predictions.min(0)
+                results = predictions.min(0).values if torch_output else predictions.min(0)
             elif prediction == 'max':
-                results = predictions.max(0)
+                results = predictions.max(0).values if torch_output else predictions.max(0)
             else:
                 raise ValueError
             if compute_variance:
                 results = [results, predictions.var(0)]
 
-        if torch_output and (prediction == 'min' or prediction == 'max'):
-            return results.values
-        else:
-            return results
+        return results
 
     def reset(self):
         """
-- 
2.43.0


From 511b4090cf5ae131a25e6902010adb60a71d5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:33 +0000
Subject: [PATCH 051/125] fix: ensemble tables predict single state-action
 pairs

---
 mushroom_rl/approximators/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index 785c141..2a9f055 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -91,7 +91,7 @@ class Ensemble(Serializable):
                     raise NotFittedError
 
             prediction = self._prediction if prediction is None else prediction
-            if isinstance(predictions[0], np.ndarray):
+            if isinstance(predictions[0], (np.ndarray, np.generic)):
                 predictions = np.array(predictions)
             else:
                 predictions = torch.stack(predictions, axis=0)
-- 
2.43.0


From b8edfa4a888b3fa68c48c2a60073c6614123eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:13 +0000
Subject: [PATCH 052/125] fix: tile of an input next to the upper end of the
 range

---
 mushroom_rl/features/tiles/tiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/tiles.py b/mushroom_rl/features/tiles/tiles.py
index ba7b81b..8d2c766 100644
--- a/mushroom_rl/features/tiles/tiles.py
+++ b/mushroom_rl/features/tiles/tiles.py
@@ -53,7 +53,7 @@ class Tiles:
         for i, (r, N) in enumerate(zip(self._range, self._n_tiles)):
             if r[0] <= x[i] < r[1]:
                 width = r[1] - r[0]
-                component_index = int(np.floor(N * (x[i] - r[0]) / width))
+                component_index = min(int(np.floor(N * (x[i] - r[0]) / width)), N - 1)
                 tile_index += component_index * multiplier
                 multiplier *= N
             else:
-- 
2.43.0


From 6c5337e228dd35e8b5275db5946960f1693e7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:13 +0000
Subject: [PATCH 053/125] fix: tensor features with a single feature

---
 mushroom_rl/features/_implementations/torch_features.py | 2 +-
 mushroom_rl/features/tensors/basis_tensor.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/features/_implementations/torch_features.py b/mushroom_rl/features/_implementations/torch_features.py
index 7129903..5e8de0b 100644
--- a/mushroom_rl/features/_implementations/torch_features.py
+++ b/mushroom_rl/features/_implementations/torch_features.py
@@ -15,7 +15,7 @@ class TorchFeatures(FeaturesImplementation):
         x = TorchUtils.to_float_tensor(np.atleast_2d(x))
 
         y_list = [self._phi[i].forward(x) for i in range(len(self._phi))]
-        y = torch.cat(y_list, 1).squeeze()
+        y = torch.cat(y_list, 1)
 
         y = y.detach().cpu().numpy()
 
diff --git a/mushroom_rl/features/tensors/basis_tensor.py b/mushroom_rl/features/tensors/basis_tensor.py
index 1f72131..5abe711 100644
--- a/mushroom_rl/features/tensors/basis_tensor.py
+++ b/mushroom_rl/features/tensors/basis_tensor.py
@@ -45,9 +45,9 @@ class GenericBasisTensor(nn.Module):
         phi = self._basis_function(delta, self._scale)
 
         if self._normalized:
-            return self._normalize(phi).squeeze(-1)
+            return self._normalize(phi)
         else:
-            return phi.squeeze(-1)
+            return phi
 
     def _basis_function(self, delta, scale):
         raise NotImplementedError
-- 
2.43.0


From 0bd7aa8f4456e4922d3a1cd38fa1a08dd7e9d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:14 +0000
Subject: [PATCH 054/125] fix: torch running window average

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index a2d375e..5f74b28 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -212,4 +212,4 @@ class RunningAveragedWindow(Serializable):
             The estimated mean value.
 
         """
-        return self._array_backend.convert(self._avg_buffer).mean(0)
+        return self._array_backend.from_list(list(self._avg_buffer)).mean(0)
-- 
2.43.0


From 22352046e088ef8bd0687ca5d07da8aae4c2b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:14 +0000
Subject: [PATCH 055/125] fix: running window keeps its own copy of the values

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 5f74b28..1dfac17 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -203,7 +203,7 @@ class RunningAveragedWindow(Serializable):
         value = self._array_backend.atleast_2d(value)
         batch_size = len(value)
         for i in range(batch_size):
-            self._avg_buffer.append(value[i])
+            self._avg_buffer.append(self._array_backend.copy(value[i]))
 
     @property
     def mean(self):
-- 
2.43.0


From c7588c11feeac329f2d5af2c4d7163feb1303e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:47 +0000
Subject: [PATCH 056/125] fix: running statistics of multi-dimensional
 observations

---
 mushroom_rl/rl_utils/running_stats.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 1dfac17..a4cc16e 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -46,8 +46,8 @@ class RunningStandardization(Serializable):
 
         """
         self._n = 1
-        self._m = self._array_backend.zeros(1, *self._shape)
-        self._s = self._array_backend.ones(1, *self._shape)
+        self._m = self._array_backend.zeros(*self._shape)
+        self._s = self._array_backend.ones(*self._shape)
 
     def update_stats(self, value):
         """
@@ -57,7 +57,7 @@ class RunningStandardization(Serializable):
             value (Array): current data value to use for the update.
 
         """
-        value = self._array_backend.atleast_2d(value)
+        value = value.reshape(-1, *self._shape)
         batch_size = len(value)
         self._n += batch_size
         alpha = max(batch_size / self._n, self._alpha)
@@ -72,7 +72,7 @@ class RunningStandardization(Serializable):
             The estimated mean value.
 
         """
-        return self._array_backend.squeeze(self._m)
+        return self._m
 
     @property
     def std(self):
@@ -81,7 +81,7 @@ class RunningStandardization(Serializable):
             The estimated standard deviation value.
 
         """
-        return self._array_backend.squeeze(self._array_backend.sqrt(self._s / self._n))
+        return self._array_backend.sqrt(self._s / self._n)
 
 
 class RunningExpWeightedAverage(Serializable):
@@ -124,7 +124,7 @@ class RunningExpWeightedAverage(Serializable):
         if init_value is None:
             self._avg_value = self._array_backend.zeros(1, *self._shape)
         else:
-            self._avg_value = self._array_backend.atleast_2d(self._array_backend.convert(init_value))
+            self._avg_value = self._array_backend.convert(init_value).reshape(1, *self._shape)
 
     def update_stats(self, value):
         """
@@ -134,7 +134,7 @@ class RunningExpWeightedAverage(Serializable):
             value (Array): current data value to use for the update.
 
         """
-        value = self._array_backend.atleast_2d(value)
+        value = value.reshape(-1, *self._shape)
         batch_size = len(value)
         for i in range(batch_size):
             self._avg_value = (1. - self._alpha) * self._avg_value + self._alpha * value[i]
@@ -200,7 +200,7 @@ class RunningAveragedWindow(Serializable):
             value (np.ndarray): current data value to use for the update.
 
         """
-        value = self._array_backend.atleast_2d(value)
+        value = value.reshape(-1, *self._shape)
         batch_size = len(value)
         for i in range(batch_size):
             self._avg_buffer.append(self._array_backend.copy(value[i]))
-- 
2.43.0


From da4a375d4b8d7f26b6f0c23a6d8c3c96693643f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:35 +0000
Subject: [PATCH 057/125] fix: bounds of the min-max preprocessor

---
 mushroom_rl/rl_utils/preprocessors.py | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..01d3464 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -101,39 +101,39 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         """
         super(MinMaxPreprocessor, self).__init__(mdp_info, backend, clip_obs, alpha)
 
-        obs_low, obs_high = (self._array_backend.convert(mdp_info.observation_space.low.copy(),
-                                                         mdp_info.observation_space.high.copy()))
+        low, high = self._array_backend.convert(mdp_info.observation_space.low,
+                                                mdp_info.observation_space.high)
+        obs_low, obs_high = self._array_backend.zeros_like(low), self._array_backend.zeros_like(high)
+        obs_low[...], obs_high[...] = low, high
 
-        self._obs_mask = self._array_backend.where((self._array_backend.abs(obs_low) < 1e20) &
-                                                   (self._array_backend.abs(obs_high) < 1e20))
+        self._obs_mask = (self._array_backend.abs(obs_low) < 1e20) & (self._array_backend.abs(obs_high) < 1e20)
 
-        self._obs_mask = self._array_backend.concatenate(self._obs_mask)
+        assert self._obs_mask.any(), "All observations have unlimited/extremely large range, " \
+                                     "you should use StandardizationPreprocessor instead."
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
-                                         "you should use StandardizationPreprocessor instead."
-
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = not bool(self._obs_mask.all())
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
         self._obs_mean[self._obs_mask] = (obs_high[self._obs_mask] + obs_low[self._obs_mask]) / 2.
         self._obs_delta[self._obs_mask] = (obs_high[self._obs_mask] - obs_low[self._obs_mask]) / 2.
 
+        save_method = self._array_backend.get_backend_name()
+
         self._add_save_attr(
             _array_backend='pickle',
             _run_norm_obs='primitive',
-            _obs_mask='numpy',
-            _obs_mean='numpy',
-            _obs_delta='numpy'
+            _obs_mask=save_method,
+            _obs_mean=save_method,
+            _obs_delta=save_method
         )
 
     def __call__(self, obs):
-        orig_obs = self._array_backend.copy(obs)
+        norm_obs = (obs - self._obs_mean) / self._obs_delta
 
         if self._run_norm_obs:
-            obs = super(MinMaxPreprocessor, self).__call__(obs)
+            run_norm_obs = super(MinMaxPreprocessor, self).__call__(obs)
+            run_norm_obs[..., self._obs_mask] = norm_obs[..., self._obs_mask]
+            norm_obs = run_norm_obs
 
-        obs[self._obs_mask] = \
-            ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
-
-        return obs
+        return norm_obs
-- 
2.43.0


From e2fd21c9ab7387ad8d5e6468506e8da4a757fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:06 +0000
Subject: [PATCH 058/125] fix: array selection of the array backends

---
 mushroom_rl/core/array_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 9a0a6f7..ad5dc2e 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -216,7 +216,7 @@ class NumpyBackend(ArrayBackend):
         if x is None:
             return np.where(cond)
         else:
-            np.where(cond, x, y)
+            return np.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
@@ -345,7 +345,7 @@ class TorchBackend(ArrayBackend):
         if x is None:
             return torch.where(cond)
         else:
-            torch.where(cond, x, y)
+            return torch.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
-- 
2.43.0


From 3b1e6b6d392e547ccc8bbf78abc2d945528f0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:52 +0000
Subject: [PATCH 059/125] fix: numerical gradient at integer parameters

---
 mushroom_rl/utils/numerical_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/numerical_gradient.py b/mushroom_rl/utils/numerical_gradient.py
index b1d6561..bd56c8f 100644
--- a/mushroom_rl/utils/numerical_gradient.py
+++ b/mushroom_rl/utils/numerical_gradient.py
@@ -85,8 +85,8 @@ def numerical_diff_function(function, params, eps=1e-6):
 
     """
 
-    g = np.zeros_like(params)
     n_params = len(params)
+    g = np.zeros(n_params)
 
     for i in range(n_params):
         perturb = np.zeros(n_params)
-- 
2.43.0


From 10abe0f45604f3a1ea9855dec3a1b9882e369477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:31 +0000
Subject: [PATCH 060/125] fix: loggers append only to the data of their own
 seed

---
 mushroom_rl/core/logger/data_logger.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..cbcca82 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -125,7 +125,12 @@ class DataLogger(object):
     def _load_numpy(self):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
-                if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
+                if self._suffix:
+                    is_own_file = file.stem.endswith(self._suffix)
+                else:
+                    is_own_file = re.search(r'-\d+$', file.stem) is None
+
+                if is_own_file:
+                    name = file.stem[:len(file.stem) - len(self._suffix)]
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
-- 
2.43.0


From db5d182509bfd18fb14033b4dd97d4c77c16644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:31 +0000
Subject: [PATCH 061/125] fix: logged arrays are kept as they were logged

---
 mushroom_rl/core/logger/data_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index cbcca82..801fd6e 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -45,7 +45,7 @@ class DataLogger(object):
             if name not in self._data_dict:
                 self._data_dict[name] = list()
 
-            self._data_dict[name].append(data)
+            self._data_dict[name].append(np.array(data))
 
             filename = name + self._suffix + '.npy'
             path = self._results_dir / filename
-- 
2.43.0


From 672b3761d9eccf2b3b82d3efb9ba4b907b6dfbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:31 +0000
Subject: [PATCH 062/125] fix: loggers with the same name do not share their
 messages

---
 mushroom_rl/core/logger/console_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/logger/console_logger.py b/mushroom_rl/core/logger/console_logger.py
index f50bf9d..bd9d21a 100644
--- a/mushroom_rl/core/logger/console_logger.py
+++ b/mushroom_rl/core/logger/console_logger.py
@@ -47,7 +47,7 @@ class ConsoleLogger(object):
         formatter = logging.Formatter(fmt='%(asctime)s [%(levelname)s] %(message)s',
                                       datefmt='%d/%m/%Y %H:%M:%S')
 
-        self._logger = logging.getLogger(self._log_id)
+        self._logger = logging.Logger(self._log_id)
         self._logger.setLevel(min(console_log_level, file_log_level))
         self._logger.propagate = False
         ch = TqdmHandler()
-- 
2.43.0


From e7beec7d36d14c944970ea91241f3af1d4954e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:31 +0000
Subject: [PATCH 063/125] fix: COPDAC_Q with several action dimensions

---
 .../algorithms/actor_critic/classic_actor_critic/copdac_q.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..e0f35e3 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -68,7 +68,7 @@ class COPDAC_Q(Agent):
 
             q_next = self._V(ss_psi).item() if not absorbing else 0
 
-            grad_mu_s = np.atleast_2d(self._mu.diff(s))
+            grad_mu_s = np.atleast_2d(self._mu.diff(s).T)
             omega = self._A.get_weights()
 
             delta = r + self.mdp_info.gamma * q_next - self._Q(s, a)
@@ -93,7 +93,7 @@ class COPDAC_Q(Agent):
                                                             action)).item()
 
     def _nu(self, state, action):
-        grad_mu = np.atleast_2d(self._mu.diff(state))
+        grad_mu = np.atleast_2d(self._mu.diff(state).T)
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
-- 
2.43.0


From 8c76e2264feec40a80ee8a6241cb43446372b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:31 +0000
Subject: [PATCH 064/125] fix: step information is usable after loading

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index d9a1100..edb888e 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -263,6 +263,9 @@ class ExtraInfo(Serializable, UserDict):
 
     def _add_all_save_attr(self):
         self._add_save_attr(
+            _n_envs='primitive',
+            _array_backend='pickle',
+            _device='primitive',
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
-- 
2.43.0


From 543f45137d13001deee0a71416cac52b624c3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:57 +0000
Subject: [PATCH 065/125] fix: MORE saves its surrogate model

---
 .../policy_search/black_box_optimization/more.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 939e2b8..c1456ca 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -52,9 +52,13 @@ class MORE(BlackBoxOptimization):
         super().__init__(mdp_info, distribution, policy)
 
         self._add_save_attr(
-            eps='primitive',
-            h0='primitive',
-            kappa='primitive'
+            eps='mushroom',
+            h0='mushroom',
+            kappa='mushroom',
+            phi_quadratic_='pickle',
+            regressor_quadratic='mushroom',
+            phi_linear_='pickle',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From 6ad91f15789953f7bb9296811d167fb2778cf0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:50 +0000
Subject: [PATCH 066/125] fix: recurrent Gaussian policy saves its deviation
 bounds

---
 mushroom_rl/policy/recurrent_torch_policy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 21f37c4..e46627b 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 50064fbb9bac041b2277d63be79ad92f2d1409d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:50 +0000
Subject: [PATCH 067/125] fix: boosted FQI saved before its first fit

---
 mushroom_rl/algorithms/value/batch_td/boosted_fqi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py b/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
index ab68e15..8998ca0 100644
--- a/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
+++ b/mushroom_rl/algorithms/value/batch_td/boosted_fqi.py
@@ -22,7 +22,7 @@ class BoostedFQI(FQI):
             _n_iterations='primitive',
             _quiet='primitive',
             _prediction='primitive',
-            _next_q='numpy',
+            _next_q='primitive',
             _idx='primitive',
             _target='pickle'
         )
-- 
2.43.0


From 209aca8f4208d8b616cdd7eadeec0be6b1aaea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:26 +0000
Subject: [PATCH 068/125] fix: PPO_BPTT saves its truncation length

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index d7e3b06..8306f3f 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,7 +67,8 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
-            _dim_env_state='primitive'
+            _dim_env_state='primitive',
+            _truncation_length='primitive'
         )
 
     def fit(self, dataset):
-- 
2.43.0


From 1be52ad9111580f04455e1dc0107725736172691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:42 +0000
Subject: [PATCH 069/125] fix: ePPO optimizes its distribution after loading

---
 .../algorithms/policy_search/black_box_optimization/eppo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..aa7edc8 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -3,6 +3,7 @@ import torch
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class ePPO(BlackBoxOptimization):
@@ -66,6 +67,11 @@ class ePPO(BlackBoxOptimization):
                 loss.backward()
                 self._optimizer.step()
 
+    def _post_load(self):
+        super()._post_load()
+        if self._optimizer is not None:
+            TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
+
     def _unpack(self, minibatch):
         if self.distribution.is_contextual:
             theta_i, Jep_i, old_dist_i, context_i = minibatch
-- 
2.43.0


From 3b931327b763b754cfc19ea992b4d97485b6de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:42 +0000
Subject: [PATCH 070/125] fix: COPDAC_Q acts with the learned regressor after
 loading

---
 .../actor_critic/classic_actor_critic/copdac_q.py        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index e0f35e3..f897430 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -47,8 +47,12 @@ class COPDAC_Q(Agent):
                             input_shape=(self._mu.weights_size,),
                             output_shape=(1,))
 
+        # name of the attribute of the policy that holds the regressor to be learned
+        self._policy_mu = next((name for name, value in vars(policy).items() if value is mu), None)
+
         self._add_save_attr(
             _mu='mushroom',
+            _policy_mu='primitive',
             _psi='pickle',
             _alpha_theta='mushroom',
             _alpha_omega='mushroom',
@@ -86,6 +90,11 @@ class COPDAC_Q(Agent):
             v_new = self._V.get_weights() + delta_v
             self._V.set_weights(v_new)
 
+    def _post_load(self):
+        super()._post_load()
+        if self._policy_mu is not None:
+            setattr(self.policy, self._policy_mu, self._mu)
+
     def _Q(self, state, action):
         state_psi = self._psi(state) if self._psi is not None else state
 
-- 
2.43.0


From d559529fd1f5dda47b6eba9673271e3ca826f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:29 +0000
Subject: [PATCH 071/125] fix: MaxminDQN no longer writes into the fit
 parameters of the caller

---
 mushroom_rl/algorithms/value/dqn/maxmin_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py b/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py
index 8f202ee..aad8f16 100644
--- a/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/maxmin_dqn.py
@@ -26,7 +26,7 @@ class MaxminDQN(DQN):
         super().__init__(mdp_info, policy, approximator, **params)
 
     def fit(self, dataset):
-        self._fit_params['idx'] = np.random.randint(self._n_approximators)
+        self._fit_params = dict(self._fit_params, idx=np.random.randint(self._n_approximators))
 
         super().fit(dataset)
 
-- 
2.43.0


From 8a7f62a4e91548eb4151e2c485a057d896329ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:29 +0000
Subject: [PATCH 072/125] fix: DoubleFQI no longer writes into the approximator
 parameters of the caller

---
 mushroom_rl/algorithms/value/batch_td/double_fqi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/batch_td/double_fqi.py b/mushroom_rl/algorithms/value/batch_td/double_fqi.py
index dd9ef06..ade00ab 100644
--- a/mushroom_rl/algorithms/value/batch_td/double_fqi.py
+++ b/mushroom_rl/algorithms/value/batch_td/double_fqi.py
@@ -13,7 +13,7 @@ class DoubleFQI(FQI):
     """
     def __init__(self, mdp_info, policy, approximator, n_iterations,
                  approximator_params=None, fit_params=None, quiet=False):
-        approximator_params['n_models'] = 2
+        approximator_params = dict(approximator_params, n_models=2)
 
         super().__init__(mdp_info, policy, approximator, n_iterations,
                          approximator_params, fit_params, quiet)
-- 
2.43.0


From e4db5cb3e59e819a8933966eb2d625668403bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:29 +0000
Subject: [PATCH 073/125] fix: SAC no longer writes into the critic parameters
 of the caller

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
index 43dbe7c..13fffd0 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py
@@ -223,7 +223,7 @@ class SAC(DeepAC):
         if 'n_models' in critic_params.keys():
             assert critic_params['n_models'] == 2
         else:
-            critic_params['n_models'] = 2
+            critic_params = dict(critic_params, n_models=2)
 
         target_critic_params = deepcopy(critic_params)
         self._critic_approximator = Regressor(TorchApproximator, **critic_params)
-- 
2.43.0


From a142a1c4a2657776f1daf2583c4ec880ab468506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:29 +0000
Subject: [PATCH 074/125] fix: TD3 no longer writes into the critic parameters
 of the caller

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 4b0432b..e0a8deb 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -51,7 +51,7 @@ class TD3(DDPG):
         if 'n_models' in critic_params.keys():
             assert(critic_params['n_models'] >= 2)
         else:
-            critic_params['n_models'] = 2
+            critic_params = dict(critic_params, n_models=2)
 
         super().__init__(mdp_info, policy_class, policy_params, actor_params, actor_optimizer, critic_params,
                          batch_size, initial_replay_size, max_replay_size, tau, policy_delay, critic_fit_params)
-- 
2.43.0


From 7aba98882b338a7aca4883debbddad41b4f38b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:29 +0000
Subject: [PATCH 075/125] fix: a loaded Mellowmax policy computes its
 temperature from its own action values

---
 mushroom_rl/policy/td_policy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index 9665802..c3038ca 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -189,7 +189,7 @@ class Mellowmax(Boltzmann):
 
             self._add_save_attr(
                 _omega='primitive',
-                _outer='primitive',
+                _outer='none',
                 _beta_min='primitive',
                 _beta_max='primitive',
             )
@@ -231,6 +231,9 @@ class Mellowmax(Boltzmann):
 
         super().__init__(beta_mellow, policy_state_shape)
 
+    def _post_load(self):
+        self._beta._outer = self
+
     def set_beta(self, beta):
         raise RuntimeError('Cannot change the beta parameter of Mellowmax policy')
 
-- 
2.43.0


From 660bcf7859898503cb24d61e8bc060c57e9d36fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:09 +0000
Subject: [PATCH 076/125] fix: the quantile loss of QuantileDQN depends on its
 own quantiles, not on the last agent built

---
 mushroom_rl/algorithms/value/dqn/quantile_dqn.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
index 7a96e61..7d7e0c5 100644
--- a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
@@ -11,7 +11,9 @@ from mushroom_rl.approximators.parametric import NumpyTorchApproximator
 
 
 def quantile_huber_loss(input, target):
-    tau = QuantileDQN.tau_hat.repeat(input.shape[0], 1)
+    n_quantiles = input.shape[-1]
+    tau = torch.arange(n_quantiles + 1, device=input.device) / n_quantiles
+    tau = ((tau[:-1] + tau[1:]) / 2).repeat(input.shape[0], 1)
 
     target = target.t().unsqueeze(-1).repeat(1, 1, tau.shape[-1])
     input = input.repeat(tau.shape[-1], 1, 1)
@@ -88,9 +90,6 @@ class QuantileDQN(AbstractDQN):
 
         self._n_quantiles = n_quantiles
 
-        tau = torch.arange(n_quantiles + 1) / n_quantiles
-        QuantileDQN.tau_hat = torch.Tensor([(tau[i-1] + tau[i]) / 2 for i in range(1, len(tau))])
-
         self._add_save_attr(
             _n_quantiles='primitive'
         )
-- 
2.43.0


From c6359043c2252cc296ab30c7a498364268cc6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:23 +0000
Subject: [PATCH 077/125] fix: compute the quantities derived from the joint
 state when a MuJoCo environment is reset

---
 mushroom_rl/environments/mujoco.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..e22fbe7 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -118,6 +118,7 @@ class MuJoCo(Environment):
     def reset(self, obs=None):
         mujoco.mj_resetData(self._model, self._data)
         self.setup(obs)
+        self._update_derived_quantities()
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
         return self._modify_observation(self._obs), {}
@@ -171,6 +172,15 @@ class MuJoCo(Environment):
             del self._viewer
             self._viewer = None
 
+    def _update_derived_quantities(self):
+        """
+        Update the quantities that MuJoCo derives from the joint positions and velocities (e.g. body poses, body
+        velocities and contacts), which are not computed by a reset of the simulation.
+
+        """
+        mujoco.mj_fwdPosition(self._model, self._data)
+        mujoco.mj_fwdVelocity(self._model, self._data)
+
     def _modify_mdp_info(self, mdp_info):
         """
         This method can be overridden to modify the automatically generated MDPInfo data structure.
@@ -683,6 +693,7 @@ class MultiMuJoCo(MuJoCo):
         self._data = self._datas[self._current_model_idx]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
         self.setup(obs)
+        self._update_derived_quantities()
 
         if self._viewer is not None and self.more_than_one_env:
             self._viewer.load_new_model(self._model)
-- 
2.43.0


From 87f12ed3d5abddb6412fe70eb3d2e89dcfc24625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:34 +0000
Subject: [PATCH 078/125] fix: remove_obs finds the entry to remove for any
 order of removals

---
 mushroom_rl/utils/mujoco/observation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/mujoco/observation_helper.py b/mushroom_rl/utils/mujoco/observation_helper.py
index 77429e8..79075a2 100644
--- a/mushroom_rl/utils/mujoco/observation_helper.py
+++ b/mushroom_rl/utils/mujoco/observation_helper.py
@@ -92,7 +92,7 @@ class ObservationHelper:
         The index is always of the original observation!
         """
         indices = self.obs_idx_map[key]
-        adjusted_index = index - len(self.build_omit_idx[key])
+        adjusted_index = index - sum(omitted < index for omitted in self.build_omit_idx[key])
 
         self.obs_low = np.delete(self.obs_low, indices[adjusted_index])
         self.obs_high = np.delete(self.obs_high, indices[adjusted_index])
-- 
2.43.0


From 45f97e24de6c8ec9ec7d9d09a118b26bdcd939ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:34 +0000
Subject: [PATCH 079/125] fix: MultiMuJoCo reset returns the observation and
 the info dictionary

---
 mushroom_rl/environments/mujoco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e22fbe7..79c8620 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -699,7 +699,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From a0125f3ca30ad11c399e6c38f96a24156fe3417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:08 +0000
Subject: [PATCH 080/125] fix: MultiMuJoCo applies the given timestep to every
 model

---
 mushroom_rl/environments/mujoco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 79c8620..b37cbd2 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -597,7 +597,8 @@ class MultiMuJoCo(MuJoCo):
         self._current_model_idx = 0
         self._model = self._models[self._current_model_idx]
         if timestep is not None:
-            self._model.opt.timestep = timestep
+            for m in self._models:
+                m.opt.timestep = timestep
             self._timestep = timestep
         else:
             self._timestep = self._model.opt.timestep
-- 
2.43.0


From 3d168f6d7bd57c84e54fe299760539ab149c4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:08 +0000
Subject: [PATCH 081/125] fix: MultiMuJoCo builds and checks the observation
 helper of every model

---
 mushroom_rl/environments/mujoco.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index b37cbd2..83b2c63 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -630,8 +630,7 @@ class MultiMuJoCo(MuJoCo):
 
         # Read the observation spec to build a mapping at every step. It is
         # ensured that the values appear in the order they are specified.
-        self.obs_helpers = [ObservationHelper(observation_spec, self._model, self._data,
-                                              max_joint_velocity=max_joint_vel)
+        self.obs_helpers = [ObservationHelper(observation_spec, m, d, max_joint_velocity=max_joint_vel)
                             for m, d in zip(self._models, self._datas)]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
 
@@ -639,7 +638,7 @@ class MultiMuJoCo(MuJoCo):
 
         # multi envs with different obs limits are now allowed, do sanity check
         for oh in self.obs_helpers:
-            low, high = self.obs_helper.get_obs_limits()
+            low, high = oh.get_obs_limits()
             if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
                 raise ValueError("The provided environments differ in the their observation limits. "
                                  "This is not allowed.")
-- 
2.43.0


From eac9a1152f57e9103f7697fbe2844fe1517a5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:29 +0000
Subject: [PATCH 082/125] fix: MultiMuJoCo collision groups refer to the geoms
 of the active model

---
 mushroom_rl/environments/mujoco.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 83b2c63..110d162 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -650,16 +650,18 @@ class MultiMuJoCo(MuJoCo):
             for key, name, ot in additional_data_spec:
                 self.additional_data[key] = (name, ot)
 
-        # Pre-process the collision groups for "fast" detection of contacts
-        self.collision_groups = {}
+        # Pre-process the collision groups for "fast" detection of contacts. The ids of the geoms depend on the model
+        self._collision_groups_list = [dict() for _ in self._models]
         if collision_groups is not None:
-            for name, geom_names in collision_groups:
-                col_group = list()
-                for geom_name in geom_names:
-                    mj_id = mujoco.mj_name2id(self._model, mujoco.mjtObj.mjOBJ_GEOM, geom_name)
-                    assert mj_id != -1, f"geom \"{geom_name}\" not found! Can't be used for collision-checking."
-                    col_group.append(mj_id)
-                self.collision_groups[name] = set(col_group)
+            for m, groups in zip(self._models, self._collision_groups_list):
+                for name, geom_names in collision_groups:
+                    col_group = list()
+                    for geom_name in geom_names:
+                        mj_id = mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_GEOM, geom_name)
+                        assert mj_id != -1, f"geom \"{geom_name}\" not found! Can't be used for collision-checking."
+                        col_group.append(mj_id)
+                    groups[name] = set(col_group)
+        self.collision_groups = self._collision_groups_list[self._current_model_idx]
 
         # Finally, we create the MDP information and call the constructor of
         # the parent class
@@ -692,6 +694,7 @@ class MultiMuJoCo(MuJoCo):
         self._model = self._models[self._current_model_idx]
         self._data = self._datas[self._current_model_idx]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
+        self.collision_groups = self._collision_groups_list[self._current_model_idx]
         self.setup(obs)
         self._update_derived_quantities()
 
-- 
2.43.0


From 65d3fc3ac18f6d848be00a82b552e21b345786c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 083/125] fix: resetting a gym environment to a given state
 sets the state of the wrapped environment

---
 mushroom_rl/environments/gym_env.py       | 2 +-
 mushroom_rl/environments/gymnasium_env.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..8894d42 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), {}
 
diff --git a/mushroom_rl/environments/gymnasium_env.py b/mushroom_rl/environments/gymnasium_env.py
index ee42945..2d2fc4f 100644
--- a/mushroom_rl/environments/gymnasium_env.py
+++ b/mushroom_rl/environments/gymnasium_env.py
@@ -89,7 +89,7 @@ class Gymnasium(Environment):
             return np.atleast_1d(state), info
         else:
             _, info = self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), info
 
-- 
2.43.0


From 7ff1854b6fe782c4079c6e4bccd6900833a9e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 084/125] fix: the arguments of a gym environment are not
 passed to its wrappers

---
 mushroom_rl/environments/gym_env.py       | 2 +-
 mushroom_rl/environments/gymnasium_env.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 8894d42..930e597 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -58,7 +58,7 @@ class Gym(Environment):
                 if isinstance(wrapper, tuple):
                     self.env = wrapper[0](self.env, **args, **wrapper[1])
                 else:
-                    self.env = wrapper(self.env, **args, **env_args)
+                    self.env = wrapper(self.env, **args)
 
         horizon = self._set_horizon(self.env, horizon)
 
diff --git a/mushroom_rl/environments/gymnasium_env.py b/mushroom_rl/environments/gymnasium_env.py
index 2d2fc4f..8dfab98 100644
--- a/mushroom_rl/environments/gymnasium_env.py
+++ b/mushroom_rl/environments/gymnasium_env.py
@@ -62,7 +62,7 @@ class Gymnasium(Environment):
                 if isinstance(wrapper, tuple):
                     self.env = wrapper[0](self.env, **args, **wrapper[1])
                 else:
-                    self.env = wrapper(self.env, **args, **env_args)
+                    self.env = wrapper(self.env, **args)
 
         horizon = self._set_horizon(self.env, horizon)
 
-- 
2.43.0


From aa82b3fd8e63cd5e98fe6cdf659509bc2f828458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 085/125] fix: average pooling of Atari frames returns an 8 bit
 image

---
 mushroom_rl/environments/atari.py           | 2 +-
 mushroom_rl/environments/gymnasium_atari.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/atari.py b/mushroom_rl/environments/atari.py
index 2f62b87..e40ea5b 100644
--- a/mushroom_rl/environments/atari.py
+++ b/mushroom_rl/environments/atari.py
@@ -33,7 +33,7 @@ class MaxAndSkip(gym.Wrapper):
         if self._max_pooling:
             frame = self._obs_buffer.max(axis=0)
         else:
-            frame = self._obs_buffer.mean(axis=0)
+            frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
         return frame, total_reward, absorbing, info
 
diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 8f52b9c..1493af8 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -33,7 +33,7 @@ class MaxAndSkip(gym.Wrapper):
         if self._max_pooling:
             frame = self._obs_buffer.max(axis=0)
         else:
-            frame = self._obs_buffer.mean(axis=0)
+            frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
         return frame, total_reward, absorbing, info
 
-- 
2.43.0


From f2c819623dd3e075edaa7b16b2014bc28cf5dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:58 +0000
Subject: [PATCH 086/125] fix: the frame skipping wrapper of gymnasium Atari
 returns the five values of the gymnasium interface

---
 mushroom_rl/environments/gymnasium_atari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 1493af8..61f06ad 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -22,7 +22,7 @@ class MaxAndSkip(gym.Wrapper):
     def step(self, action):
         total_reward = 0.
         for i in range(self._skip):
-            obs, reward, absorbing, _, info = self.env.step(action)
+            obs, reward, absorbing, truncated, info = self.env.step(action)
             if i == self._skip - 2:
                 self._obs_buffer[0] = obs
             if i == self._skip - 1:
@@ -35,7 +35,7 @@ class MaxAndSkip(gym.Wrapper):
         else:
             frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
-        return frame, total_reward, absorbing, info
+        return frame, total_reward, absorbing, truncated, info
 
     def reset(self, **kwargs):
         return self.env.reset(**kwargs)
-- 
2.43.0


From 2e78c26597ea22eaf3f03d0ab00ec9814d1f5488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:58 +0000
Subject: [PATCH 087/125] fix: gymnasium Atari can be reset after a lost life

---
 mushroom_rl/environments/gymnasium_atari.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 61f06ad..584324a 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -102,6 +102,7 @@ class GymnasiumAtari(Environment):
         super().__init__(mdp_info)
 
     def reset(self, state=None):
+        info = {}
         if self._real_reset:
             state, info = self.env.reset()
             self._state = preprocess_frame(state, self._img_size)
-- 
2.43.0


From 97e8eadf0eeb7e8a0f2e0f06503063249b377bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 088/125] fix: the MiniGrid time limit is removed from the
 wrapped environment

---
 mushroom_rl/environments/minigrid_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/minigrid_env.py b/mushroom_rl/environments/minigrid_env.py
index 1a13d3d..0f3bb1a 100644
--- a/mushroom_rl/environments/minigrid_env.py
+++ b/mushroom_rl/environments/minigrid_env.py
@@ -67,7 +67,7 @@ class MiniGrid(Gym):
         action_space = Discrete(self.env.action_space.n)
         observation_space = Box(
             low=0., high=obs_high, shape=(history_length, self._img_size[1], self._img_size[0]))
-        self.env.max_steps = horizon + 1 # Hack to ignore gym time limit (do not use np.inf, since MiniGrid returns r(t) = 1 - 0.9t/T)
+        self.env.unwrapped.max_steps = horizon + 1 # Hack to ignore gym time limit (do not use np.inf, since MiniGrid returns r(t) = 1 - 0.9t/T)
         dt = 1/self.env.unwrapped.metadata["render_fps"]
         mdp_info = MDPInfo(observation_space, action_space, gamma, horizon, dt)
 
-- 
2.43.0


From aec230f4d64f7d8f87d2cece5302123ca5bf68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:10 +0000
Subject: [PATCH 089/125] fix: MiniGrid uses the fixed seed at every reset

---
 mushroom_rl/environments/minigrid_env.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/environments/minigrid_env.py b/mushroom_rl/environments/minigrid_env.py
index 0f3bb1a..75696ce 100644
--- a/mushroom_rl/environments/minigrid_env.py
+++ b/mushroom_rl/environments/minigrid_env.py
@@ -76,6 +76,8 @@ class MiniGrid(Gym):
         self._state = None
 
     def reset(self, state=None):
+        if self._fixed_seed is not None:
+            self.env.seed(self._fixed_seed)
         self._state = preprocess_frame(self.env.reset(), self._img_size)
         self._state = deque([deepcopy(
             self._state) for _ in range(self._history_length)],
-- 
2.43.0


From fe691bf7ee9e36c968076b5118e7bbb82964f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:32 +0000
Subject: [PATCH 090/125] fix: unlimited pybullet joints have infinite position
 bounds

---
 mushroom_rl/utils/pybullet/index_map.py     | 11 +++++++----
 mushroom_rl/utils/pybullet/joints_helper.py | 12 ++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/utils/pybullet/index_map.py b/mushroom_rl/utils/pybullet/index_map.py
index 8b21056..2796450 100644
--- a/mushroom_rl/utils/pybullet/index_map.py
+++ b/mushroom_rl/utils/pybullet/index_map.py
@@ -2,6 +2,7 @@ import numpy as np
 import pybullet
 from .observation import PyBulletObservationType
 from .contacts import ContactHelper
+from .joints_helper import joint_position_limits
 
 
 class IndexMap(object):
@@ -123,8 +124,9 @@ class IndexMap(object):
         for model_id, joint_id, mode in self.action_data:
             joint_info = self._client.getJointInfo(model_id, joint_id)
             if mode is pybullet.POSITION_CONTROL:
-                low.append(joint_info[8])
-                high.append(joint_info[9])
+                joint_low, joint_high = joint_position_limits(joint_info)
+                low.append(joint_low)
+                high.append(joint_high)
             elif mode is pybullet.VELOCITY_CONTROL:
                 low.append(-joint_info[11])
                 high.append(joint_info[11])
@@ -160,8 +162,9 @@ class IndexMap(object):
                 joint_info = self._client.getJointInfo(model_id, joint_id)
 
                 if obs_type is PyBulletObservationType.JOINT_POS:
-                    low.append(joint_info[8])
-                    high.append(joint_info[9])
+                    joint_low, joint_high = joint_position_limits(joint_info)
+                    low.append(joint_low)
+                    high.append(joint_high)
                 else:
                     max_joint_vel = joint_info[11]
                     low.append(-max_joint_vel)
diff --git a/mushroom_rl/utils/pybullet/joints_helper.py b/mushroom_rl/utils/pybullet/joints_helper.py
index 7d096c7..7620520 100644
--- a/mushroom_rl/utils/pybullet/joints_helper.py
+++ b/mushroom_rl/utils/pybullet/joints_helper.py
@@ -3,6 +3,13 @@ import numpy as np
 from .observation import PyBulletObservationType
 
 
+def joint_position_limits(joint_info):
+    # PyBullet reports a lower limit greater than the upper one for the joints without position limits
+    low, high = joint_info[8], joint_info[9]
+
+    return (low, high) if low <= high else (-np.inf, np.inf)
+
+
 class JointsHelper(object):
     def __init__(self, client, indexer, observation_spec):
         self._joint_pos_indexes = list()
@@ -24,8 +31,9 @@ class JointsHelper(object):
 
                 model_id, joint_id = indexer.joint_map[joint_name]
                 joint_info = client.getJointInfo(model_id, joint_id)
-                joint_limits_low.append(joint_info[8])
-                joint_limits_high.append(joint_info[9])
+                joint_low, joint_high = joint_position_limits(joint_info)
+                joint_limits_low.append(joint_low)
+                joint_limits_high.append(joint_high)
 
         self._joint_limits_low = np.array(joint_limits_low)
         self._joint_limits_high = np.array(joint_limits_high)
-- 
2.43.0


From 80f268e0ab96fb39ecc2007c7f85b305328c0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:39 +0000
Subject: [PATCH 091/125] fix: pybullet contact flags see contacts between
 links of the same model

---
 mushroom_rl/utils/pybullet/contacts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/utils/pybullet/contacts.py b/mushroom_rl/utils/pybullet/contacts.py
index b886efc..d951e12 100644
--- a/mushroom_rl/utils/pybullet/contacts.py
+++ b/mushroom_rl/utils/pybullet/contacts.py
@@ -25,9 +25,9 @@ class ContactHelper(object):
             contacts_points = self._client.getContactPoints(model_a, model_b)
 
             for contact_p in contacts_points:
-                involved_links = contact_p[3:5]
-                if involved_links in contact[1]:
-                    self._computed_contacts[model_a][model_b][contact_p[3]][contact_p[4]] = contact_p
+                _, _, link_a, link_b = self._order_contact(*contact_p[1:5])
+                if (link_a, link_b) in contact[1]:
+                    self._computed_contacts[model_a][model_b][link_a][link_b] = contact_p
 
     def get_contact(self, contact_name):
         model_1, model_2, link_1, link_2 = self._order_contact(*self._contact_name_map[contact_name])
@@ -76,7 +76,7 @@ class ContactHelper(object):
 
     @staticmethod
     def _order_contact(model_1, model_2, link_1, link_2):
-        if model_1 < model_2:
+        if (model_1, link_1) < (model_2, link_2):
             model_a = model_1
             link_a = link_1
             model_b = model_2
-- 
2.43.0


From d1179011637a8d2c77828de77dad5fb3974d85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:47 +0000
Subject: [PATCH 092/125] fix: the air hockey puck velocity starts with its
 linear components

---
 mushroom_rl/environments/mujoco_envs/air_hockey/base.py   | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
index 020f81c..5616ea4 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
@@ -151,8 +151,8 @@ class AirHockeyBase(MuJoCo):
             rot_mat = robot_frame[:3, :3]
 
             vel_lin = np.zeros(3)
-            vel_lin[:2] = puck_in[1:]
+            vel_lin[:2] = puck_in[:2]
 
             vel_target = rot_mat.T @ vel_lin
 
-            puck_in[1:] = vel_target[:2]
+            puck_in[:2] = vel_target[:2]
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 27308b0..9cdb236 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -55,8 +55,8 @@ class AirHockeyDouble(AirHockeyBase):
 
     def get_puck(self, obs):
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index 5d138a9..a958dba 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -53,8 +53,8 @@ class AirHockeySingle(AirHockeyBase):
 
         """
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self):
-- 
2.43.0


From 575704dc7ffcf234abfffa0acd97bc6590b2ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:47 +0000
Subject: [PATCH 093/125] fix: air hockey joint position constraints use the
 joint positions

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 9cdb236..be83cd9 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -140,8 +140,8 @@ class AirHockeyDouble(AirHockeyBase):
 
             # joint_pos_constraint: stay within the robots joint position limits
             constraints[key]["joint_pos_constraints"] = np.zeros(6)
-            constraints[key]["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
-            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_vel
+            constraints[key]["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
+            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_pos
 
             # joint_vel_constraint: stay within the robots joint velocity limits
             constraints[key]["joint_vel_constraints"] = np.zeros(6)
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index a958dba..5a636d6 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -125,8 +125,8 @@ class AirHockeySingle(AirHockeyBase):
 
         # joint_pos_constraint: stay within the robots joint position limits
         constraints["joint_pos_constraints"] = np.zeros(6)
-        constraints["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1]
-        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_vel
+        constraints["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1]
+        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_pos
 
         # joint_vel_constraint: stay within the robots joint velocity limits
         constraints["joint_vel_constraints"] = np.zeros(6)
-- 
2.43.0


From 6403d2e3dd065255a79f78ba9bb022b6c25b3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:47 +0000
Subject: [PATCH 094/125] fix: the air hockey rim collision group contains all
 the rims

---
 mushroom_rl/environments/mujoco_envs/air_hockey/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
index 5616ea4..358ce6b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
@@ -41,7 +41,7 @@ class AirHockeyBase(MuJoCo):
                            ("puck_vel", "puck", ObservationType.JOINT_VEL)]
 
         collision_spec = [("puck", ["puck"]),
-                          ("rim", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_l", "rim_left", "rim_right"]),
+                          ("rim", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_r", "rim_left", "rim_right"]),
                           ("rim_short_sides", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_r"])]
 
         if 1 <= self.n_agents <= 2:
-- 
2.43.0


From 901e4c0f13df9648fc819d916fc26adbcafde979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:47 +0000
Subject: [PATCH 095/125] fix: the second air hockey robot detects its own hits

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index be83cd9..fe0515b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -106,7 +106,7 @@ class AirHockeyDouble(AirHockeyBase):
             self.robot_1_hit = self._check_collision("puck", "robot_1/ee")
 
         if not self.robot_2_hit:
-            self.robot_2_hit = self._check_collision("puck", "robot_1/ee")
+            self.robot_2_hit = self._check_collision("puck", "robot_2/ee")
 
         if not self.has_bounce:
             self.has_bounce = self._check_collision("puck", "rim_short_sides")
-- 
2.43.0


From 6a64de01de2550a6a50e149931fa01df7be9c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:47 +0000
Subject: [PATCH 096/125] fix: air hockey double get_ee reads the end effector
 of the given robot

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index fe0515b..266f56b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -60,9 +60,9 @@ class AirHockeyDouble(AirHockeyBase):
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
-        ee_pos = self._read_data("planar_robot_" + str(robot) + "/ee_pos")
+        ee_pos = self._read_data("robot_" + str(robot) + "/ee_pos")
 
-        ee_vel = self._read_data("planar_robot_" + str(robot) + "/ee_vel")
+        ee_vel = self._read_data("robot_" + str(robot) + "/ee_vel")
 
         return ee_pos, ee_vel
 
-- 
2.43.0


From 5318e1db9f69a8dc6dd405c1a9e554ea71bdecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:35 +0000
Subject: [PATCH 097/125] fix: pybullet air hockey can be used with noisy
 dynamics

---
 mushroom_rl/environments/pybullet_envs/air_hockey/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
index dfd7462..3576770 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
@@ -137,7 +137,7 @@ class AirHockeyBaseBullet(PyBullet):
     def _simulation_pre_step(self):
         if self.env_noise:
             force = np.concatenate([np.random.randn(2), [0]]) * 0.0005
-            self._client.applyExternalForce(self._model_map['puck']['id'], -1, force, [0., 0., 0.],
+            self._client.applyExternalForce(self._model_map['puck'], -1, force, [0., 0., 0.],
                                             self._client.WORLD_FRAME)
 
     def is_absorbing(self, state):
-- 
2.43.0


From adb50e330b413a1c16f37cac594f47afa5711694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:35 +0000
Subject: [PATCH 098/125] fix: pybullet air hockey can be used with noisy
 observations

---
 mushroom_rl/environments/pybullet_envs/air_hockey/double.py | 1 -
 mushroom_rl/environments/pybullet_envs/air_hockey/single.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index 56aac56..8b9ff7c 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -64,7 +64,6 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
 
             if self.obs_noise:
                 puck_pose_2d[:2] += np.random.randn(2) * 0.001
-                puck_pose_2d[2] += np.random.randn(1) * 0.001
 
             puck_lin_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)
             puck_ang_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_ANG_VEL)
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index 3e61828..d23c8ea 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -58,7 +58,6 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
 
         if self.obs_noise:
             puck_pose_2d[:2] += np.random.randn(2) * 0.001
-            puck_pose_2d[2] += np.random.randn(1) * 0.001
 
         puck_lin_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)
         puck_ang_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_ANG_VEL)
-- 
2.43.0


From 0527087d46942eaa4298ea2690d8b84639c328f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:35 +0000
Subject: [PATCH 099/125] fix: pybullet air hockey can be used with delayed
 velocity observations

---
 .../environments/pybullet_envs/air_hockey/double.py   | 11 ++++++++---
 .../environments/pybullet_envs/air_hockey/single.py   |  9 +++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index 8b9ff7c..afd02e6 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -24,6 +24,11 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
         self._change_dynamics()
         self._disable_collision()
 
+    def reset(self, state=None):
+        self.obs_prev = None
+
+        return super().reset(state)
+
     def _modify_mdp_info(self, mdp_info):
         """
         Robot 1:
@@ -77,10 +82,10 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
             robot_vel[2] = self.get_sim_state(state, self.agents[i]['name'] + "/joint_3",
                                               PyBulletObservationType.JOINT_VEL)
 
-            if self.obs_delay:
+            if self.obs_delay and self.obs_prev is not None:
                 alpha = 0.5
-                puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[i][3:6]
-                robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[i][9:12]
+                puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[i * 11 + 2:i * 11 + 5]
+                robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[i * 11 + 8:i * 11 + 11]
 
             obs[i * 11:(i+1) * 11] = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
         self.obs_prev = obs
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index d23c8ea..1267879 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -32,6 +32,11 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         self._change_dynamics()
         self._disable_collision()
 
+    def reset(self, state=None):
+        self.obs_prev = None
+
+        return super().reset(state)
+
     def _modify_mdp_info(self, mdp_info):
         """
         puck position indexes: [0, 1]
@@ -71,9 +76,9 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         robot_vel[2] = self.get_sim_state(state, self.agents[0]['name'] + "/joint_3",
                                           PyBulletObservationType.JOINT_VEL)
 
-        if self.obs_delay:
+        if self.obs_delay and self.obs_prev is not None:
             alpha = 0.5
-            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:6]
+            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:5]
             robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[8:11]
 
         self.obs_prev = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
-- 
2.43.0


From 739367eb42a4999c674d56d6d3a33beb44920e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:35 +0000
Subject: [PATCH 100/125] fix: pybullet air hockey keeps the control period in
 the MDP info

---
 mushroom_rl/environments/pybullet_envs/air_hockey/double.py | 2 +-
 mushroom_rl/environments/pybullet_envs/air_hockey/single.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index afd02e6..3ada98e 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -53,7 +53,7 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
         obs_high[11:13] = [1, 0.5]
         observation_space = Box(low=obs_low, high=obs_high)
 
-        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon)
+        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)
 
 
     def _create_observation(self, state):
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index 1267879..0bc4e52 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -50,7 +50,7 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         obs_low[0:2] = [-1, -0.5]
         obs_high[0:2] = [1, 0.5]
         observation_space = Box(low=obs_low, high=obs_high)
-        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon)
+        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)
 
     def _create_observation(self, state):
         puck_pose = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_POS)
-- 
2.43.0


From 8101fb0c9bf404eef4d47c0a7b7ff308cdf75e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:57 +0000
Subject: [PATCH 101/125] fix: pybullet air hockey prepare ends the episode at
 the state reached

---
 mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py b/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py
index 9c5c96e..a244254 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py
@@ -136,13 +136,13 @@ class AirHockeyPrepareBullet(AirHockeySingleBullet):
             return True
         if self.sub_problem == "side":
             if self.has_hit:
-                puck_pos = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_POS)[:2]
+                puck_pos = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_POS)[:2]
                 if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                     return True
             return self.has_bounce
         else:
             if self.has_hit:
-                puck_pos = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_POS)[:2]
+                puck_pos = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_POS)[:2]
                 if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                     return True
             return False
-- 
2.43.0


From 501776c6145840527e2535b7b57845eca74735a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:01 +0000
Subject: [PATCH 102/125] fix: pybullet air hockey hit uses the puck velocity
 of the state reached

---
 mushroom_rl/environments/pybullet_envs/air_hockey/hit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py b/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py
index ecee285..e87cc52 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py
@@ -82,7 +82,7 @@ class AirHockeyHitBullet(AirHockeySingleBullet):
         r = 0
         puck_pos = self.get_sim_state(next_state, "puck", PyBulletObservationType.BODY_POS)[:2]
 
-        puck_vel = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
+        puck_vel = self.get_sim_state(next_state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
 
         # If puck is out of bounds
         if absorbing:
@@ -130,7 +130,7 @@ class AirHockeyHitBullet(AirHockeySingleBullet):
         if super().is_absorbing(state):
             return True
         if self.has_hit:
-            puck_vel = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
+            puck_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
             if np.linalg.norm(puck_vel) < 0.01:
                 return True
         return self.has_bounce
@@ -138,7 +138,7 @@ class AirHockeyHitBullet(AirHockeySingleBullet):
     def _simulation_post_step(self):
         if not self.has_hit:
             # Kinda bad
-            puck_vel = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
+            puck_vel = np.array(self.client.getBaseVelocity(self._model_map['puck'])[0][:2])
             if np.linalg.norm(puck_vel) > 0.1:
                 self.has_hit = True
 
-- 
2.43.0


From 24a2feacf2b0901550e33f612686b1d2f4e08165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:37 +0000
Subject: [PATCH 103/125] fix: CollectDataset can be cleaned before anything is
 collected

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From 327c45bde208fb1ffd0b031128664b4c94b03a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 104/125] fix: ProMP computes its phase from the policy state
 and leaves recorded policy states alone

---
 mushroom_rl/policy/promps.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..532470c 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -46,17 +46,17 @@ class ProMP(ParametricPolicy):
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
+    def __call__(self, state, action, policy_state):
+        z = self._compute_phase(state, policy_state)
         mu = self._approximator(self._phi(z))
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.array_equal(mu, action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
+        z = self._compute_phase(state, policy_state)
 
         mu = self._approximator(self._phi(z))
 
@@ -72,22 +72,27 @@ class ProMP(ParametricPolicy):
         Method that updates the time counter. Can be overridden to introduce complex state-dependant behaviors.
 
         Args:
-            state (np.ndarray): The current state of the system.
+            state (np.ndarray): The current state of the system;
+            policy_state (np.ndarray): The current time counter.
+
+        Returns:
+            The next value of the time counter.
 
         """
-        policy_state += 1
+        next_policy_state = policy_state + 1
 
-        if not self._periodic and policy_state >= self._duration:
-            policy_state = self._duration
+        if not self._periodic:
+            next_policy_state = np.minimum(next_policy_state, self._duration)
 
-        return policy_state
+        return next_policy_state
 
     def _compute_phase(self, state, policy_state):
         """
         Method that updates the state variable. It can be overridden to implement state dependent phase.
 
         Args:
-            state (np.ndarray): The current state of the system.
+            state (np.ndarray): The current state of the system;
+            policy_state (np.ndarray): The current time counter.
 
         Returns:
             The current value of the phase variable
@@ -114,4 +119,4 @@ class ProMP(ParametricPolicy):
         self._duration = duration - 1
 
     def reset(self):
-        return 0
+        return np.zeros(self.policy_state_shape)
-- 
2.43.0


From 746b0e3e71b4bc3e2abcd96a7c4eaa545c2c16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 105/125] fix: movement primitives can be saved with their
 features

---
 mushroom_rl/policy/dmp.py    | 2 +-
 mushroom_rl/policy/promps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..7967ef6 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -34,7 +34,7 @@ class DMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _dt='primitive',
             _tau='primitive',
             _alpha_v='numpy',
diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index 532470c..34c2b81 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -40,7 +40,7 @@ class ProMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _duration='primitive',
             _sigma='numpy',
             _periodic='primitive'
-- 
2.43.0


From 616c44a2f110e581de0ad9da2ec30703ea76957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 106/125] fix: DMP implements the policy interface and returns
 its own copy of the action

---
 mushroom_rl/policy/dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 7967ef6..e2216bf 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -12,6 +12,8 @@ class DMP(ParametricPolicy):
 
     """
     def __init__(self, mu, phi, goal, dt, tau, alpha_v, beta_v, alpha_z, beta_z):
+        super().__init__()
+
         self._approximator = mu
         self._phi = phi
 
@@ -48,13 +50,13 @@ class DMP(ParametricPolicy):
             _y='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state=None):
+        return 1.0 if np.allclose(self._y, action) else 0.0
 
-    def draw_action(self, state):
+    def draw_action(self, state, policy_state=None):
         self.update_system(state)
 
-        return self._y
+        return self._y.copy(), None
 
     def set_goal(self, goal):
         self._g = goal
-- 
2.43.0


From 3cf07c180c5b82f8a1c500f72e8f78aacfb208e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 107/125] fix: the canonical system of DMP drives the phase
 variable to the goal

---
 mushroom_rl/policy/dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index e2216bf..e24e447 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -91,7 +91,7 @@ class DMP(ParametricPolicy):
         return y_dot, z_dot
 
     def _canonical_system(self, g):
-        v_dot = self._alpha_v * (self._beta_v * (g - self._y) - self._v) / self._tau
+        v_dot = self._alpha_v * (self._beta_v * (g - self._x) - self._v) / self._tau
         x_dot = self._v / self._tau
 
         return v_dot, x_dot
-- 
2.43.0


From 240a3ab8cd2758c583326b3acba9f57c8da94e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:53 +0000
Subject: [PATCH 108/125] fix: parallel black-box optimization restarts only
 the policies whose episode starts

---
 .../black_box_optimization/black_box_optimization.py            | 2 +-
 mushroom_rl/policy/vector_policy.py                             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index 8abfc98..688c668 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -83,7 +83,7 @@ class BlackBoxOptimization(Agent):
                         [self.distribution.sample() for _ in range(start_mask.sum())])
             self.policy.set_weights(theta)
 
-        policy_states = self.policy.reset()
+        policy_states = self.policy.reset(start_mask)
 
         return policy_states, theta
 
diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index c37c0b9..c6506c6 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -94,7 +94,7 @@ class VectorPolicy(ParametricPolicy):
                     if masked:
                         policy.reset()
         else:
-            policy_states = np.empty((len(self._policy_vector),) + self.policy_state_shape)
+            policy_states = np.zeros((len(self._policy_vector),) + self.policy_state_shape)
             if mask is None:
                 for i, policy in enumerate(self._policy_vector):
                     policy_states[i] = policy.reset()
-- 
2.43.0


From d359603ead7cd675b7e02e7dff270f3dc726bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 109/125] fix: vectorized core records the frame of each active
 environment

---
 mushroom_rl/core/vectorized_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index bacd701..d6ff6ac 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -160,9 +160,10 @@ class VectorCore(object):
             frames = self.env.render_all(mask, record=record)
 
             if record:
+                frames = iter(frames)
                 for i in range(self.env.number):
                     if mask[i]:
-                        self._record[i](frames[i])
+                        self._record[i](next(frames))
 
         last = absorbing | (self._episode_steps >= self.env.info.horizon)
 
-- 
2.43.0


From 3d25d0c826dba9fd7ecebdd99f6c57a0dfabd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 110/125] fix: video recorders never write over an existing
 video

---
 mushroom_rl/utils/record.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mushroom_rl/utils/record.py b/mushroom_rl/utils/record.py
index 2ffa000..c558185 100644
--- a/mushroom_rl/utils/record.py
+++ b/mushroom_rl/utils/record.py
@@ -49,19 +49,23 @@ class VideoRecorder(object):
 
     def _create_video_writer(self, height, width):
 
-        name = self._video_name
-        if self._counter > 0:
-            name += f"-{self._counter}.mp4"
-        else:
-            name += ".mp4"
-
         self._path.mkdir(parents=True, exist_ok=True)
 
-        path = self._path / name
+        path = self._get_video_path()
+        while path.exists():
+            self._counter += 1
+            path = self._get_video_path()
 
         self._video_writer = cv2.VideoWriter(str(path), cv2.VideoWriter_fourcc('m', 'p', '4', 'v'),
                                              self._fps, (width, height))
 
+    def _get_video_path(self):
+        name = self._video_name
+        if self._counter > 0:
+            name += f"-{self._counter}"
+
+        return self._path / f"{name}.mp4"
+
     def stop(self):
         cv2.destroyAllWindows()
         self._video_writer.release()
-- 
2.43.0


From d4b1c50b314857fb5ae194b8169db5895b9b9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 111/125] fix: stopping a video recorder that received no
 frames

---
 mushroom_rl/utils/record.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/utils/record.py b/mushroom_rl/utils/record.py
index c558185..970b87c 100644
--- a/mushroom_rl/utils/record.py
+++ b/mushroom_rl/utils/record.py
@@ -68,6 +68,7 @@ class VideoRecorder(object):
 
     def stop(self):
         cv2.destroyAllWindows()
-        self._video_writer.release()
-        self._video_writer = None
-        self._counter += 1
+        if self._video_writer is not None:
+            self._video_writer.release()
+            self._video_writer = None
+            self._counter += 1
-- 
2.43.0


From 70e9712564cfd253a02a76ed1f8f8bbfa9c591b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 112/125] fix: drawing a torque arrow moved the center passed
 by the caller

---
 mushroom_rl/utils/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/viewer.py b/mushroom_rl/utils/viewer.py
index 2680550..d4c0c92 100644
--- a/mushroom_rl/utils/viewer.py
+++ b/mushroom_rl/utils/viewer.py
@@ -279,7 +279,7 @@ class Viewer:
             pygame.draw.arc(self.screen, color, rect,
                             angle_start, angle_end, width)
 
-            arrow_center = center
+            arrow_center = np.array(center, dtype=float)
             arrow_center[1] -= radius * np.sign(torque)
             arrow_scale = radius / 4
             self.arrow_head(arrow_center, arrow_scale, 0, color)
-- 
2.43.0


From 185834c21298d8bc62d1b0f9ea0077166caf42f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:53 +0000
Subject: [PATCH 113/125] fix: pictures of non-square PyBullet viewers

---
 mushroom_rl/utils/pybullet/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/pybullet/viewer.py b/mushroom_rl/utils/pybullet/viewer.py
index ffaa975..7db994d 100644
--- a/mushroom_rl/utils/pybullet/viewer.py
+++ b/mushroom_rl/utils/pybullet/viewer.py
@@ -38,6 +38,6 @@ class PyBulletViewer(ImageViewer):
                                                        projectionMatrix=proj_matrix,
                                                        renderer=pybullet.ER_BULLET_HARDWARE_OPENGL)
 
-        rgb_array = np.reshape(np.array(px), (self._size[0], self._size[1], -1))
+        rgb_array = np.reshape(np.array(px), (self._size[1], self._size[0], -1))
         rgb_array = rgb_array[:, :, :3]
         return rgb_array
-- 
2.43.0


From 35423d3802bb77065f8124172f622d964630acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:36 +0000
Subject: [PATCH 114/125] fix: plot windows accept a single tracking flag, as
 documented

---
 mushroom_rl/utils/plots/window.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/utils/plots/window.py b/mushroom_rl/utils/plots/window.py
index b053757..57e5803 100644
--- a/mushroom_rl/utils/plots/window.py
+++ b/mushroom_rl/utils/plots/window.py
@@ -45,6 +45,9 @@ class Window(QSplitter):
         if not isinstance(self.plot_list, list):
             self.plot_list = [self.plot_list]
 
+        if isinstance(self._track_if_deactivated, bool):
+            self._track_if_deactivated = [self._track_if_deactivated] * len(self.plot_list)
+
         super().__init__(QtCore.Qt.Horizontal)
 
         self._activation_widget = QTreeWidget()
-- 
2.43.0


From fc707bb85413c5b3f7d45451d1e3540510927734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:11 +0000
Subject: [PATCH 115/125] fix: episodic PPO conditions densities and entropy on
 the contexts

---
 .../algorithms/policy_search/black_box_optimization/eppo.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index aa7edc8..6229709 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -47,7 +47,7 @@ class ePPO(BlackBoxOptimization):
 
         Jep = (Jep - J_mean) / (J_std + 1e-8)
 
-        old_dist = self.distribution.log_pdf(theta).detach()
+        old_dist = self.distribution.log_pdf(theta, context).detach()
 
         if self.distribution.is_contextual:
             full_batch = (theta, Jep, old_dist, context)
@@ -63,7 +63,7 @@ class ePPO(BlackBoxOptimization):
                 prob_ratio = torch.exp(self.distribution.log_pdf(theta_i, context_i) - old_dist_i)
                 clipped_ratio = torch.clamp(prob_ratio, 1 - self._eps_ppo(), 1 + self._eps_ppo.get_value())
                 loss = -torch.mean(torch.min(prob_ratio * Jep_i, clipped_ratio * Jep_i))
-                loss -= self._ent_coeff() * self.distribution.entropy(context_i)
+                loss -= self._ent_coeff() * torch.mean(self.distribution.entropy(context_i))
                 loss.backward()
                 self._optimizer.step()
 
-- 
2.43.0


From 795fc4c3750c70d22c6e84d04e0522e4d708197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:11 +0000
Subject: [PATCH 116/125] fix: parallel policies of the torch backend return
 torch arrays

---
 mushroom_rl/policy/vector_policy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index c6506c6..a0a901d 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -1,4 +1,5 @@
 import numpy as np
+import torch
 from copy import deepcopy
 
 from .policy import ParametricPolicy
@@ -32,7 +33,7 @@ class VectorPolicy(ParametricPolicy):
             if policy_next_state is not None:
                 policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
+        return self._stack(actions), None if len(policy_next_states) == 0 else self._stack(policy_next_states)
 
     def set_n(self, n_envs):
         if len(self) > n_envs:
@@ -70,7 +71,7 @@ class VectorPolicy(ParametricPolicy):
             weights_i = policy.get_weights()
             weight_list.append(weights_i)
 
-        return np.array(weight_list)
+        return self._stack(weight_list)
 
     @property
     def weights_size(self):
@@ -107,4 +108,8 @@ class VectorPolicy(ParametricPolicy):
     def __len__(self):
         return len(self._policy_vector)
 
+    @staticmethod
+    def _stack(arrays):
+        return torch.stack(arrays) if isinstance(arrays[0], torch.Tensor) else np.array(arrays)
+
 
-- 
2.43.0


From 02836e9d6be6a43aa68adfcee71fe952f927250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:11 +0000
Subject: [PATCH 117/125] fix: fit callbacks of the vectorized core get the
 data of the fit

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index d6ff6ac..e6987a3 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -126,7 +126,7 @@ class VectorCore(object):
                 last = self._core_logic.after_fit_vectorized(last)
 
                 for c in self.callbacks_fit:
-                    c(dataset)
+                    c(fit_dataset)
 
                 dataset.clear(self._core_logic.n_steps_per_fit)
 
-- 
2.43.0


From ae9cb98ee85f25a85cfb6353be3cc9624f253d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:11 +0000
Subject: [PATCH 118/125] fix: mellowmax uses one value of its parameter per
 distribution

---
 mushroom_rl/policy/td_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index c3038ca..a2e3a6d 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -196,8 +196,8 @@ class Mellowmax(Boltzmann):
 
         def __call__(self, state):
             q = self._outer._approximator.predict(state, **self._outer._predict_params)
-            mm = (logsumexp(q * self._omega(state)) - np.log(
-                q.size)) / self._omega(state)
+            omega = self._omega(state)
+            mm = (logsumexp(q * omega) - np.log(q.size)) / omega
 
             def f(beta):
                 v = q - mm
-- 
2.43.0


From df0c395b628c60af83fcd994b4578641d7be0ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:11 +0000
Subject: [PATCH 119/125] fix: both traces of the stochastic actor-critics
 decay with the same lambda

---
 .../actor_critic/classic_actor_critic/stochastic_ac.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py
index 7306b5d..29887d3 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py
@@ -87,7 +87,7 @@ class StochasticAC(Agent):
 
         # Update traces
         self._e_v = self.mdp_info.gamma * self._lambda() * self._e_v + s_psi
-        self._e_theta = self.mdp_info.gamma * self._lambda() * self._e_theta + self.policy.diff_log(s, a)
+        self._e_theta = self.mdp_info.gamma * self._lambda.get_value() * self._e_theta + self.policy.diff_log(s, a)
 
         return delta
 
@@ -121,6 +121,6 @@ class StochasticAC_AVG(StochasticAC):
         # Update traces
         self._r_bar += self._alpha_r() * delta
         self._e_v = self._lambda() * self._e_v + s_psi
-        self._e_theta = self._lambda() * self._e_theta + self.policy.diff_log(s, a)
+        self._e_theta = self._lambda.get_value() * self._e_theta + self.policy.diff_log(s, a)
 
         return delta
-- 
2.43.0


From 9ae261758632ef45999268eb6c0f8ce1bbc92010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:12 +0000
Subject: [PATCH 120/125] fix: bounds of the relative entropy methods advance
 once per fit

---
 .../policy_search/black_box_optimization/constrained_reps.py    | 2 +-
 .../algorithms/policy_search/black_box_optimization/more.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/constrained_reps.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/constrained_reps.py
index 83b7a7d..e81ad6b 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/constrained_reps.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/constrained_reps.py
@@ -48,7 +48,7 @@ class ConstrainedREPS(BlackBoxOptimization):
 
         d = np.exp(Jep / eta_opt)
 
-        self.distribution.con_wmle(theta, d, self._eps(), self._kappa())
+        self.distribution.con_wmle(theta, d, self._eps.get_value(), self._kappa())
 
     @staticmethod
     def _dual_function(eta_array, *args):
diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index c1456ca..70ba393 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -63,7 +63,7 @@ class MORE(BlackBoxOptimization):
 
     def _update(self, Jep, theta, context):
         
-        beta = self.kappa() * (self.distribution.entropy() - self.h0()) + self.h0()
+        beta = self.kappa() * (self.distribution.entropy() - self.h0()) + self.h0.get_value()
 
         n = len(self.distribution._mu)
         dist_params = self.distribution.get_parameters()
-- 
2.43.0


From e4d9f6369f12f96fce09febbd62526a84fc05fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:04 +0000
Subject: [PATCH 121/125] fix: gaining a life in Atari does not end the episode

---
 mushroom_rl/environments/atari.py           | 4 ++--
 mushroom_rl/environments/gymnasium_atari.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/environments/atari.py b/mushroom_rl/environments/atari.py
index e40ea5b..04d2ab6 100644
--- a/mushroom_rl/environments/atari.py
+++ b/mushroom_rl/environments/atari.py
@@ -125,11 +125,11 @@ class Atari(Environment):
         obs, reward, absorbing, info = self.env.step(action)
         self._real_reset = absorbing
         
-        if info['lives'] != self._lives:
+        if info['lives'] < self._lives:
             if self._episode_ends_at_life:
                 absorbing = True
-            self._lives = info['lives']
             self._force_fire = self.env.unwrapped.get_action_meanings()[1] == 'FIRE'
+        self._lives = info['lives']
 
         self._state.append(preprocess_frame(obs, self._img_size))
 
diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 584324a..3b6db91 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -132,11 +132,11 @@ class GymnasiumAtari(Environment):
         obs, reward, absorbing, _, info = self.env.step(action)
         self._real_reset = absorbing
         
-        if info['lives'] != self._lives:
+        if info['lives'] < self._lives:
             if self._episode_ends_at_life:
                 absorbing = True
-            self._lives = info['lives']
             self._force_fire = self.env.unwrapped.get_action_meanings()[1] == 'FIRE'
+        self._lives = info['lives']
 
         self._state.append(preprocess_frame(obs, self._img_size))
 
-- 
2.43.0


From da06bbcd8a046d44ffd98837e70c00c3f335fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:04 +0000
Subject: [PATCH 122/125] fix: the dm_control time limit is ignored with pixel
 observations too

---
 mushroom_rl/environments/dm_control_env.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/dm_control_env.py b/mushroom_rl/environments/dm_control_env.py
index a5edd2c..3410db5 100644
--- a/mushroom_rl/environments/dm_control_env.py
+++ b/mushroom_rl/environments/dm_control_env.py
@@ -42,8 +42,6 @@ class DMControl(Environment):
         """
         # MDP creation
         self.env = suite.load(domain_name, task_name, task_kwargs=task_kwargs)
-        if use_pixels:
-            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
 
         # get the default horizon
         if horizon is None:
@@ -52,6 +50,9 @@ class DMControl(Environment):
         # Hack to ignore dm_control time limit.
         self.env._step_limit = np.inf
 
+        if use_pixels:
+            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
+
         if use_pixels:
             self._convert_observation_space = self._convert_observation_space_pixels
             self._convert_observation = self._convert_observation_pixels
-- 
2.43.0


From 5fae810ee35e3e285444f55fac7f3d5c5018ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:03 +0000
Subject: [PATCH 123/125] fix: the default number of Voronoi tilings uses the
 dimension with normal prototypes too

---
 mushroom_rl/features/tiles/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/voronoi.py b/mushroom_rl/features/tiles/voronoi.py
index 05e4508..b061ca4 100644
--- a/mushroom_rl/features/tiles/voronoi.py
+++ b/mushroom_rl/features/tiles/voronoi.py
@@ -62,7 +62,7 @@ class VoronoiTiles:
         assert n_tilings > 0 or n_tilings == -1
 
         if n_tilings == -1:
-            d = np.size(low)  # space-dim
+            d = np.size(low) if uniform else np.size(mu)  # space-dim
             m = np.max([np.ceil(np.log(4 * d) / np.log(2)),
                         np.ceil(np.log(n_prototypes) / np.log(2))])
             n_tilings = int(m**2)
-- 
2.43.0


From 3dde8439baa6168d095e802ebfa3e8fbc5815ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:02 +0000
Subject: [PATCH 124/125] fix: entropy of the recurrent Gaussian policy uses
 the bounded standard deviation

---
 mushroom_rl/policy/recurrent_torch_policy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index e46627b..0842287 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -43,7 +43,9 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return self.distribution_t(state, policy_state, lengths).log_prob(action)[:, None]
 
     def entropy_t(self, state=None):
-        return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
+        log_sigma = torch.clamp(self._log_sigma, self._log_std_min.get_value(), self._log_std_max.get_value())
+
+        return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(log_sigma)
 
     def distribution(self, state, policy_state, lengths):
         s = TorchUtils.to_float_tensor(state)
-- 
2.43.0


From 323230d6525c041e8ec16fecf627100a9b5560c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:46 +0000
Subject: [PATCH 125/125] fix: the grid world start cell is drawn where the
 episodes start

---
 mushroom_rl/environments/grid_world.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/grid_world.py b/mushroom_rl/environments/grid_world.py
index 63b4bc1..3fc15c1 100644
--- a/mushroom_rl/environments/grid_world.py
+++ b/mushroom_rl/environments/grid_world.py
@@ -61,8 +61,7 @@ class AbstractGridWorld(Environment):
         goal_center = np.array([.5 + self._goal[1], self._height - (.5 + self._goal[0])])
         self._viewer.square(goal_center, 0, 1, (0, 255, 0))
 
-        start_grid = self.convert_to_grid(self._start, self._width)
-        start_center = np.array([.5 + start_grid[1], self._height - (.5 + start_grid[0])])
+        start_center = np.array([.5 + self._start[1], self._height - (.5 + self._start[0])])
         self._viewer.square(start_center, 0, 1, (255, 0, 0))
 
         state_grid = self.convert_to_grid(self._state, self._width)
-- 
2.43.0

