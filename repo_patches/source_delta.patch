From 9d633538a0b38b5c480d308dd709a0498df6e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 01/36] fix: tolerate signals from optimizers already cleared
 from the in-memory log

---
 glompo/core/optimizerlogger.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7040bec..d4ed11e 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -111,15 +111,19 @@ class BaseLogger:
             del self._storage[key]
 
     def put_metadata(self, opt_id: int, key: str, value: Any):
-        """ Adds optimizer metadata to storage. """
-        self._storage[opt_id]['metadata'][key] = value
+        """ Adds optimizer metadata to storage. Ignored if the optimizer has already been cleared from memory. """
+        if opt_id in self._storage or opt_id not in self._best_iters:
+            self._storage[opt_id]['metadata'][key] = value
 
     def put_manager_metadata(self, key: str, value: Any):
         pass
 
     def put_message(self, opt_id: int, message: str):
-        """ Stores message signals sent from optimizers to the manager. """
-        self._storage[opt_id]['messages'].append(message)
+        """ Stores message signals sent from optimizers to the manager.
+        Ignored if the optimizer has already been cleared from memory.
+        """
+        if opt_id in self._storage or opt_id not in self._best_iters:
+            self._storage[opt_id]['messages'].append(message)
 
     def put_iteration(self, iter_res: IterationResult):
         """ Records function evaluations in memory. """
-- 
2.43.0


From b2f9060ac9d58eb95ba526d8640aaea5c3686551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 02/36] fix: count optimizers in the in-memory log after their
 data has been cleared

---
 glompo/core/optimizerlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index d4ed11e..2243bff 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -36,7 +36,7 @@ class BaseLogger:
     @property
     def n_optimizers(self) -> int:
         """ Returns the number of optimizers in the log. """
-        return len(self._storage)
+        return len(self._best_iters) - 1  # Zero key is a placeholder, data in _storage may be cleared
 
     @property
     def largest_eval(self) -> float:
-- 
2.43.0


From d18665c03430fdc275bf716bb40e9b1f5e3a8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 03/36] fix: rebuild log groups when a checkpoint is resumed
 without its log file

---
 glompo/core/optimizerlogger.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 2243bff..7398ce0 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -370,20 +370,8 @@ class FileLogger(BaseLogger):
     def add_optimizer(self, opt_id: int, opt_type: str, t_start: datetime.datetime):
         """ Creates an HDF5 file and memory log for a new optimizer. """
         super().add_optimizer(opt_id, opt_type, t_start)
-        group = self.pytab_file.create_group(where='/',
-                                             name=f'optimizer_{opt_id}')
-        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
-                                       name='messages',
-                                       atom=tb.VLUnicodeAtom(),
-                                       title="Messages Generated by Optimizer",
-                                       expectedrows=3)
+        self._create_group(opt_id)
         self._writing_chunk[opt_id] = []
-        self._groups[opt_id] = group
-
-        for key, val in zip(('opt_id', 'opt_type', 't_start'),
-                            (opt_id, opt_type, t_start)):
-            group._v_attrs[key] = val
-
         self._o_counter += 1
 
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
@@ -460,6 +448,20 @@ class FileLogger(BaseLogger):
 
             return []
 
+    def _create_group(self, opt_id: int):
+        """ Creates the HDF5 group of optimizer `opt_id`, and copies the metadata known thus far into it. """
+        group = self.pytab_file.create_group(where='/',
+                                             name=f'optimizer_{opt_id}')
+        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
+                                       name='messages',
+                                       atom=tb.VLUnicodeAtom(),
+                                       title="Messages Generated by Optimizer",
+                                       expectedrows=3)
+        self._groups[opt_id] = group
+
+        for key, val in self._storage[opt_id]['metadata'].items():
+            group._v_attrs[key] = val
+
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
         if opt_id not in self._groups:
@@ -519,6 +521,10 @@ class FileLogger(BaseLogger):
             self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
             self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
                             self.pytab_file.walk_nodes('/', 'Table')}
+        else:
+            self._groups, self._tables = {}, {}
+            for opt_id in self._storage:  # Optimizers from a checkpoint whose log file is no longer available
+                self._create_group(opt_id)
 
     def close(self):
         """ Remove from memory, flush to file and close the file. """
-- 
2.43.0


From dadfad470ebdef1f6a9a2a56aa5f5717a9f76d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 04/36] fix: ChainSelector stops spawning at its final
 threshold and does not lag behind passed ones

---
 glompo/opt_selectors/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index 429f94a..d9b306e 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -56,9 +56,12 @@ class ChainSelector(BaseSelector):
         if not self.allow_spawn(manager):
             return False
 
-        if self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
+        while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
+        if self.toggle >= len(self.avail_opts):
+            return False
+
         selected = self.avail_opts[self.toggle]
         if selected[1]['workers'] > slots_available:
             return None
-- 
2.43.0


From a098d05e277ef2dd897acd9daf532366dfba1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 05/36] fix: leave optimizer configuration dictionaries
 unmodified between spawns

---
 glompo/core/manager.py               | 1 +
 glompo/opt_selectors/baseselector.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 967cb86..092fe54 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1333,6 +1333,7 @@ class GloMPOManager:
         event.set()
 
         if 'backend' in init_kwargs:
+            init_kwargs = {**init_kwargs}  # Configuration belongs to the selector and will be used again
             backend = init_kwargs['backend']
             del init_kwargs['backend']
         else:
diff --git a/glompo/opt_selectors/baseselector.py b/glompo/opt_selectors/baseselector.py
index 062f5a1..d107a15 100644
--- a/glompo/opt_selectors/baseselector.py
+++ b/glompo/opt_selectors/baseselector.py
@@ -83,7 +83,7 @@ class BaseSelector(ABC):
                     assert isinstance(call_dict, dict)
 
                     if 'workers' not in init_dict:
-                        init_dict['workers'] = 1
+                        init_dict = {**init_dict, 'workers': 1}  # Do not modify the user's dictionary
 
                     self.avail_opts.append((opt, init_dict, call_dict))
 
-- 
2.43.0


From f5999ae9df06894907b8bad6d0bd4c6e105ba8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 06/36] fix: ExploitExploreGenerator crash when an optimizer
 has no valid evaluations yet

---
 glompo/generators/exploit_explore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index d1c1284..2a4e0aa 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -59,6 +59,8 @@ class ExploitExploreGenerator(BaseGenerator):
         self.logger.debug("Random = %s", random)
 
         f_track = np.array([best['fx'] for best in manager.opt_log._best_iters.values()])[1:]
+        opt_ids = np.flatnonzero(np.isfinite(f_track)) + 1  # Ignore optimizers without a valid evaluation
+        f_track = f_track[opt_ids - 1]
 
         if len(f_track) == 0:
             return random
@@ -70,8 +72,8 @@ class ExploitExploreGenerator(BaseGenerator):
             return random
         prob = revert / np.sum(revert)
 
-        select = np.random.choice(range(len(f_track)), p=prob)
-        incumbent = np.array(manager.opt_log.get_best_iter(select + 1)['x'])
+        select = np.random.choice(opt_ids, p=prob)
+        incumbent = np.array(manager.opt_log.get_best_iter(select)['x'])
         self.logger.debug("Selected incumbent from Optimizer %d = %s", select, incumbent)
 
         # Blending parameter
-- 
2.43.0


From 3f7feda3a1a0b5b32f8ce11cf16a1b356a058014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 07/36] fix: IncumbentGenerator returned an empty vector before
 the first valid evaluation

---
 glompo/generators/best.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 6a1ae0c..1378b74 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -23,7 +23,7 @@ class IncumbentGenerator(BaseGenerator):
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
         best: Result = manager.result
-        if best.x is None:
+        if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
         return best.x
-- 
2.43.0


From 215ecdfe8b37b7901f2f1e551988cac45eef09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 08/36] fix: BasinHoppingGenerator returned starting points
 outside of the bounds

---
 glompo/generators/basinhopping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 7132be5..a26133b 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -117,7 +117,7 @@ class BasinHoppingGenerator(BaseGenerator):
                 self.logger.debug("Accept rate too low, step size decreasing %f -> %f.", old_step, self.step_size)
 
         # Random perturbation of the best vector based on the step size
-        x = best['x'].copy()
+        x = np.array(best['x'], dtype=float)
         x += np.random.uniform(-self.step_size, self.step_size, x.size)
 
-        return x
+        return np.clip(x, *np.array(manager.bounds).T)
-- 
2.43.0


From c0099dd757508282046215c5f258abc3d70d71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 09/36] fix: manual checkpoint requests crashed the manager
 when dill is not installed

---
 glompo/core/manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 092fe54..11f85a7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1583,6 +1583,12 @@ class GloMPOManager:
         if chkpt_path.exists():
             chkpt_path.unlink()
 
+            if not HAS_DILL:
+                self.logger.warning("Manual checkpoint request ignored. Cannot checkpoint without dill package.")
+                warnings.warn("Manual checkpoint request ignored. Cannot checkpoint without dill package.",
+                              ResourceWarning)
+                return
+
             has_controls = bool(self.checkpoint_control)
             if not has_controls:
                 self.logger.warning("Manual checkpoint requested but checkpointing control not setup during "
-- 
2.43.0


From b975f1b6cee9a77cebf84d004743060c22d274ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 10/36] fix: signalling an optimizer which has just closed
 crashed the manager

---
 glompo/core/manager.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 11f85a7..3d23121 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1195,7 +1195,7 @@ class GloMPOManager:
                 ovw_path.unlink()
 
         if self.converged:
-            [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
         self._toggle_optimizers(1)
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
@@ -1601,6 +1601,16 @@ class GloMPOManager:
             if not has_controls:
                 self.checkpoint_control = None
 
+    def _send_signal(self, opt_id: int, signal: Any):
+        """ Sends a signal to optimizer :obj:`opt_id`. The optimizer may close at any time, a signal which can no longer
+            be delivered is dropped.
+        """
+
+        try:
+            self._optimizer_packs[opt_id].signal_pipe.send(signal)
+        except OSError as e:
+            self.logger.debug("Signal could not be sent, optimizer %d has closed.", opt_id, exc_info=e)
+
     def _shutdown_job(self, opt_id: int, hunter_id: Optional[int], reason: str):
         """ Sends a stop signal to optimizer :obj:`opt_id` and updates variables about its termination. """
 
@@ -1610,7 +1620,7 @@ class GloMPOManager:
         if self.aggressive_kill and self.proc_backend:
             self._optimizer_packs[opt_id].process.terminate()
         else:
-            self._optimizer_packs[opt_id].signal_pipe.send(1)
+            self._send_signal(opt_id, 1)
             self.logger.debug("Termination signal sent to %d", opt_id)
 
         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1630,7 +1640,7 @@ class GloMPOManager:
         if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
+                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
 
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
@@ -1649,7 +1659,8 @@ class GloMPOManager:
         # Attempt to send shutdown signals
         try:
             message = (1, "GloMPO Crash") if crash_reason else 1
-            [pack.signal_pipe.send(message) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, message) for opt_id, pack in self._optimizer_packs.items()
+             if pack.process.is_alive()]
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
@@ -1810,7 +1821,7 @@ class GloMPOManager:
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
             if pack.process.is_alive():
-                pack.signal_pipe.send(2)
+                self._send_signal(opt_id, 2)
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
@@ -1871,10 +1882,10 @@ class GloMPOManager:
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
-                    pack.signal_pipe.send((0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
+                    self._send_signal(opt_id, (0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
                     self.logger.debug('Checkpoint save sent to Optimizer %d', opt_id)
                 else:
-                    pack.signal_pipe.send(3)  # Causes waiting optimizers will pass and not checkpoint
+                    self._send_signal(opt_id, 3)  # Causes waiting optimizers will pass and not checkpoint
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
-- 
2.43.0


From d3cea898e78e3ad88cd05d820129f99ceda3afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 11/36] fix: reading from the broken pipe of a dead optimizer
 crashed the manager

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3d23121..105ee58 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1380,7 +1380,7 @@ class GloMPOManager:
                     if self.visualisation:
                         self.scope.update_crash_terminate(opt_id)
                 found_signal = True
-            except EOFError:
+            except (EOFError, ConnectionError):
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
         else:
             self.logger.debug("No signals from %d.", opt_id)
-- 
2.43.0


From a8d826e64ff4fb3d653a8f619cb0e1b4307cae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 12/36] fix: log was saved in checkpoints without the results
 processed during synchronisation

---
 glompo/core/manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 105ee58..e7dc3a7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1125,11 +1125,6 @@ class GloMPOManager:
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
-            # Flush logger
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
-
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1139,6 +1134,12 @@ class GloMPOManager:
             self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
 
             self._checkpoint_optimizers(path)
+
+            # Flush logger, only once all outstanding results have been recorded in it
+            self.opt_log.flush()
+            self.opt_log.checkpoint_save(path)
+            self.logger.debug("Log successfully pickled")
+
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
-- 
2.43.0


From b2e05ddecae2f469d68b9408274e333fd6b8d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 13/36] fix: evaluations in the queue's cache were missing from
 checkpoints

---
 glompo/core/manager.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index e7dc3a7..388b5f4 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1868,9 +1868,12 @@ class GloMPOManager:
         self.logger.info("Optimizers paused and synced.")
 
         # Process outstanding results and hunts
-        closed, victims = self._process_results()
-        [not_chkpt.add(cld) for cld in closed]
-        [not_chkpt.add(vic) for vic in victims]
+        while not self.optimizer_queue.empty() or self.optimizer_queue.has_cache():
+            if self.optimizer_queue.empty():
+                self.optimizer_queue.flush()
+            closed, victims = self._process_results()
+            [not_chkpt.add(cld) for cld in closed]
+            [not_chkpt.add(vic) for vic in victims]
         self.logger.info("Outstanding results processed")
 
         assert self.optimizer_queue.empty()
-- 
2.43.0


From 889a4b0d87428fba3545b90dbfe660a5e95f9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 14/36] fix: optimizer crashing while a checkpoint is
 synchronised aborted the optimization

---
 glompo/core/manager.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 388b5f4..ab6ce8b 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1846,7 +1846,10 @@ class GloMPOManager:
                 pack = self._optimizer_packs[opt_id]
                 if pack.process.is_alive():
                     if pack.signal_pipe.poll(0.1):
-                        key, message = pack.signal_pipe.recv()
+                        try:
+                            key, message = pack.signal_pipe.recv()
+                        except (EOFError, ConnectionError):
+                            continue  # Optimizer has closed its pipe and is about to die
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 0:
                             self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1858,6 +1861,12 @@ class GloMPOManager:
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
                             wait_reply.remove(opt_id)
+                        elif key == 9:
+                            self.opt_log.put_message(opt_id, message)
+                            self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
+                            self.opt_crashed = "Traceback" in message or self.opt_crashed
+                            if self.visualisation:
+                                self.scope.update_crash_terminate(opt_id)
                         else:
                             raise RuntimeError(f"Unhandled message: {message}")
                 else:
-- 
2.43.0


From 5e251939d8b3ac10dd41dcfcbb49120187b0ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 15/36] fix: manager waited forever on an optimizer which died
 while saving its checkpoint

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ab6ce8b..0faad07 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1904,7 +1904,8 @@ class GloMPOManager:
         wait_reply = living.copy()
         while wait_reply:
             for opt_id in wait_reply.copy():
-                if not self._optimizer_packs[opt_id].allow_run_event.is_set():
+                pack = self._optimizer_packs[opt_id]
+                if not pack.allow_run_event.is_set() or not pack.process.is_alive():
                     wait_reply.remove(opt_id)
 
         # Confirm all restart files are found
-- 
2.43.0


From a533fcf043c896328221d0870c624371dc73c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 16/36] fix: optimizers already shutdown were checkpointed and
 counted as converged

---
 glompo/core/manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0faad07..88f5abb 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1826,7 +1826,7 @@ class GloMPOManager:
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
-        not_chkpt = set()  # Set of messaged opts that should not be checkpointed
+        not_chkpt = messaged & self._graveyard  # Set of messaged opts that should not be checkpointed
         wait_reply = messaged.copy()
         living = messaged.copy()
         n_alive = len(messaged)
@@ -1852,10 +1852,11 @@ class GloMPOManager:
                             continue  # Optimizer has closed its pipe and is about to die
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 0:
-                            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                            self.opt_log.put_metadata(opt_id, "end_cond", message)
-                            self._graveyard.add(opt_id)
-                            self.conv_counter += 1
+                            if opt_id not in self._graveyard:
+                                self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                                self.opt_log.put_metadata(opt_id, "end_cond", message)
+                                self._graveyard.add(opt_id)
+                                self.conv_counter += 1
                             not_chkpt.add(opt_id)
                         elif key == 1:
                             if self.visualisation:
-- 
2.43.0


From ad94f55f221496f087c355bb5e175c2b77a16867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 17/36] fix: existing checkpoint was lost if an I/O error
 interrupted its replacement

---
 glompo/core/manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 88f5abb..1349b36 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1163,12 +1163,16 @@ class GloMPOManager:
                 with tarfile.open(tar_path, 'x:gz') as tfile:
                     tfile.add(path, recursive=True, arcname='')
                 self.logger.debug("TarFile built")
-            except tarfile.TarError as e:
+            except BaseException as e:
                 self.logger.error("Error encountered during compression.")
                 if overwriting_chkpt:
                     self.logger.info("Overwritten checkpoint restored")
                     ovw_path.replace(tar_path)
-                raise CheckpointingError("Could not compress checkpoint", e)
+                elif tar_path.exists():
+                    tar_path.unlink()
+                if isinstance(e, (tarfile.TarError, OSError)):
+                    raise CheckpointingError("Could not compress checkpoint", e)
+                raise
 
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
-- 
2.43.0


From a78dd63b22e7e37820deca979e52f3f69531c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 18/36] fix: optimizers were left paused if a checkpoint failed
 in error

---
 glompo/core/manager.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 1349b36..815a37c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1199,9 +1199,11 @@ class GloMPOManager:
             if ovw_path.exists():
                 ovw_path.unlink()
 
-        if self.converged:
-            [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
-        self._toggle_optimizers(1)
+            # Release the optimizers, even if the checkpoint could not be made
+            if self.converged:
+                [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            self._toggle_optimizers(1)
+
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
-- 
2.43.0


From 0e550710956a2e1ccd3699a59b8603d2533cd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 19/36] fix: last optimizer closing between checks was reported
 as a crash when spawning is off

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 815a37c..5865a25 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1263,7 +1263,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0:
+        elif len(processes) == 0 and self.spawning_opts:
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From e6fa1b67780d5f0ff014710b99d403f63d324736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 20/36] fix: final result statistics missed kills and
 convergences after the last evaluation

---
 glompo/core/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 5865a25..b868751 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1085,7 +1085,11 @@ class GloMPOManager:
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-                                 {**self.result.stats, 'end_cond': reason} if self.result.stats else {
+                                 {**self.result.stats,
+                                  'opts_started': self.o_counter,
+                                  'opts_killed': len(self.hunt_victims),
+                                  'opts_conv': self.conv_counter,
+                                  'end_cond': reason} if self.result.stats else {
                                      'end_cond': reason},
                                  self.result.origin)
 
-- 
2.43.0


From 995d95166370688d4c6a5d3f955b5fafd2131f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 21/36] fix: question marks and backslashes in the checkpoint
 naming format were not matched literally

---
 glompo/core/checkpointing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index b34d9b8..f4dbee5 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -114,9 +114,9 @@ class CheckpointingControl:
 
         format_re = list(copy(self.naming_format))
         for i, char in enumerate(format_re):
-            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}')]):
+            if any([char == c for c in ('{', '(', '+', '*', '?', '|', '.', '$', ')', '}')]):
                 format_re[i] = f'[{char}]'
-            if any([char == c for c in ('^', '[', ']')]):
+            if any([char == c for c in ('^', '[', ']', '\\')]):
                 format_re[i] = rf'\{char}'
         format_re = "".join(format_re)
         for key, digits in codes.items():
-- 
2.43.0


From b27c2ebb825cc4a1e785564831801099e296d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 22/36] fix: checkpoint counter was stuck at 1000 because only
 three digit indices were recognised

---
 glompo/core/checkpointing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index f4dbee5..d2eb9bb 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -121,7 +121,7 @@ class CheckpointingControl:
         format_re = "".join(format_re)
         for key, digits in codes.items():
             format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3})')
+        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3,})')
 
         self._naming_format_re = format_re
 
-- 
2.43.0


From e3621ef9853ea8fbb24a42d95534e354b7ac59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 23/36] fix: naming format with a repeated count key could not
 be used

---
 glompo/core/checkpointing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index d2eb9bb..be588f1 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -121,7 +121,8 @@ class CheckpointingControl:
         format_re = "".join(format_re)
         for key, digits in codes.items():
             format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3,})')
+        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3,})', 1)
+        format_re = format_re.replace('%[(]count[)]', '(?P=index)')
 
         self._naming_format_re = format_re
 
-- 
2.43.0


From 33275c1d296550afbc0791a5eb3644f41c922b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 24/36] fix: checkpoint archives lost everything after the last
 dot of their name

---
 glompo/core/manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b868751..4c1627e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1135,7 +1135,7 @@ class GloMPOManager:
                     self.dt_ends[-1] = datetime.now()
                 else:
                     self.dt_ends.append(datetime.now())
-            self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.add(f"{path.resolve()}.tar.gz")
 
             self._checkpoint_optimizers(path)
 
@@ -1154,7 +1154,7 @@ class GloMPOManager:
 
             # Compress checkpoint
             self.logger.debug("Building TarFile")
-            tar_path = path.with_suffix('.tar.gz')
+            tar_path = path.with_name(f"{path.name}.tar.gz")
             if tar_path.exists():
                 self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                                     "format")
@@ -1190,7 +1190,7 @@ class GloMPOManager:
                         del_path.unlink()
 
         except CheckpointingError as e:
-            self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.remove(f"{path.resolve()}.tar.gz")
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
-- 
2.43.0


From 8e8d7fd0c0c23341126afe23feec4401bfac69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 25/36] fix: share an incumbent once when the best value is
 zero and never before one was found

'not self.result.fx' is also true for a best value of 0.0, so every later
result sent the same incumbent to all optimizers again. With a first value
of nan or inf an empty vector was shared.
---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 4c1627e..3406d3b 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1648,7 +1648,8 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
+        previous = float('inf') if self.result.fx is None else self.result.fx
+        if self.incumbent_sharing and best_iter['fx'] < previous:
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From 6bf53727e88fecd2925304aa7c8f81ad52c9cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 26/36] fix: any failure of a checkpoint, not only a
 CheckpointingError, is cleaned up and only fatal if so configured

---
 glompo/core/manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3406d3b..b6557c8 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1123,12 +1123,13 @@ class GloMPOManager:
 
         # Construct Checkpoint Name
         path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
-        path.mkdir(parents=True, exist_ok=True)
 
         overwriting_chkpt = False
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
+            path.mkdir(parents=True, exist_ok=True)
+
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1189,10 +1190,10 @@ class GloMPOManager:
                     if del_path.is_file():
                         del_path.unlink()
 
-        except CheckpointingError as e:
-            self.checkpoint_history.remove(f"{path.resolve()}.tar.gz")
+        except BaseException as e:
+            self.checkpoint_history.discard(f"{path.resolve()}.tar.gz")
 
-            if self.checkpoint_control.raise_checkpoint_fail:
+            if self.checkpoint_control.raise_checkpoint_fail or not isinstance(e, Exception):
                 self.logger.error("Checkpointing failed", exc_info=e)
                 raise e
 
-- 
2.43.0


From a10ac6d552dd76f958154dc121da08e45da73d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 27/36] fix: a task which fails to pickle with any error is
 saved by its own method or left out of the checkpoint

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b6557c8..02e5d78 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1964,7 +1964,7 @@ class GloMPOManager:
                     dill.dump(self.task, file)
                 self.logger.info("Task successfully pickled")
                 task_persisted = True
-            except PickleError as pckl_err:
+            except Exception as pckl_err:
                 self.logger.info("Pickle task failed. Attempting task.checkpoint_save()", exc_info=pckl_err)
                 (path / 'task').unlink()
 
-- 
2.43.0


From c38de1ce4d45b5376536fca11cdfbb17e00cd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 28/36] fix: CMAOptimizer could not be resumed from a
 checkpoint because the call arguments of minimize are not repeated

---
 glompo/optimizers/cmawrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 6d08d97..e24e185 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -136,7 +136,7 @@ class CMAOptimizer(BaseOptimizer):
         """
         task_settings = copy.deepcopy(self.cmasettings)
 
-        if sigma0 <= 0:
+        if not self.is_restart and sigma0 <= 0:
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
-- 
2.43.0


From 72230a6b07e8160825fa4e211ff13717acb0e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 29/36] fix: manager counted as initialised after a failed
 load_checkpoint

---
 glompo/core/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 02e5d78..047a596 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -711,6 +711,7 @@ class GloMPOManager:
         try:
             with (tmp_dir / 'manager').open('rb') as file:
                 data = dill.load(file)
+                data.pop('_is_restart', None)  # Only initialised once loading is complete
                 for var, val in data.items():
                     try:
                         setattr(self, var, val)
-- 
2.43.0


From ea08c7985799f09b6abb2a3672b98e1e527e3513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 30/36] fix: resumed Nevergrad crashed at its first evaluation
 because its callbacks were replaced by None

---
 glompo/optimizers/nevergrad.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/nevergrad.py b/glompo/optimizers/nevergrad.py
index bc43e75..a262bf4 100644
--- a/glompo/optimizers/nevergrad.py
+++ b/glompo/optimizers/nevergrad.py
@@ -56,7 +56,7 @@ class Nevergrad(BaseOptimizer):
 
         if self.is_restart and self.optimizer:
             self.ng_callbacks.parent = self
-            self.ng_callbacks.callbacks = callbacks
+            self.ng_callbacks.set_callbacks(callbacks)
             self.stop = False
             self.logger.debug("Loaded nevergrad optimizer")
         else:
@@ -119,11 +119,19 @@ class _NevergradCallbacksWrapper:
                                                     bool]]] = None):
         self.parent = parent
         self.i_fcalls = 0
+        self.set_callbacks(callbacks)
 
+    def set_callbacks(self, callbacks: Union[None,
+                                             Callable[[ng.optimizers.base.Optimizer, Sequence[float], float], bool],
+                                             Sequence[Callable[[ng.optimizers.base.Optimizer, Sequence[float], float],
+                                                               bool]]] = None):
+        """ Accepts a single callback, a sequence of callbacks or :obj:`None`. """
         if callable(callbacks):
             self.callbacks = [callbacks]
         elif callbacks is None:
             self.callbacks = []
+        else:
+            self.callbacks = list(callbacks)
 
     def __call__(self, opt: ng.optimizers.base.Optimizer, x: ng.p.Array, fx: float):
 
-- 
2.43.0


From 7ec26a7af208ae75e3ece1301ae052e7786597a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 31/36] fix: resumed log kept groups of optimizers newer than
 the checkpoint when no evaluation followed, so new optimizers of that number
 could not be logged

---
 glompo/core/manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 047a596..9353114 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -951,9 +951,10 @@ class GloMPOManager:
                         crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
                         tab.remove_rows(crit_i)
 
-                    for group in peek.iter_nodes('/', 'Group'):
-                        if int(group._v_name.split('_')[1]) > self.o_counter:
-                            peek.remove_node('/', group._v_name, recursive=True)
+                # Optimizers started after the checkpoint may not have been evaluated yet
+                for group in peek.iter_nodes('/', 'Group'):
+                    if int(group._v_name.split('_')[1]) > self.o_counter:
+                        peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
-- 
2.43.0


From 4f69d806ad283c487b97dfee7b2330687fa616db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 32/36] fix: a run which ended because no optimizer was left
 reported the reason "None" when the convergence checker cannot be evaluated
 before the start

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 9353114..0b17e76 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -916,7 +916,7 @@ class GloMPOManager:
                 warnings.warn("Convergence conditions met before optimizer start. Aborting start.", RuntimeWarning)
                 return self.result
         except Exception:
-            reason = "None"
+            reason = "No optimizers alive, spawning stopped."
             self.converged = False
 
         # Make working dir & open log file
-- 
2.43.0


From 0054aca60136bdff1a61ac975155b9689a11a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 33/36] fix: record a copy of the evaluated vector, optimizers
 may reuse their array

---
 glompo/optimizers/baseoptimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/baseoptimizer.py b/glompo/optimizers/baseoptimizer.py
index 5fa5b0a..b03f34c 100644
--- a/glompo/optimizers/baseoptimizer.py
+++ b/glompo/optimizers/baseoptimizer.py
@@ -6,6 +6,7 @@ import logging
 import traceback
 import warnings
 from abc import ABC, abstractmethod
+from copy import copy
 from multiprocessing.connection import Connection
 from pathlib import Path
 from threading import Event
@@ -94,7 +95,7 @@ class _MessagingWrapper:
             calc = (self.func(x),)
 
         result = IterationResult(opt_id=self.opt_id,
-                                 x=x,
+                                 x=copy(x),  # Optimizers may reuse x before the result is sent
                                  fx=calc[0],
                                  extras=calc[1:])
         self.results_queue.put_nowait(result)
-- 
2.43.0


From 2b5f81ce7a1063b6df588fcaa28e18c1d594b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 34/36] fix: signals of a crashed optimizer were dropped if it
 died after the last check, so its traceback was lost and crash loops never
 ended

---
 glompo/core/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0b17e76..b7615e3 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1423,6 +1423,7 @@ class GloMPOManager:
                         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                         self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
                 else:
+                    self._check_signals(opt_id)  # The traceback may have been sent since signals were last checked
                     self._graveyard.add(opt_id)
                     self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
                     warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
-- 
2.43.0


From 5ea597e59fc683187973618b131481e69e9aa8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 35/36] fix: saving or loading the log in a checkpoint raised
 NameError when matplotlib is not installed

---
 glompo/core/optimizerlogger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7398ce0..b74e958 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -14,10 +14,14 @@ from ..common.wrappers import needs_optional_package
 try:
     import matplotlib.pyplot as plt
     import matplotlib.lines as lines
-    import dill
 except (ModuleNotFoundError, ImportError):
     pass
 
+try:
+    import dill
+except ModuleNotFoundError:
+    pass
+
 __all__ = ("BaseLogger",
            "FileLogger")
 
-- 
2.43.0


From 0110f65f67daf12b5fff65543c98778f9a661760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 36/36] fix: loading a checkpoint with visualisation crashed
 when matplotlib is not installed

---
 glompo/core/manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b7615e3..28e3599 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -778,8 +778,15 @@ class GloMPOManager:
 
         # Extract scope and rebuild writer if still visualizing
         if self.visualisation:
-            from .scope import GloMPOScope
+            try:
+                from .scope import GloMPOScope
+            except (ModuleNotFoundError, ImportError):
+                self.visualisation = False
+                self.logger.warning("Visualisation ignored. Cannot setup infrastructure without matplotlib package.")
+                warnings.warn("Visualisation ignored. Cannot setup infrastructure without matplotlib package.",
+                              ResourceWarning)
 
+        if self.visualisation:
             if (tmp_dir / 'scope').exists():
                 self.logger.info('Scope checkpoint found, extracting')
                 self.scope = GloMPOScope()
-- 
2.43.0

