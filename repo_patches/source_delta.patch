From 1862ea3445f0ec4eca0436461e2c3d923171bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:08 +0000
Subject: [PATCH 01/56] fix: refused assignment to a computed depend object
 must not alter its value

---
 ipi/utils/depend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index bae8afe..e5f7533 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -261,9 +261,10 @@ class depend_value(depend_base):
 
     def set(self, value, manual=True):
         with self._threadlock:
-            self._value = value
+            # refuses the assignment before anything has been modified
             if manual:
                 self.update_man()
+            self._value = value
             self.taint(taintme=False)
 
     def __set__(self, instance, value):
@@ -486,11 +487,11 @@ class depend_array(depend_base):
 
     def __setitem__(self, index, value):
         with self._threadlock:
-            self._value[index] = value
             # Skip update_man() on plain leaf-storage arrays (no synchro,
             # no computed func) — there is nothing for it to do.
             if self._synchro is not None or self._func is not None:
                 self.update_man()
+            self._value[index] = value
             self.taint(taintme=False)
 
     def set(self, value, manual=True):
@@ -502,9 +503,9 @@ class depend_array(depend_base):
         silently desync any existing slice's `_value` from the parent's.
         """
         with self._threadlock:
-            self._value[...] = value
             if manual and (self._synchro is not None or self._func is not None):
                 self.update_man()
+            self._value[...] = value
             self.taint(taintme=False)
 
     def get(self):
-- 
2.43.0


From ce524df07a034c8136c97aa14efd9c7ad91e1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:08 +0000
Subject: [PATCH 02/56] fix: partial write to a stale synchronized array keeps
 the other elements current

---
 ipi/utils/depend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index e5f7533..edbb587 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -487,6 +487,10 @@ class depend_array(depend_base):
 
     def __setitem__(self, index, value):
         with self._threadlock:
+            # A partial write to a stale synchronized array must not promote
+            # the outdated remaining elements: bring them up to date first.
+            if self._synchro is not None and self._tainted[0]:
+                self._refresh()
             # Skip update_man() on plain leaf-storage arrays (no synchro,
             # no computed func) — there is nothing for it to do.
             if self._synchro is not None or self._func is not None:
@@ -503,6 +507,10 @@ class depend_array(depend_base):
         silently desync any existing slice's `_value` from the parent's.
         """
         with self._threadlock:
+            # see __setitem__: a slice-view only covers part of its parent
+            if manual and self._parent is not None and self._synchro is not None:
+                if self._tainted[0]:
+                    self._refresh()
             if manual and (self._synchro is not None or self._func is not None):
                 self.update_man()
             self._value[...] = value
-- 
2.43.0


From 1348becafcde57923da89da1358e54587a70a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:08 +0000
Subject: [PATCH 03/56] fix: array methods called on a stale depend_array must
 see the updated value

---
 ipi/utils/depend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index edbb587..4d53869 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -380,10 +380,14 @@ class depend_array(depend_base):
 
     @property
     def T(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.T
 
     @property
     def flat(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.flat
 
     @property
@@ -396,10 +400,14 @@ class depend_array(depend_base):
 
     @property
     def real(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.real
 
     @property
     def imag(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.imag
 
     # ------------------------------------------------------------------
@@ -415,6 +423,8 @@ class depend_array(depend_base):
             value = object.__getattribute__(self, "_value")
         except AttributeError:
             raise AttributeError(name)
+        if self._tainted[0]:
+            self._refresh()
         return getattr(value, name)
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 7060ba2208eee64aee3d57dd746753d8675a3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:33 +0000
Subject: [PATCH 04/56] fix: reshaping a stale depend_array must not mark the
 outdated value as current

---
 ipi/utils/depend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index 4d53869..636eab9 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -454,6 +454,8 @@ class depend_array(depend_base):
         """
         if len(shape) == 1:
             shape = shape[0]
+        if self._tainted[0]:
+            self._refresh()
         return depend_array(
             value=None,
             base=self._value.reshape(shape),
-- 
2.43.0


From e560572a4928f4c4082d24bf8dd9b76eae93bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:49 +0000
Subject: [PATCH 05/56] fix: a connection reset while receiving forces must not
 stop the socket server

recvall and _recv_forces_bulk only dealt with time-outs and orderly closed
connections; any other socket error went up to the polling thread and ended
it, so that no request was ever answered again.
---
 ipi/interfaces/sockets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..071086c 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -192,6 +192,9 @@ class DriverSocket(socket.socket):
                     )
                     raise Disconnected()
                 pass
+            except OSError:
+                # e.g. connection reset: the client is gone
+                raise Disconnected()
 
             if not timeout and bpart == 0:
                 raise Disconnected()
@@ -705,6 +708,9 @@ class Driver(DriverSocket):
                     )
                     raise Disconnected()
                 continue
+            except OSError:
+                # e.g. connection reset: the client is gone
+                raise Disconnected()
             if bpart == 0:
                 raise Disconnected()
             bpos += bpart
@@ -749,6 +755,8 @@ class Driver(DriverSocket):
                     if ntimeout > NTIMEOUT:
                         raise Disconnected()
                     continue
+                except OSError:
+                    raise Disconnected()
                 if bpart == 0:
                     raise Disconnected()
                 bpos += bpart
-- 
2.43.0


From 0077de42832b27c11a6b7435880fbccec4992c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:49 +0000
Subject: [PATCH 06/56] fix: notice that a client has left while waiting for
 FORCEREADY

The reply is a bytes object, so the comparison with an empty string was never
true and the dispatch thread looped forever, holding on to its request.
---
 ipi/interfaces/sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 071086c..06aa80c 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -456,7 +456,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) == 0:
                 raise Disconnected()
 
     def _recv_force_data(self):
-- 
2.43.0


From a359dd981821c3645fbbbe8250eb66a88a210c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:49 +0000
Subject: [PATCH 07/56] fix: a send error in a dispatch thread means that the
 client has left

The exception was re-raised in the polling thread through the future.
---
 ipi/interfaces/sockets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 06aa80c..07e4c31 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -268,7 +268,8 @@ class Driver(DriverSocket):
                 if self in writable:
                     self.send_msg("status")
                     self.waitstatus = True
-            except socket.error:
+            except (socket.error, ValueError):
+                # ValueError: the socket has been closed in the meantime
                 return Status.Disconnected
 
         try:
@@ -535,7 +536,11 @@ class Driver(DriverSocket):
             return
 
         r["start"] = time.time()
-        self.sendpos(r["pos"][r["active"]], r["cell"])
+        try:
+            self.sendpos(r["pos"][r["active"]], r["cell"])
+        except OSError:
+            self.status = Status.Disconnected
+            return
 
         self.get_status()
         if not (self.status & Status.HasData):
@@ -547,7 +552,7 @@ class Driver(DriverSocket):
 
         try:
             r["result"] = self.getforce()
-        except Disconnected:
+        except (Disconnected, OSError):
             self.status = Status.Disconnected
             return
 
-- 
2.43.0


From 28e881b286831baafd9298fbb49f7ea019057e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:49 +0000
Subject: [PATCH 08/56] fix: requests of a client that timed out have to be
 queued again

check_job_finished leaves this to pool_update, which needs to find the job.
---
 ipi/interfaces/sockets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 07e4c31..f87f2a4 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1542,8 +1542,8 @@ class InterfaceSocket(object):
                 nfinished += 1
                 finished_ids.append(ijob)
             elif chk == 0:
-                self.poll_iter = UPDATEFREQ  # client disconnected. force a pool_update
-                finished_ids.append(ijob)
+                # client disconnected. force a pool_update, that also re-queues the job
+                self.poll_iter = UPDATEFREQ
             nchecked += 1
         # batch removal of finished/disconnected jobs (reverse order to preserve indices)
         for ijob in reversed(finished_ids):
-- 
2.43.0


From f4d31ff06ddb5958f6e1ce2495fc9b49cc9a3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:49 +0000
Subject: [PATCH 09/56] fix: pruning one client must not wait for the jobs of
 the others

pool_update waited for (and, with consolidated messages, tripped over) the
dispatch threads of all clients, and could queue again a finished request.
---
 ipi/interfaces/sockets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index f87f2a4..1e16487 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1411,14 +1411,18 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        if tc is not None:
+                            tc.result()
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
 
-                        k["status"] = "Queued"
-                        k["start"] = -1
+                        for r in k if isinstance(k, list) else [k]:
+                            # might have been completed just before the client died
+                            if r["status"] != "Done":
+                                r["status"] = "Queued"
+                                r["start"] = -1
 
         if len(self.clients) == 0:
             searchtimeout = SERVERTIMEOUT
-- 
2.43.0


From 29bc6d5467c998966df942e9d4465dffbc1c3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:49 +0000
Subject: [PATCH 10/56] fix: a client leaving before it is accepted must not
 stop the socket server

getpeername fails with ENOTCONN if the connection was reset.
---
 ipi/interfaces/sockets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 1e16487..78e8438 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1437,7 +1437,12 @@ class InterfaceSocket(object):
             if self.server in readable:
                 client, address = self.server.accept()
                 client.settimeout(TIMEOUT)
-                driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                try:
+                    driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                except OSError:
+                    # the client has left before we could even look at it
+                    client.close()
+                    continue
                 driver.batch_size = self.batch_size
                 info(
                     " @interfacesocket.pool_update:   Client asked for connection from "
-- 
2.43.0


From 1fb7a86c2c7dab909a4af9b4565ab66b9f1aa0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:38 +0000
Subject: [PATCH 11/56] fix: two clients must not be given the same shared
 memory segments

The segment names were derived from the descriptor of the accepted socket, which
is closed (and reused for the next client) while the driver lives on with a
duplicate. Clients accepted in different updates of the pool could then read the
structures, and write the results, of each other.
---
 ipi/interfaces/sockets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 78e8438..818c2ed 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -944,7 +944,9 @@ class SHMDriver(Driver):
         self._first_posdata = True
         self._shm = {}  # kind -> SharedMemory handle (owned)
         self._view = {}  # kind -> numpy view, shape (batch_size, ...)
-        self._shm_prefix = f"ipi_shm_{os.getpid()}_{sock.fileno()}_"
+        # uses the descriptor held by this object: that of sock can be reused as
+        # soon as it is closed, and would not be unique among the live clients
+        self._shm_prefix = f"ipi_shm_{os.getpid()}_{self.fileno()}_"
 
     # -- segment lifecycle ---------------------------------------------------
     def _create_segment(self, kind, nbytes):
-- 
2.43.0


From 1bae683d9889494e53d5fe4bba6a9088c1dfac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:56 +0000
Subject: [PATCH 12/56] fix: do not loop forever when none of the free clients
 can take a request

With threaded dispatch, a client that had died since it was accepted kept
pool_distribute spinning, so that it was never pruned and nobody was served.
---
 ipi/interfaces/sockets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 818c2ed..6edb3f1 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1516,11 +1516,13 @@ class InterfaceSocket(object):
         ndispatch = 0
         tdispatch -= time.time()
         while len(freec) > 0 and len(self.prlist) > 0:
+            dispatched_this_round = False
             for match_ids in match_seq:
                 for fc in freec[:]:
                     if self.dispatch_free_client(fc, match_ids):
                         freec.remove(fc)
                         ndispatch += 1
+                        dispatched_this_round = True
 
                     if len(self.prlist) == 0:
                         break
@@ -1531,6 +1533,9 @@ class InterfaceSocket(object):
 
             if len(freec) > 0:
                 self.prlist = [r for r in self.requests if r["status"] == "Queued"]
+            # the free clients left cannot take any request (e.g. they are dead)
+            if not dispatched_this_round:
+                break
         tdispatch += time.time()
 
         # now check for client status
-- 
2.43.0


From acd002aafd7a34b4ebedca786c3a88044b51351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 13/56] fix: a structure sent only in part must not be followed
 by a status request

When sendall timed out the dispatch thread went on with the handshake in the
middle of the message, which left the client waiting for the rest forever.
---
 ipi/interfaces/sockets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 6edb3f1..a63651a 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -541,6 +541,9 @@ class Driver(DriverSocket):
         except OSError:
             self.status = Status.Disconnected
             return
+        if not (self.status & Status.Up):
+            # the structure was sent only in part: this connection is unusable
+            return
 
         self.get_status()
         if not (self.status & Status.HasData):
-- 
2.43.0


From a0efa776ac0bd83071c3c0631adec5c18f4d5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:31 +0000
Subject: [PATCH 14/56] fix: an in-process evaluation is complete only once the
 energy offset is applied

---
 ipi/engine/forcefields.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..1458881 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -395,6 +395,9 @@ class FFEval(ForceField):
         """Evaluates a single request and applies the offset."""
         self.evaluate(request)
         request["result"][0] -= self.offset
+        # the request is complete only now that the offset has been applied
+        request["status"] = "Done"
+        request._event_done.set()
 
     def poll(self):
         """Polls the forcefield checking if there are requests that should
@@ -425,8 +428,6 @@ class FFEval(ForceField):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        request["status"] = "Done"
-        request._event_done.set()
 
 
 class FFMPI(ForceField):
@@ -687,8 +688,6 @@ class FFLennardJones(FFEval):
         v *= self.epsfour
 
         r["result"] = [v, f.reshape(nat * 3), np.zeros((3, 3), float), {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFdmd(FFEval):
@@ -788,8 +787,6 @@ class FFdmd(FFEval):
             #          Because this is "out of equilibrium" I still did not find a good benchmark. Change cell and look at variation of energy only for this term?
 
         r["result"] = [v, f.reshape(nat * 3), vir, ""]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def dmd_update(self):
         """Updates time step when a full step is done. Can only be called after implementation goes into smotion mode..."""
@@ -869,8 +866,6 @@ class FFDebye(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
         r["t_finished"] = time.time()
 
 
@@ -1056,8 +1051,6 @@ class FFPlumed(FFEval):
 
         # nb: the virial is a symmetric tensor, so we don't need to transpose
         r["result"] = [v, f, vir, extras]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def mtd_update(self, pos, cell):
         """Makes updates to the potential that only need to be triggered
@@ -1212,8 +1205,6 @@ class FFYaff(FFEval):
         e = self.ff.compute(gpos, vtens)
 
         r["result"] = [e, -gpos.ravel(), -vtens, {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFsGDML(FFEval):
@@ -1345,8 +1336,6 @@ class FFsGDML(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
         r["t_finished"] = time.time()
 
 
-- 
2.43.0


From bbfd11fba05179f6cc1e119ece89758e3955febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:31 +0000
Subject: [PATCH 15/56] fix: a committee must report the extras of all its
 members, not just of the last

---
 ipi/engine/forcefields.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 1458881..922c3a0 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1497,6 +1497,8 @@ class FFCommittee(ForceField):
                 frcs.append(ff_r["result"][1])
                 virs.append(ff_r["result"][2])
 
+            xtrs.append(ff_r["result"][3])
+
         pots = np.array(pots)
         if len(pots) != len(frcs) and len(frcs) > 1:
             raise ValueError(
@@ -1510,8 +1512,6 @@ class FFCommittee(ForceField):
             )
         virs = np.array(virs).reshape(-1, 3, 3)
 
-        xtrs.append(ff_r["result"][3])
-
         # Computes the mean energetics
         mean_pot = np.mean(pots, axis=0)
         mean_frc = np.mean(frcs, axis=0)
@@ -1615,8 +1615,10 @@ class FFCommittee(ForceField):
             r["result"][3]["baseline_extras"] = (baseline_xtr,)
             r["result"][3]["wb_mixing"] = (s_b2 / (s_b2 + var_pot),)
 
-        # "dissolve" the extras dictionaries into a list
+        # "dissolve" the extras dictionaries into a list (of all the members)
         for k in xtrs[0].keys():
+            if not all(k in x for x in xtrs):
+                continue
             if ("committee_" + k) in r["result"][3].keys():
                 raise ValueError(
                     "Name clash between extras key "
-- 
2.43.0


From e6ab48834a65f861071caffab0755441738e32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:31 +0000
Subject: [PATCH 16/56] fix: do not reset the status of a rotational average
 that may be complete already

---
 ipi/engine/forcefields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 922c3a0..790d46a 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1770,7 +1770,8 @@ class FFRotations(ForceField):
         req = ForceField.queue(
             self, atoms, cell, reqid, template=dict(ff_handles=ffh, rots=rots)
         )
-        req["status"] = "Running"
+        # NB: the polling thread might have completed the request already, so
+        # that its status must not be touched here
         req["t_dispatched"] = time.time()
         return req
 
-- 
2.43.0


From ec394b6da2ad2c6a2e38bbd931df9b8696858d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:31 +0000
Subject: [PATCH 17/56] fix: subtract the energy offset of the cavity force
 field only once

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 790d46a..ab1db47 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2457,7 +2457,7 @@ class FFCavPhSocket(FFSocket):
             result_tot[1][2:ndim_tot:3] += fz_cav
             result_tot[1][ndim_tot:] = f_ph
 
-        result_tot[0] -= self.offset
+        # (the offset has been subtracted already, by the socket interface)
 
         # At this moment, we have sucessfully gathered the CavMD forces
         newreq = ForceRequest(
-- 
2.43.0


From d8e50350379e9b3bd636f3bfcc0d852c70b5978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:50 +0000
Subject: [PATCH 18/56] fix: apply the weights of the members of a committee

---
 ipi/engine/forcefields.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index ab1db47..387f116 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1470,32 +1470,40 @@ class FFCommittee(ForceField):
         all_have_frc = True
         all_have_vir = True
 
-        for ff_r in com_handles:
+        for i, ff_r in enumerate(com_handles):
+            # weight of this member (relative to an average over the members)
+            w = self.ffweights[i] if len(self.ffweights) > 0 else 1.0
             # if required, tries to extract multiple committe members from the extras JSON string
             if "committee_pot" in ff_r["result"][3] and self.parse_json:
-                pots += ff_r["result"][3]["committee_pot"]
+                pots += [w * pot for pot in ff_r["result"][3]["committee_pot"]]
                 if "committee_force" in ff_r["result"][3]:
-                    frcs += ff_r["result"][3]["committee_force"]
+                    frcs += [
+                        w * np.asarray(frc)
+                        for frc in ff_r["result"][3]["committee_force"]
+                    ]
                     ff_r["result"][3].pop("committee_force")
                 else:
                     # if the commitee doesn't have forces, just add the mean force from this model
-                    frcs.append(ff_r["result"][1])
+                    frcs.append(w * ff_r["result"][1])
                     warning("JSON committee doesn't have forces", verbosity.medium)
                     all_have_frc = False
 
                 if "committee_virial" in ff_r["result"][3]:
-                    virs += ff_r["result"][3]["committee_virial"]
+                    virs += [
+                        w * np.asarray(vir)
+                        for vir in ff_r["result"][3]["committee_virial"]
+                    ]
                     ff_r["result"][3].pop("committee_virial")
                 else:
                     # if the commitee doesn't have virials, just add the mean virial from this model
-                    virs.append(ff_r["result"][2])
+                    virs.append(w * ff_r["result"][2])
                     warning("JSON committee doesn't have virials", verbosity.medium)
                     all_have_vir = False
 
             else:
-                pots.append(ff_r["result"][0])
-                frcs.append(ff_r["result"][1])
-                virs.append(ff_r["result"][2])
+                pots.append(w * ff_r["result"][0])
+                frcs.append(w * ff_r["result"][1])
+                virs.append(w * ff_r["result"][2])
 
             xtrs.append(ff_r["result"][3])
 
-- 
2.43.0


From 2e1f3255f1fbf7f180c27a64660fd97e028b6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:07 +0000
Subject: [PATCH 19/56] fix: np.array of a depend_array must be a copy, not an
 alias of its value

---
 ipi/utils/depend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index 636eab9..a405559 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -333,13 +333,14 @@ class depend_array(depend_base):
     def __array__(self, dtype=None, copy=None):
         """Lets np.asarray / np.* accept us transparently.
 
-        Zero-copy fast path when the dtype matches.
+        Zero-copy fast path when the dtype matches, unless a copy is
+        requested (as np.array does).
         """
         if self._tainted[0]:
             self._refresh()
         v = self._value
         if dtype is None or dtype == v.dtype:
-            return v
+            return v.copy() if copy else v
         return v.astype(dtype)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-- 
2.43.0


From a910d8399cd76c2972024f18c8eb839e1895f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:04 +0000
Subject: [PATCH 20/56] fix: the multi-threaded generator must fill the array
 it is given

---
 ipi/utils/prng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 890907f..2f2f010 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -204,6 +204,8 @@ class Random(object):
                     )
                 ] = i
             concurrent.futures.wait(futures)
+            # out_flat is a copy, so the numbers must be put in place
+            out[...] = out_flat.reshape(out.shape)
 
     def gvec_serial(self, shape):
         """Interface to the standard_normal array function.
-- 
2.43.0


From ce98b30bcdf9b8e2ca1010a0be91835766feff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:04 +0000
Subject: [PATCH 21/56] fix: a generator restarted from its state must keep its
 seed

---
 ipi/inputs/prng.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index 5a66027..d98d39a 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -94,5 +94,7 @@ if the arrays are very large.
             return Random(seed=self.seed.fetch(), n_threads=self.n_threads.fetch())
         else:
             return Random(
-                state=json.loads(self.state.fetch()), n_threads=self.n_threads.fetch()
+                seed=self.seed.fetch(),
+                state=json.loads(self.state.fetch()),
+                n_threads=self.n_threads.fetch(),
             )
-- 
2.43.0


From 1e902f1b825fb6735a71e898714cc788d57e9087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:26 +0000
Subject: [PATCH 22/56] fix: a checkpoint of a multi-threaded generator must be
 valid XML

---
 ipi/inputs/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index d98d39a..1475e33 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -34,7 +34,7 @@ class InputRandom(Input):
 
     attribs = {
         "n_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
-- 
2.43.0


From 5b45ec56099223cb719736ad5a3fc4fab193ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:02 +0000
Subject: [PATCH 23/56] fix: special characters have to be escaped when an
 input is written as XML

---
 ipi/utils/inputvalue.py       | 21 ++++++++++++++++++---
 ipi/utils/io/inputs/io_xml.py |  5 +++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/ipi/utils/inputvalue.py b/ipi/utils/inputvalue.py
index 76c37e5..78bd717 100644
--- a/ipi/utils/inputvalue.py
+++ b/ipi/utils/inputvalue.py
@@ -19,6 +19,7 @@ bad data types, and failure to input required fields.
 
 
 from copy import copy
+from xml.sax.saxutils import escape
 
 import numpy as np
 
@@ -1039,7 +1040,12 @@ class InputAttribute(Input):
            A string giving the stored value in the appropriate format.
         """
 
-        return name + "='" + write_type(self.type, self.value) + "'"
+        return (
+            name
+            + "='"
+            + escape(write_type(self.type, self.value), {"'": "&apos;"})
+            + "'"
+        )
 
 
 class InputValue(InputAttribute):
@@ -1144,7 +1150,10 @@ class InputValue(InputAttribute):
         """
 
         return Input.write(
-            self, name=name, indent=indent, text=write_type(self.type, self.value)
+            self,
+            name=name,
+            indent=indent,
+            text=escape(write_type(self.type, self.value)),
         )
 
     def parse(self, xml=None, text=""):
@@ -1174,6 +1183,12 @@ class InputRaw(InputValue):
         Input.parse(self, xml=None, text="")
         self.value = xml_write(xml, text=text)
 
+    def write(self, name="", indent=""):
+        # the value is xml already, and must be written out as it is
+        return Input.write(
+            self, name=name, indent=indent, text=write_type(self.type, self.value)
+        )
+
 
 ELPERLINE = 5
 
@@ -1283,7 +1298,7 @@ class InputArray(InputValue):
         for i, v in enumerate(self.value):
             if len(self.value) > ELPERLINE and i > 0 and i % ELPERLINE == 0:
                 rstr += "\n" + indent + "   "
-            rstr += write_type(self.type, v) + ", "
+            rstr += escape(write_type(self.type, v)) + ", "
 
         rstr = rstr.rstrip(", ")  # get rid of trailing commas
         if len(self.value) > ELPERLINE:
diff --git a/ipi/utils/io/inputs/io_xml.py b/ipi/utils/io/inputs/io_xml.py
index d9a89ab..7421ff3 100644
--- a/ipi/utils/io/inputs/io_xml.py
+++ b/ipi/utils/io/inputs/io_xml.py
@@ -9,6 +9,7 @@ files with in the XML format.
 
 from xml.sax import parseString, parse
 from xml.sax.handler import ContentHandler
+from xml.sax.saxutils import escape
 
 import numpy as np
 from ipi import ipi_global_settings
@@ -224,7 +225,7 @@ def xml_write(xml, name="", indent="", text=""):
     if not name == "":
         rstr = indent + "<" + name
         for a, v in xml.attribs.items():
-            rstr += " " + a + "='" + v + "'"
+            rstr += " " + a + "='" + escape(v, {"'": "&apos;"}) + "'"
         rstr += ">"
 
     rstr += text.strip()
@@ -232,7 +233,7 @@ def xml_write(xml, name="", indent="", text=""):
     inline = False
     for a, v in xml.fields:
         if a == "_text":
-            rstr += v.strip()
+            rstr += escape(v.strip())
             if v.strip() != "":
                 inline = True
         else:
-- 
2.43.0


From c869bf401d0d054b228d46fdad507033ff1da85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:02 +0000
Subject: [PATCH 24/56] fix: attributes of normal modes and socket force fields
 must be written as attributes

---
 ipi/inputs/forcefields.py | 4 ++--
 ipi/inputs/normalmodes.py | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..6b92762 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -281,7 +281,7 @@ class InputFFSocket(InputForceField):
 
     # FFSocket polling mechanism won't work with non-threaded execution
     attribs["threaded"] = (
-        InputValue,
+        InputAttribute,
         {
             "dtype": bool,
             "default": True,
@@ -483,7 +483,7 @@ class InputFFMPI(InputForceField):
     attribs.update(InputForceField.attribs)
     # the polling mechanism requires threaded execution
     attribs["threaded"] = (
-        InputValue,
+        InputAttribute,
         {
             "dtype": bool,
             "default": True,
diff --git a/ipi/inputs/normalmodes.py b/ipi/inputs/normalmodes.py
index 4742540..e1fd6a3 100644
--- a/ipi/inputs/normalmodes.py
+++ b/ipi/inputs/normalmodes.py
@@ -159,21 +159,19 @@ class InputNormalModes(Input):
             },
         ),
         "fft_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
                 "help": "The number of threads to be used for the FFT.",
-                "dimension": None,
             },
         ),
         "fft_float32": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": bool,
                 "default": False,
                 "help": "Whether to use single precision FFT.",
-                "dimension": None,
             },
         ),
     }
-- 
2.43.0


From 8469decd7e14c9c7760fd27acccd9b95822735b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:13 +0000
Subject: [PATCH 25/56] fix: do not ignore invalid attributes of a checkpoint
 output

---
 ipi/inputs/outputs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ipi/inputs/outputs.py b/ipi/inputs/outputs.py
index 7b167b9..4a4a2b8 100644
--- a/ipi/inputs/outputs.py
+++ b/ipi/inputs/outputs.py
@@ -9,6 +9,7 @@ from copy import copy
 
 from ipi.utils.depend import *
 from ipi.utils.inputvalue import *
+from ipi.utils.io.inputs.io_xml import read_type
 import ipi.engine.outputs as eoutputs
 
 __all__ = ["InputOutputs", "InputProperties", "InputTrajectory", "InputCheckpoint"]
@@ -308,12 +309,12 @@ class InputCheckpoint(InputValue):
               specified any data.
         """
 
-        # just a quick hack to allow an empty element
-        try:
-            super(InputCheckpoint, self).parse(xml, text)
-        except ValueError:
-            # This could hide actual errors, at least in theory.
+        # allows an empty element, but no other kind of incorrect input
+        Input.parse(self, xml=xml, text=text)
+        if self._text.strip() == "":
             self.value = 0
+        else:
+            self.value = read_type(self.type, self._text)
 
     def store(self, chk):
         """Stores a CheckpointOutput object."""
-- 
2.43.0


From e002a632157282dded45c0d636c216805de0bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:48 +0000
Subject: [PATCH 26/56] fix: initializing from a checkpoint must not change the
 output options of the run

---
 ipi/engine/initializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 5e7bb1c..66ccb76 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -13,6 +13,7 @@ overwrite data given elsewhere.
 
 import numpy as np
 
+from ipi import ipi_global_settings
 from ipi.engine.beads import Beads
 from ipi.engine.normalmodes import NormalModes
 from ipi.engine.ensembles import Ensemble
@@ -158,7 +159,12 @@ def init_chk(filename):
 
     simchk = InputSimulation()
     simchk.parse(xmlchk.fields[0][1])
+    # fetching a simulation sets the global output options, but those of the
+    # checkpoint should not replace those of the current input
+    options = (ipi_global_settings["floatformat"], verbosity.level)
     sim = simchk.fetch()
+    ipi_global_settings["floatformat"] = options[0]
+    object.__setattr__(verbosity, "level", options[1])
     if len(sim.syslist) > 1:
         warning(
             "Restart from checkpoint with "
-- 
2.43.0


From 4a54c74e0ac2f49d81521ffb0281973dcd71de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:03 +0000
Subject: [PATCH 27/56] fix: the restart file must not count a step that has
 not been completed

An exit request served in the middle of a step increased the step counter
before writing the state saved at its beginning: if that state was being
saved at the moment the file ended up with the old state and the new step
number, and checkpoints written later in that step were also wrong. If the
handler was served after the main loop had stopped the half-propagated state
was saved, and rollback was disabled for any run after the first one.
---
 ipi/engine/simulation.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..229e9cc 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -313,9 +313,10 @@ class Simulation:
         written out.
         """
 
-        if self.step < self.tsteps:
-            self.step += 1
         if not self.rollback:
+            # the step has been completed
+            if self.step < self.tsteps:
+                self.step += 1
             info(
                 " @simulation.softexit: Saving the latest status at the end of the step"
             )
@@ -331,6 +332,9 @@ class Simulation:
         in the communication between the driver and the PIMD code.
         """
 
+        # an exit in the middle of a step must go back to the beginning of the step
+        self.rollback = True
+
         # prints inital configuration -- only if we are not restarting
         if self.step == 0 and write_outputs:
             self.step = -1
@@ -363,7 +367,10 @@ class Simulation:
             # exit requests without screwing the trajectory
 
             steptime = -time.time()
-            if softexit.triggered or self.finished:
+            if softexit.triggered:
+                # the exit has been requested during the previous step
+                return
+            if self.finished:
                 break
 
             # save a consistent state of the simulation that will be saved as a RESTART file in case of premature (soft) exit
@@ -372,8 +379,11 @@ class Simulation:
 
             self.run_step(self.step)
 
-            if softexit.triggered or self.finished:
-                # Don't write if we are about to exit.
+            # Don't write if we are about to exit.
+            if softexit.triggered:
+                # the step might be incomplete, so we have to keep the state saved before it
+                return
+            if self.finished:
                 break
 
             if write_outputs:
-- 
2.43.0


From 65bbb60dadba3a4e87f4673cd8048dc9787f3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:03 +0000
Subject: [PATCH 28/56] fix: when a motion finishes all systems have to
 complete the step

Without threading the systems after the one that finished were not propagated,
while the step counter was increased for all of them.
---
 ipi/engine/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index 229e9cc..a8bf41c 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -469,7 +469,9 @@ class Simulation:
                     self.finished = True
                     self.exit_status = s.motion.exit_status or "success"
                     self.exit_message = s.motion.exit_message
-                    return
+
+            if self.finished:
+                return
 
         # does the "super motion" step
         if self.smotion is not None:
-- 
2.43.0


From 8fc92780ff84b6f5acce28655a5d8098820e6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:03 +0000
Subject: [PATCH 29/56] fix: exit functions must run once, and to their end

Two threads requesting an exit could both run the exit functions, a second
kill signal interrupted them, and the main thread could end the process while
another thread was still writing the restart file.
---
 ipi/utils/softexit.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/softexit.py b/ipi/utils/softexit.py
index 8b6dc71..39559ac 100644
--- a/ipi/utils/softexit.py
+++ b/ipi/utils/softexit.py
@@ -43,6 +43,8 @@ class Softexit(object):
         self._thread = None
         self.triggered = False
         self.exiting = False
+        self._first = threading.Lock()  # taken by whoever runs the exit functions
+        self._cleaner = None
         self._doloop = [False]
 
     def register_function(self, func, *args, **kwargs):
@@ -77,6 +79,13 @@ class Softexit(object):
         """
 
         if self.triggered:
+            # the process must not end before the exit functions have been run
+            if (
+                threading.current_thread() is threading.main_thread()
+                and self._cleaner is not threading.current_thread()
+            ):
+                while self.exiting:
+                    time.sleep(0.01)
             return
         self.cleanup(status, message)
         self.kill()
@@ -89,7 +98,9 @@ class Softexit(object):
             threading.currentThread(),
             message,
         )
-        if not self.triggered:  # avoid double calls from different threads
+        # avoid double calls from different threads
+        if self._first.acquire(blocking=False):
+            self._cleaner = threading.current_thread()
             self.exiting = True
             self.triggered = True
 
@@ -174,6 +185,10 @@ class Softexit(object):
            frame: Current stack frame.
         """
 
+        if self.exiting:
+            # the exit functions are already being run, and should be left to finish
+            return
+
         warning(
             " @SOFTEXIT:   Kill signal. Trying to make a clean exit.", verbosity.low
         )
-- 
2.43.0


From 3f0e83479c72d2dc2fb3d2f1a71d3e2d574aba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:21 +0000
Subject: [PATCH 30/56] fix: an interactive run that stops early must leave a
 consistent restart file

After an exit request in the middle of a step the restart file was overwritten
with the half-propagated state; after a run that had been cut short, or when
there was nothing left to run, the step counter was increased once too many.
---
 ipi/scripting/interactive.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ipi/scripting/interactive.py b/ipi/scripting/interactive.py
index 69763bd..0bb43c9 100644
--- a/ipi/scripting/interactive.py
+++ b/ipi/scripting/interactive.py
@@ -11,6 +11,7 @@ from copy import deepcopy
 import numpy as np
 
 from ipi.utils.depend import dstrip
+from ipi.utils.softexit import softexit
 from ipi.utils.units import unit_to_internal, unit_to_user, Constants
 from ipi.engine.simulation import Simulation
 from ipi.engine.motion import Dynamics
@@ -93,11 +94,19 @@ class InteractiveSimulation(Simulation):
         :param steps: int, number of steps the simulation should be advanced by
         """
 
+        if softexit.triggered or self.finished or steps < 1:
+            return  # there is nothing left to do
+
         self.tsteps = self.step + steps
         super().run(write_outputs=write_outputs)
+        if softexit.triggered:
+            return  # the RESTART file has been taken care of
+
         # saves the RESTART file
         self.chk.write(store=True)
         self.step += 1
+        # no more steps have been asked for, even if the run has been cut short
+        self.tsteps = self.step
 
     def properties(self, property):
         """Fetches properties from the simulation state.
-- 
2.43.0


From 10bc0cb32614724d30adf049c59ef480ecd25894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:56 +0000
Subject: [PATCH 31/56] fix: files in another directory must be backed up there

The backup name was made by adding a character before the directory, so that
a run with such outputs stopped with an error if they existed.
---
 ipi/utils/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..a7cccad 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -449,8 +449,9 @@ def open_backup(filename, mode="r", buffering=-1):
 
         i = 0
         fn_backup = filename
+        dirname, basename = os.path.split(filename)
         while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
+            fn_backup = os.path.join(dirname, "#" + basename + "#%i#" % i)
             i += 1
 
         if fn_backup != filename:
-- 
2.43.0


From cf156a8e408bef35fdf2664e209024236afb6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:09 +0000
Subject: [PATCH 32/56] fix: a checkpoint must not be lost while it is being
 replaced

The file was truncated and then written, so that a crash in between left
no complete checkpoint. It is now replaced when the new one is complete.
---
 ipi/engine/outputs.py    | 16 ++++++++-------
 ipi/utils/io/__init__.py | 42 ++++++++++++++++++++++++----------------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index d8db273..2f825fc 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -18,7 +18,7 @@ from ipi.utils.softexit import softexit
 from ipi.utils.depend import *
 import ipi.utils.io as io
 from ipi.utils.io.inputs.io_xml import *
-from ipi.utils.io import open_backup
+from ipi.utils.io import backup_file, open_backup
 from ipi.engine.properties import getkey
 from ipi.engine.atoms import *
 from ipi.engine.cell import *
@@ -754,13 +754,8 @@ class CheckpointOutput:
         if not self.active():
             return
 
-        # function to use to open files
-        open_function = open_backup
-
         if self.overwrite:
             filename = self.filename
-            if self._continued:
-                open_function = open
         else:
             filename = self.filename + "_" + str(self.step)
 
@@ -770,11 +765,18 @@ class CheckpointOutput:
             self.store()
             self.status.step.store(self.simul.step + 1)
 
-        with open_function(filename, "w") as check_file:
+        # Only replaces the previous checkpoint when the new one is complete, so that
+        # there is one that can be read whatever happens in the meanwhile.
+        fn_new = filename + ".new"
+        with open_backup(fn_new, "w") as check_file:
             info_string = get_identification_info_xml()
             check_file.write(info_string + "\n")
             check_file.write(self.status.write(name="simulation"))
 
+        if not (self.overwrite and self._continued):
+            backup_file(filename)
+        os.replace(fn_new, filename)
+
         # Do not use backed up file open on subsequent writes.
         self._continued = True
 
diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index a7cccad..8bb8a02 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -428,6 +428,30 @@ def iter_file_name_raw(filename):
     return iter_file_raw(mode=os.path.splitext(filename)[1], filedesc=open(filename))
 
 
+def backup_file(filename):
+    """Moves a file, if it exists, to a backup name that is not in use.
+
+    Args:
+        filename: The name of the file.
+    """
+
+    i = 0
+    fn_backup = filename
+    dirname, basename = os.path.split(filename)
+    while os.path.isfile(fn_backup):
+        fn_backup = os.path.join(dirname, "#" + basename + "#%i#" % i)
+        i += 1
+
+    if fn_backup != filename:
+        os.rename(filename, fn_backup)
+        info(
+            " @open_backup: Backup performed: {0:s} -> {1:s}".format(
+                filename, fn_backup
+            ),
+            verbosity.low,
+        )
+
+
 def open_backup(filename, mode="r", buffering=-1):
     """A wrapper around `open` which saves backup files.
 
@@ -446,23 +470,7 @@ def open_backup(filename, mode="r", buffering=-1):
 
     if mode.startswith("w"):
         # If writing, make sure nothing is overwritten.
-
-        i = 0
-        fn_backup = filename
-        dirname, basename = os.path.split(filename)
-        while os.path.isfile(fn_backup):
-            fn_backup = os.path.join(dirname, "#" + basename + "#%i#" % i)
-            i += 1
-
-        if fn_backup != filename:
-            os.rename(filename, fn_backup)
-            info(
-                " @open_backup: Backup performed: {0:s} -> {1:s}".format(
-                    filename, fn_backup
-                ),
-                verbosity.low,
-            )
-
+        backup_file(filename)
     else:
         # There is no need to back up.
         # `open` will sort out whether `mode` is valid.
-- 
2.43.0


From 6f63c67f03c6f11d58c4af2b9c485188d6f662d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 33/56] fix: a restart file must not be written while its state
 is being stored by another thread

---
 ipi/engine/outputs.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index 2f825fc..7ddedab 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -9,6 +9,7 @@ and the restart files.
 # See the "licenses" directory for full license information.
 
 import os
+import threading
 
 import numpy as np
 
@@ -704,6 +705,8 @@ class CheckpointOutput:
         """
 
         self.simul = simul
+        # the exit functions can be run by another thread while the state is stored
+        self._lock = threading.RLock()
         import ipi.inputs.simulation as isimulation
 
         self.status = isimulation.InputSimulation()
@@ -723,9 +726,10 @@ class CheckpointOutput:
         positions would have been consistent.
         """
 
-        self._storing = True
-        self.status.store(self.simul)
-        self._storing = False
+        with self._lock:
+            self._storing = True
+            self.status.store(self.simul)
+            self._storing = False
 
     def write(self, store=True):
         """Writes out the required trajectories.
@@ -744,6 +748,12 @@ class CheckpointOutput:
               stored before writing the checkpoint file.
         """
 
+        with self._lock:
+            self._write(store)
+
+    def _write(self, store):
+        """Does the actual writing."""
+
         if self._storing:
             info(
                 "@ CHECKPOINT: Write called while storing. Force re-storing",
-- 
2.43.0


From c003af5e373b38ae8d882f250fb2e9b5836d3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:56 +0000
Subject: [PATCH 34/56] fix: an exit request during the output of the last step
 must not lose records

---
 ipi/engine/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index a8bf41c..41a2cd5 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -400,6 +400,10 @@ class Simulation:
                     for o in self.outputs:
                         o.write()
 
+            if softexit.triggered:
+                # some of the outputs might be missing
+                return
+
             steptime += time.time()
             ttot += steptime
             cstep += 1
-- 
2.43.0


From a5897195a2fe0f41c1c88824eced3350bb16c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:56 +0000
Subject: [PATCH 35/56] fix: an exit request at the end of an interactive run
 must not corrupt the step number

---
 ipi/scripting/interactive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/scripting/interactive.py b/ipi/scripting/interactive.py
index 0bb43c9..905c9d9 100644
--- a/ipi/scripting/interactive.py
+++ b/ipi/scripting/interactive.py
@@ -102,9 +102,11 @@ class InteractiveSimulation(Simulation):
         if softexit.triggered:
             return  # the RESTART file has been taken care of
 
-        # saves the RESTART file
-        self.chk.write(store=True)
+        # saves the RESTART file. the step is complete, and has to count as such
+        # also if an exit is requested while the state is being stored
         self.step += 1
+        self.chk.store()
+        self.chk.write(store=False)
         # no more steps have been asked for, even if the run has been cut short
         self.tsteps = self.step
 
-- 
2.43.0


From 1e948f5127d4772aeed6c77988e5788c5a0e32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:28 +0000
Subject: [PATCH 36/56] fix: closing the outputs must not stop a run before all
 exit functions are done

---
 ipi/engine/simulation.py | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index 41a2cd5..122072c 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -339,17 +339,7 @@ class Simulation:
         if self.step == 0 and write_outputs:
             self.step = -1
             # must use multi-threading to avoid blocking in multi-system runs with WTE
-            if self.threading:
-                stepthreads = []
-                for o in self.outputs:
-                    st = self.executor.submit(o.write)
-                    stepthreads.append(st)
-
-                for st in stepthreads:
-                    st.result()
-            else:
-                for o in self.outputs:
-                    o.write()
+            self.write_outputs(self.outputs)
             self.step = 0
 
         steptime = 0.0
@@ -387,18 +377,8 @@ class Simulation:
                 break
 
             if write_outputs:
-                if self.threading:
-                    stepthreads = []
-                    for o in self.outputs:
-                        if o.active():  # don't start a thread if it's not needed
-                            st = self.executor.submit(o.write)
-                            stepthreads.append(st)
-
-                    for st in stepthreads:
-                        st.result()
-                else:
-                    for o in self.outputs:
-                        o.write()
+                # don't start a thread if it's not needed
+                self.write_outputs([o for o in self.outputs if o.active()])
 
             if softexit.triggered:
                 # some of the outputs might be missing
@@ -444,6 +424,23 @@ class Simulation:
 
         self.rollback = False
 
+    def write_outputs(self, outputs):
+        """Writes a list of outputs, using threads if these are available."""
+
+        try:
+            if self.threading:
+                stepthreads = [self.executor.submit(o.write) for o in outputs]
+                for st in stepthreads:
+                    st.result()
+            else:
+                for o in outputs:
+                    o.write()
+        except ValueError:
+            # the files are closed by the exit functions, that might be run by another
+            # thread. this must not stop the simulation before they are done
+            if not softexit.triggered:
+                raise
+
     def run_step(self, step):
         if len(self.syslist) > 0 and self.threading:
             stepthreads = []
-- 
2.43.0


From 9e6fbe33a204aee03468b57729cf0941b24aef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 37/56] fix: the Python driver must announce the length of the
 extras in bytes

---
 drivers/py/driver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..f830557 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -213,9 +213,9 @@ def run_driver(
                 shm_views["vir"][i] = np.asarray(res[2]).reshape(3, 3)
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -235,9 +235,9 @@ def run_driver(
             )
             send_data(sock, virs)
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -270,8 +270,9 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
-            send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            extra = extras.encode("utf-8")
+            send_data(sock, np.int32(len(extra)))
+            sock.sendall(extra)
 
             f_data = False
         elif header == Message("EXIT"):
-- 
2.43.0


From b8e81a3dc981d2b65188482201cd9cebb056a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:03 +0000
Subject: [PATCH 38/56] fix: the Python driver must leave when the server
 disappears

---
 drivers/py/driver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index f830557..e8d2bb3 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -99,6 +99,15 @@ def run_driver(
     vir = np.zeros((3, 3), float)
     while True:  # ah the infinite loop!
         header = sock.recv(HDRLEN)
+        while 0 < len(header) < HDRLEN:
+            # the header may arrive in pieces
+            part = sock.recv(HDRLEN - len(header))
+            if len(part) == 0:
+                header = part
+                break
+            header += part
+        if len(header) == 0:
+            raise RuntimeError("Socket disconnected!")
         if f_verbose:
             print("Received ", header)
         if header == Message("STATUS"):
-- 
2.43.0


From ee43a800ffeb9fe0ba953078255dcab1a0399b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:58 +0000
Subject: [PATCH 39/56] fix: changing the weights of the Hamiltonian of an
 ensemble must change its forces

---
 ipi/engine/ensembles.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..c2cbe2a 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,7 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(name="hweights", value=np.asarray(hweights))
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +199,10 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
 
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -290,6 +291,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From f6cb3bcae00e096c77c8ce0cd07f6027b8eb4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:59 +0000
Subject: [PATCH 40/56] fix: the Hamiltonian weights of an ensemble must act on
 the dynamics

---
 ipi/engine/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index c2cbe2a..6ae5b2e 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -206,7 +206,7 @@ class Ensemble:
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
-                len(self.bcomp) > 0 and np.mean((self.hweights - 1) ** 2) < 1e-20
+                len(self.bcomp) > 0 or np.mean((self.hweights - 1) ** 2) > 1e-20
             ),
             dependencies=[self._hweights],
         )
-- 
2.43.0


From 1d8804cc6f0bec754d4dfdfc53e598b76c901ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:37 +0000
Subject: [PATCH 41/56] fix: swapping atoms must account for the bias and the
 spring energy

---
 ipi/engine/motion/atomswap.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/atomswap.py b/ipi/engine/motion/atomswap.py
index 98570e4..6be5c27 100644
--- a/ipi/engine/motion/atomswap.py
+++ b/ipi/engine/motion/atomswap.py
@@ -67,6 +67,36 @@ class AtomSwap(Motion):
         self.dbeads = self.beads.clone()
         self.dcell = self.cell.clone()
         self.dforces = self.forces.clone(self.dbeads, self.dcell)
+        self.dbias = self.ensemble.bias.clone(self.dbeads, self.dcell)
+        # the bias is weighted by the ensemble, see Ensemble.bind()
+        for i, fc in enumerate(self.dbias.mforces):
+            dpipe(self.ensemble._bweights, fc._weight, i)
+
+    def swap_energy(self):
+        """Potential energy of the trial configuration, including the bias and
+        the Hamiltonian weights of the ensemble."""
+
+        energy = self.dforces.pot
+        if self.ensemble.has_bias:
+            energy += self.dbias.pot
+            for k, w in enumerate(dstrip(self.ensemble.hweights)):
+                if w != 1:
+                    energy += (w - 1) * self.dforces.pots_component(k).sum()
+        return energy
+
+    def swap_spring(self, i, j):
+        """Change in the spring energy when atoms i and j swap positions."""
+
+        q = dstrip(self.beads.q)
+
+        def spring(atom, path):
+            qpath = q[:, 3 * path : 3 * path + 3]
+            dq = qpath - np.roll(qpath, -1, axis=0)
+            if atom in self.nm.open_paths:
+                dq = dq[:-1]
+            return 0.5 * self.beads.m[atom] * self.nm.omegan**2 * (dq**2).sum()
+
+        return spring(i, j) + spring(j, i) - spring(i, i) - spring(j, j)
 
     def AXlist(self, atomtype):
         """This compile a list of atoms ready for exchanges."""
@@ -113,12 +143,12 @@ class AtomSwap(Motion):
             i = axlist[i]
             j = axlist[j]
 
-            old_energy = self.forces.pot
+            old_energy = self.forces.pot + self.ensemble.bias.pot
             # swap the atom positions
             self.dbeads.q[:] = self.beads.q[:]
             self.dbeads.q[:, 3 * i : 3 * i + 3] = self.beads.q[:, 3 * j : 3 * j + 3]
             self.dbeads.q[:, 3 * j : 3 * j + 3] = self.beads.q[:, 3 * i : 3 * i + 3]
-            new_energy = self.dforces.pot
+            new_energy = self.swap_energy() + self.swap_spring(i, j)
             pexchange = np.exp(-betaP * (new_energy - old_energy))
 
             # attemps the exchange, and actually propagate the exchange if something has happened
-- 
2.43.0


From 028d48fb2de118b78b5154cb469493e2f5758e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:37 +0000
Subject: [PATCH 42/56] fix: alchemical exchanges must use the spring energy of
 open paths

---
 ipi/engine/motion/alchemy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/alchemy.py b/ipi/engine/motion/alchemy.py
index 3655f5c..2dc1921 100644
--- a/ipi/engine/motion/alchemy.py
+++ b/ipi/engine/motion/alchemy.py
@@ -95,11 +95,14 @@ class AlchemyMC(Motion):
         if lenlist == 0:
             raise ValueError("Atoms exchange list is empty in alchemical sampler.")
         atomspring = np.zeros(lenlist)
-        wk2 = dstrip(self.nm.omegak2)
 
         i = 0
         for atomnum in axlist:
             na3 = atomnum * 3
+            if atomnum in self.nm.open_paths:
+                wk2 = dstrip(self.nm.o_omegak) ** 2
+            else:
+                wk2 = dstrip(self.nm.omegak2)
 
             # computes spring in NM representation
             spr = 0.0
-- 
2.43.0


From 80c3e7fb41a73c400eae3ed4d28c40e8a529bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:30 +0000
Subject: [PATCH 43/56] fix: expanding forces of open paths must not affect the
 closed ones

---
 ipi/utils/nmtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index f826a87..91324d8 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -323,8 +323,8 @@ class nm_rescale(object):
                         q_scal[:, 3 * io + 2] = np.tensordot(
                             self._o_b2tob1, q[:, 3 * io + 2], axes=(1, 0)
                         )
-                    else:
-                        q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
+                else:
+                    q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
         return q_scal
 
 
-- 
2.43.0


From 98f092274bcbc00e39fb8670c02a1cfb01fc1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:30 +0000
Subject: [PATCH 44/56] fix: the contraction of open paths must keep the
 slowest modes

---
 ipi/utils/nmtransform.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index 91324d8..a80d460 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -123,15 +123,9 @@ def mk_o_rs_matrix(nb1, nb2):
 
         # builds the "reduction" matrix that picks the normal modes we want to keep
         b1_b2 = np.zeros((nb2, nb1), float)
-        b1_b2[0, 0] = 1.0
-        for i in range(1, nb2 // 2 + 1):
+        # (the modes of an open path are not degenerate, and come in order of frequency)
+        for i in range(nb2):
             b1_b2[i, i] = 1.0
-            b1_b2[nb2 - i, nb1 - i] = 1.0
-        if nb2 % 2 == 0:
-            # if we are contracting down to an even number of beads, then we have to
-            # pick just one of the last degenerate modes to match onto the single
-            # stiffest mode in the new path
-            b1_b2[nb2 // 2, nb1 - nb2 // 2] = 0.0
 
         rs_b1_b2 = np.dot(nm_b2, np.dot(b1_b2, b1_nm))
         return rs_b1_b2 * np.sqrt(float(nb2) / float(nb1))
-- 
2.43.0


From 539f1c37020a7c55cdecf331bb34b1304d773a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:30 +0000
Subject: [PATCH 45/56] fix: combining the raw extras must not change those of
 the first component

---
 ipi/engine/forces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..57168fa 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1541,7 +1541,8 @@ class Forces:
                                 for ib in range(self.nbeads):
                                     re["raw"][ib] += v[ib]
                             else:
-                                re["raw"] = v
+                                # copies, because this is the list of the component
+                                re["raw"] = list(v)
                         else:
                             if e in re:
                                 warning(
-- 
2.43.0


From 4537c936fd9d49a5655aba6a6cb6a57564b73c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:30 +0000
Subject: [PATCH 46/56] fix: changing the weight of a force component must
 update all that contains it

---
 ipi/engine/forces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 57168fa..a9a3402 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -745,6 +745,8 @@ class Forces:
         self._pots.add_dependency(nforces._pots)
         self._virs.add_dependency(nforces._virs)
         self._extras.add_dependency(nforces._extras)
+        for dep in (self._f, self._pots, self._virs, self._extras):
+            dep.add_dependency(nforces._weight)
 
     def bind(self, beads, cell, fcomponents, fflist, open_paths, output_maker):
         """Binds beads, cell and forces to the forcefield.
@@ -995,6 +997,7 @@ class Forces:
             self._f.add_dependency(fc._weight)
             self._pots.add_dependency(fc._weight)
             self._virs.add_dependency(fc._weight)
+            self._extras.add_dependency(fc._weight)
 
     def clone(self, beads, cell):
         """Duplicates the force object, so that it can be used to compute forces
-- 
2.43.0


From 1a91f1b8fa820826597875e7cfac565556a0199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:30 +0000
Subject: [PATCH 47/56] fix: forces that have not been evaluated must not be
 transferred as if they had

---
 ipi/engine/forces.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index a9a3402..2077377 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1048,7 +1048,9 @@ class Forces:
 
             bead_forces = []
             for b in range(mself.nbeads):
-                bead_forces.append(deepcopy(mself._forces[b]._ufvx._value))
+                ufvx = mself._forces[b]._ufvx
+                # there is nothing to store if this has not been evaluated
+                bead_forces.append(None if ufvx.tainted() else deepcopy(ufvx._value))
             force_data.append(
                 (
                     # will also need bead positions, see _load_state
@@ -1093,6 +1095,8 @@ class Forces:
                 )
 
             for b in range(mself.nbeads):
+                if fb[b] is None:
+                    continue
                 mself._forces[b]._ufvx.set(fb[b], manual=False)
                 mself._forces[b]._ufvx.taint(taintme=False)
 
-- 
2.43.0


From 6266176c13ee0a3e8f52b0a110871bcca327d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:15 +0000
Subject: [PATCH 48/56] fix: changing the time step must change the propagation
 of the centroid

---
 ipi/engine/motion/dynamics.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..8ac55ac 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -308,8 +308,16 @@ class DummyIntegrator:
             self.activeatoms_mask = False
 
         # total number of iteration in the inner-most MTS loop
-        self._inmts = depend_value(name="inmts", func=lambda: np.prod(self.nmts))
-        self._nmtslevels = depend_value(name="nmtslevels", func=lambda: len(self.nmts))
+        self._inmts = depend_value(
+            name="inmts",
+            func=lambda: np.prod(self.nmts),
+            dependencies=[self._nmts],
+        )
+        self._nmtslevels = depend_value(
+            name="nmtslevels",
+            func=lambda: len(self.nmts),
+            dependencies=[self._nmts],
+        )
         # these are the time steps to be used for the different parts of the integrator
         self._qdt = depend_value(
             name="qdt",
@@ -320,6 +328,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From 0a41a94099a7a86123be4ddd0a81ce88e4f52aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:15 +0000
Subject: [PATCH 49/56] fix: constrained-centroid dynamics must follow the
 splitting, the time-step levels and the bias

---
 ipi/engine/motion/dynamics.py | 40 ++++++++++-------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 8ac55ac..15721f4 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -578,45 +578,27 @@ class NVTCCIntegrator(NVTIntegrator):
         thermostat: A thermostat object to keep the temperature constant.
     """
 
-    def pstep(self):
-        """Velocity Verlet momenta propagator."""
-
-        # propagates in NM coordinates
-        self.nm.pnm += dstrip(self.nm.fnm) * (self.dt * 0.5)
-        # self.beads.p += dstrip(self.forces.f)*(self.dt*0.5)
-        # also adds the bias force
-        # self.beads.p += dstrip(self.bias.f)*(self.dt*0.5)
-
-    def step(self, step=None):
-        """Does one simulation time step."""
+    # the centroid does not move, and it is enough to redefine these functions
 
-        self.thermostat.step()
-        self.pconstraints()
-        # NB we only have to take into account the energy balance of zeroing centroid velocity when we had added energy through the thermostat
-        self.ensemble.eens += 0.5 * np.dot(
-            self.nm.pnm[0], self.nm.pnm[0] / self.nm.dynm3[0]
-        )
-        self.nm.pnm[0, :] = 0.0
+    def pstep(self, level=0):
+        """Velocity Verlet momenta propagator."""
 
-        self.pstep()
+        super(NVTCCIntegrator, self).pstep(level)
         self.nm.pnm[0, :] = 0.0
-        self.pconstraints()
 
-        # The centroid is constrained, so qcstep is skipped, but the internal
-        # ring-polymer modes still need the two half-step free propagations.
-        self.nm.free_qstep()
-        self.nm.free_qstep()
+    def qcstep(self):
+        """The centroid is constrained, so there is nothing to propagate."""
+        pass
 
-        self.pstep()
-        self.nm.pnm[0, :] = 0.0
-        self.pconstraints()
+    def tstep(self):
+        """Velocity Verlet thermostat step"""
 
-        self.thermostat.step()
+        super(NVTCCIntegrator, self).tstep()
+        # NB we only have to take into account the energy balance of zeroing centroid velocity when we had added energy through the thermostat
         self.ensemble.eens += 0.5 * np.dot(
             self.nm.pnm[0], self.nm.pnm[0] / self.nm.dynm3[0]
         )
         self.nm.pnm[0, :] = 0.0
-        self.pconstraints()
 
 
 class NPTIntegrator(NVTIntegrator):
-- 
2.43.0


From 01a9d9f60782dd3cbea034548cca6a6d2e55637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:15 +0000
Subject: [PATCH 50/56] fix: Suzuki-Chin forces must not act on fixed atoms

---
 ipi/engine/motion/dynamics.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 15721f4..75b2e7e 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -711,14 +711,22 @@ class SCIntegrator(NVTIntegrator):
 
         if level == 0:
             # bias goes in the outer loop
-            self.beads.p += dstrip(self.bias.f) * self.pdt[level]
+            self.pkick(dstrip(self.bias.f) * self.pdt[level])
         # just integrate the Trotter force scaled with the SC coefficients, which is a cheap approx to the SC force
-        self.beads.p += (
+        self.pkick(
             self.forces.mts_forces[level].f
             * (1.0 + self.forces.coeffsc_part_1)
             * self.pdt[level]
         )
 
+    def pkick(self, dp):
+        """Changes the momenta of all atoms but those that are fixed."""
+
+        if len(self.fixatoms_dof) > 0:
+            self.beads.p[:, self.activeatoms_mask] += dp[:, self.activeatoms_mask]
+        else:
+            self.beads.p += dp
+
     def step(self, step=None):
         # the |f|^2 term is considered to be slowest (for large enough P) and is integrated outside everything.
         # if nmts is not specified, this is just the same as doing the full SC integration
@@ -729,22 +737,22 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
 
             # forces are integerated for dt with MTS.
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop(0)
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
 
             # thermostat is applied for dt/2
             self.tstep()
             self.pconstraints()
 
         elif self.splitting == "baoab":
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop_ba(0)
             # thermostat is applied for dt
             self.tstep()
             self.pconstraints()
             self.mtsprop_ab(0)
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
 
 
 class SCNPTIntegrator(SCIntegrator):
@@ -799,10 +807,10 @@ class SCNPTIntegrator(SCIntegrator):
 
             # forces are integerated for dt with MTS.
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop(0)
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
 
             # thermostat is applied for dt/2
             self.tstep()
@@ -810,11 +818,11 @@ class SCNPTIntegrator(SCIntegrator):
 
         elif self.splitting == "baoab":
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
             self.mtsprop_ba(0)
             # thermostat is applied for dt
             self.tstep()
             self.pconstraints()
             self.mtsprop_ab(0)
             self.barostat.pscstep()
-            self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pkick(dstrip(self.forces.fsc_part_2) * self.dt * 0.5)
-- 
2.43.0


From a3f86f3b5eec1af8dadd2c03d4a39b03c8b3efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:50 +0000
Subject: [PATCH 51/56] fix: the barostat must account for the bias that acts
 on the innermost level

---
 ipi/engine/barostats.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 328db00..d35f62a 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -296,15 +296,23 @@ class Barostat:
 
         return kst
 
+    def force_mts(self, level, scale=1.0):
+        """The forces that act on the momenta at a MTS level, including the bias
+        that is applied with the outermost one.
+        """
+
+        f = np.multiply(dstrip(self.forces.mts_forces[level].f), scale)
+        if level == 0 and self.bias is not None:
+            # NB: don't += we don't want to overwrite the force
+            f = f + dstrip(self.bias.f)
+        return f
+
     def kstress_mts(self, level):
         """Calculates the quantum centroid virial kinetic stress tensor
         associated with the forces at a MTS level.
         """
 
-        fall = dstrip(self.forces.mts_forces[level].f)
-        if level == 0 and self.bias is not None:
-            # adds the bias. NB: don't += we don't want to overwrite the force
-            fall = fall + dstrip(self.bias.f)
+        fall = self.force_mts(level)
 
         beads = self.beads
         qqc = (dstrip(beads.q) - dstrip(beads.qc)).reshape(-1, 3)
@@ -596,7 +604,7 @@ class BaroBZP(Barostat):
             )
 
             pc = dstrip(self.beads.pc)
-            fc = np.sum(dstrip(self.forces.mts_forces[level].f), axis=0) / nbeads
+            fc = np.sum(self.force_mts(level), axis=0) / nbeads
             fc_m = fc / dstrip(self.beads.m3)[0]
 
             dt2 = dt * dt * self.beads.nbeads
@@ -805,11 +813,7 @@ class BaroSCBZP(Barostat):
             )
             pc = dstrip(self.beads.pc)
             fc = (
-                np.sum(
-                    dstrip(self.forces.mts_forces[level].f)
-                    * (1 + self.forces.coeffsc_part_1),
-                    axis=0,
-                )
+                np.sum(self.force_mts(level, 1 + self.forces.coeffsc_part_1), axis=0)
                 / self.beads.nbeads
             )
             m = dstrip(self.beads.m3)[0]
@@ -1085,9 +1089,7 @@ class BaroRGB(Barostat):
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
             fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
+                np.sum(self.force_mts(level), axis=0).reshape(self.beads.natoms, 3)
                 / self.beads.nbeads
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
@@ -1371,9 +1373,7 @@ class BaroMTK(Barostat):
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
             fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
+                np.sum(self.force_mts(level), axis=0).reshape(self.beads.natoms, 3)
                 / self.beads.nbeads
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
-- 
2.43.0


From 49f917a18422a3fb7e161864b4dfd1137fdf3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 52/56] fix: the Suzuki-Chin virial must be the derivative of
 the Suzuki-Chin potential

---
 ipi/engine/forces.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 2077377..db555ff 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -973,7 +973,12 @@ class Forces:
         self._virssc_part_2 = depend_array(
             name="virssc_part_2",
             value=np.zeros((self.nbeads, 3, 3), float),
-            dependencies=[self._coeffsc_part_2, self._vir_4th_order],
+            dependencies=[
+                self._coeffsc_part_2,
+                self._vir_4th_order,
+                self._f,
+                self.beads._m3,
+            ],
             func=self.get_virssc_part_2,
         )
 
@@ -1609,8 +1614,13 @@ class Forces:
 
     def get_virssc_part_2(self):
         """Obtains the quadratic component of Suzuki-Chin correction to the virial."""
-        return self.coeffsc_part_2.reshape((self.beads.nbeads, 1, 1)) * dstrip(
-            self.vir_4th_order
+        # the square of the forces also changes because the forces that are
+        # contracted with the derivative of the virial transform with the strain
+        f = dstrip(self.f).reshape((self.beads.nbeads, -1, 3))
+        fonm = (dstrip(self.f) / dstrip(self.beads.m3)).reshape(f.shape)
+        return self.coeffsc_part_2.reshape((self.beads.nbeads, 1, 1)) * (
+            dstrip(self.vir_4th_order)
+            + 2.0 * np.einsum("bai,baj->bij", f, fonm)
         )
 
     def get_fsc(self):
-- 
2.43.0


From 6cba5eba82b724c0dcd7dc491612f8cb0a93df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:54 +0000
Subject: [PATCH 53/56] fix: the initial momentum of a constrained centroid
 must be removed and accounted for

---
 ipi/engine/motion/dynamics.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 75b2e7e..3b8a717 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -590,16 +590,19 @@ class NVTCCIntegrator(NVTIntegrator):
         """The centroid is constrained, so there is nothing to propagate."""
         pass
 
-    def tstep(self):
-        """Velocity Verlet thermostat step"""
+    def pconstraints(self):
+        """Removes the momentum of the centroid together with the other constraints.
 
-        super(NVTCCIntegrator, self).tstep()
-        # NB we only have to take into account the energy balance of zeroing centroid velocity when we had added energy through the thermostat
-        self.ensemble.eens += 0.5 * np.dot(
-            self.nm.pnm[0], self.nm.pnm[0] / self.nm.dynm3[0]
-        )
+        NB pstep leaves no centroid momentum, so that we only take into account the
+        energy balance when it comes from the thermostat or the initial momenta.
+        """
+
+        pnm = dstrip(self.nm.pnm)[0]
+        self.ensemble.eens += 0.5 * np.dot(pnm, pnm / dstrip(self.nm.dynm3)[0])
         self.nm.pnm[0, :] = 0.0
 
+        super(NVTCCIntegrator, self).pconstraints()
+
 
 class NPTIntegrator(NVTIntegrator):
     """Integrator object for constant pressure simulations.
-- 
2.43.0


From 83a2fabdfd902beb085fd52339a4228352d00012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:54 +0000
Subject: [PATCH 54/56] fix: the springs must not move the beads of fixed atoms

---
 ipi/engine/motion/dynamics.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 3b8a717..b115f83 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -366,6 +366,18 @@ class DummyIntegrator:
         """Dummy centroid position propagator which does nothing."""
         pass
 
+    def free_qstep(self):
+        """Free propagation of the ring polymers, except those of the fixed atoms."""
+
+        if len(self.fixatoms_dof) == 0:
+            self.nm.free_qstep()
+        else:
+            # the springs must not move the beads of the fixed atoms
+            qfix = dstrip(self.nm.qnm)[:, self.fixatoms_dof].copy()
+            self.nm.free_qstep()
+            self.nm.qnm[:, self.fixatoms_dof] = qfix
+            self.nm.pnm[:, self.fixatoms_dof] = 0.0
+
     def step(self, step=None):
         """Dummy simulation time step which does nothing."""
         pass
@@ -466,9 +478,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
 
             else:
                 self.mtsprop(index + 1)
@@ -483,7 +495,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ba(index + 1)
 
@@ -494,7 +506,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ab(index + 1)
 
@@ -508,9 +520,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop(index + 1)
 
-- 
2.43.0


From 4ad567a8041ff658816d3b02ca1128b65a349f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:16 +0000
Subject: [PATCH 55/56] fix: the jacobian of a partly fixed cell must count
 only the free entries

With hfix the momenta were propagated with the number of free cell entries
(the matrix L), while the conserved quantity always had the terms of the
fully flexible cell, and so it drifted.
---
 ipi/engine/barostats.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index d35f62a..8a68bc2 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1059,7 +1059,10 @@ class BaroRGB(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        # counts the free entries of each row, as in the propagation of the momenta
+        # (a row with a fixed diagonal only contributes a constant)
+        nfree = np.where(np.diag(self.hmask) == 0, [3, 2, 1], np.diag(self.L))
+        cj = np.sum([nfree[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
@@ -1341,7 +1344,10 @@ class BaroMTK(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        # counts the free entries of each row, as in the propagation of the momenta
+        # (a row with a fixed diagonal only contributes a constant)
+        nfree = np.where(np.diag(self.hmask) == 0, [3, 2, 1], np.diag(self.L))
+        cj = np.sum([nfree[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
-- 
2.43.0


From 04b0704110202baada5b971caeb7bec318601d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 56/56] fix: the thermostat of the barostat must not move the
 cell entries held fixed

The momenta of the entries in hfix were removed only by the momentum steps,
so that with the baoab splitting these entries moved after each thermostat
step.
---
 ipi/engine/barostats.py | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 8a68bc2..5ac0cff 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1070,6 +1070,15 @@ class BaroRGB(Barostat):
 
         return self.thermostat.ethermo + self.kin + self.pot + self.cell_jacobian
 
+    def mask_p(self):
+        """Removes the momenta of the cell entries that are held fixed."""
+
+        # now apply the mask (and accumulate the associated change in conserved quantity)
+        # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
+        self.thermostat.ethermo += self.kin
+        self.p *= self.hmask
+        self.thermostat.ethermo -= self.kin
+
     def pstep(self, level=0):
         """Propagates the momenta for half a time step."""
 
@@ -1102,15 +1111,13 @@ class BaroRGB(Barostat):
                 * self.beads.nbeads
             )
 
-        # now apply the mask (and accumulate the associated change in conserved quantity)
-        # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
-        self.thermostat.ethermo += self.kin
-        self.p *= self.hmask
-        self.thermostat.ethermo -= self.kin
+        self.mask_p()
 
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
 
+        # the thermostat may have set the entries that are held fixed in motion
+        self.mask_p()
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
@@ -1355,6 +1362,19 @@ class BaroMTK(Barostat):
 
         return self.thermostat.ethermo + self.kin + self.pot + self.cell_jacobian
 
+    def mask_p(self):
+        """Removes the momenta of the cell entries that are held fixed."""
+
+        # now apply the mask (and accumulate the associated change in conserved quantity)
+        # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
+        self.thermostat.ethermo += self.kin
+        self.p *= self.hmask
+        if self.vol_constraint is True:
+            # a traceless momentum tensor will not change the volume, see
+            # Rogge, S. M. J. et al. Theory Comput. 11, 5583–5597 (2015) DOI: 10.1021/acs.jctc.5b00748
+            self.p -= np.eye(3) * np.trace(self.p) / 3.0
+        self.thermostat.ethermo -= self.kin
+
     def pstep(self, level=0):
         """Propagates the momenta for half a time step."""
 
@@ -1389,19 +1409,13 @@ class BaroMTK(Barostat):
                 * self.beads.nbeads
             )
 
-        # now apply the mask (and accumulate the associated change in conserved quantity)
-        # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
-        self.thermostat.ethermo += self.kin
-        self.p *= self.hmask
-        if self.vol_constraint is True:
-            # a traceless momentum tensor will not change the volume, see
-            # Rogge, S. M. J. et al. Theory Comput. 11, 5583–5597 (2015) DOI: 10.1021/acs.jctc.5b00748
-            self.p -= np.eye(3) * np.trace(self.p) / 3.0
-        self.thermostat.ethermo -= self.kin
+        self.mask_p()
 
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
 
+        # the thermostat may have set the entries that are held fixed in motion
+        self.mask_p()
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-- 
2.43.0

