From 7c43364658669858be76988430e0f0a848683bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 01/48] fix: Squares.state setter restores the buffered 32-bit
 half

---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..3e4e750 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -547,6 +547,8 @@ cdef class Squares(BitGenerator):
         self.variant = variant
         self._use64 = variant == 64
         self._setup_bitgen()
+        self.rng_state.has_uint32 = value["has_uint32"]
+        self.rng_state.uinteger = value["uinteger"]
 
     def advance(self, uint64_t delta):
         """
-- 
2.43.0


From eff4513b650afd94ecad0ccf891bd40a735c32e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 02/48] fix: HC128.seed discards the keystream buffered before
 re-seeding

---
 randomgen/src/hc-128/hc-128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/src/hc-128/hc-128.c b/randomgen/src/hc-128/hc-128.c
index 88b2ad4..707cc93 100644
--- a/randomgen/src/hc-128/hc-128.c
+++ b/randomgen/src/hc-128/hc-128.c
@@ -46,6 +46,7 @@ void hc128_init(hc128_state_t *state, const uint8_t *key, const uint8_t *iv)
         q[i] = round_expression_qp(q, p, i);
 
     state->hc_idx = 0;
+    state->buffer_idx = 0;
 }
 
 void hc128_seed(hc128_state_t *state, uint32_t *seed)
-- 
2.43.0


From d846df16554d5cb413f95aac55004b20db914dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 03/48] fix: Xorshift1024.seed resets the state index

---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From 1dcfffd56c06d0ecaac0dc90c3438afe987807ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 04/48] fix: random_raw(size=tuple, output=False) skips
 prod(size) values

---
 randomgen/common.pyx | 2 +-
 randomgen/rdrand.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4aa1af1..44cd9c4 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -234,7 +234,7 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
             with lock:
                 bitgen.next_raw(bitgen.state)
             return None
-        n = np.asarray(size).sum()
+        n = int(np.prod(size, dtype=np.intp))
         with lock, nogil:
             for i in range(n):
                 bitgen.next_raw(bitgen.state)
diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..1afc7ba 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -364,7 +364,7 @@ cdef class RDRAND(BitGenerator):
         cdef int status
 
         if not output:
-            n = 1 if size is None else size
+            n = 1 if size is None else int(np.prod(size, dtype=np.intp))
             status = self.rng_state.status
             with self.lock, nogil:
                 for i in range(n):
-- 
2.43.0


From 168a877215ceadb7e5a1b3ebd822cffd8e49e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 05/48] fix: Philox/ThreeFry.advance keeps the top bits of
 steps of 2**(N*W) and more

---
 randomgen/src/philox/philox.c     | 4 +---
 randomgen/src/threefry/threefry.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index e98d72e..aa5d721 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -17,9 +17,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
       adj_step = step[i] / N;                                                             \
       /* Add in the lower bits from the next step size */                                 \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                      \
-      if (i < (N - 1)){                                                                   \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                   \
-      }                                                                                   \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
       last = state->state.state##N##x##W.ctr.v[i];                                        \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                           \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                             \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 53a788e..1afa636 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -17,9 +17,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
       adj_step = step[i] / N;                                                               \
       /* Add in the lower bits from the next step size */                                   \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                        \
-      if (i < (N - 1)){                                                                     \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
-      }                                                                                     \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                       \
       last = state->state.state##N##x##W.ctr.v[i];                                          \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                             \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                               \
-- 
2.43.0


From 949affa6b2c8c74889859af95fcd0b8a732b11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 06/48] fix: lists of ints used as key or counter are not
 rounded to float64

---
 randomgen/common.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 44cd9c4..6e099e6 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -365,8 +365,13 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
                             " {1}".format(name, all_sz))
     else:
         dtype = np.uint64 if default_bits==64 else np.uint32
+        obj = np.array(val, dtype=object)
         val = np.array(val)
-        if not np.issubdtype(val.dtype, np.number):
+        if all([isinstance(v, (int, np.integer)) and not isinstance(v, bool)
+                for v in obj.flat]):
+            # Python ints are exact, unlike arrays promoted to float64
+            val = obj if obj.size else val
+        elif not np.issubdtype(val.dtype, np.number):
             raise ValueError("{0} contains non-numeric values or values "
                              "out-of-range".format(name))
         if not np.all((val // 1) == val):
-- 
2.43.0


From 34f5689f9ca17c4f726c4814dd7ca587662a743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 07/48] fix: state setters accept non-contiguous state arrays

---
 randomgen/common.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 6e099e6..c9d48a4 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -410,7 +410,7 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
         raise ValueError("State element {0} must be a 1-d array with dtype {1} "
                          "and {2} elements".format(name, req_dtype,
                                                    required_len))
-    return arr
+    return np.ascontiguousarray(arr)
 
 
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
-- 
2.43.0


From c87640ce4493b587daa3b17ceafef503eb68bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 08/48] fix: LCG128Mix.state setter updates the attributes used
 by seed, state and repr

---
 randomgen/pcg64.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..a294a85 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -851,8 +851,13 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
         self.rng_state.pcg_state.post = value["state"]["post"]
         output_func = value["state"]["output_func"]
+        self.multiplier = multiplier
+        self.dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        self.post = value["state"]["post"]
         if isinstance(output_func, str):
-            self.rng_state.pcg_state.output_idx = self._output_lookup[output_func]
+            self._cfunc = None
+            self.output_function = self._output_lookup[output_func]
+            self.rng_state.pcg_state.output_idx = self.output_function
         elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
             import ctypes
 
-- 
2.43.0


From 54555c06553953890454068553fbe09f391509f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 09/48] fix: Philox honours counter when numpy_seed is used

---
 randomgen/philox.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c70d584..a31336f 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -242,7 +242,7 @@ cdef class Philox(BitGenerator):
     def _seed_from_seq_numpy_compat(self, counter=None):
         if self.n != 4 or self.w != 64:
             raise ValueError("n must be 4 and w must br 64 when using mode='numpy'")
-        return self._seed_from_seq()
+        return self._seed_from_seq(counter=counter)
 
     def seed(self, seed=None, counter=None, key=None):
         """
-- 
2.43.0


From 072e010d6da4918691b60e25d4143703e0281f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 10/48] fix: SFC64.weyl_increments samples the number of bits
 within [min_bits, max_bits]

---
 randomgen/sfc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index e16d8eb..ba86c71 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -291,7 +291,7 @@ cdef class SFC64(BitGenerator):
         out = np.empty(n, dtype=np.uint64)
         out_arr = <uint64_t *>np.PyArray_DATA(out)
         for i in range(n):
-            val = <uint64_t>gen.integers(0, total, endpoint=True, dtype=np.uint64)
+            val = <uint64_t>gen.integers(0, total, dtype=np.uint64)
             nonzero_bits = 0
             for j in range(nbits):
                 if val < cum_count_arr[j] and nonzero_bits == 0:
-- 
2.43.0


From 0b52bd218f940ce1be108de0dbc7666eb09ad5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 11/48] fix: pickled and copied ExtendedGenerators keep their
 bit generator's configuration

---
 randomgen/_pickle.py    | 8 +++++---
 randomgen/generator.pyx | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/randomgen/_pickle.py b/randomgen/_pickle.py
index 6bd5ed6..3230f30 100644
--- a/randomgen/_pickle.py
+++ b/randomgen/_pickle.py
@@ -84,21 +84,23 @@ def _decode(name: str | bytes) -> str:
 
 
 def __extended_generator_ctor(
-    bit_generator_name: str | bytes = "MT19937",
+    bit_generator_name: str | bytes | BitGenerator = "MT19937",
 ) -> ExtendedGenerator:
     """
     Pickling helper function that returns a Generator object
 
     Parameters
     ----------
-    bit_generator_name: str
-        String containing the core BitGenerator
+    bit_generator_name: {str, BitGenerator}
+        The core BitGenerator, or its name in pickles made by older versions
 
     Returns
     -------
     rg: Generator
         Generator using the named core BitGenerator
     """
+    if not isinstance(bit_generator_name, (str, bytes)):
+        return ExtendedGenerator(bit_generator_name)
     bit_generator_name = _decode(bit_generator_name)
     assert isinstance(bit_generator_name, str)
     bit_generator = _get_bitgenerator(bit_generator_name)
diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..1a72105 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -195,8 +195,11 @@ cdef class ExtendedGenerator:
 
     def __reduce__(self):
         from randomgen._pickle import __extended_generator_ctor
-        return (__extended_generator_ctor, (self.bit_generator.state["bit_generator"],),
-                self.bit_generator.state)
+        return __extended_generator_ctor, (self._bit_generator,)
+
+    def __copy__(self):
+        import copy
+        return type(self)(copy.copy(self._bit_generator))
 
     @property
     def bit_generator(self):
-- 
2.43.0


From 9e49708576f8818e25ef87bfa0a6797ab17d64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 12/48] fix: ctypes and cffi interfaces follow a state that
 changes the variant

---
 randomgen/jsf.pyx          | 2 ++
 randomgen/pcg64.pyx        | 2 ++
 randomgen/philox.pyx       | 2 ++
 randomgen/romu.pyx         | 2 ++
 randomgen/squares.pyx      | 2 ++
 randomgen/threefry.pyx     | 2 ++
 randomgen/tyche.pyx        | 2 ++
 randomgen/xoroshiro128.pyx | 2 ++
 8 files changed, 16 insertions(+)

diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 4576efc..c1cc07d 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -211,6 +211,8 @@ cdef class JSF(BitGenerator):
         self.seed(seed)
 
     cdef setup_generator(self, object p, object q, object r):
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         if self.size == 64:
             self._bitgen.next_uint64 = &jsf64_uint64
             self._bitgen.next_uint32 = &jsf64_uint32
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index a294a85..bf63931 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -196,6 +196,8 @@ cdef class PCG64(BitGenerator):
         self._bitgen.state = <void *>&self.rng_state
 
     def _setup_rng_state(self):
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         self.use_dxsm = False
         self.cheap_multiplier = False
         if self.variant in ("dxsm", "2.0", "2", "cm-dxsm", "cmdxsm"):
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index a31336f..c3588b0 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -193,6 +193,8 @@ cdef class Philox(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &philox4x64_uint64
             self._bitgen.next_uint32 = &philox4x64_uint32
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 9ca65f9..e4479b5 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -100,6 +100,8 @@ cdef class Romu(BitGenerator):
         self._setup_bitgen()
 
     cdef _setup_bitgen(self):
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         if self.variant == "quad":
             self._bitgen.next_uint64 = &romuquad_uint64
             self._bitgen.next_uint32 = &romuquad_uint32
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 3e4e750..a2a721b 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -446,6 +446,8 @@ cdef class Squares(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         if self._use64:
             self._bitgen.next_uint64 = &squares_uint64
             self._bitgen.next_uint32 = &squares_uint32
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 8878b80..1217f7c 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -191,6 +191,8 @@ cdef class ThreeFry(BitGenerator):
 
     def _setup_generator(self):
         """Set the functions that will generate the values"""
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         if self.n == 4 and self.w == 64:
             self._bitgen.next_uint64 = &threefry4x64_uint64
             self._bitgen.next_uint32 = &threefry4x64_uint32
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 078f367..49c0b51 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -115,6 +115,8 @@ cdef class Tyche(BitGenerator):
         self._setup_bitgen()
 
     cdef void _setup_bitgen(self):
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         if self.original:
             self._bitgen.next_uint64 = &tyche_uint64
             self._bitgen.next_uint32 = &tyche_uint32
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 9c72279..17c87f6 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -136,6 +136,8 @@ cdef class Xoroshiro128(BitGenerator):
         self._bitgen.state = <void *>&self.rng_state
 
     cdef _set_generators(self):
+        # The cached interfaces hold the previous functions
+        self._ctypes = self._cffi = None
         if self._plusplus:
             self._bitgen.next_uint64 = &xoroshiro128plusplus_uint64
             self._bitgen.next_uint32 = &xoroshiro128plusplus_uint32
-- 
2.43.0


From 2fab2b094e7823096e43b99261bf0f45cd6f6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 13/48] fix: Philox/ThreeFry.advance(counter=False) of a fresh
 2-word generator keeps the block step

---
 randomgen/src/philox/philox.c     | 2 +-
 randomgen/src/threefry/threefry.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index aa5d721..ef6abb7 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -10,7 +10,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
   philox##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                      \
   next_buffer_pos = state->buffer_pos + rem;                                              \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
             && (use_carry > 0);                                                           \
   state->buffer_pos = next_buffer_pos % N;                                                \
   for (i = 0; i < N; i++) {                                                               \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 1afa636..4a85be0 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -10,7 +10,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
   threefry##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                        \
   next_buffer_pos = state->buffer_pos + rem;                                                \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
             && (use_carry > 0);                                                             \
   state->buffer_pos = next_buffer_pos % N;                                                  \
   for (i = 0; i < N; i++) {                                                                 \
-- 
2.43.0


From ddb62ab1afb7e084cef238ca29d76074258a8946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:22 +0000
Subject: [PATCH 14/48] fix: a rejected Squares.seed leaves the generator
 unchanged; fractional keys are rejected

---
 randomgen/squares.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index a2a721b..4c7b897 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -461,7 +461,10 @@ cdef class Squares(BitGenerator):
 
     @staticmethod
     cdef uint64_t _check_value(self, object val, object name, bint odd):
+        orig = val
         val = int(val)
+        if val != orig:
+            raise TypeError(f"{name} must be an integer.")
         if not 0 <= val <= np.iinfo(np.uint64).max:
             raise ValueError(f"{name} must be positive and less than 2**64.")
 
@@ -504,12 +507,11 @@ cdef class Squares(BitGenerator):
             If seed values are out of range for the PRNG.
         """
 
-        if counter is not None:
-            self.rng_state.counter = self._check_value(counter, "counter", False)
-        else:
-            self.rng_state.counter = counter = 0
+        counter = 0 if counter is None else self._check_value(counter, "counter", False)
         if key is not None:
+            # Nothing changes unless both are valid
             self.rng_state.key = self._check_value(key, "key", True)
+            self.rng_state.counter = counter
         else:
             BitGenerator._seed_with_seed_sequence(self, seed, counter=counter)
         self._reset_state_variables()
-- 
2.43.0


From c2f3fb5429405750e762ee81e153ff819aabbf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:11 +0000
Subject: [PATCH 15/48] fix: output arguments that are not arrays are rejected
 instead of read as arrays

---
 randomgen/broadcasting.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index 126ffb6..dec3d26 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -97,6 +97,8 @@ cdef check_output(object out, object dtype, object size, bint require_c_array):
     """
     if out is None:
         return
+    if not isinstance(out, np.ndarray):
+        raise TypeError("out must be an ndarray")
     cdef np.ndarray out_array = <np.ndarray> out
     if not (np.PyArray_ISCARRAY(out_array) or
             (np.PyArray_ISFARRAY(out_array) and not require_c_array)):
-- 
2.43.0


From 263b15d2651deb8290849ad32b0b1da4e8759ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:11 +0000
Subject: [PATCH 16/48] fix: random_entropy of an empty size returns an empty
 array

---
 randomgen/entropy.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 8fc1afb..66a96f5 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -173,6 +173,8 @@ def random_entropy(size=None, source="system"):
     else:
         n = compute_numel(size)
         randoms = np.zeros(n, dtype=np.uint32)
+        if n == 0:
+            return np.asarray(randoms).reshape(size)
         if source in ("system", "auto"):
             success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
         else:
@@ -191,6 +193,6 @@ def random_entropy(size=None, source="system"):
             raise RuntimeError("Unable to read from system cryptographic "
                                "provider or use fallback")
 
-    if n == 0:
+    if size is None:
         return random
     return np.asarray(randoms).reshape(size)
-- 
2.43.0


From 8ffbd45feda3e0746276d7e74c8c34034004781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 17/48] fix: random_entropy survives interrupted reads and does
 not leak the descriptor

---
 randomgen/src/entropy/entropy.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 17ac8c4..70768bf 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -63,6 +63,7 @@
 #endif
 
 #if HAVE_DEV_RANDOM
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 #endif
@@ -81,9 +82,19 @@ bool entropy_getbytes(void *dest, size_t size) {
   int fd = open("/dev/urandom", O_RDONLY);
   if (fd < 0)
     return false;
-  ssize_t sz = read(fd, dest, size);
-  if ((sz < 0) || ((size_t)sz < size))
-    return false;
+  /* Large reads may be interrupted by signals or return less than asked for */
+  unsigned char *pos = (unsigned char *)dest;
+  while (size > 0) {
+    ssize_t sz = read(fd, pos, size);
+    if (sz < 0 && errno == EINTR)
+      continue;
+    if (sz <= 0) {
+      close(fd);
+      return false;
+    }
+    pos += sz;
+    size -= (size_t)sz;
+  }
   return close(fd) == 0;
 }
 #endif
-- 
2.43.0


From 359753832d8e32cd88e67c84f214dae1c666fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:21 +0000
Subject: [PATCH 18/48] fix: seed_by_array does not round lists mixing integers
 above and below 2**63

---
 randomgen/entropy.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 66a96f5..61c5290 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -94,7 +94,7 @@ def seed_by_array(object seed, Py_ssize_t n):
         seed_array = np.array([int_seed], dtype=np.uint64)
     else:
         err_msg = "Seed values must be integers between 0 and 2**64 - 1"
-        obj = np.asarray(seed).astype(object)
+        obj = np.array(seed, dtype=object)
         if obj.ndim != 1:
             raise ValueError("Array-valued seeds must be 1-dimensional")
         if not all((np.isscalar(v) and np.isreal(v)) for v in obj):
-- 
2.43.0


From fa5fc5bc7a5c2dd7c1ad720b3023f928d4b70e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:26 +0000
Subject: [PATCH 19/48] fix: UserBitGenerator rejects bits other than 32 and 64

---
 randomgen/wrapper.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/wrapper.pyx b/randomgen/wrapper.pyx
index a4a63f0..927287e 100644
--- a/randomgen/wrapper.pyx
+++ b/randomgen/wrapper.pyx
@@ -110,6 +110,8 @@ cdef class UserBitGenerator(BitGenerator):
     def __init__(self, next_raw, bits=64, next_64=None, next_32=None,
                  next_double=None, state=None, state_getter=None,
                  state_setter=None):
+        if bits not in (32, 64):
+            raise ValueError("bits must be either 32 or 64")
         BitGenerator.__init__(self, 0)
         self.funcs = {"next_raw": next_raw,
                       "next_64": next_64,
-- 
2.43.0


From 2ca61ecbc7987c1b60ec7f57ea7c7fd719195128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 20/48] fix: factors are applied so that the covariance is A @
 A.T, as documented

wishart used the transposed factor for svd, eigh and cholesky, and
multivariate_normal for factor.
---
 randomgen/generator.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1a72105..f06267f 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -74,7 +74,7 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
         psd = np.allclose(np.dot(vh.T * s, vh), cov, rtol=tol, atol=tol)
         _factor = (u * np.sqrt(s)).T
     elif meth == "factor":
-        return cov
+        return cov.T
     elif meth == "eigh":
         from numpy.linalg import eigh
 
@@ -917,8 +917,8 @@ cdef class ExtendedGenerator:
             df_i = df_arr.item()
             out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
-            np.matmul(factor, out, out=out)
-            np.matmul(out, factor.T, out=out)
+            np.matmul(factor.T, out, out=out)
+            np.matmul(out, factor, out=out)
             return out
 
         if not shape_size:
@@ -985,8 +985,8 @@ and the trailing dimensions must match exactly so that
                                             lwork_data)
                 temp = large_values
             factor = _factors[shape_loc]
-            np.matmul(factor, temp, out=temp)
-            np.matmul(temp, factor.T, out=temp)
+            np.matmul(factor.T, temp, out=temp)
+            np.matmul(temp, factor, out=temp)
             out[..., i, :, :] = temp.reshape(temp_shape)
 
             np.PyArray_MultiIter_NEXT(it)
@@ -1239,6 +1239,6 @@ and the trailing dimensions must match exactly so that
             fidx += 1
         factors = factors.reshape(common_shape + (2 * dim, 2 * dim))
         out = self.multivariate_normal(
-            larr.view(np.float64), factors, size=size, method="factor"
+            larr.view(np.float64), np.swapaxes(factors, -1, -2), size=size, method="factor"
         )
         return out.view(complex)
-- 
2.43.0


From 954f5a5310ebd267349b51d5d19a884f9f4e44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 21/48] fix: wishart undoes the pivoting of reduced rank
 Cholesky factors

---
 randomgen/generator.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index f06267f..1bee224 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -102,8 +102,12 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
                 )
 
             func = get_lapack_funcs("pstrf")
-            _factor, _, rank_c, _ = func(cov)
-            _factor = np.triu(_factor)
+            _factor, piv, rank_c, _ = func(cov)
+            # func pivots: columns return to their place, rows past the rank are residue
+            nrows = min(rank, rank_c)
+            upper = np.triu(_factor)[:nrows]
+            _factor = np.zeros_like(cov)
+            _factor[:nrows, piv - 1] = upper
             psd = rank_c >= rank
 
     if not psd and check_valid != "ignore":
-- 
2.43.0


From 031e9c30b3cc7a1107b9ac26d13f0ae3e787fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 22/48] fix: wishart accepts lists and integer arrays as scale,
 and lists as size, with array df

---
 randomgen/generator.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1bee224..79f5249 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -945,6 +945,7 @@ cdef class ExtendedGenerator:
         else:
             if isinstance(size, (int, np.integer)):
                 size = (int(size),)
+            size = tuple(size)
             if len(size) < len(it_shape) or size[len(size)-len(it_shape):] != it_shape:
                 err_msg = (
 f"""size {size} is not compatible with the broadcast shape of `df` and `scale`
@@ -961,9 +962,9 @@ and the trailing dimensions must match exactly so that
         out_shape = out.shape
         out = out.reshape((-1, np.prod(it_shape), dim, dim))
         temp_shape = np.shape(out[..., 0, :, :])
-        _factors = np.empty_like(scale)
-        for loc in np.ndindex(*scale.shape[:len(scale.shape) - 2]):
-            _factors[loc] = _factorize(scale[loc], method, check_valid, tol, rank_val)
+        _factors = np.empty_like(shape_arr)
+        for loc in np.ndindex(*shape_size):
+            _factors[loc] = _factorize(shape_arr[loc], method, check_valid, tol, rank_val)
         _factors = _factors.reshape((-1, dim, dim))
 
         large_values = np.empty((block_size, dim, dim), dtype=np.float64)
-- 
2.43.0


From 87e7051abcc37ba16ae62e8ace192fa479ba2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 23/48] fix: multivariate_normal returns the shape asked for
 when size starts with 1, holds 0 or is ()

---
 randomgen/generator.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 79f5249..48f224e 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -533,10 +533,16 @@ cdef class ExtendedGenerator:
         if size is not None:
             if isinstance(size, (int, np.integer)):
                 size = (size,)
-            error = len(size) < len(out_shape)
+            error = len(size) < len(out_shape) and not drop_dims
+            if error:
+                raise ValueError(
+                    f"The desired out size {size} must have the same number (or "
+                    f"more) dimensions as the broadcast size of mean and cov "
+                    f"{out_shape}."
+                )
             final_size = list(size[: -len(out_shape)])
             for s, os in zip(size[-len(out_shape) :], out_shape):
-                if error or not (s == 1 or os == 1 or s == os):
+                if not (s == 1 or os == 1 or s == os):
                     raise ValueError(
                         f"The desired out size {size} is not compatible with "
                         f"the broadcast size of mean and cov {out_shape}. "
@@ -547,14 +553,15 @@ cdef class ExtendedGenerator:
                         f"either 1 or the same as the corresponding element "
                         f"of the broadcast size."
                     )
-                final_size.append(max(s, os))
+                final_size.append(os if s == 1 else s)
             out_shape = tuple(final_size)
 
         out = self._generator.standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
-        if drop_dims and final.shape[0] == 1:
-            final = final.reshape(final.shape[1:])
+        if drop_dims:
+            # The leading dimension was only added to mean and cov
+            final = final.reshape((out_shape if size is not None else ()) + (n,))
         return final
 
     def complex_normal(self, loc=0.0, gamma=1.0, relation=0.0, size=None):
-- 
2.43.0


From 6c04878d823232fc5867372a75e8010ec9ebaf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 24/48] fix: complex_normal holds the lock when drawing a
 single value

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 48f224e..f293f47 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -662,8 +662,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                with self.lock:
+                    f_real = random_standard_normal(&self._bitgen)
+                    f_imag = random_standard_normal(&self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From dd5f28e6a1dc7e1360b4cb9f6a9c5c56ff32b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 25/48] fix: complex_normal broadcasts an array gamma with a
 scalar relation

---
 randomgen/generator.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index f293f47..15f60a1 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -698,7 +698,8 @@ cdef class ExtendedGenerator:
         if np.any(np.not_equal(np.imag(ogamma), 0)):
             raise ValueError("Im(gamma) != 0")
 
-        cov = 0.5 * np.imag(orelation)
+        # Broadcast against the variances
+        cov = 0.5 * np.imag(orelation) + np.zeros_like(v_real)
         rho = np.zeros_like(cov)
         idx = (v_real.flat > 0) & (v_imag.flat > 0)
         rho.flat[idx] = cov.flat[idx] / np.sqrt(v_real.flat[idx] * v_imag.flat[idx])
-- 
2.43.0


From 71dd95340284f4c845c9c900283f571b7780a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 26/48] fix: complex_normal rejects a size that loc, gamma and
 relation do not broadcast to

---
 randomgen/generator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 15f60a1..5897380 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -716,6 +716,11 @@ cdef class ExtendedGenerator:
         n = np.PyArray_SIZE(randoms)
 
         it = np.PyArray_MultiIterNew5(randoms, oloc, v_real, v_imag, rho)
+        if it.shape != np.shape(randoms):
+            raise ValueError(
+                f"Output size {np.shape(randoms)} is not compatible with the "
+                f"broadcast shape of loc, gamma and relation."
+            )
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-- 
2.43.0


From 67c3fd9a2ee426b5c317f21277a78203c9584ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 27/48] fix: multivariate_complex_normal accepts gamma and
 relation with several leading dimensions

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 5897380..c810faf 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -1224,12 +1224,14 @@ and the trailing dimensions must match exactly so that
         else:
             _shape = np.shape(garr)[: gdim - 2]
             gidx = np.arange(np.prod(_shape)).reshape(_shape)
+            garr = np.reshape(garr, (-1, dim, dim))
         if rdim == 2:
             ridx = np.array([0])
             rarr = np.reshape(rarr, (1,) + np.shape(rarr))
         else:
             _shape = np.shape(rarr)[: rdim - 2]
             ridx = np.arange(np.prod(_shape)).reshape(_shape)
+            rarr = np.reshape(rarr, (-1, dim, dim))
 
         factors = np.empty(common_shape + (2 * dim, 2 * dim)).reshape(
             (-1, 2 * dim, 2 * dim)
-- 
2.43.0


From ac86563dc5dbe6c652fe35396594446e4c2fa3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:49 +0000
Subject: [PATCH 28/48] fix: complex_normal keeps the imaginary part of
 complex64 and 0-d array parameters

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index c810faf..e2ad7be 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -640,6 +640,8 @@ cdef class ExtendedGenerator:
         if (np.PyArray_NDIM(ogamma) ==
                 np.PyArray_NDIM(orelation) ==
                 np.PyArray_NDIM(oloc) == 0):
+            # Python complex: numpy values other than complex128 lose Im(value)
+            loc, gamma, relation = oloc.item(), ogamma.item(), orelation.item()
             floc_r = PyComplex_RealAsDouble(loc)
             floc_i = PyComplex_ImagAsDouble(loc)
             fgamma_r = PyComplex_RealAsDouble(gamma)
-- 
2.43.0


From a3a2b6db4a6946e727a37e3d9f6f389ab90fe1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:49 +0000
Subject: [PATCH 29/48] fix: complex_normal rejects Im(relation) of degenerate
 scalars as it does for arrays

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index e2ad7be..ee0d33c 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -660,6 +660,8 @@ cdef class ExtendedGenerator:
             f_rho = 0.0
             if fvar_i > 0 and fvar_r > 0:
                 f_rho = frelation_i / sqrt(fvar_i * fvar_r)
+            elif frelation_i != 0.0:
+                raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
             if f_rho > 1.0 or f_rho < -1.0:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
-- 
2.43.0


From d76d4b00d5ef69def1509a7428ceca887d94a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:26 +0000
Subject: [PATCH 30/48] fix: standard_wishart accepts numpy integers as size

---
 randomgen/generator.pyx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index ee0d33c..0086161 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -807,8 +807,8 @@ cdef class ExtendedGenerator:
         cdef double *n_data
         cdef double *out_data
 
-        if size is None or size == ():
-            sz = 1
+        if size is None:
+            sz = ()
         elif np.isscalar(size):
             sz = (int(size),)
         else:
@@ -824,10 +824,7 @@ cdef class ExtendedGenerator:
             n_data = <double *> np.PyArray_DATA(n)
             with self.lock, nogil:
                 random_wishart_large_df(&self._bitgen, df, dim, num, out_data, n_data)
-        if size is None or size == ():
-            out.shape = (dim, dim)
-        else:
-            out.shape = sz + (dim, dim)
+        out.shape = sz + (dim, dim)
         if rescale:
             out /= df
         return out
-- 
2.43.0


From 6dbb49597d50eba5631d15a99c6ae8e8bbc666d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:38 +0000
Subject: [PATCH 31/48] fix: Squares key generation read past the end of its
 random words

---
 randomgen/squares.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 4c7b897..1b9cf5d 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -85,14 +85,14 @@ cdef class _SequenceSampler:
 
     cdef void refill(self):
         """Refill the bit well after it is exhausted"""
-        self.bit_well = <uint64_t>self.random_well[self.index]
-        self.bit_well_loc = 0
-        self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
             )
+        self.bit_well = <uint64_t>self.random_well[self.index]
+        self.bit_well_loc = 0
+        self.index += 1
 
     cdef uint64_t gen_bits(self, int nbits):
         """Generate a fixed number of bits from the bit well"""
-- 
2.43.0


From 250ad0aee0d251c57e9ce74700d94cdbe05bf7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:44 +0000
Subject: [PATCH 32/48] fix: state setters reject positions outside the buffers
 they refer to

---
 randomgen/aes.pxd          |  1 +
 randomgen/aes.pyx          |  9 ++++++---
 randomgen/common.pxd       |  1 +
 randomgen/common.pyx       |  7 +++++++
 randomgen/dsfmt.pxd        |  1 +
 randomgen/dsfmt.pyx        |  2 ++
 randomgen/hc128.pxd        |  1 +
 randomgen/hc128.pyx        |  1 +
 randomgen/mt19937.pxd      |  7 ++++++-
 randomgen/mt19937.pyx      |  1 +
 randomgen/mt64.pxd         |  1 +
 randomgen/mt64.pyx         |  1 +
 randomgen/philox.pxd       |  1 +
 randomgen/philox.pxd.in    |  1 +
 randomgen/philox.pyx       | 17 +++++++++++------
 randomgen/sfmt.pxd         |  1 +
 randomgen/sfmt.pyx         |  3 +++
 randomgen/speck128.pxd     |  1 +
 randomgen/speck128.pyx     |  4 ++++
 randomgen/threefry.pxd     |  1 +
 randomgen/threefry.pxd.in  |  1 +
 randomgen/threefry.pyx     | 17 +++++++++++------
 randomgen/xorshift1024.pxd |  1 +
 randomgen/xorshift1024.pyx |  1 +
 24 files changed, 66 insertions(+), 16 deletions(-)

diff --git a/randomgen/aes.pxd b/randomgen/aes.pxd
index ebe6679..65709e2 100644
--- a/randomgen/aes.pxd
+++ b/randomgen/aes.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     BitGenerator,
     PyArray_calloc_aligned,
     PyArray_free_aligned,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 8832b44..a877f38 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -286,9 +286,9 @@ cdef class AESCounter(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state =value["s"]["state"]
-        for i in range(16 * 4):
-            self.rng_state.state[i] = state[i]
-        self.rng_state.offset = value["s"]["offset"]
+        offset = check_state_position(value["s"]["offset"], 0, 16 * 4, "offset")
+        if offset % 8:
+            raise ValueError("State element offset must be a multiple of 8")
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
@@ -296,6 +296,9 @@ cdef class AESCounter(BitGenerator):
         if counter.ndim != 1 or counter.shape[0] != 2 * (4):
             raise ValueError("counter must be a 1d uint64 array with 8 "
                              "elements")
+        for i in range(16 * 4):
+            self.rng_state.state[i] = state[i]
+        self.rng_state.offset = offset
         aesctr_set_seed_counter(self.rng_state,
                                 <uint64_t*>np.PyArray_DATA(seed),
                                 <uint64_t*>np.PyArray_DATA(counter))
diff --git a/randomgen/common.pxd b/randomgen/common.pxd
index 0d902a7..544f262 100644
--- a/randomgen/common.pxd
+++ b/randomgen/common.pxd
@@ -26,6 +26,7 @@ cdef object prepare_ctypes(bitgen_t *bitgen)
 cdef object wrap_int(object val, object bits)
 cdef object check_state_array(object arr, np.npy_intp required_len,
                               int required_bits, object name)
+cdef object check_state_position(object pos, object low, object high, object name)
 cpdef object object_to_int(object val, object bits, object name,
                            int default_bits=*, object allowed_sizes=*)
 
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index c9d48a4..80dfd13 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -413,6 +413,13 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
     return np.ascontiguousarray(arr)
 
 
+cdef object check_state_position(object pos, object low, object high, object name):
+    """Check that a position lies inside the buffer it refers to"""
+    if not low <= pos <= high:
+        raise ValueError("State element {0} must be in [{1}, {2}]".format(name, low, high))
+    return pos
+
+
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
     """
     Convert a large integer to an array of unsigned integers
diff --git a/randomgen/dsfmt.pxd b/randomgen/dsfmt.pxd
index 41f5fc3..f3e8887 100644
--- a/randomgen/dsfmt.pxd
+++ b/randomgen/dsfmt.pxd
@@ -8,6 +8,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
 )
 
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 9506c3d..7cdc322 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -278,6 +278,8 @@ cdef class DSFMT(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["state"], 2*DSFMT_N_PLUS_1,
                                   64, "state")
+        check_state_position(value["state"]["idx"], 0, DSFMT_N64, "idx")
+        check_state_position(value["buffer_loc"], 0, DSFMT_N64, "buffer_loc")
         for i in range(DSFMT_N_PLUS_1):
             for j in range(2):
                 self.rng_state.state.status[i].u[j] = state[loc]
diff --git a/randomgen/hc128.pxd b/randomgen/hc128.pxd
index 57add01..343f331 100644
--- a/randomgen/hc128.pxd
+++ b/randomgen/hc128.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index b14ec79..e324340 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -217,6 +217,7 @@ cdef class HC128(BitGenerator):
         p = check_state_array(state["p"], 512, 32, "p")
         q = check_state_array(state["q"], 512, 32, "q")
         buffer = check_state_array(state["buffer"], 16, 32, "buffer")
+        check_state_position(state["buffer_idx"], 0, 16, "buffer_idx")
         p_arr = <uint32_t *>np.PyArray_DATA(p)
         q_arr = <uint32_t *>np.PyArray_DATA(q)
         for i in range(512):
diff --git a/randomgen/mt19937.pxd b/randomgen/mt19937.pxd
index 54515d7..4280c09 100644
--- a/randomgen/mt19937.pxd
+++ b/randomgen/mt19937.pxd
@@ -1,7 +1,12 @@
 cimport numpy as np
 from libc.stdint cimport uint32_t, uint64_t
 
-from randomgen.common cimport BitGenerator, check_state_array, fully_qualified_name
+from randomgen.common cimport (
+    BitGenerator,
+    check_state_array,
+    check_state_position,
+    fully_qualified_name,
+)
 
 
 cdef extern from "src/mt19937/mt19937.h":
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 2f14d4d..8c6dcc2 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -309,6 +309,7 @@ cdef class MT19937(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], RK_STATE_LEN, 32, "key")
+        check_state_position(value["state"]["pos"], 0, RK_STATE_LEN, "pos")
         for i in range(RK_STATE_LEN):
             self.rng_state.key[i] = key[i]
         self.rng_state.pos = value["state"]["pos"]
diff --git a/randomgen/mt64.pxd b/randomgen/mt64.pxd
index 44a46e2..8760f0d 100644
--- a/randomgen/mt64.pxd
+++ b/randomgen/mt64.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index 2dbaf5a..e8b3963 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -165,6 +165,7 @@ cdef class MT64(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], 312, 64, "key")
+        check_state_position(value["state"]["pos"], 0, 312, "pos")
         for i in range(312):
             self.rng_state.mt[i] = key[i]
         self.rng_state.mti = value["state"]["pos"]
diff --git a/randomgen/philox.pxd b/randomgen/philox.pxd
index c1805f6..7c5f798 100644
--- a/randomgen/philox.pxd
+++ b/randomgen/philox.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pxd.in b/randomgen/philox.pxd.in
index 97e527d..8096571 100644
--- a/randomgen/philox.pxd.in
+++ b/randomgen/philox.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c3588b0..408fad9 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -377,14 +377,19 @@ cdef class Philox(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
+        number = value.get("number", 4)
+        width = value.get("width", 64)
+        if number not in (2, 4) or width not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
 
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n // 2, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], number, width, "counter")
+        key = check_state_array(state["key"], number // 2, width, "key")
+        buffer = check_state_array(value["buffer"], number, width, "buffer")
+        check_state_position(value["buffer_pos"], 0, PHILOX_BUFFER_SIZE, "buffer_pos")
+        self.rng_state.number = self.n = number
+        self.rng_state.width = self.w = width
+        self._setup_generator()
         # Reset to make sure buffer is 0ed
         self._reset_state_variables()
         for i in range(self.n):
diff --git a/randomgen/sfmt.pxd b/randomgen/sfmt.pxd
index 246fd6e..4cc98fc 100644
--- a/randomgen/sfmt.pxd
+++ b/randomgen/sfmt.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 300c4fc..d3e1356 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -285,6 +285,9 @@ cdef class SFMT(BitGenerator):
         state = check_state_array(value["state"]["state"], 4 * SFMT_N, 32,
                                   "state")
         state = state.view(np.uint64)
+        # Blocks are always generated as a whole
+        check_state_position(value["state"]["idx"], 4 * SFMT_N, 4 * SFMT_N, "idx")
+        check_state_position(value["buffer_loc"], 0, SFMT_N64, "buffer_loc")
         for i in range(SFMT_N):
             for j in range(2):
                 self.rng_state.state.state[i].u64[j] = state[loc]
diff --git a/randomgen/speck128.pxd b/randomgen/speck128.pxd
index ba2b46e..42f7f5b 100644
--- a/randomgen/speck128.pxd
+++ b/randomgen/speck128.pxd
@@ -6,6 +6,7 @@ from randomgen.common cimport (
     PyArray_calloc_aligned,
     PyArray_free_aligned,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 6dd3e8e..4a66558 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -318,6 +318,10 @@ cdef class SPECK128(BitGenerator):
         buffer = check_state_array(state["buffer"], SPECK_UNROLL, 64, "buffer")
         round_key = check_state_array(state["round_key"], 2*SPECK_MAX_ROUNDS, 64,
                                       "round_key")
+        check_state_position(state["rounds"], 0, SPECK_MAX_ROUNDS, "rounds")
+        check_state_position(state["offset"], 0, 8*SPECK_UNROLL, "offset")
+        if state["offset"] % 8:
+            raise ValueError("State element offset must be a multiple of 8")
 
         arr = <uint64_t*>np.PyArray_DATA(ctr)
         for i in range(SPECK_UNROLL):
diff --git a/randomgen/threefry.pxd b/randomgen/threefry.pxd
index d25031d..9db6e52 100644
--- a/randomgen/threefry.pxd
+++ b/randomgen/threefry.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pxd.in b/randomgen/threefry.pxd.in
index 96d462f..f618473 100644
--- a/randomgen/threefry.pxd.in
+++ b/randomgen/threefry.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 1217f7c..ce0682c 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -362,14 +362,19 @@ cdef class ThreeFry(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
+        number = value.get("number", 4)
+        width = value.get("width", 64)
+        if number not in (2, 4) or width not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
 
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], number, width, "counter")
+        key = check_state_array(state["key"], number, width, "key")
+        buffer = check_state_array(value["buffer"], number, width, "buffer")
+        check_state_position(value["buffer_pos"], 0, THREEFRY_BUFFER_SIZE, "buffer_pos")
+        self.rng_state.number = self.n = number
+        self.rng_state.width = self.w = width
+        self._setup_generator()
         # Reset to make sure buffer is 0ed
         self._reset_state_variables()
         for i in range(self.n):
diff --git a/randomgen/xorshift1024.pxd b/randomgen/xorshift1024.pxd
index 654277a..a9c46c6 100644
--- a/randomgen/xorshift1024.pxd
+++ b/randomgen/xorshift1024.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index 1b71e70..7595e0e 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -263,6 +263,7 @@ cdef class Xorshift1024(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["s"], 16, 64, "s")
+        check_state_position(value["state"]["p"], 0, 15, "p")
         for i in range(16):
             self.rng_state.s[i] = <uint64_t>state[i]
         self.rng_state.p = value["state"]["p"]
-- 
2.43.0


From 13be4f768d4fb17cc88414024cf3a255d87f1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:02 +0000
Subject: [PATCH 33/48] fix: out is filled when two or three parameters
 broadcast

---
 randomgen/broadcasting.pxd |  3 ++-
 randomgen/broadcasting.pyx | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/randomgen/broadcasting.pxd b/randomgen/broadcasting.pxd
index 7d45cba..0c1bd3d 100644
--- a/randomgen/broadcasting.pxd
+++ b/randomgen/broadcasting.pxd
@@ -92,7 +92,8 @@ cdef object cont_broadcast_3(void *func,
                              constraint_type b_constraint,
                              np.ndarray c_arr,
                              object c_name,
-                             constraint_type c_constraint)
+                             constraint_type c_constraint,
+                             object out)
 
 cdef object discrete_broadcast_iii(void *func,
                                    void *state,
diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index dec3d26..46ecbdd 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -224,7 +224,8 @@ cdef object cont_broadcast_1(void *func, void *state, object size, object lock,
 
 cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
                              np.ndarray a_arr, object a_name, constraint_type a_constraint,
-                             np.ndarray b_arr, object b_name, constraint_type b_constraint):
+                             np.ndarray b_arr, object b_name, constraint_type b_constraint,
+                             object out):
     cdef np.ndarray randoms
     cdef double a_val, b_val
     cdef double *randoms_data
@@ -238,7 +239,9 @@ cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
     if b_constraint != constraint_type.CONS_NONE:
         check_array_constraint(b_arr, b_name, b_constraint)
 
-    if size is not None:
+    if out is not None:
+        randoms = <np.ndarray>out
+    elif size is not None:
         randoms = <np.ndarray>np.empty(size, np.double)
     else:
         it = np.PyArray_MultiIterNew2(a_arr, b_arr)
@@ -263,7 +266,8 @@ cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
 cdef object cont_broadcast_3(void *func, void *state, object size, object lock,
                              np.ndarray a_arr, object a_name, constraint_type a_constraint,
                              np.ndarray b_arr, object b_name, constraint_type b_constraint,
-                             np.ndarray c_arr, object c_name, constraint_type c_constraint):
+                             np.ndarray c_arr, object c_name, constraint_type c_constraint,
+                             object out):
     cdef np.ndarray randoms
     cdef double a_val, b_val, c_val
     cdef double *randoms_data
@@ -280,7 +284,9 @@ cdef object cont_broadcast_3(void *func, void *state, object size, object lock,
     if c_constraint != constraint_type.CONS_NONE:
         check_array_constraint(c_arr, c_name, c_constraint)
 
-    if size is not None:
+    if out is not None:
+        randoms = <np.ndarray>out
+    elif size is not None:
         randoms = <np.ndarray>np.empty(size, np.double)
     else:
         it = np.PyArray_MultiIterNew3(a_arr, b_arr, c_arr)
@@ -331,12 +337,14 @@ cdef object cont(void *func, void *state, object size, object lock, int narg,
         elif narg == 2:
             return cont_broadcast_2(func, state, size, lock,
                                     a_arr, a_name, a_constraint,
-                                    b_arr, b_name, b_constraint)
+                                    b_arr, b_name, b_constraint,
+                                    out)
         else:
             return cont_broadcast_3(func, state, size, lock,
                                     a_arr, a_name, a_constraint,
                                     b_arr, b_name, b_constraint,
-                                    c_arr, c_name, c_constraint)
+                                    c_arr, c_name, c_constraint,
+                                    out)
 
     if narg > 0:
         _a = PyFloat_AsDouble(a)
-- 
2.43.0


From 0cf0f2935156a8f06f5310fc637d5402a9e78abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:12 +0000
Subject: [PATCH 34/48] fix: sizes that broadcast parameters do not fit are
 rejected, not partly used

---
 randomgen/broadcasting.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index 46ecbdd..6f831ee 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -118,6 +118,15 @@ cdef check_output(object out, object dtype, object size, bint require_c_array):
         if tup_size != out.shape:
             raise ValueError('size must match out.shape when used together')
 
+cdef int check_broadcast_shape(np.broadcast it, np.ndarray randoms) except -1:
+    """Check that the parameters broadcast to the shape of the output"""
+    if it.shape != (<object>randoms).shape:
+        raise ValueError(
+            f"Output size {(<object>randoms).shape} is not compatible with "
+            f"broadcast dimensions of inputs {it.shape}."
+        )
+    return 0
+
 cdef object double_fill(void *func, bitgen_t *state, object size, object lock, object out):
     cdef random_double_fill random_func = (<random_double_fill>func)
     cdef double out_val
@@ -212,6 +221,7 @@ cdef object cont_broadcast_1(void *func, void *state, object size, object lock,
     randoms_data = <double *>np.PyArray_DATA(randoms)
     n = np.PyArray_SIZE(randoms)
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -252,6 +262,7 @@ cdef object cont_broadcast_2(void *func, void *state, object size, object lock,
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew3(randoms, a_arr, b_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -297,6 +308,7 @@ cdef object cont_broadcast_3(void *func, void *state, object size, object lock,
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew4(randoms, a_arr, b_arr, c_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -429,6 +441,7 @@ cdef object discrete_broadcast_d(void *func, void *state, object size, object lo
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -464,6 +477,7 @@ cdef object discrete_broadcast_dd(void *func, void *state, object size, object l
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew3(randoms, a_arr, b_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -500,6 +514,7 @@ cdef object discrete_broadcast_di(void *func, void *state, object size, object l
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew3(randoms, a_arr, b_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -540,6 +555,7 @@ cdef object discrete_broadcast_iii(void *func, void *state, object size, object
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew4(randoms, a_arr, b_arr, c_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -572,6 +588,7 @@ cdef object discrete_broadcast_i(void *func, void *state, object size, object lo
     n = np.PyArray_SIZE(randoms)
 
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
@@ -751,6 +768,7 @@ cdef object cont_broadcast_1_f(void *func, bitgen_t *state, object size, object
     randoms_data = <float *>np.PyArray_DATA(randoms)
     n = np.PyArray_SIZE(randoms)
     it = np.PyArray_MultiIterNew2(randoms, a_arr)
+    check_broadcast_shape(it, randoms)
 
     with lock, nogil:
         for i in range(n):
-- 
2.43.0


From 1d484ab99fb2ff4dae632b687c9ba124900d0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 35/48] fix: Squares keys made while another key is being made
 are not mixed up

---
 randomgen/squares.pyx | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1b9cf5d..5193a25 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -28,19 +28,12 @@ cdef class _TestSeninal:
 
 _test_sentinal = _TestSeninal()
 
-# Module level variables to save small allocations
+# The words in order, copied by each key since drawing may run Python code
 cdef np.ndarray WORDS_ARR = np.arange(16, dtype=np.uint8)
-cdef uint8_t[::1] WORDS = WORDS_ARR
-
-
-cdef void _reset_words():
-    cdef int i
-    for i in range(16):
-        WORDS[i] = i
 
 
 def _get_words():
-    return np.asarray(WORDS)
+    return WORDS_ARR.copy()
 
 
 cdef uint64_t squares_uint64(void* st) noexcept nogil:
@@ -152,11 +145,10 @@ cdef uint64_t generate_key(_SequenceSampler seq_sampler):
     The core key generation implementation
     """
     cdef uint64_t out, i
-    cdef uint8_t[::1] tmp = WORDS
+    cdef uint8_t[::1] tmp = WORDS_ARR.copy()
     cdef uint8_t last_value, next_value, old
 
     out = 0
-    _reset_words()
     seq_sampler.shuffle(tmp)
     if not (tmp[0] & 0x1):
         old = tmp[0]
-- 
2.43.0


From b1c4e8ce863a7017a3bc1591176536b734a8ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 36/48] fix: ExtendedGenerator follows a state that changes the
 variant

---
 randomgen/generator.pyx | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 0086161..bfb28d6 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -163,8 +163,8 @@ cdef class ExtendedGenerator:
     """
 
     cdef public object _bit_generator
-    cdef bitgen_t _bitgen
-    cdef object lock, _generator
+    cdef bitgen_t *_bitgen
+    cdef object lock
 
     def __init__(self, bit_generator=None):
         if bit_generator is None:
@@ -176,10 +176,9 @@ cdef class ExtendedGenerator:
         if not PyCapsule_IsValid(capsule, name):
             raise ValueError("Invalid bit generator. The bit generator must "
                              "be instantized.")
-        self._bitgen = (<bitgen_t *> PyCapsule_GetPointer(capsule, name))[0]
+        # Not a copy: assigning a state can replace the functions
+        self._bitgen = <bitgen_t *> PyCapsule_GetPointer(capsule, name)
         self.lock = bit_generator.lock
-        from numpy.random import Generator
-        self._generator = Generator(bit_generator)
 
     def __repr__(self):
         out = object.__repr__(self)
@@ -354,9 +353,9 @@ cdef class ExtendedGenerator:
 
         key = np.dtype(dtype).name
         if key == "float64":
-            return double_fill(&random_double_fill, &self._bitgen, size, self.lock, out)
+            return double_fill(&random_double_fill, self._bitgen, size, self.lock, out)
         elif key == "float32":
-            return float_fill(&random_float, &self._bitgen, size, self.lock, out)
+            return float_fill(&random_float, self._bitgen, size, self.lock, out)
         elif key == np.dtype("longdouble").name:
             if np.longdouble(1).nbytes != random_long_double_size():
                 raise RuntimeError(
@@ -373,7 +372,7 @@ cdef class ExtendedGenerator:
             out_data = <long double*>np.PyArray_DATA(out_array)
             out_size = out_array.size
             with self.lock, nogil:
-                random_long_double_fill(&self._bitgen, out_size, out_data)
+                random_long_double_fill(self._bitgen, out_size, out_data)
             if out is None and size is None:
                 return out_array[0]
             return out_array
@@ -556,7 +555,9 @@ cdef class ExtendedGenerator:
                 final_size.append(os if s == 1 else s)
             out_shape = tuple(final_size)
 
-        out = self._generator.standard_normal(out_shape + (1, n,))
+        from numpy.random import Generator
+
+        out = Generator(self._bit_generator).standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
         if drop_dims:
@@ -667,8 +668,8 @@ cdef class ExtendedGenerator:
 
             if size is None:
                 with self.lock:
-                    f_real = random_standard_normal(&self._bitgen)
-                    f_imag = random_standard_normal(&self._bitgen)
+                    f_real = random_standard_normal(self._bitgen)
+                    f_imag = random_standard_normal(self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
@@ -681,8 +682,8 @@ cdef class ExtendedGenerator:
             j = 0
             with self.lock, nogil:
                 for i in range(n):
-                    f_real = random_standard_normal(&self._bitgen)
-                    f_imag = random_standard_normal(&self._bitgen)
+                    f_real = random_standard_normal(self._bitgen)
+                    f_imag = random_standard_normal(self._bitgen)
                     compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                     fvar_i, f_rho)
                     randoms_data[j] = f_real
@@ -728,7 +729,7 @@ cdef class ExtendedGenerator:
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-                randoms_data[i] = random_standard_normal(&self._bitgen)
+                randoms_data[i] = random_standard_normal(self._bitgen)
         with nogil:
             j = 0
             for i in range(n):
@@ -747,7 +748,7 @@ cdef class ExtendedGenerator:
     cdef object random_wishart_small_df(
             self, int64_t df, np.npy_intp dim, np.npy_intp num, object n
     ):
-        double_fill(&random_standard_normal_fill, &self._bitgen, None, self.lock, n)
+        double_fill(&random_standard_normal_fill, self._bitgen, None, self.lock, n)
         return np.matmul(np.transpose(n, (0, 2, 1)), n)
 
     def standard_wishart(self, int64_t df, np.npy_intp dim, size=None, rescale=True):
@@ -823,7 +824,7 @@ cdef class ExtendedGenerator:
             n = <np.ndarray> np.empty((dim, dim))
             n_data = <double *> np.PyArray_DATA(n)
             with self.lock, nogil:
-                random_wishart_large_df(&self._bitgen, df, dim, num, out_data, n_data)
+                random_wishart_large_df(self._bitgen, df, dim, num, out_data, n_data)
         out.shape = sz + (dim, dim)
         if rescale:
             out /= df
@@ -997,7 +998,7 @@ and the trailing dimensions must match exactly so that
                 temp = self.random_wishart_small_df(df_i, dim, block_size, small_work)
             else:
                 with self.lock, nogil:
-                    random_wishart_large_df(&self._bitgen,
+                    random_wishart_large_df(self._bitgen,
                                             df_i,
                                             <np.npy_intp>dim,
                                             <np.npy_intp>block_size,
-- 
2.43.0


From ac65a2ec49353f386ae448741170e640a8a65296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 37/48] fix: RDRAND read past its buffer after a failure

---
 randomgen/rdrand.pyx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index 1afc7ba..62de402 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -30,14 +30,13 @@ cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
     cdef uint64_t val
     state = <rdrand_state*>st
     status = 1
-    if state.status == 1 and state.buffer_loc < BUFFER_SIZE:
-        val = state.buffer[state.buffer_loc]
-        state.buffer_loc += 1
-        return val
-    elif state.status == 1:
-        # Only refill if good status
-        # This function will
-        status = rdrand_fill_buffer(state)
+    if state.buffer_loc >= BUFFER_SIZE:
+        # After a failure, the buffer is filled so that it can be read, but
+        # the status remains 0
+        if state.status == 1:
+            status = rdrand_fill_buffer(state)
+        else:
+            rdrand_fill_buffer(state)
     val = state.buffer[state.buffer_loc]
     state.buffer_loc += 1
     if status == 0:
-- 
2.43.0


From 4f4057e0955c74d68e8eb333114c22941338a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 38/48] fix: RDRAND reported failures only where print works

---
 randomgen/rdrand.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index 62de402..efac41a 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -58,6 +58,11 @@ cdef double rdrand_double(void* st) noexcept nogil:
     return uint64_to_double(rdrand_uint64(st))
 
 
+cdef int raise_pending() except -1:
+    # The Python error flag has already been set
+    return -1
+
+
 cdef class RaisingLock:
     """
     A Lock that wraps threading.Lock can can raise errors.
@@ -84,8 +89,7 @@ cdef class RaisingLock:
         self.err = PyErr_Occurred()
         if self.err != NULL:
             try:
-                # Python operation causes error to be raised
-                print()
+                raise_pending()
             except Exception as exc:
                 self.release()
                 raise exc
-- 
2.43.0


From 689da937c32ee1ad94fc63f69947b6b9f503c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 39/48] fix: RDRAND.jumped lost the retries

---
 randomgen/rdrand.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index efac41a..0c931b2 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -424,6 +424,7 @@ cdef class RDRAND(BitGenerator):
         """
         cdef RDRAND bit_generator
         bit_generator = self.__class__()
+        bit_generator.rng_state.retries = self.rng_state.retries
         bit_generator._set_seed_seq(self._seed_seq)
 
         return bit_generator
-- 
2.43.0


From af77601d418962dd9222216a57ba62580a5f5c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:19 +0000
Subject: [PATCH 40/48] fix: UserBitGenerator rejected a null pointer as its
 state

---
 randomgen/wrapper.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/wrapper.pyx b/randomgen/wrapper.pyx
index 927287e..4ed7dc2 100644
--- a/randomgen/wrapper.pyx
+++ b/randomgen/wrapper.pyx
@@ -168,7 +168,8 @@ cdef class UserBitGenerator(BitGenerator):
         self.next_32_ptr = ctypes.cast(self.next_32, ctypes.c_void_p).value
         self.next_raw_ptr = ctypes.cast(self.next_raw, ctypes.c_void_p).value
         self.next_double_ptr = ctypes.cast(self.next_double, ctypes.c_void_p).value
-        self.state_ptr = self.state.value if self.state is not None else 0
+        # The value of a null pointer is None
+        self.state_ptr = (self.state.value or 0) if self.state is not None else 0
 
         # Get the raw memory address
         self._bitgen.next_uint64 = <next_uint64_t> self.next_64_ptr
-- 
2.43.0


From 3d6845e2a810af5826286984b294d5b5f16528ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 41/48] fix: spawn children past the 2**31st

The index of the child was a C int and went negative.
---
 randomgen/_seed_sequence.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index e5cba28..66927e8 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -462,8 +462,6 @@ cdef class SeedSequence(object):
         seqs :  list[SeedSequence]
             Child SeedSequences with incremented  ``spawn_key``
         """
-        cdef int i
-
         seqs = []
         for i in range(self.n_children_spawned,
                        self.n_children_spawned + n_children):
-- 
2.43.0


From 348b56e2eb80a70c5b529a1ea2387a722dcc9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 42/48] fix: increments of 2**128 (PCG32: 2**64), and
 fractional ones of LCG128Mix, are rejected with ValueError

---
 randomgen/pcg32.pyx |  2 +-
 randomgen/pcg64.pyx | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/randomgen/pcg32.pyx b/randomgen/pcg32.pyx
index 08f8151..a2199b1 100644
--- a/randomgen/pcg32.pyx
+++ b/randomgen/pcg32.pyx
@@ -146,7 +146,7 @@ cdef class PCG32(BitGenerator):
                       "{ub}".format(ub=ub)
             if not np.isscalar(inc):
                 raise TypeError(err_msg)
-            if inc < 0 or inc > ub or int(np.squeeze(inc)) != inc:
+            if inc < 0 or inc >= ub or int(np.squeeze(inc)) != inc:
                 raise ValueError(err_msg)
         BitGenerator._seed_with_seed_sequence(self, seed, inc=inc)
 
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index bf63931..8e6f790 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -295,7 +295,7 @@ cdef class PCG64(BitGenerator):
                       "{ub}".format(ub=ub)
             if not np.isscalar(inc):
                 raise TypeError(err_msg)
-            if inc < 0 or inc > ub or int(np.squeeze(inc)) != inc:
+            if inc < 0 or inc >= ub or int(np.squeeze(inc)) != inc:
                 raise ValueError(err_msg)
         BitGenerator._seed_with_seed_sequence(self, seed, inc=inc)
 
@@ -766,6 +766,14 @@ cdef class LCG128Mix(BitGenerator):
             a ``SeedSequence`` (which is shared with seed if seed is also
             None).
         """
+        ub = 2 ** 128
+        if inc is not None:
+            err_msg = "inc must be a scalar integer between 0 and " \
+                      "{ub}".format(ub=ub)
+            if not np.isscalar(inc):
+                raise TypeError(err_msg)
+            if inc < 0 or inc >= ub or int(np.squeeze(inc)) != inc:
+                raise ValueError(err_msg)
         BitGenerator._seed_with_seed_sequence(self, seed, inc=inc)
 
     @property
-- 
2.43.0


From 6573f52c1fef5eb8d23ae1c9cef5ad05386680d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 43/48] fix: fractional SFC64 w and k, LXM b and Tyche idx are
 rejected, not truncated

---
 randomgen/lxm.pyx   | 2 ++
 randomgen/sfc.pyx   | 5 +++++
 randomgen/tyche.pyx | 4 ++--
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index f927877..5de790e 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -128,6 +128,8 @@ cdef class LXM(BitGenerator):
     """
     def __init__(self, seed=None, *, b=3037000493):
         BitGenerator.__init__(self, seed)
+        if not 0 <= b < 2**64 or int(b) != b:
+            raise ValueError("b must be an integer in [0, 2**64).")
         self.seed(seed)
 
         self.rng_state.b = <uint64_t>b | 1
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index ba86c71..f9cdc82 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -124,6 +124,11 @@ cdef class SFC64(BitGenerator):
 
     def __init__(self, seed=None, w=1, k=1, *, numpy_seed=False, mode=_DeprecatedValue):
         BitGenerator.__init__(self, seed, numpy_seed=numpy_seed, mode=mode)
+        for name, value in (("w", w), ("k", k)):
+            if value is not None and (
+                    not 0 <= value < 2**64 or int(value) != value
+            ):
+                raise ValueError(f"{name} must be an integer in [0, 2**64).")
         self.w = w
         self.k = k
         self.seed(seed)
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 49c0b51..2a9ccf5 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -137,8 +137,8 @@ cdef class Tyche(BitGenerator):
         if idx is None:
             _idx = <uint32_t>full_state[2]
         else:
-            if not 0 <= idx <= np.iinfo(np.uint32).max:
-                raise ValueError("idx must be in the interval [0, 2**32).")
+            if not 0 <= idx <= np.iinfo(np.uint32).max or int(idx) != idx:
+                raise ValueError("idx must be an integer in the interval [0, 2**32).")
             _idx = <uint32_t>idx
         tyche_seed(&self.rng_state, state, _idx, <int>self.original)
 
-- 
2.43.0


From 12801f664e7a2679ee5c98bdfe18ce9e7c1e3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:49 +0000
Subject: [PATCH 44/48] fix: an infinite Squares key or counter is rejected
 with ValueError

---
 randomgen/squares.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 5193a25..321d82f 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -454,7 +454,13 @@ cdef class Squares(BitGenerator):
     @staticmethod
     cdef uint64_t _check_value(self, object val, object name, bint odd):
         orig = val
-        val = int(val)
+        try:
+            val = int(val)
+        except OverflowError as exc:
+            # Infinite
+            raise ValueError(
+                f"{name} must be positive and less than 2**64."
+            ) from exc
         if val != orig:
             raise TypeError(f"{name} must be an integer.")
         if not 0 <= val <= np.iinfo(np.uint64).max:
-- 
2.43.0


From cb5699d2074149e6bbd35b5442347fce2e5c04ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:20 +0000
Subject: [PATCH 45/48] fix: wishart drew before it rejected a scale

---
 randomgen/generator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index bfb28d6..fddc401 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -935,8 +935,8 @@ cdef class ExtendedGenerator:
         df_size = np.shape(df_arr)
         if not df_size and not shape_size:
             df_i = df_arr.item()
-            out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
+            out = self.standard_wishart(df_i, dim, size, False)
             np.matmul(factor.T, out, out=out)
             np.matmul(out, factor, out=out)
             return out
-- 
2.43.0


From 7abbe8276c99115ec5d3576d845f38be9facc203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 46/48] fix: wishart(tol=None) raised TypeError instead of
 choosing a tolerance

---
 randomgen/generator.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index fddc401..4de9454 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -64,6 +64,10 @@ cdef object broadcast_shape(tuple x, tuple y, bint strict):
 
 
 cdef _factorize(cov, meth, check_valid, tol, rank):
+    if tol is None:
+        # Rounding errors grow with the dimension and the size of the elements
+        tol = 100 * cov.shape[0] * np.finfo(np.float64).eps
+        tol *= max(1.0, np.max(np.abs(cov), initial=0.0))
     if meth == "svd":
         from numpy.linalg import svd
 
-- 
2.43.0


From 38f1c249bfbaf5ce41076e3eede36c0455d39ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:48 +0000
Subject: [PATCH 47/48] fix: LCG128Mix rejected a ctypes function whose
 argtypes are a list

---
 randomgen/pcg64.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 8e6f790..66a24c8 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -648,7 +648,8 @@ cdef class LCG128Mix(BitGenerator):
         )
         if hasattr(output, "argtypes") and hasattr(output, "restype"):
             from ctypes import c_ulonglong
-            if output.argtypes != (c_ulonglong, c_ulonglong):
+            # argtypes is a list if it was set to one
+            if tuple(output.argtypes or ()) != (c_ulonglong, c_ulonglong):
                 raise ValueError("output must take two uint64 arguments")
             if output.restype != c_ulonglong:
                 raise ValueError("output must return a uint64")
-- 
2.43.0


From e307d1d4d4b5a88cdc5fd7f7567a057275d5f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:59 +0000
Subject: [PATCH 48/48] fix: arrays given for integers are rejected before
 NumPy compares them to large integers

NumPy crashes where it compares some layouts of arrays (two dimensions,
reversed) to integers out of the range of their type.
---
 randomgen/common.pyx |  5 ++++-
 randomgen/lxm.pyx    |  2 +-
 randomgen/pcg64.pyx  | 12 ++++++++++--
 randomgen/sfc.pyx    |  4 +++-
 randomgen/tyche.pyx  |  6 +++++-
 5 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 80dfd13..4d9c31b 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -396,6 +396,9 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
 cdef object wrap_int(object val, object bits):
     """Wraparound to place an integer into the interval [0, 2**bits)"""
     upper = int(2)**int(bits)
+    if np.size(val) != 1:
+        # Some array layouts crash NumPy when compared to large integers
+        raise ValueError("value must be a scalar.")
     if not 0<= val < upper:
         divisor = val // upper
         val = val - upper * divisor
@@ -415,7 +418,7 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
 
 cdef object check_state_position(object pos, object low, object high, object name):
     """Check that a position lies inside the buffer it refers to"""
-    if not low <= pos <= high:
+    if np.size(pos) != 1 or not low <= pos <= high:
         raise ValueError("State element {0} must be in [{1}, {2}]".format(name, low, high))
     return pos
 
diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index 5de790e..d5cdc2f 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -128,7 +128,7 @@ cdef class LXM(BitGenerator):
     """
     def __init__(self, seed=None, *, b=3037000493):
         BitGenerator.__init__(self, seed)
-        if not 0 <= b < 2**64 or int(b) != b:
+        if np.size(b) != 1 or not 0 <= b < 2**64 or int(b) != b:
             raise ValueError("b must be an integer in [0, 2**64).")
         self.seed(seed)
 
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 66a24c8..428bd1f 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -658,9 +658,17 @@ cdef class LCG128Mix(BitGenerator):
             valid = ", ".join(self._output_lookup.keys())
             raise ValueError(f"{output} not supported. Must be one of: {valid} "
                              f"or a ctypes function or function pointer")
-        if not 0 < multiplier < 2**128 or not (multiplier & 0x1):
+        if (
+                np.size(multiplier) != 1
+                or not 0 < multiplier < 2**128
+                or not (multiplier & 0x1)
+        ):
             raise ValueError("multiplier must be an odd integer in (0, 2**128).")
-        if not 0 < dxsm_multiplier < 2**64 or not (dxsm_multiplier & 0x1):
+        if (
+                np.size(dxsm_multiplier) != 1
+                or not 0 < dxsm_multiplier < 2**64
+                or not (dxsm_multiplier & 0x1)
+        ):
             raise ValueError("dxsm_multiplier must be an odd integer in (0, 2**64).")
         if not isinstance(post, bool):
             raise TypeError("post must be a bool")
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index f9cdc82..d9d32eb 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -126,7 +126,9 @@ cdef class SFC64(BitGenerator):
         BitGenerator.__init__(self, seed, numpy_seed=numpy_seed, mode=mode)
         for name, value in (("w", w), ("k", k)):
             if value is not None and (
-                    not 0 <= value < 2**64 or int(value) != value
+                    np.size(value) != 1
+                    or not 0 <= value < 2**64
+                    or int(value) != value
             ):
                 raise ValueError(f"{name} must be an integer in [0, 2**64).")
         self.w = w
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 2a9ccf5..fea4e31 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -137,7 +137,11 @@ cdef class Tyche(BitGenerator):
         if idx is None:
             _idx = <uint32_t>full_state[2]
         else:
-            if not 0 <= idx <= np.iinfo(np.uint32).max or int(idx) != idx:
+            if (
+                    np.size(idx) != 1
+                    or not 0 <= idx <= np.iinfo(np.uint32).max
+                    or int(idx) != idx
+            ):
                 raise ValueError("idx must be an integer in the interval [0, 2**32).")
             _idx = <uint32_t>idx
         tyche_seed(&self.rng_state, state, _idx, <int>self.original)
-- 
2.43.0

