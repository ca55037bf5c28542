From 1678182fcd9a070b8dfc029307d016c4635e8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:38 +0000
Subject: [PATCH 01/22] fix: carry out of a signed digit that reaches the
 decomposition base

A base-B digit that is B-1 and receives a carry equals B. It was emitted as
the out-of-range digit B with no carry, although signed_decomposition promises
digits in [-B/2, B/2); with fewer levels than the full precision the lost carry
also made the truncated approximation off by almost a whole unit.
---
 jaxite/jaxite_cggi/decomposition.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index 6695858..5afeaa2 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -192,20 +192,18 @@ def signed_decomposition(
   for i in range(len(result)):
     unsigned_digit = ((x >> (i * base_log)) & digit_mask) + carry
 
-    # This mask tests for whether a digit is >= B/2, and hence requires a shift
-    # and carry propagation
-    carry_mask = unsigned_digit & base_over_2_threshold
+    # The carry is 1 when the digit is >= B/2, and hence requires a shift and
+    # carry propagation. Note the digit may be exactly B, when all its bits are
+    # set and the previous digit carried.
+    carry = (unsigned_digit + base_over_2_threshold) >> base_log
 
     # a tricky way to optionally shift by B. The result is re-cast as a uint32,
     # but this is OK because future arithmetic operations as uint32 will wrap
     # around and treat 2**32-1 properly as -1.
     signed_digit = jnp.uint32(
-        jnp.int32(unsigned_digit) - jnp.int32(carry_mask << 1)
+        jnp.int32(unsigned_digit) - jnp.int32(carry << base_log)
     )
 
-    # convert the carry mask to a 0/1 bit to carry to the next digit
-    carry = carry_mask >> (base_log - 1)
-
     result = result.at[i].set(signed_digit)
 
   # reversed because the digits are computed from least-significant bit to
-- 
2.43.0


From a426576016f53e11f52cb1a5ed1c5b912f753eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:52 +0000
Subject: [PATCH 02/22] fix: keep the most significant bit of each byte in
 bit_slice_to_bytes

A byte was emitted before its eighth bit had been stored, so every byte took
the most significant bit of its predecessor (and the first byte lost it).
---
 jaxite/jaxite_bool/type_converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_bool/type_converters.py b/jaxite/jaxite_bool/type_converters.py
index 4d1ceba..710542e 100644
--- a/jaxite/jaxite_bool/type_converters.py
+++ b/jaxite/jaxite_bool/type_converters.py
@@ -52,9 +52,9 @@ def bit_slice_to_bytes(bit_slice: List[bool]) -> bytes:
 
   char_bit_slice: List[bool] = [False] * 8
   for i, entry in enumerate(bit_slice):
+    char_bit_slice[i % 8] = entry
     if (i + 1) % 8 == 0:
       result.append(bit_slice_to_u8(char_bit_slice))
-    char_bit_slice[i % 8] = entry
 
   return bytes(result)
 
-- 
2.43.0


From 23e9032fd04b5a47e207aad9744c1c82784307c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:35 +0000
Subject: [PATCH 03/22] fix: extract noise modulo the torus before
 reinterpreting it as signed

---
 jaxite/jaxite_cggi/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 28597ea..53c6749 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -180,4 +180,6 @@ def extract_noise(
 ) -> int:
   """Extracts the noise bits of a plaintext as a (signed) int."""
   rounded = remove_noise(plaintext, encoding_params)
-  return int(jnp.int32(plaintext)) - int(jnp.int32(rounded))
+  # Subtract before reinterpreting as signed, so that the noise of a plaintext
+  # next to the middle of the unsigned range does not wrap around.
+  return int(jnp.int32(jnp.uint32(plaintext) - jnp.uint32(rounded)))
-- 
2.43.0


From b2f1b98ff81cb90606652d15f79db5f12ed47b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 04/22] fix: round integer_div without overflow for divisors
 above 2^32 * 2/3

---
 jaxite/jaxite_cggi/matrix_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jaxite/jaxite_cggi/matrix_utils.py b/jaxite/jaxite_cggi/matrix_utils.py
index 4f92f1f..5401a8f 100644
--- a/jaxite/jaxite_cggi/matrix_utils.py
+++ b/jaxite/jaxite_cggi/matrix_utils.py
@@ -32,10 +32,12 @@ def integer_div(values: jnp.ndarray, divisor: jnp.uint32) -> jnp.ndarray:
   # X//d.
   quotient_floor = values // divisor
 
-  # Then compute the quotient of the remainder (X%d) with rounding, which is
-  # guaranteed to have a numerator small enough to avoid overflow, and always
-  # results in either 0 or 1.
-  rounded_fractional_part = ((values % divisor) + divisor // 2) // divisor
+  # Then compute the quotient of the remainder (X%d) with rounding, which always
+  # results in either 0 or 1. Comparing with d - d//2 rather than adding d//2 to
+  # the remainder avoids overflow for d close to 2**32.
+  rounded_fractional_part = (
+      values % divisor >= divisor - divisor // 2
+  ).astype(quotient_floor.dtype)
 
   # Adding them together effectively rounds up or down.
   return quotient_floor + rounded_fractional_part
-- 
2.43.0


From 9b1d74c942fa76966f82a8a3090431f53e232944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:46 +0000
Subject: [PATCH 05/22] fix: let pmap_lut2/pmap_lut3 take results of an earlier
 batch of another size

---
 jaxite/jaxite_bool/jaxite_bool.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/jaxite/jaxite_bool/jaxite_bool.py b/jaxite/jaxite_bool/jaxite_bool.py
index cf7a728..afb457a 100644
--- a/jaxite/jaxite_bool/jaxite_bool.py
+++ b/jaxite/jaxite_bool/jaxite_bool.py
@@ -426,6 +426,22 @@ def cmux_(
   return lut3(ctrl, v0, v1, truth_table, server_key_set, params)
 
 
+def _stack_lanes(ciphertexts: list[types.LweCiphertext]) -> jnp.ndarray:
+  """Stacks ciphertexts and places the i-th one on the i-th pmap device.
+
+  A ciphertext produced by an earlier pmap is committed to the devices of that
+  batch, which pmap rejects if the stack is not moved to its own devices.
+  """
+  lanes = jnp.array(ciphertexts)
+  if len(ciphertexts) > jax.local_device_count():
+    return lanes  # pmap reports the error
+  mesh = jax.sharding.Mesh(jax.local_devices()[: len(ciphertexts)], ('lanes',))
+  return jax.device_put(
+      lanes,
+      jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec('lanes')),
+  )
+
+
 @functools.partial(
     jax.pmap,
     in_axes=(0, 0, 0, 0, None, None),
@@ -470,9 +486,9 @@ def pmap_lut3(
     The LWE ciphertexts encrypting the output of the 3-LUT,
     organized as rows of a jax array.
   """
-  a_inputs = jnp.array([v[0] for v in inputs])
-  b_inputs = jnp.array([v[1] for v in inputs])
-  c_inputs = jnp.array([v[2] for v in inputs])
+  a_inputs = _stack_lanes([v[0] for v in inputs])
+  b_inputs = _stack_lanes([v[1] for v in inputs])
+  c_inputs = _stack_lanes([v[2] for v in inputs])
 
   truth_table_cts = jnp.array(
       [params.lut_poly(num_inputs=3, truth_table=v[3]).message for v in inputs]
@@ -531,8 +547,8 @@ def pmap_lut2(
     The LWE ciphertexts encrypting the output of the 2-LUT,
     organized as rows of a jax array.
   """
-  a_inputs = jnp.array([v[0] for v in inputs])
-  b_inputs = jnp.array([v[1] for v in inputs])
+  a_inputs = _stack_lanes([v[0] for v in inputs])
+  b_inputs = _stack_lanes([v[1] for v in inputs])
 
   truth_table_cts = jnp.array(
       [params.lut_poly(num_inputs=2, truth_table=v[2]).message for v in inputs]
-- 
2.43.0


From 618c81352cf03df893ad922ef1f7157d05736597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 06/22] fix: compute the Barrett constant with integer division

floor(2**s / m) goes through a double: for moduli where 2**s mod m is just
below m (e.g. the NTT prime 536903681) the quotient rounds up to the next
integer, and modular_reduction(m*m - 1) then returns a value above m.
---
 jaxite/jaxite_ckks/barrett.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index d2653b2..c5e9a77 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -57,7 +57,7 @@ def precompute_barrett_constants(
   barrett_s = [2 * math.ceil(math.log2(m)) for m in moduli]
   barrett_w = [min(s, 32) for s in barrett_s]
   barrett_s_w = [s - w for s, w in zip(barrett_s, barrett_w)]
-  barrett_m = [math.floor(2**s / m) for s, m in zip(barrett_s, moduli)]
+  barrett_m = [2**s // m for s, m in zip(barrett_s, moduli)]
 
   return BarrettConstants(
       m=jnp.array(barrett_m, dtype=jnp.uint64),
-- 
2.43.0


From 3a89c60171ccecf41cfb725555d4e431ae268402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 07/22] fix: rescale by a modulus more than twice a remaining
 modulus

The centred residue of the dropped limb was lifted to remaining - last +
coeff, which is negative when last > 2 * remaining and then wraps in uint64.
Reduce it modulo the remaining modulus instead.
---
 jaxite/jaxite_ckks/rescale.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxite/jaxite_ckks/rescale.py b/jaxite/jaxite_ckks/rescale.py
index c713101..954ea67 100644
--- a/jaxite/jaxite_ckks/rescale.py
+++ b/jaxite/jaxite_ckks/rescale.py
@@ -181,12 +181,12 @@ class Rescale:
       last_limb_coeffs = last_limb_coeffs.reshape(num_elements, degree, 1)
 
       # Centered reduction simulation
+      last_limb_signed = last_limb_coeffs.astype(jnp.int64)
       switched = jnp.where(
           last_limb_coeffs < threshold,
-          last_limb_coeffs,
-          jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1)
-          - int(last_modulus)
-          + last_limb_coeffs.astype(jnp.int64),
+          last_limb_signed,
+          (last_limb_signed - int(last_modulus))
+          % jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1),
       )
 
       # Multiply by gammas
-- 
2.43.0


From 656e597a5cf5bd864d608e92e70f87aacaaa7516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:19 +0000
Subject: [PATCH 08/22] fix: key switching when dnum leaves trailing partitions
 empty

gen_key_switching_key generates (unused) parts for them, but
KeySwitcher.precompute_constants failed on the empty modulus list.
---
 jaxite/jaxite_ckks/key_switching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaxite/jaxite_ckks/key_switching.py b/jaxite/jaxite_ckks/key_switching.py
index bd5db08..acca79f 100644
--- a/jaxite/jaxite_ckks/key_switching.py
+++ b/jaxite/jaxite_ckks/key_switching.py
@@ -49,6 +49,8 @@ class KeySwitcher:
     for i in range(dnum):
       start_idx = i * limbs_per_part
       end_idx = min(start_idx + limbs_per_part, len(q_limbs))
+      if start_idx >= end_idx:
+        break  # the remaining partitions are empty
 
       # q_part
       q_part = q_limbs[start_idx:end_idx]
-- 
2.43.0


From 2fdd154db9b71ddbfd3119c6562066eda5cc2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:30 +0000
Subject: [PATCH 09/22] fix: hmuxrot keys when the auxiliary modulus product
 exceeds 64 bits

---
 jaxite/jaxite_ckks/key_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/key_gen.py b/jaxite/jaxite_ckks/key_gen.py
index 85aafda..7617558 100644
--- a/jaxite/jaxite_ckks/key_gen.py
+++ b/jaxite/jaxite_ckks/key_gen.py
@@ -282,7 +282,9 @@ def gen_hmuxrot_key(
     dest_sk_ext = sk_ext
 
   p_val = math.prod(p_limbs)
-  scaled_val0 = (p_val * beta) % all_moduli_u64
+  scaled_val0 = np.array(
+      [(p_val * beta) % m for m in all_moduli], dtype=np.uint64
+  ).reshape(1, -1)
 
   # key0 is a key-switching key from beta * sk(X^{5^{-j}}) to sk.
   g = pow(5, -j, 2 * degree)
-- 
2.43.0


From 70be2da9927083c5082f9d9d1cf863e7595551e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:34 +0000
Subject: [PATCH 10/22] fix: negate RNS values with zero residues correctly

negate_rns_for_var_add computed 2^16 - a in 16 bits, so a zero residue gave 0
instead of 2^16 and the limb was off by 2^16 (mod m).  The zero-check variant
masked each zero residue instead of only the zero value.
---
 jaxite_ec/finite_field.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/jaxite_ec/finite_field.py b/jaxite_ec/finite_field.py
index 81d25f8..3563c5c 100644
--- a/jaxite_ec/finite_field.py
+++ b/jaxite_ec/finite_field.py
@@ -881,8 +881,10 @@ def negate_rns_for_var_add(
   """
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
 
+  # Negate in 32 bits: a 16-bit negation would map a zero residue to 0 instead of
+  # 2^16, which moduli_sub compensates for.
   return jnp.add(
-      jnp.negative(value_a.astype(jnp.uint16)).astype(jnp.uint32),
+      jnp.subtract(jnp.uint32(2**16), value_a.astype(jnp.uint32)),
       moduli_sub,
   )
 
@@ -916,15 +918,14 @@ def negate_rns_for_var_add_zero_check(
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
   a = value_a.astype(jnp.uint16)
 
-  # Compute two's complement negation: for nonzero a, jnp.negative(a) computes
-  # (2^16 - a).
-  neg = jnp.negative(a).astype(jnp.uint32)
+  # Compute (2^16 - a) in 32 bits, so that a zero residue maps to 2^16, which
+  # moduli_sub compensates for.
+  neg = jnp.subtract(jnp.uint32(2**16), a.astype(jnp.uint32))
 
-  # Build a branchless mask: 0 if a==0, 1 otherwise.
-  mask = (a != 0).astype(jnp.uint32)
+  # Build a branchless mask: 0 if the value is zero (every residue is), 1
+  # otherwise.
+  mask = jnp.any(a != 0, axis=-1, keepdims=True).astype(jnp.uint32)
 
-  # For nonzero a: (2^16 - a) + moduli_sub; for zero: m + 0 multiplied by 0
-  # gives 0.
   return (neg + moduli_sub) * mask
 
 
-- 
2.43.0


From eb4cc293325000faf1e6d51d0140c3a35b1df455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:34 +0000
Subject: [PATCH 11/22] fix: reference field elements: canonical sums and
 copy(0)

The Barrett and Montgomery additions returned p itself when the sum was
exactly p, and copy(0) copied the element's own value instead of zero.
---
 jaxite_ec/algorithm/finite_field.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 6a3ea36..c5755b0 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -60,7 +60,7 @@ class FiniteFieldElement:
         FiniteFieldElement: A deep copy of the current finite field element.
     """
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(int(self.value))
     else:
       obj.value = BigInt(value)
@@ -142,7 +142,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
     if self.prime != other.prime:
       raise ValueError("Cannot add two numbers in different Fields")
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
@@ -181,7 +181,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
@@ -241,7 +241,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
       raise ValueError("Cannot add two numbers in different Fields")
     assert other.montgomeryized
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
@@ -291,7 +291,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
-- 
2.43.0


From 073fcb94e17ca0ccac2675a26c0099231e56bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:34 +0000
Subject: [PATCH 12/22] fix: affine Weierstrass reference points can be created
 and doubled

Building an affine point from two coordinates failed an assertion that asked
for three, and doubling multiplied field elements by plain integers.
---
 jaxite_ec/algorithm/elliptic_curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 0ff77cf..4e92061 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -222,7 +222,7 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
   def double_general(self, point_a: ECPoint[FieldEle]):
     x1 = point_a[0]
     y1 = point_a[1]
-    slope = (x1 * x1 * 3 + self.a) / (y1 * 2)
+    slope = (x1 * x1 * self.ff_zero.copy(3) + self.a) / (y1 + y1)
     cx = slope * slope - x1 - x1
     cy = slope * (x1 - cx) - y1
     return ECPoint[FieldEle]([cx, cy], self)
@@ -264,8 +264,7 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
         formal_coordinates.append(coordinate)
       else:
         formal_coordinates.append(self.ff_zero.copy(coordinate))
-    if coordinate_length == 2:
-      assert len(formal_coordinates) == 3
+    assert len(formal_coordinates) == coordinate_length
     return formal_coordinates
 
 
-- 
2.43.0


From 5963f3a4e2affe863e3fc2cd54b92183c9fd9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:10 +0000
Subject: [PATCH 13/22] fix: XYZZ window merge accepts empty windows

A window whose digits are all zero has the blank point as its sum, and the
XYZZ formulas turn any sum with the blank point into the blank point, so an MSM
whose top windows were empty (for instance with small scalars) returned zero.
Keep the blank point out of the doublings and additions of the merge.
---
 jaxite_ec/pippenger.py     | 43 ++++++++++++++++++++++++++------------
 jaxite_ec/pippenger_rns.py | 41 ++++++++++++++++++++++++++----------
 2 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/jaxite_ec/pippenger.py b/jaxite_ec/pippenger.py
index 63d5372..164e4c0 100644
--- a/jaxite_ec/pippenger.py
+++ b/jaxite_ec/pippenger.py
@@ -422,6 +422,29 @@ def bucket_reduction_scan_algorithm(
   return window_sum
 
 
+def merge_window(result, window, slice_length):
+  """Shift the merged result by one window and add that window's sum.
+
+  An empty window sum (and a result merged from empty windows only) is the blank
+  point, which the XYZZ formulas cannot add or double.
+
+  Args:
+    result: The sum of the windows merged so far.
+    window: The sum of the next window.
+    slice_length: The number of bits in a window.
+
+  Returns:
+    The new result.
+  """
+  result_is_zero = jnp.all(result == 0, axis=(0, 2))
+  window_is_zero = jnp.all(window == 0, axis=(0, 2))
+  shifted = jax.lax.fori_loop(
+      0, slice_length, lambda _, r: jec.pdul_lazy_xyzz_pack(r), result
+  )
+  shifted = jnp.where(result_is_zero.reshape(1, -1, 1), result, shifted)
+  return padd_with_zero(shifted, window, result_is_zero, window_is_zero)
+
+
 def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   """Non-scan version WM."""
   coordinate_dim, window_dim, precision_dim = window_sum.shape
@@ -429,13 +452,10 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
       (coordinate_dim, 1, precision_dim)
   )
   for w in range(window_dim - 2, -1, -1):
-    for _ in range(slice_length):
-      result = jec.pdul_lazy_xyzz_pack(result)
-    result = jec.padd_lazy_xyzz_pack(
+    result = merge_window(
         result,
-        window_sum[:, w, :].reshape(
-            (coordinate_dim, 1, util.U16_EXT_CHUNK_NUM)
-        ),
+        window_sum[:, w, :].reshape((coordinate_dim, 1, precision_dim)),
+        slice_length,
     )
 
   result = result.reshape((coordinate_dim, precision_dim))
@@ -450,14 +470,11 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
       (coordinate_dim, 1, precision_dim)
   )
 
-  def fori_loop_body(_, result):
-    result = jec.pdul_lazy_xyzz_pack(result)
-    return result
-
   def scan_body(result, window_sum):
-    result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_lazy_xyzz_pack(
-        result, window_sum.reshape((coordinate_dim, 1, util.U16_EXT_CHUNK_NUM))
+    result = merge_window(
+        result,
+        window_sum.reshape((coordinate_dim, 1, precision_dim)),
+        slice_length,
     )
     return result, None
 
diff --git a/jaxite_ec/pippenger_rns.py b/jaxite_ec/pippenger_rns.py
index fd27be3..3794bb9 100644
--- a/jaxite_ec/pippenger_rns.py
+++ b/jaxite_ec/pippenger_rns.py
@@ -422,6 +422,29 @@ def bucket_reduction_scan_algorithm(
   return window_sum
 
 
+def merge_window(result, window, slice_length):
+  """Shift the merged result by one window and add that window's sum.
+
+  An empty window sum (and a result merged from empty windows only) is the blank
+  point, which the XYZZ formulas cannot add or double.
+
+  Args:
+    result: The sum of the windows merged so far.
+    window: The sum of the next window.
+    slice_length: The number of bits in a window.
+
+  Returns:
+    The new result.
+  """
+  result_is_zero = jnp.all(result == 0, axis=(0, 2))
+  window_is_zero = jnp.all(window == 0, axis=(0, 2))
+  shifted = jax.lax.fori_loop(
+      0, slice_length, lambda _, r: jec.pdul_rns_xyzz_pack(r), result
+  )
+  shifted = jnp.where(result_is_zero.reshape(1, -1, 1), result, shifted)
+  return padd_with_zero(shifted, window, result_is_zero, window_is_zero)
+
+
 def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   """Non-scan version WM."""
   coordinate_dim, window_dim, precision_dim = window_sum.shape
@@ -429,11 +452,10 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
       (coordinate_dim, 1, precision_dim)
   )
   for w in range(window_dim - 2, -1, -1):
-    for _ in range(slice_length):
-      result = jec.pdul_rns_xyzz_pack(result)
-    result = jec.padd_rns_xyzz_pack(
+    result = merge_window(
         result,
-        window_sum[:, w, :].reshape((coordinate_dim, 1, util.NUM_MODULI)),
+        window_sum[:, w, :].reshape((coordinate_dim, 1, precision_dim)),
+        slice_length,
     )
 
   result = result.reshape((coordinate_dim, precision_dim))
@@ -448,14 +470,11 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
       (coordinate_dim, 1, precision_dim)
   )
 
-  def fori_loop_body(_, result):
-    result = jec.pdul_rns_xyzz_pack(result)
-    return result
-
   def scan_body(result, window_sum):
-    result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_rns_xyzz_pack(
-        result, window_sum.reshape((coordinate_dim, 1, util.NUM_MODULI))
+    result = merge_window(
+        result,
+        window_sum.reshape((coordinate_dim, 1, precision_dim)),
+        slice_length,
     )
     return result, None
 
-- 
2.43.0


From cad61d50b060a84233aef7d83e9b6192841a54da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:55 +0000
Subject: [PATCH 14/22] fix: RNS XYZZ window sums of empty windows stay blank

The reduction compared the running sums before looking at their zero states, so
two blank sums were doubled, which in RNS form gives a non-zero representative
of zero, and the window merge turned the whole result into the blank point.
---
 jaxite_ec/pippenger_rns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite_ec/pippenger_rns.py b/jaxite_ec/pippenger_rns.py
index 3794bb9..cdfe2a7 100644
--- a/jaxite_ec/pippenger_rns.py
+++ b/jaxite_ec/pippenger_rns.py
@@ -232,7 +232,9 @@ def padd_with_zero_and_pdul_check(
   result_2 = jnp.where(
       jnp.logical_or(cond_sp_zero, cond_ps_zero), result_1, new_partial_sum
   )
-  reuslt_3 = jnp.where(cond_equal, double_partial_sum, result_2)
+  # Doubling the blank point does not give the blank point back.
+  cond_double = jnp.logical_and(cond_equal, jnp.logical_not(cond_ps_zero))
+  reuslt_3 = jnp.where(cond_double, double_partial_sum, result_2)
   return reuslt_3
 
 
-- 
2.43.0


From 5398a76e7d673f2ae0ce9d1ca258396ec34062ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:44 +0000
Subject: [PATCH 15/22] fix: ceil_log2 of the reference big integer never
 returned

gmpy2.ceil yields an mpfr, which the GMPBigInteger constructor rejects, so
every call raised TypeError (and with it the Barrett and Montgomery reference
elements built from a GMPBigInteger prime).  Use the exact bit length.
---
 jaxite_ec/algorithm/big_integer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/big_integer.py b/jaxite_ec/algorithm/big_integer.py
index d79b763..63e5be8 100644
--- a/jaxite_ec/algorithm/big_integer.py
+++ b/jaxite_ec/algorithm/big_integer.py
@@ -151,10 +151,10 @@ class GMPBigInteger:
     return NotImplemented
 
   def ceil_log2(self):
-    """Calculate the base-2 logarithm of the GMPBigInteger."""
+    """Calculate the base-2 logarithm of the GMPBigInteger, rounded up."""
     if self.value <= 0:
       raise ValueError("log2 is only defined for positive integers")
-    return GMPBigInteger(gmpy2.ceil(gmpy2.log2(self.value)))
+    return GMPBigInteger((self.value - 1).bit_length())
 
   def __int__(self):
     return int(self.value)
-- 
2.43.0


From c1b01f3033c51af41aa40d4122be5d1708b214a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:44 +0000
Subject: [PATCH 16/22] fix: powers of reference Montgomery elements

The inherited __pow__ raised the Montgomery form itself, returning
(x * R)^e as an ordinary field element.  Raise the value and return it in
the form of the operand.
---
 jaxite_ec/algorithm/finite_field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index c5755b0..22e5836 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -288,6 +288,13 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
     new_instance.value = reduced_result
     return new_instance
 
+  def __pow__(self, exponent):
+    value = self.value
+    if self.montgomeryized:
+      value = self.de_montgomeryize(value)
+    result = value.__pow__(exponent, self.prime.value)
+    return self.copy(result, transform=self.montgomeryized)
+
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-- 
2.43.0


From 65eab93a0a4abbdb8e048a4195bb749f80c2005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:59 +0000
Subject: [PATCH 17/22] fix: exceptional cases of the reference group law

Adding a point to its inverse returned a point that is not on the curve
(affine) or an unmarked representation of infinity (projective, XYZZ);
adding equal points held in different representations, or doubling a point
of order two, degenerated the same way.  Recognise these cases.  Let the
neutral element also be generated and converted like any other point.
---
 jaxite_ec/algorithm/elliptic_curve.py | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 4e92061..1bb1379 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -220,6 +220,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
     return ECPoint[FieldEle]([cx, cy], self)
 
   def double_general(self, point_a: ECPoint[FieldEle]):
+    if point_a.is_zero() or point_a[1] == self.ff_zero:
+      return self.generate_point(zero=True)
     x1 = point_a[0]
     y1 = point_a[1]
     slope = (x1 * x1 * self.ff_zero.copy(3) + self.a) / (y1 + y1)
@@ -235,6 +237,9 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
 
     if point_a == point_b:
       result = self.double_general(point_a)
+    elif point_a[0] == point_b[0]:
+      # The points are inverse to each other.
+      result = self.generate_point(zero=True)
     else:
       result = self.add_general(point_a, point_b)
 
@@ -302,6 +307,11 @@ class ECCSWeierstrassProjective(ECCSWeierstrass):
     u = y2 * z1 - y1
     uu = u * u
     v = x2 * z1 - x1
+    if v == self.ff_zero:
+      # Equal points in different representations, or inverse points.
+      if u == self.ff_zero:
+        return self.double_general(point_a)
+      return self.generate_point(zero=True)
     vv = v * v
     vvv = v * vv
     r = vv * x1
@@ -354,9 +364,13 @@ class ECCSWeierstrassProjective(ECCSWeierstrass):
     z3 = t5 * z3
     z3 = z3 + t0
 
+    if z3 == self.ff_zero:
+      return self.generate_point(zero=True)
     return ECPoint[FieldEle]([x3, y3, z3], self)
 
   def double_general(self, point_a: ECPoint):
+    if point_a.is_zero() or point_a[1] == self.ff_zero:
+      return self.generate_point(zero=True)
     x1, y1, z1 = point_a
     a = self.a
     ff2 = self.ff_zero.copy(2)
@@ -484,6 +498,11 @@ class ECCSWeierstrassXYZZ(ECCSWeierstrass):
     s2 = y2 * zzz1
     p = u2 - u1
     r = s2 - s1
+    if p == self.ff_zero:
+      # Equal points in different representations, or inverse points.
+      if r == self.ff_zero:
+        return self.double_general(point_a)
+      return self.generate_point(zero=True)
     pp = p * p
     ppp = p * pp
     q = u1 * pp
@@ -503,6 +522,8 @@ class ECCSWeierstrassXYZZ(ECCSWeierstrass):
     Returns:
       The doubled general coordinates of the point.
     """
+    if point_a.is_zero() or point_a[1] == self.ff_zero:
+      return self.generate_point(zero=True)
     x1, y1, zz1, zzz1 = point_a
     a = self.a
 
@@ -550,8 +571,9 @@ class ECCSWeierstrassXYZZ(ECCSWeierstrass):
         == CoordinateSystemType.WEIERSTRASS_AFFINE
     )
     new_point = point_a.copy()
-    new_point.append(self.ff_one)
-    new_point.append(self.ff_one)
+    if not new_point.is_zero():
+      new_point.append(self.ff_one)
+      new_point.append(self.ff_one)
     new_point.set_coordinate_system(self)
     return new_point
 
@@ -594,7 +616,7 @@ class ECCSTwistedEdwardsExtended(ECCSWeierstrass):
       zero: bool = False,
       twist: bool = True,
   ) -> ECPoint[T]:
-    if twist:
+    if twist and not zero:
       ff_coordinates = []
       for coordinate in coordinates:  # pyrefly: ignore[not-iterable]
         if isinstance(coordinate, FieldEle):
-- 
2.43.0


From 9948264cb5dfba782fddfaaaf982dab6f221faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:07 +0000
Subject: [PATCH 18/22] fix: look up named LUTs with their own number of inputs

lut_by_name/lut_poly_by_name assumed two inputs for every named gate, so the
three-input 'cmux' lost the upper half of its truth table.
---
 jaxite/jaxite_bool/lut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_bool/lut.py b/jaxite/jaxite_bool/lut.py
index f4c7a01..df326de 100644
--- a/jaxite/jaxite_bool/lut.py
+++ b/jaxite/jaxite_bool/lut.py
@@ -136,8 +136,10 @@ class LutCache:
           f'Unknown gate name "{name}". Use `get_lut` or else use a '
           f'named 2-bit gate from {list(FUNC_NAME_TO_LUT2.keys())}'
       )
-    key = FUNC_NAME_TO_LUT2[name].truth_table
-    return self.lut(num_inputs=2, lut_as_int=key)
+    named_lut = FUNC_NAME_TO_LUT2[name]
+    return self.lut(
+        num_inputs=named_lut.num_inputs, lut_as_int=named_lut.truth_table
+    )
 
   def lut_poly(self, num_inputs: int, lut_as_int: int) -> rlwe.RlweCiphertext:
     return self.lut(num_inputs, lut_as_int).as_rlwe_test_polynomial(
-- 
2.43.0


From 9be7d2a2a4fc1dfb1ff3ad09079a1ddafebbffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:21 +0000
Subject: [PATCH 19/22] fix: byte-matrix TPU kernel covers every row of the
 vector

The Pallas grid of negacyclic_vector_matrix_polymul_bat was fixed to 18 rows
(rlwe size 3 times 6 levels), leaving Toeplitz blocks of longer decompositions
unwritten.
---
 jaxite/jaxite_cggi/polymul_kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/polymul_kernel.py b/jaxite/jaxite_cggi/polymul_kernel.py
index 495b76b..a797e73 100644
--- a/jaxite/jaxite_cggi/polymul_kernel.py
+++ b/jaxite/jaxite_cggi/polymul_kernel.py
@@ -318,7 +318,7 @@ def negacyclic_vector_matrix_polymul_bat(
             num_scalar_prefetch=0,
             in_specs=(pl.BlockSpec((1, 1, n), lambda b: (b, 0, 0)),),
             out_specs=pl.BlockSpec((1, n, n), lambda b: (b, 0, 0)),
-            grid=(18,),
+            grid=(b,),
         ),
         out_shape=jax.ShapeDtypeStruct((b, n, n), jnp.int32),
         compiler_params=pltpu.CompilerParams(
-- 
2.43.0


From 6bb78d7f42388276e5b08f85d1b18e73ce84c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:30 +0000
Subject: [PATCH 20/22] fix: draw independent RGSW noise for every coefficient

RGSW encryptions, and with them the bootstrapping key, drew one error per
RLWE row and added it to all coefficients, so that differences of
coefficients were exact linear equations in the secret key.
---
 jaxite/jaxite_cggi/bootstrap.py | 8 +++++++-
 jaxite/jaxite_cggi/rgsw.py      | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_cggi/bootstrap.py b/jaxite/jaxite_cggi/bootstrap.py
index e467cf3..2e1afd6 100644
--- a/jaxite/jaxite_cggi/bootstrap.py
+++ b/jaxite/jaxite_cggi/bootstrap.py
@@ -91,7 +91,12 @@ def gen_bootstrapping_key(
       dtype=jnp.uint32,
   )
   error_samples = prg.rounded_normal(
-      shape=(padded_num_bsk_encryptions, num_blocks + 1, levels),
+      shape=(
+          padded_num_bsk_encryptions,
+          num_blocks + 1,
+          levels,
+          rlwe_sk.modulus_degree,
+      ),
       dtype=jnp.uint32,
   )
 
@@ -156,6 +161,7 @@ def gen_bootstrapping_key(
       batch_size,
       num_blocks + 1,
       levels,
+      rlwe_sk.modulus_degree,
   ))
 
   bsk_input_pairs = bsk_input_pairs.reshape((num_batches, batch_size))
diff --git a/jaxite/jaxite_cggi/rgsw.py b/jaxite/jaxite_cggi/rgsw.py
index da47377..c1d3983 100644
--- a/jaxite/jaxite_cggi/rgsw.py
+++ b/jaxite/jaxite_cggi/rgsw.py
@@ -128,7 +128,7 @@ def encrypt(
       dtype=jnp.uint32,
   )
   error_samples = prg.rounded_normal(
-      shape=(num_blocks + 1, levels),
+      shape=(num_blocks + 1, levels, rlwe_sk.modulus_degree),
       dtype=jnp.uint32,
   )
 
-- 
2.43.0


From e270ca287fc11b2b501fc0b0dd7d7f6cf150d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:23 +0000
Subject: [PATCH 21/22] fix: let rns_mod_reduce be called from a program that
 imports it

---
 jaxite_ec/algorithm/rns_mod_reduce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxite_ec/algorithm/rns_mod_reduce.py b/jaxite_ec/algorithm/rns_mod_reduce.py
index 910d312..f375f43 100644
--- a/jaxite_ec/algorithm/rns_mod_reduce.py
+++ b/jaxite_ec/algorithm/rns_mod_reduce.py
@@ -12,6 +12,7 @@ randint = random.randint
 jax.config.update("jax_enable_x64", True)
 chunk_dtype = jnp.uint16
 mul_res_dtype = jnp.uint32
+moduli_precision = 16
 
 
 def to_tuple(a):
-- 
2.43.0


From dc0fae66c48a18b4edac5f6fffd4e006d6bb4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:23 +0000
Subject: [PATCH 22/22] fix: homogenise the projective twist to Edwards
 coordinates

---
 jaxite_ec/algorithm/elliptic_curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 1bb1379..3f1ed5d 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -774,13 +774,13 @@ class ECCSTwistedEdwardsExtended(ECCSWeierstrass):
 
   def twist_projective(self, point_a):
     x, y, z = point_a
-    xm = self.s * (x - self.alpha)
+    xm = self.s * (x - self.alpha * z)
     ym = self.s * y
     # Convert to edwards
     # Common denominator
-    zt = z * ym * (xm + self.ff_one)
-    xt = xm * (xm + self.ff_one)
-    yt = (xm - self.ff_one) * ym
+    zt = ym * (xm + z)
+    xt = xm * (xm + z)
+    yt = (xm - z) * ym
 
     xt = xt * self.t
     return [xt, yt, zt]
-- 
2.43.0

