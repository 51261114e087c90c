From a30759a9cd9d235e84e92450491b35ae0e5a5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 01/12] fix: verifier accepts a proof only when verification
 returns true, not merely Ok

---
 proof_of_space/src/proof_of_space/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 7313605..2e1023f 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -40,5 +40,5 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
 
     verify_input.push(x_hash);
 
-    assert!(verify_proof(&pvk, &proof, &verify_input).is_ok());
+    assert!(verify_proof(&pvk, &proof, &verify_input).unwrap());
 }
-- 
2.43.0


From d74d2dce14569418d025e0cfccc57746d17eeac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 02/12] fix: prepare_space rounds the space up to whole bytes
 so every slot lies inside the file

---
 proof_of_space/src/proof_of_space/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/prover.rs b/proof_of_space/src/proof_of_space/prover.rs
index e9105d9..1484cbc 100644
--- a/proof_of_space/src/proof_of_space/prover.rs
+++ b/proof_of_space/src/proof_of_space/prover.rs
@@ -35,7 +35,7 @@ pub fn prepare_space(path: &str, n: usize) -> std::io::Result<()> {
     let count = base.pow(n.try_into().unwrap());
 
     let buf = [0u8; 1];
-    for _ in 0..(n + 1) * count / 8 {
+    for _ in 0..((n + 1) * count + 7) / 8 {
         file.write_all(&buf).unwrap();
     }
     Ok(())
-- 
2.43.0


From 2c22fb317a30742848c0c7cbfecb7331b2d64cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 03/12] fix: MiMC hash circuits key each round with the running
 result instead of a free witness

---
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 7070c58..f67404b 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -35,7 +35,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC5HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 074fcb5..dfb57d5 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -35,7 +35,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC7HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 71298dac7d0bedbb99384fe91a24f77a8449d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 04/12] fix: equal and pow circuits constrain the initial
 values of their accumulators

---
 proof_of_space/src/circuit/equal_circuit.rs | 10 ++++++++++
 proof_of_space/src/circuit/pow_circuit.rs   |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 0233124..4fd48e9 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -31,8 +31,18 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
         let mut two_val = Some(F::one());
 
         let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+        cs.enforce_constraint(
+            lc!() + two,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
 
         let mut x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+        cs.enforce_constraint(
+            lc!() + x,
+            lc!() + Variable::One,
+            lc!()
+        )?;
 
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 6c8cdb5..7d5fb59 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -25,6 +25,11 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for PowDemo<'a, F> {
 
         let mut y_val = Some(F::one());
         let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+        cs.enforce_constraint(
+            lc!() + y,
+            lc!() + Variable::One,
+            lc!() + Variable::One
+        )?;
 
         let mut g_val = self.g;
         let mut g = cs.new_witness_variable(|| g_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From f99b3b09a690a98fe409968d5a3611ce32bcf681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 05/12] fix: proof-of-space circuit links the public m and key,
 the delay-function output, the hashed preimages and the bit accumulators

---
 proof_of_space/src/circuit/pospace_circuit.rs | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 4c9fc82..92b53cd 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -48,11 +48,13 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let key = cs.new_input_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;
 
         let m_val = self.m;
-        cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
-    
+        let m = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+
+        let mut x_vars = vec![];
         for i in 0..self.x.len() {
             let x_val = self.x[i];
             let x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+            x_vars.push(x);
 
             // xl = key + x
             let mut xl_val = key_val.map(|mut e| {
@@ -68,7 +70,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
 
             // xr = m
             let mut xr_val = m_val;
-            let mut xr = cs.new_witness_variable(|| xr_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let mut xr = m;
 
             // 1.证明延迟函数计算的正确性：y = mimc_vde(key + x, m)
             for j in 0..MIMC5_DF_ROUNDS {
@@ -128,9 +130,19 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     
                     let mut y_val = Some(Fr::zero());
                     let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    cs.enforce_constraint(
+                        lc!() + y,
+                        lc!() + Variable::One,
+                        lc!()
+                    )?;
 
                     let mut two_val = Some(Fr::one());
                     let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    cs.enforce_constraint(
+                        lc!() + two,
+                        lc!() + Variable::One,
+                        lc!() + Variable::One
+                    )?;
 
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
@@ -183,12 +195,10 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         y_val = tmp_val;
                         
                         if k == y_bits_val.len() - 1 {
-                            let yy_val = xl_val;
-                            let yy = cs.new_witness_variable(|| yy_val.ok_or(SynthesisError::AssignmentMissing))?;
                             cs.enforce_constraint(
                                 lc!() + y,
                                 lc!() + Variable::One,
-                                lc!() + yy
+                                lc!() + xl
                             )?;
                         }
 
@@ -207,9 +217,19 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             
                             let mut yn_val = Some(Fr::zero());
                             let mut yn = cs.new_witness_variable(|| yn_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            cs.enforce_constraint(
+                                lc!() + yn,
+                                lc!() + Variable::One,
+                                lc!()
+                            )?;
                             
                             let mut two_val = Some(Fr::one());
                             let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            cs.enforce_constraint(
+                                lc!() + two,
+                                lc!() + Variable::One,
+                                lc!() + Variable::One
+                            )?;
     
                             for m in 0..yn_bits_val.len() {
 
@@ -285,15 +305,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         }
 
         let mut res_val  = self.key;
-        let mut res = cs.new_witness_variable(|| res_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut res = key;
 
         // 7.证明x_hash是x的哈希结果：x_hash = hash(x[0], x[1], .. , x[n-1])
         for i in 0..self.x.len() {
             let x_in_val= self.x[i];
-            let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let x_in = x_vars[i];
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(Fr::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 40716dfed1ead0a5daf3e107176312488ff03230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 06/12] fix: map zero to zero in sloth and its inverse

sloth(0) left the field (-1) and its inverse did not return 0.
---
 proof_of_storage/src/vde/rug_sloth.rs | 6 ++++++
 proof_of_storage/src/vde/sloth.rs     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/proof_of_storage/src/vde/rug_sloth.rs b/proof_of_storage/src/vde/rug_sloth.rs
index 6e3525e..47d900a 100644
--- a/proof_of_storage/src/vde/rug_sloth.rs
+++ b/proof_of_storage/src/vde/rug_sloth.rs
@@ -62,6 +62,9 @@ fn test_legendre() {
 }
 
 pub fn single_sloth(x: &Integer, p: &Integer) -> Integer {
+    if *x == 0 {
+        return Integer::new();
+    }
     let flag = legendre(x.clone(), &p);
     // let flag = x.clone().pow_mod(&((p - Integer::from_str("1").unwrap()) / Integer::from_str("2").unwrap()), &p).unwrap();
     let mut y;
@@ -96,6 +99,9 @@ pub fn sloth(y: &Integer, p: &Integer, t: usize) -> Integer {
 }
 
 pub fn single_sloth_inv(y: &Integer, p: &Integer) -> Integer {
+    if *y == 0 {
+        return Integer::new();
+    }
     let x;
     if y.clone() % 2 == Integer::from_str("1").unwrap() {
         x = (y + Integer::from_str("1").unwrap()) % p;
diff --git a/proof_of_storage/src/vde/sloth.rs b/proof_of_storage/src/vde/sloth.rs
index 9099e95..4f1dab3 100644
--- a/proof_of_storage/src/vde/sloth.rs
+++ b/proof_of_storage/src/vde/sloth.rs
@@ -54,6 +54,9 @@ pub fn legendre(mut x: BigInt, p: &BigInt) -> BigInt {
 }
 
 pub fn single_sloth(x: &BigInt, p: &BigInt) -> BigInt {
+    if *x == 0.to_bigint().unwrap() {
+        return 0.to_bigint().unwrap();
+    }
     let flag = legendre(x.clone(), &p);
     // let flag = x.modpow(&((p - 1.to_bigint().unwrap()) / 2.to_bigint().unwrap()), &p);
     let mut y;
@@ -88,6 +91,9 @@ pub fn sloth(y: &BigInt, p: &BigInt, t: usize) -> BigInt {
 }
 
 pub fn single_sloth_inv(y: &BigInt, p: &BigInt) -> BigInt {
+    if *y == 0.to_bigint().unwrap() {
+        return 0.to_bigint().unwrap();
+    }
     let x;
     if y.clone() % 2 == 1.to_bigint().unwrap() {
         x = (y + 1.to_bigint().unwrap()) % p;
-- 
2.43.0


From 54a0bdd0fcc918a7a2ee29f30605f4bc82504afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 07/12] fix: read whole groups of hash bytes only in random
 dependencies

With more than 65536 blocks or units the last group of three bytes ran past the hash.
---
 proof_of_storage/src/proof_of_storage/depend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 7b5c0b4..e3f81e2 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -72,7 +72,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..17 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -94,7 +94,7 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..17 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
@@ -239,7 +239,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..17 - step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
@@ -263,7 +263,7 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..17 - step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-- 
2.43.0


From f621ba4ad1fd6effc09a5db150b55f3407d6adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 08/12] fix: stop power-of-two dependencies before the distance
 overflows

---
 proof_of_storage/src/proof_of_storage/depend.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index e3f81e2..0f60914 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -21,7 +21,7 @@ pub fn long_mode_2(index: usize, count: usize) -> Vec<usize> {
     //! 
     //!       -2,     -3,     -5,     -9...
     let mut long_index = vec![];
-    for i in 0..count {
+    for i in 0..count.min(64) {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
@@ -36,7 +36,7 @@ pub fn long_mode_3(index: usize) -> Vec<usize> {
     // 回溯个数与当前数据块编号有关，=编号%10
     let mut long_index = vec![];
     let count = index / 10;
-    for i in 0..count {
+    for i in 0..count.min(64) {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
-- 
2.43.0


From b2dda41d4a6f2d960497b4c1aeb897013bf0ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 09/12] fix: unseal reads the blocks the deterministic long
 dependencies name

---
 proof_of_storage/src/proof_of_storage/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index d0f14af..4e3b6f4 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -380,7 +380,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
             else {
                 for i in 0..idxs_l[idx2].len() {
                     let start = Instant::now();
-                    let buf = read_file(&mut file, i * params.block_pl, params.block_pl);
+                    let buf = read_file(&mut file, idxs_l[idx2][i] * params.block_pl, params.block_pl);
                     file_cost += start.elapsed().as_secs_f32();
 
                     let start = Instant::now();
-- 
2.43.0


From 5e18831bcc0ecf2e536f09e5c60a11908637a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 10/12] fix: build deterministic short dependencies over the
 units of a block

They were built for the number of blocks, which indexes out of bounds or disagrees with batch_unseal.
---
 proof_of_storage/src/proof_of_storage/prover.rs   | 4 ++--
 proof_of_storage/src/proof_of_storage/verifier.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index 4e3b6f4..7d1e39b 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -76,7 +76,7 @@ pub fn seal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>) -> (V
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -293,7 +293,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index ccfa522..648e06a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -210,7 +210,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 pub fn batch_unseal_and_verify(params: &PosPara, origin_path: &str, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>) {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -379,7 +379,7 @@ pub fn batch_unseal(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &mut Vec<
 pub fn batch_unseal_parallel(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>, parallel_num: usize) -> Vec<Vec<Vec<u8>>> {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From 631810bed22286ea59afa2af9a6081e0aede9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 11/12] fix: hash every leaf of the file from its own offset in
 the Merkle tree

The first leaf was left out and zero bytes past the end were hashed instead.
---
 proof_of_storage/src/proof_of_storage/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/merkle_tree.rs b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
index c2235d7..d426126 100644
--- a/proof_of_storage/src/proof_of_storage/merkle_tree.rs
+++ b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
@@ -14,7 +14,7 @@ pub fn generate_merkle_tree_from_file(path: &str, data_len: usize, leaf_len: usi
 
     let mut leaf_values = vec![];
     for i in (0..data_len).step_by(leaf_len) {
-        let buf = read_file(&mut file, i + leaf_len, leaf_len);
+        let buf = read_file(&mut file, i, leaf_len);
         leaf_values.push(buf);
     }
     let leaves: Vec< [u8; 32]> = leaf_values.iter().map(|x| Sha256::hash(x)).collect();
-- 
2.43.0


From 8f3e59b51763da7d28b9336646d8ed95eac59079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 12/12] fix: compute short dependencies of mode 2 as documented

The distance 1 - 2^i underflowed from the second dependency on.
---
 .../src/proof_of_storage/depend.rs            | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 0f60914..1fdde62 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -194,25 +194,15 @@ pub fn short_mode_2(num: usize, index: usize, count: usize) -> Vec<usize> {
     //! 
     //!       -2,     1,      -5,     7...
     let mut short_index = vec![];
-    let mut flag = false;
-    for i in 0..count {
-        let idx;
-        let dis1 = 1 - usize::pow(2, i.try_into().unwrap());
-        let dis2 = 1 + usize::pow(2, i.try_into().unwrap());
-        if flag == true {
-            idx = index - dis1;
-        }
-        else {
-            idx = index - dis2;
-        }
-        flag = !flag;
-
-        if idx >= num {
-            break;
+    for i in 0..count.min(63) {
+        let dis = usize::pow(2, i.try_into().unwrap());
+        if i % 2 == 0 {
+            if index >= 1 + dis {
+                short_index.push(index - 1 - dis);
+            }
         }
-
-        if idx < num {
-            short_index.push(idx);
+        else if dis - 1 < num - index {
+            short_index.push(index + dis - 1);
         }
     }
     short_index
-- 
2.43.0

