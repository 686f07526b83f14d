From 558d91ec5942d623ac6f83efaa33c0bf16a1cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 01/15] fix: conjugate ciphertexts below the top level

KeySwitcher.Conjugate permuted with ringQ.Permute, which runs over every
modulus of ringQ, and so panicked on any ciphertext below the top level.
---
 mkrlwe/keyswitch.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..11118fe 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -312,8 +312,19 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 	}
 
 	// permute ctIn and put it to ctOut
+	// (ringQ.Permute runs over every modulus of ringQ, whatever the level of its operands)
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		for i := uint64(0); i < uint64(ringQ.N); i++ {
+			indexRaw := i * galEl
+			index := indexRaw & mask
+			sign := (indexRaw >> logN) & 1
+			for j, qi := range ringQ.Modulus[:level+1] {
+				x := ctIn.Value[id].Coeffs[j][i]
+				ctOut.Value[id].Coeffs[j][index] = x*(sign^1) | (qi-x)*sign
+			}
+		}
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 2e9b25f074e20504a1b67cf246f0fb8b79b23463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/15] fix: Rescale copies its input when there is nothing to
 rescale

When the scale was already at the target, Rescale assigned a copy of the input
to its local ctOut only, so the caller's output (RescaleNew's result) stayed zero.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0fd7c22..6c84b27 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -390,7 +390,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
 
-- 
2.43.0


From 671915ea16e37fdb00a3980bf62bce54b389ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/15] fix: Rescale stops at level zero

The loop divided by the modulus of level 0 as well, leaving a ciphertext without
moduli, and indexed Modulus[-1], although it is documented to stop when the
output level reaches zero.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 6c84b27..d53a447 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From e4ea2f6c1a203d4da0dac5759582e95b3b9bd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/15] fix: CKKS decryption no longer depends on previous
 decryptions

Decrypting truncated the pooled plaintext to the ciphertext's level for good, so
later ciphertexts of a higher level were decoded modulo a too small modulus.
---
 mkckks/decryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index 9bec0fd..d5f1771 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,9 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the previous decryption may have left the pool at a lower level
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctTmp.Level()+1]
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 360a412cba53375d391a9bdce83022dce90f9cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/15] fix: BFV decryption refuses a ciphertext whose secret
 keys are not all given

It silently returned garbage, where the CKKS and generic decryptors panic.
---
 mkbfv/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index 6624c83..c649912 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -49,6 +49,10 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		}
 	}
 
+	if len(ctTmp.Value) > 1 {
+		panic("Cannot Decrypt: there is a missing secretkey")
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From dcdc88713d29cde86254b66f56b415308c906bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 06/15] fix: GenKeyPairSparse takes the id of the key pair

It read the id from the nil secret key it was about to generate, and panicked on every call.
---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3e13268 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 32f70bf865668b7c159bf726b3bb5561b534a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/15] fix: GenRotationKey adjusts a negative index before
 looking up its CRS

The check looked at the unadjusted index: -1..-4 hit the CRSs of other keys and
then dereferenced a missing one, other negative indices were always refused.
---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3e13268..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 91b5c9d6acbfdab88cf63427774007368ce13bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 08/15] fix: MultByConst multiplies by the imaginary part of a
 complex constant

Ciphertexts are kept outside of the NTT domain, but the imaginary part was
applied as if they were inside it, so any constant with an imaginary part gave
garbage. Multiply by a + b*X^(N/2) instead.
---
 mkckks/evaluator.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index d53a447..0f433b7 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -120,10 +120,8 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Multiplication of the ciphertext, which is outside of the NTT domain, by a + b*X^(N/2) mod Qi
+	// (X^(N/2) evaluates to the imaginary unit in every slot).
 	ringQ := eval.params.RingQ()
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
@@ -143,8 +141,22 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 		if cImag != 0 {
 			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
+
+			scaledConstReal = ring.MForm(scaledConstReal, qi, bredParams)
+			scaledConstImag = ring.MForm(scaledConstImag, qi, bredParams)
+
+			for u := range ct0.Value {
+				p0tmp := ct0.Value[u].Coeffs[i]
+				p1tmp := ctOut.Value[u].Coeffs[i]
+
+				for j, k := 0, ringQ.N>>1; k < ringQ.N; j, k = j+1, k+1 {
+					x, y := p0tmp[j], p0tmp[k]
+					p1tmp[j] = ring.CRed(ring.MRed(x, scaledConstReal, qi, mredParams)+qi-ring.MRed(y, scaledConstImag, qi, mredParams), qi)
+					p1tmp[k] = ring.CRed(ring.MRed(y, scaledConstReal, qi, mredParams)+ring.MRed(x, scaledConstImag, qi, mredParams), qi)
+				}
+			}
+
+			continue
 		}
 
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
@@ -169,11 +181,6 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			}
 		}
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
-- 
2.43.0


From e6f3b668f2ea5d52aeefc9f9aa276b0adfb7e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 09/15] fix: Rescale leaves its input unchanged when the result
 goes elsewhere

---
 mkckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0f433b7..cbed3e7 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -392,7 +392,11 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			in := ctIn.Value[i]
+			if in != ctOut.Value[i] {
+				in = in.CopyNew() // the division overwrites its input
+			}
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, in, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0


From b85de51a6d2e5337560c3d18fc56674fadbce98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 10/15] fix: large integer constants and scale ratios need no
 scaling in MultByConst

---
 mkckks/evaluator.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index cbed3e7..12e1fd4 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,19 +47,13 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cImag != math.Trunc(cImag) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
@@ -69,10 +63,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
-- 
2.43.0


From 88b1306054a06249381cf51bac1082d7fd616c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 11/15] fix: digit decomposition with an odd number of special
 primes

---
 mkrlwe/basis_extension.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..98f5794 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -379,7 +379,11 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 
 		P := ringP.Modulus[:lvlP+2]
 
-		alpha := int(math.Ceil(float64(len(P)) / float64(gamma)))
+		// same width as Parameters.Alpha
+		alpha := len(P) / gamma
+		if alpha == 0 {
+			alpha = 1
+		}
 		beta := int(math.Ceil(float64(len(Q)) / float64(alpha)))
 
 		xalpha := make([]int, beta)
@@ -453,7 +457,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 		// Otherwise, we apply a fast exact base conversion for the reconstruction
 	} else {
 
-		params := decomposer.modUpParams[gamma*alpha-2][beta][decompLvl]
+		params := decomposer.modUpParams[levelP-1][beta][decompLvl]
 
 		var v [8]uint64
 		var vi [8]float64
-- 
2.43.0


From 519b57d3c54a5a7dd34afb47dd1dc71a489cf013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 12/15] fix: keep the scratch space of relinearization in the
 evaluator

Relinearization key registries held the pools that MulRelin decomposes its operands into, so that
evaluators used at the same time with the same (read-only) registry overwrote each other's data.
---
 mkbfv/evaluator.go  | 56 ++++++++++++++++++++++++++++++---------------
 mkbfv/keys.go       | 27 ----------------------
 mkckks/evaluator.go | 40 +++++++++++++++-----------------
 mkrlwe/keys.go      | 10 ++------
 4 files changed, 59 insertions(+), 74 deletions(-)

diff --git a/mkbfv/evaluator.go b/mkbfv/evaluator.go
index 155ea71..6da0147 100644
--- a/mkbfv/evaluator.go
+++ b/mkbfv/evaluator.go
@@ -8,6 +8,10 @@ type Evaluator struct {
 	params Parameters
 	ksw    *KeySwitcher
 	conv   *FastBasisExtender
+
+	polyRPool  [2]map[string]*ring.Poly
+	hoistPool1 [2]*mkrlwe.HoistedCiphertext
+	hoistPool2 [2]*mkrlwe.HoistedCiphertext
 }
 
 // NewEvaluator creates a new Evaluator, that can be used to do homomorphic
@@ -19,9 +23,36 @@ func NewEvaluator(params Parameters) *Evaluator {
 	eval.ksw = NewKeySwitcher(params)
 	eval.conv = NewFastBasisExtender(params.RingP(), params.RingQ(), params.RingQMul(), params.RingR())
 
+	for i := range eval.polyRPool {
+		eval.polyRPool[i] = make(map[string]*ring.Poly)
+		eval.hoistPool1[i] = mkrlwe.NewHoistedCiphertext()
+		eval.hoistPool2[i] = mkrlwe.NewHoistedCiphertext()
+	}
+
 	return eval
 }
 
+// poolR returns the polynomial of the evaluator's i-th pool for the given id
+func (eval *Evaluator) poolR(i int, id string) *ring.Poly {
+	if _, in := eval.polyRPool[i][id]; !in {
+		eval.polyRPool[i][id] = eval.params.RingR().NewPoly()
+	}
+	return eval.polyRPool[i][id]
+}
+
+// hoist decomposes ctR, a ciphertext of the given level lifted to R, into the evaluator's i-th pools
+func (eval *Evaluator) hoist(level int, ctR *mkrlwe.Ciphertext, i int) (hoisted1, hoisted2 *mkrlwe.HoistedCiphertext) {
+	hoisted1, hoisted2 = eval.hoistPool1[i], eval.hoistPool2[i]
+	for id := range ctR.IDSet().Value {
+		if _, in := hoisted1.Value[id]; !in {
+			hoisted1.Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
+			hoisted2.Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
+		}
+		eval.ksw.DecomposeBFV(level, ctR.Value[id], hoisted1.Value[id], hoisted2.Value[id])
+	}
+	return
+}
+
 func (eval *Evaluator) newCiphertextBinary(op0, op1 *Ciphertext) (ctOut *Ciphertext) {
 	idset := op0.IDSet().Union(op1.IDSet())
 	return NewCiphertext(eval.params, idset)
@@ -99,12 +130,12 @@ func (eval *Evaluator) mulRelin(ct0, ct1 *Ciphertext, rlkSet *RelinearizationKey
 	ct1R.Value = make(map[string]*ring.Poly)
 
 	for id := range ct0.Value {
-		ct0R.Value[id] = rlkSet.PolyRPool1[id]
+		ct0R.Value[id] = eval.poolR(0, id)
 		eval.conv.ModUpQtoR(ct0.Value[id], ct0R.Value[id])
 	}
 
 	for id := range ct1.Value {
-		ct1R.Value[id] = rlkSet.PolyRPool2[id]
+		ct1R.Value[id] = eval.poolR(1, id)
 		eval.conv.Rescale(ct1.Value[id], ct1R.Value[id])
 	}
 
@@ -123,30 +154,19 @@ func (eval *Evaluator) mulRelinHoisted(ct0, ct1 *Ciphertext, rlkSet *Relineariza
 	ct1R.Value = make(map[string]*ring.Poly)
 
 	for id := range ct0.Value {
-		ct0R.Value[id] = rlkSet.PolyRPool1[id]
+		ct0R.Value[id] = eval.poolR(0, id)
 		eval.conv.ModUpQtoR(ct0.Value[id], ct0R.Value[id])
 	}
 
 	for id := range ct1.Value {
-		ct1R.Value[id] = rlkSet.PolyRPool2[id]
+		ct1R.Value[id] = eval.poolR(1, id)
 		eval.conv.Rescale(ct1.Value[id], ct1R.Value[id])
 	}
 
-	idset0 := ct0.IDSet()
-	idset1 := ct1.IDSet()
-
-	for id := range idset0.Value {
-		eval.ksw.DecomposeBFV(ct0.Level(), ct0R.Value[id], rlkSet.HoistPool1[0].Value[id], rlkSet.HoistPool2[0].Value[id])
-	}
-
-	for id := range idset1.Value {
-		eval.ksw.DecomposeBFV(ct1.Level(), ct1R.Value[id], rlkSet.HoistPool1[1].Value[id], rlkSet.HoistPool2[1].Value[id])
-	}
+	ct0Hoisted1, ct0Hoisted2 := eval.hoist(ct0.Level(), ct0R, 0)
+	ct1Hoisted1, ct1Hoisted2 := eval.hoist(ct1.Level(), ct1R, 1)
 
-	eval.ksw.MulAndRelinBFVHoisted(ct0R, ct1R,
-		rlkSet.HoistPool1[0], rlkSet.HoistPool2[0],
-		rlkSet.HoistPool1[1], rlkSet.HoistPool2[1],
-		rlkSet, ctOut.Ciphertext)
+	eval.ksw.MulAndRelinBFVHoisted(ct0R, ct1R, ct0Hoisted1, ct0Hoisted2, ct1Hoisted1, ct1Hoisted2, rlkSet, ctOut.Ciphertext)
 }
 
 // RotateNew rotates the columns of ct0 by k positions to the left, and returns the result in a newly created element.
diff --git a/mkbfv/keys.go b/mkbfv/keys.go
index e0a2452..a94eb8f 100644
--- a/mkbfv/keys.go
+++ b/mkbfv/keys.go
@@ -1,7 +1,6 @@
 package mkbfv
 
 import "mk-lattigo/mkrlwe"
-import "github.com/ldsec/lattigo/v2/ring"
 
 type RelinearizationKey struct {
 	Value [2]*mkrlwe.RelinearizationKey
@@ -12,12 +11,6 @@ type RelinearizationKey struct {
 type RelinearizationKeySet struct {
 	Value map[string]*RelinearizationKey
 
-	PolyRPool1 map[string]*ring.Poly
-	PolyRPool2 map[string]*ring.Poly
-
-	HoistPool1 [2]*mkrlwe.HoistedCiphertext
-	HoistPool2 [2]*mkrlwe.HoistedCiphertext
-
 	params Parameters
 }
 
@@ -38,32 +31,12 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 	rlkSet.Value = make(map[string]*RelinearizationKey)
 	rlkSet.params = params
 
-	rlkSet.PolyRPool1 = make(map[string]*ring.Poly)
-	rlkSet.PolyRPool2 = make(map[string]*ring.Poly)
-
-	rlkSet.PolyRPool1["0"] = params.RingR().NewPoly()
-	rlkSet.PolyRPool2["0"] = params.RingR().NewPoly()
-
-	rlkSet.HoistPool1[0] = mkrlwe.NewHoistedCiphertext()
-	rlkSet.HoistPool1[1] = mkrlwe.NewHoistedCiphertext()
-
-	rlkSet.HoistPool2[0] = mkrlwe.NewHoistedCiphertext()
-	rlkSet.HoistPool2[1] = mkrlwe.NewHoistedCiphertext()
-
 	return rlkSet
 }
 
 // AddRelinearizationKey insert new publickey into RelinearizationKeySet with its id
 func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationKey) {
 	rlkSet.Value[rlk.ID] = rlk
-	rlkSet.PolyRPool1[rlk.ID] = rlkSet.params.RingR().NewPoly()
-	rlkSet.PolyRPool2[rlk.ID] = rlkSet.params.RingR().NewPoly()
-
-	rlkSet.HoistPool1[0].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
-	rlkSet.HoistPool1[1].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
-
-	rlkSet.HoistPool2[0].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
-	rlkSet.HoistPool2[1].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
 }
 
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 12e1fd4..539cb7b 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -15,6 +15,7 @@ type Evaluator struct {
 	ksw       *mkrlwe.KeySwitcher
 	ctxtPool  *mkrlwe.Ciphertext
 	polyQPool *ring.Poly
+	hoistPool [2]*mkrlwe.HoistedCiphertext
 }
 
 // NewEvaluator creates a new Evaluator, that can be used to do homomorphic
@@ -34,9 +35,24 @@ func NewEvaluator(params Parameters) *Evaluator {
 	eval.polyQPool = ringQ.NewPoly()
 	eval.polyQPool.IsNTT = true
 
+	eval.hoistPool[0] = mkrlwe.NewHoistedCiphertext()
+	eval.hoistPool[1] = mkrlwe.NewHoistedCiphertext()
+
 	return eval
 }
 
+// hoist decomposes ct into the evaluator's i-th pool
+func (eval *Evaluator) hoist(ct *Ciphertext, i int) *mkrlwe.HoistedCiphertext {
+	pool := eval.hoistPool[i]
+	for id := range ct.IDSet().Value {
+		if _, in := pool.Value[id]; !in {
+			pool.Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
+		}
+		eval.ksw.Decompose(ct.Level(), ct.Value[id], pool.Value[id])
+	}
+	return pool
+}
+
 func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal, cImag, scale float64) {
 
 	// Converts to float64 and determines if a scaling is required (which is the case if either real or imag have a rational part)
@@ -419,29 +435,11 @@ func (eval *Evaluator) MulRelinNew(op0, op1 *Ciphertext, rlkSet *mkrlwe.Relinear
 
 	//case of square
 	if op0 == op1 {
-		idset := op0.IDSet()
-		// Save decomposed ciphertext at rlkSet's pool
-		for id := range idset.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
-
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[0], rlkSet)
-
-	} else {
-		idset0 := op0.IDSet()
-		idset1 := op1.IDSet()
-
-		for id := range idset0.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
-
-		for id := range idset1.Value {
-			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
-		}
-
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[1], rlkSet)
+		hoisted := eval.hoist(op0, 0)
+		return eval.MulRelinHoistedNew(op0, op1, hoisted, hoisted, rlkSet)
 	}
 
+	return eval.MulRelinHoistedNew(op0, op1, eval.hoist(op0, 0), eval.hoist(op1, 1), rlkSet)
 }
 
 // MulRelin multiplies op0 with op1 with relinearization and returns the result in ctOut.
diff --git a/mkrlwe/keys.go b/mkrlwe/keys.go
index 8e5b5b9..74081f8 100644
--- a/mkrlwe/keys.go
+++ b/mkrlwe/keys.go
@@ -51,9 +51,8 @@ type ConjugationKey struct {
 
 // RelinearizationKeySet is a type for a set of multikey RLWE relinearization keys.
 type RelinearizationKeySet struct {
-	params    Parameters
-	Value     map[string]*RelinearizationKey
-	HoistPool [2]*HoistedCiphertext
+	params Parameters
+	Value  map[string]*RelinearizationKey
 }
 
 //RotationKeysSet is a type for a set of multikey RLWE rotation keys.
@@ -166,9 +165,6 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 	rlkSet := new(RelinearizationKeySet)
 	rlkSet.Value = make(map[string]*RelinearizationKey)
 
-	rlkSet.HoistPool[0] = NewHoistedCiphertext()
-	rlkSet.HoistPool[1] = NewHoistedCiphertext()
-
 	rlkSet.params = params
 
 	return rlkSet
@@ -177,8 +173,6 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 // AddRelinearizationKey insert new publickey into RelinearizationKeySet with its id
 func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationKey) {
 	rlkSet.Value[rlk.ID] = rlk
-	rlkSet.HoistPool[0].Value[rlk.ID] = NewSwitchingKey(rlkSet.params)
-	rlkSet.HoistPool[1].Value[rlk.ID] = NewSwitchingKey(rlkSet.params)
 }
 
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
-- 
2.43.0


From 7401ddb20c55b84c63afb912077ac921f06333e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 13/15] fix: ModDownQPtoP divides by Q at its own level

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 98f5794..346c5dd 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From c5f6d9cf28aff380daad63fd8e100d7132597450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 14/15] fix: generic decryption matches the domain of the
 plaintext

---
 mkrlwe/decryptor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..6e5ab31 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,11 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	// match the domain of the plaintext
+	if ctTmp.Value["0"].IsNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !ctTmp.Value["0"].IsNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From f7c4ff72a55ff6a59095b135c366044c56232ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 15/15] fix: normalise rotation amounts by remainder instead of
 repeated addition

The evaluators, the key switcher and the key generator moved a rotation amount into range one
period at a time, so that amounts far from zero kept them busy for ever.
---
 mkbfv/evaluator.go          |  7 ++-----
 mkckks/evaluator.go         | 14 ++++----------
 mkrlwe/keygen.go            |  7 +++++--
 mkrlwe/keyswitch.go         |  7 +++++--
 mkrlwe/keyswitch_hoisted.go |  7 +++++--
 5 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/mkbfv/evaluator.go b/mkbfv/evaluator.go
index 6da0147..012cc9a 100644
--- a/mkbfv/evaluator.go
+++ b/mkbfv/evaluator.go
@@ -182,11 +182,8 @@ func (eval *Evaluator) RotateNew(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.Rota
 func (eval *Evaluator) rotate(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 539cb7b..9981d81 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -493,11 +493,8 @@ func (eval *Evaluator) RotateNew(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.Rota
 func (eval *Evaluator) rotate(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
@@ -593,11 +590,8 @@ func (eval *Evaluator) RotateHoistedNew(ct0 *Ciphertext, rotidx int, ct0Hoisted
 func (eval *Evaluator) rotateHoisted(ct0 *Ciphertext, rotidx int, ct0Hoisted *mkrlwe.HoistedCiphertext, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index fa0b361..4a3699d 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -199,8 +199,11 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	ringQP := params.RingQP()
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx %= params.N() / 2
+	}
+	if rotidx < 0 {
+		rotidx += params.N() / 2
 	}
 
 	// check CRS for given rot idx exists
diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 11118fe..763cd5a 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -244,8 +244,11 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx %= params.N() / 2
+	}
+	if rotidx < 0 {
+		rotidx += params.N() / 2
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
diff --git a/mkrlwe/keyswitch_hoisted.go b/mkrlwe/keyswitch_hoisted.go
index e16a2bf..160d642 100644
--- a/mkrlwe/keyswitch_hoisted.go
+++ b/mkrlwe/keyswitch_hoisted.go
@@ -193,8 +193,11 @@ func (ks *KeySwitcher) RotateHoisted(ctIn *Ciphertext, rotidx int, ctInHoisted *
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx %= params.N() / 2
+	}
+	if rotidx < 0 {
+		rotidx += params.N() / 2
 	}
 
 	// c0 <- c0 + Ext(c_i, rk_i)
-- 
2.43.0

