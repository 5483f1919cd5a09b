From 3c62c3afcf0ec2815c6f104de420810f8738739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 01/24] fix: updating a leaf must commit the sum and blinding
 factor at their own indices

---
 verkle/tree.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..ae4c526 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -403,6 +403,8 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 
 	v.sum = updateSum(v.sum, oldVal, newVal)
 
+	v.values[uint16(index)] = newVal
+
 	// Update index with new value
 	m := make(common.Vec, t.PP.N)
 	for i := 0; i < len(m); i++ {
@@ -414,14 +416,12 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	}
 
 	// Artificially append the sum
-	m = append(m, v.sum)
+	m[len(m)-2] = v.sum
 
-	// Update index with new value
-	pp.Update(t.PP, v.V, m, newVal, index)
-	v.values[uint16(index)] = newVal
+	// Artificially append the blinding factor
+	m[len(m)-1] = v.BlindingFactor
 
-	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	v.V = pp.Commit(t.PP, m)
 
 	return key
 }
-- 
2.43.0


From d7f83e4f55b65d9a74fe22643ea23642eb58f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 02/24] fix: tree writes must go through the root cache

---
 pol/pol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..a1ac1e0 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -51,11 +51,13 @@ func (pp *PublicParams) Size() int {
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
 // Only a fan-out of the form 2^k - 1 for some natural k is permitted.
 func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint16) *LiabilitySet {
-	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
+	// The tree writes through the cache, so the cached root is never stale
+	cachedDB := &DBMemorizeRoot{DB: db}
+	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, cachedDB)
 	tree.PP = pp.PPPP
 
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   cachedDB,
 		pp:   pp,
 		tree: tree,
 	}
-- 
2.43.0


From fa607ee5148df708bb000e5bf2c8f9eb2643ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 03/24] fix: identifiers must be unsigned and dense paths must
 have a fixed length

---
 sparse/tree.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..b475e22 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -137,7 +137,7 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
-		num, err := strconv.ParseInt(s, 10, 32)
+		num, err := strconv.ParseUint(s, 10, 32)
 		if err != nil {
 			panic(fmt.Sprintf("%s is not a valid decimal number", s))
 		}
@@ -145,12 +145,12 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		var res []uint16
 
 		for num > 0 {
-			res = append(res, uint16(num%int64(fanout)))
-			num /= int64(fanout)
+			res = append(res, uint16(num%uint64(fanout)))
+			num /= uint64(fanout)
 		}
 
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
@@ -222,7 +222,7 @@ func hash(s string) string {
 
 func convertPathWithFanout(s string, fanOut uint16) []uint16 {
 	n, ok := big.NewInt(0).SetString(s, 16)
-	if !ok {
+	if !ok || n.Sign() < 0 {
 		panic(fmt.Sprintf("failed parsing %s as a hexadecimal number", s))
 	}
 
-- 
2.43.0


From 1b7269ee3e39763f9f1d48a8881f9086a13a575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 04/24] fix: the aggregated digest opening must be of the
 digests in the hash chain

---
 pol/pol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index a1ac1e0..8765fe9 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -194,6 +194,15 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		}
 	}
 
+	// The aggregated opening must be of the very digests that were checked against the hash chain
+	var coefficients common.Vec
+	for i := 0; i < len(path)-1; i++ {
+		coefficients = append(coefficients, pp.RO(publicParams.PPPP, lp.W, i))
+	}
+	if !lp.Digests[:len(path)-1].InnerProd(coefficients).Equals(lp.PointProofΣ) {
+		return nil, fmt.Errorf("aggregated digest does not match the hash chain")
+	}
+
 	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
-- 
2.43.0


From 86f04f2d92e3cce8c823af1f278f10055f847d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 05/24] fix: hash chain aggregation coefficients must bind the
 opened digests and positions

---
 pol/pol.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 8765fe9..e6781ce 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -195,15 +195,16 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	}
 
 	// The aggregated opening must be of the very digests that were checked against the hash chain
+	ro := hashChainRO(path, lp.V)
 	var coefficients common.Vec
 	for i := 0; i < len(path)-1; i++ {
-		coefficients = append(coefficients, pp.RO(publicParams.PPPP, lp.W, i))
+		coefficients = append(coefficients, ro(publicParams.PPPP, lp.W, i))
 	}
 	if !lp.Digests[:len(path)-1].InnerProd(coefficients).Equals(lp.PointProofΣ) {
 		return nil, fmt.Errorf("aggregated digest does not match the hash chain")
 	}
 
-	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
+	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, ro); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
 
@@ -437,14 +438,15 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 		Sum:            int(liability),
 	}
 
+	ro := hashChainRO(path, proof.V)
 	var tPP common.Vec
 	for i := 0; i < len(path)-1; i++ {
-		tPP = append(tPP, pp.RO(ls.tree.PP, proof.W, i))
+		tPP = append(tPP, ro(ls.tree.PP, proof.W, i))
 	}
 
 	saStart := time.Now()
 	proof.PointProofΣ = proof.Digests[:len(tPP)].InnerProd(tPP)
-	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, pp.RO)
+	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, ro)
 	proof.SumArgumentProof = vertices.SumArgument(ls.pp.SAPP)
 	saElapsed := time.Since(saStart)
 
@@ -474,6 +476,20 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 	return liability, proof, []time.Duration{saElapsed, eqProofElapsed, time.Since(start)}, true
 }
 
+// hashChainRO returns a random oracle for aggregating the openings of the hash chain,
+// which also binds the opened positions and the commitments the opened digests are computed from.
+func hashChainRO(path []uint16, V common.G1v) func(*pp.PP, []*math.G1, int) *math.Zr {
+	return func(publicParams *pp.PP, W []*math.G1, i int) *math.Zr {
+		h := sha256.New()
+		h.Write(pp.RO(publicParams, W, i).Bytes())
+		h.Write(V.Bytes())
+		for _, p := range path {
+			h.Write([]byte{byte(p >> 8), byte(p)})
+		}
+		return common.FieldElementFromBytes(h.Sum(nil))
+	}
+}
+
 func uint16VecToIntVec(in []uint16) []int {
 	res := make([]int, len(in))
 	for i, n := range in {
-- 
2.43.0


From 69f9366522568697b7d1bd369cdd69d69c50cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 06/24] fix: the inner product challenge must bind the
 statement

---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..804b41b 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -104,7 +104,8 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	hashPreImage = append(hashPreImage, pp.Digest...)
+	hashPreImage = append(hashPreImage, c.Bytes()...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From a53d17bb125ac81b921821597904508cb4aa68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 07/24] fix: inner product round challenges must bind the
 earlier rounds

---
 bp/innerprod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 804b41b..0ce01c4 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -217,7 +217,7 @@ type nextParams struct {
 func computeNextParams(L *math.G1, R *math.G1, pp *PP, g common.G1v, h common.G1v, P *math.G1) nextParams {
 	n := len(g) / 2
 
-	digest := randomOracle(L, R, pp.Digest)
+	digest := appendVToChallenge(randomOracle(L, R, pp.Digest), P)
 	x := common.FieldElementFromBytes(digest)
 	xInverse := x.Copy()
 	xInverse.InvModP(common.GroupOrder)
-- 
2.43.0


From 40b85be4d9ae0f1603766629b922273777263f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 08/24] fix: range proof challenges must bind the reduction
 proof

---
 bp/range.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bp/range.go b/bp/range.go
index 7e0f9a9..422c409 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -116,6 +116,12 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 	y1Digest = append(y1Digest, pp.Digest()...)
 	y0Digest = append(y0Digest, x.Bytes()...)
 	y1Digest = append(y1Digest, x.Bytes()...)
+	for _, round := range rp.Δ {
+		y0Digest = append(y0Digest, common.G1v(round[:]).Bytes()...)
+		y1Digest = append(y1Digest, common.G1v(round[:]).Bytes()...)
+	}
+	y0Digest = append(y0Digest, u.Bytes()...)
+	y1Digest = append(y1Digest, u.Bytes()...)
 
 	y0, y1 := common.FieldElementFromBytes(randomOracle(rp.Q, rp.R, y0Digest)), common.FieldElementFromBytes(randomOracle(rp.Q, rp.R, y1Digest))
 	y0v, y1v := common.PowerSeries(n*m, y0), expand(common.IntToZr(1), n*m).Mul(y1)
@@ -219,6 +225,12 @@ func ProveRange(pp *RangeProofPublicParams, V *math.G1, v common.Vec, r *math.Zr
 	y1Digest = append(y1Digest, pp.Digest()...)
 	y0Digest = append(y0Digest, x.Bytes()...)
 	y1Digest = append(y1Digest, x.Bytes()...)
+	for _, round := range Δ {
+		y0Digest = append(y0Digest, common.G1v(round[:]).Bytes()...)
+		y1Digest = append(y1Digest, common.G1v(round[:]).Bytes()...)
+	}
+	y0Digest = append(y0Digest, u.Bytes()...)
+	y1Digest = append(y1Digest, u.Bytes()...)
 
 	y0, y1 := common.FieldElementFromBytes(randomOracle(Q, R, y0Digest)), common.FieldElementFromBytes(randomOracle(Q, R, y1Digest))
 	y0v, y1v := common.PowerSeries(n*m, y0), expand(common.IntToZr(1), n*m).Mul(y1)
-- 
2.43.0


From 599869ebfede3442b08b45bf33474a1a16cc91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 09/24] fix: parameter digests must cover every generator and
 be current

---
 bp/range.go |  6 ++++++
 pol/pol.go  |  4 ++++
 sum/sa.go   | 15 ++++++++++-----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/bp/range.go b/bp/range.go
index 422c409..765e07a 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -52,6 +52,12 @@ func (rppp *RangeProofPublicParams) Digest() []byte {
 	return digest
 }
 
+// RecomputeDigest must be called whenever the generators are replaced.
+func (rppp *RangeProofPublicParams) RecomputeDigest() {
+	rppp.digest = nil
+	rppp.Digest()
+}
+
 type RangeProof struct {
 	Δ            [][3]*math.G1
 	u            *math.Zr // Γ = (Δ, u)
diff --git a/pol/pol.go b/pol/pol.go
index e6781ce..d8cf7df 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -99,6 +99,10 @@ func GeneratePublicParams(fanOut uint16, treeType TreeType) (func(string) []uint
 
 	pp.RPPP.Gs = pp.SAPP.Gs
 	pp.RPPP.F = pp.SAPP.F
+
+	pp.SAPP.RecomputeDigest()
+	pp.RPPP.RecomputeDigest()
+
 	return id2Path, pp
 }
 
diff --git a/sum/sa.go b/sum/sa.go
index a341649..b6f2279 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -44,16 +44,21 @@ func NewPublicParams(n int) *PP {
 
 	pp.B = pp.H.MulV(pp.b).Sum()
 
+	pp.RecomputeDigest()
+
+	return pp
+}
+
+// RecomputeDigest must be called whenever the generators are replaced.
+func (pp *PP) RecomputeDigest() {
 	h := sha256.New()
-	for i := 0; i < n; i++ {
-		h.Write(pp.H[i].Bytes())
-	}
+	h.Write(pp.U.Bytes())
+	h.Write(pp.Gs.Bytes())
+	h.Write(pp.H.Bytes())
 	h.Write(pp.B.Bytes())
 	h.Write(pp.G.Bytes())
 	h.Write(pp.F.Bytes())
 	pp.Digest = h.Sum(nil)
-
-	return pp
 }
 
 type Argument struct {
-- 
2.43.0


From 73926569088e1a611c8414fcb2f023e94d49d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 10/24] fix: sum argument challenges must bind the public
 parameters

---
 sum/sa.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sum/sa.go b/sum/sa.go
index b6f2279..1621d6f 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -73,7 +73,7 @@ type Proof struct {
 }
 
 func NewAggregatedArgument(pp *PP, V common.G1v, v []common.Vec, r common.Vec) *Proof {
-	t := createHVZKChallenge(V, len(v))
+	t := createHVZKChallenge(pp, V, len(v))
 
 	vAggr := make(common.Vec, len(v[0]))
 	for i := 0; i < len(v[0]); i++ {
@@ -92,8 +92,9 @@ func NewAggregatedArgument(pp *PP, V common.G1v, v []common.Vec, r common.Vec) *
 	return proof
 }
 
-func createHVZKChallenge(V common.G1v, m int) common.Vec {
+func createHVZKChallenge(pp *PP, V common.G1v, m int) common.Vec {
 	h := sha256.New()
+	h.Write(pp.Digest)
 	h.Write(V.Bytes())
 	digest := h.Sum(nil)
 	τ := common.FieldElementFromBytes(digest)
@@ -112,7 +113,7 @@ func (proof *Proof) Size() int {
 }
 
 func (proof *Proof) VerifyAggregated(pp *PP, V common.G1v) error {
-	t := createHVZKChallenge(V, len(V))
+	t := createHVZKChallenge(pp, V, len(V))
 	VAggr := V.MulV(t).Sum()
 
 	return proof.Verify(pp, &Argument{
@@ -149,7 +150,7 @@ func NewArgument(pp *PP, V *math.G1, v common.Vec, r *math.Zr) (*Argument, *Proo
 
 	c := w.InnerProd(pp.b)
 
-	x := randomOracleCVW(c, V, W)
+	x := randomOracleCVW(pp, c, V, W)
 
 	rPrimeX := rPrime.Mul(x)
 
@@ -177,8 +178,9 @@ func NewArgument(pp *PP, V *math.G1, v common.Vec, r *math.Zr) (*Argument, *Proo
 	return &Argument{V: V}, &Proof{π: π, W: W, c: c, ρ: ρ}
 }
 
-func randomOracleCVW(c *math.Zr, V *math.G1, W *math.G1) *math.Zr {
+func randomOracleCVW(pp *PP, c *math.Zr, V *math.G1, W *math.G1) *math.Zr {
 	h := sha256.New()
+	h.Write(pp.Digest)
 	h.Write(c.Bytes())
 	h.Write(V.Bytes())
 	h.Write(W.Bytes())
@@ -188,7 +190,7 @@ func randomOracleCVW(c *math.Zr, V *math.G1, W *math.G1) *math.Zr {
 }
 
 func (proof *Proof) Verify(pp *PP, a *Argument) error {
-	x := randomOracleCVW(proof.c, a.V, proof.W)
+	x := randomOracleCVW(pp, proof.c, a.V, proof.W)
 
 	P := pp.F.Mul(proof.ρ)
 	P.Add(a.V)
-- 
2.43.0


From 40b07f26aeda459c5fcbbd44b1bae996aee9588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 11/24] fix: malformed proofs must be rejected and not crash
 the verifier

---
 bp/innerprod.go | 8 ++++++++
 bp/ir.go        | 7 +++++++
 poe/poe.go      | 4 ++++
 pol/pol.go      | 4 ++++
 4 files changed, 23 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 0ce01c4..7c2d260 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -140,6 +140,10 @@ func (ipp *InnerProductProof) Verify(pp *PP) error {
 // verify implements the verifier's side in protocol 2.
 func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *math.Zr) error {
 	if len(g) == 1 {
+		if len(LRs) != 0 {
+			return fmt.Errorf("too many (L,R) pairs")
+		}
+
 		expectedP := pp.U.Mul(a.Mul(b))
 		expectedP.Add(g[0].Mul(a))
 		expectedP.Add(h[0].Mul(b))
@@ -150,6 +154,10 @@ func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *
 		return nil
 	}
 
+	if len(LRs) < 2 {
+		return fmt.Errorf("too few (L,R) pairs")
+	}
+
 	L := LRs[0]
 	R := LRs[1]
 	LRs = LRs[2:]
diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..e42f88a 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -23,6 +23,9 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 	var finalV *math.G1
 
 	for n > 0 {
+		if len(Δ) == 0 {
+			return nil, nil, fmt.Errorf("too few reduction rounds")
+		}
 		A, B, V := Δ[0][0], Δ[0][1], Δ[0][2]
 		x := common.FieldElementFromBytes(appendVToChallenge(randomOracle(A, B, pp.Digest), prevV))
 
@@ -46,6 +49,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 		n /= 2
 	}
 
+	if len(Δ) != 0 {
+		return nil, nil, fmt.Errorf("too many reduction rounds")
+	}
+
 	if !G[0].Mul(vFinal).Equals(finalV) {
 		return nil, nil, fmt.Errorf("final equation check failed")
 	}
diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..d587b6f 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,10 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.W) {
+		return fmt.Errorf("expected aggregations of size %d and %d but got %d and %d", len(e.V), len(e.W), len(proof.Vaggr), len(proof.Waggr))
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
diff --git a/pol/pol.go b/pol/pol.go
index d8cf7df..4f2026e 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -134,6 +134,10 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
 
+	if len(lp.V) != expectedDigestNum || len(lp.RangeProofs) != expectedDigestNum {
+		return nil, fmt.Errorf("expected %d commitments and range proofs but got %d and %d", expectedDigestNum, len(lp.V), len(lp.RangeProofs))
+	}
+
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
 		return nil, fmt.Errorf("root V does not match public known V value")
-- 
2.43.0


From fb6346a5f688626c51b82a07293d09ff4e35f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 12/24] fix: verification must not alter the proof

---
 bp/range.go | 8 +++++---
 poe/poe.go  | 8 +++++---
 sum/sa.go   | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/bp/range.go b/bp/range.go
index 765e07a..38e3ba2 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -145,9 +145,11 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 	ipaPP.H = Fprime
 	ipaPP.RecomputeDigest()
 
-	rp.Π.C = rp.c
-	rp.Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
-	if err := rp.Π.Verify(ipaPP); err != nil {
+	// Work on a copy, verification must not alter the proof
+	Π := *rp.Π
+	Π.C = rp.c
+	Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
+	if err := Π.Verify(ipaPP); err != nil {
 		return fmt.Errorf("inner product proof invalid: %v", err)
 	}
 
diff --git a/poe/poe.go b/poe/poe.go
index d587b6f..f120a0e 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -123,10 +123,12 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 
 	bpPP.RecomputeDigest()
 
-	proof.IPP.C = proof.c
-	proof.IPP.P = P
+	// Work on a copy, verification must not alter the proof
+	IPP := *proof.IPP
+	IPP.C = proof.c
+	IPP.P = P
 
-	return proof.IPP.Verify(bpPP)
+	return IPP.Verify(bpPP)
 
 }
 
diff --git a/sum/sa.go b/sum/sa.go
index 1621d6f..a08a78c 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -205,9 +205,11 @@ func (proof *Proof) Verify(pp *PP, a *Argument) error {
 
 	ipaPP.RecomputeDigest()
 
-	proof.π.C = proof.c.Mul(x)
-	proof.π.P = P
-	return proof.π.Verify(ipaPP)
+	// Work on a copy, verification must not alter the proof
+	π := *proof.π
+	π.C = proof.c.Mul(x)
+	π.P = P
+	return π.Verify(ipaPP)
 }
 
 func negZr(x *math.Zr) *math.Zr {
-- 
2.43.0


From 2fc12e6e8a9c455131bb1a1d40ca4d0455049a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 13/24] fix: random oracle indices must not be truncated

---
 poe/poe.go        | 12 ++++++------
 pp/pointproofs.go |  5 ++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/poe/poe.go b/poe/poe.go
index f120a0e..525527b 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -262,9 +262,9 @@ type Equality struct {
 
 func RO(gs common.G1v, integers []int, ppDigest []byte, n int) common.Vec {
 	h := hmac.New(sha256.New, compressParameters(gs, integers, ppDigest))
-	scalar := func(i uint16) *math.Zr {
-		buff := make([]byte, 2)
-		binary.BigEndian.PutUint16(buff, i)
+	scalar := func(i int) *math.Zr {
+		buff := make([]byte, 8)
+		binary.BigEndian.PutUint64(buff, uint64(i))
 		h.Write(buff)
 		digest := h.Sum(nil)
 		h.Reset()
@@ -276,7 +276,7 @@ func RO(gs common.G1v, integers []int, ppDigest []byte, n int) common.Vec {
 
 	scalars := make([]*math.Zr, n)
 	for i := 0; i < n; i++ {
-		scalars[i] = scalar(uint16(i))
+		scalars[i] = scalar(i)
 	}
 	return scalars
 
@@ -294,8 +294,8 @@ func compressParameters(gs common.G1v, integers []int, ppDigest []byte) []byte {
 	}
 
 	for _, n := range integers {
-		buff := make([]byte, 2)
-		binary.BigEndian.PutUint16(buff, uint16(n))
+		buff := make([]byte, 8)
+		binary.BigEndian.PutUint64(buff, uint64(n))
 		h.Write(buff)
 	}
 
diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..a5b091f 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -3,6 +3,7 @@ package pp
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 	"pol/common"
 
@@ -170,7 +171,9 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	index := make([]byte, 8)
+	binary.BigEndian.PutUint64(index, uint64(i))
+	h.Write(index)
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0


From 63468e9bd822b76c93fe02048263110ed3bd7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 14/24] fix: equality challenges must bind the compared
 positions

---
 poe/poe.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/poe/poe.go b/poe/poe.go
index 525527b..77b9f08 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -79,7 +79,7 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 	groupElements = append(groupElements, e.V...)
 	groupElements = append(groupElements, e.W...)
 
-	x := e.RO(groupElements, nil, e.PP.Digest, 1)[0]
+	x := e.RO(groupElements, e.indices(), e.PP.Digest, 1)[0]
 
 	m := len(e.V)
 	n := e.PP.PP.N
@@ -87,7 +87,7 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 	groupElements = append(groupElements, proof.U)
 	groupElements = append(groupElements, proof.V)
 
-	ts := e.RO(groupElements, nil, e.PP.Digest, 2*m)
+	ts := e.RO(groupElements, e.indices(), e.PP.Digest, 2*m)
 
 	g2sV := make(common.G2v, m)
 	for k := 0; k < m; k++ {
@@ -132,6 +132,13 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 
 }
 
+// indices returns the compared positions, which every challenge must bind
+func (e *Equalities) indices() []int {
+	indices := make([]int, 0, len(e.I)+len(e.J))
+	indices = append(indices, e.I...)
+	return append(indices, e.J...)
+}
+
 // Prove proves equality of 'v[i]' and 'w[j]' for all indices in I,J.
 // The last elements in every 'v' and 'w' should be blinding factors.
 func (e *Equalities) Prove(vs, ws []common.Vec) *AggregatedProof {
@@ -182,7 +189,7 @@ func (e *Equalities) Prove(vs, ws []common.Vec) *AggregatedProof {
 	groupElements = append(groupElements, e.V...)
 	groupElements = append(groupElements, e.W...)
 
-	x := e.RO(groupElements, nil, e.PP.Digest, 1)[0]
+	x := e.RO(groupElements, e.indices(), e.PP.Digest, 1)[0]
 
 	r1, r2 := c.NewRandomZr(rand.Reader), c.NewRandomZr(rand.Reader)
 
@@ -200,7 +207,7 @@ func (e *Equalities) Prove(vs, ws []common.Vec) *AggregatedProof {
 	groupElements = append(groupElements, U)
 	groupElements = append(groupElements, V)
 
-	ts := e.RO(groupElements, nil, e.PP.Digest, 2*m)
+	ts := e.RO(groupElements, e.indices(), e.PP.Digest, 2*m)
 
 	Ω := ΩvPP.Add(Ωv.Mul(x)).MulV(ts.Evens()).Sum()
 	Ω.Add(ΩwPP.Add(Ωw.Mul(x)).MulV(ts.Odds()).Sum())
@@ -312,7 +319,7 @@ type Proof struct {
 }
 
 func (e *Equality) Verify(Υ *Proof) error {
-	x := e.RO(common.G1v{e.V, e.W, Υ.V, Υ.W}, nil, e.PP.Digest, 1)[0]
+	x := e.RO(common.G1v{e.V, e.W, Υ.V, Υ.W}, []int{e.I, e.J}, e.PP.Digest, 1)[0]
 	g := c.GenG1.Copy()
 
 	ts := e.RO(common.G1v{e.V, e.W, Υ.V.Mul(x), Υ.W.Mul(x), g.Mul(Υ.C)}, []int{e.I, e.J}, e.PP.Digest, 2)
@@ -370,7 +377,7 @@ func (e *Equality) Prove(v, w common.Vec) *Proof {
 	W.Add(e.PP.PP.G1s[n-1].Mul(η))
 	ΩW := e.PP.PP.G1s[len(e.PP.PP.G1s)-1-e.J].Mul(η)
 
-	x := e.RO(common.G1v{e.V, e.W, V, W}, nil, e.PP.Digest, 1)[0]
+	x := e.RO(common.G1v{e.V, e.W, V, W}, []int{e.I, e.J}, e.PP.Digest, 1)[0]
 
 	g := c.GenG1.Copy()
 
-- 
2.43.0


From b3958b0e0d033f376515b545ea97f819f037e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 15/24] fix: IsPowerOfTwo(0) must terminate

---
 common/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index f1c29e8..93da320 100644
--- a/common/math.go
+++ b/common/math.go
@@ -496,7 +496,7 @@ func feFrom256Bits(bytes []byte) *fr.Element {
 }
 
 func IsPowerOfTwo(n uint16) bool {
-	if n == 1 {
+	if n == 0 || n == 1 {
 		return false
 	}
 
-- 
2.43.0


From 60f837e84067cba2429c845398f43422b64de084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 16/24] fix: a rejecting verification must not leave range
 proof verifications behind

---
 pol/pol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index 4f2026e..e099777 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -147,7 +147,8 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	}
 
 	var rangeProofsVerification sync.WaitGroup
-	rangeProofsVerification.Add(len(path))
+	// Range proof verifications must not outlive this call, whatever it returns
+	defer rangeProofsVerification.Wait()
 
 	var detectedRangeProofErr atomic.Value
 
@@ -176,6 +177,7 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 			}
 		}
 
+		rangeProofsVerification.Add(1)
 		if ParallelismEnabled {
 			go verifyRangeProof(lp.RangeProofs[i], lp.V[i])
 		} else {
-- 
2.43.0


From 8361da097bf3da27c862a3d7c333b8db7b098437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 17/24] fix: element-wise vector operations must reject a
 length mismatch

---
 common/math.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/common/math.go b/common/math.go
index 93da320..9a2456a 100644
--- a/common/math.go
+++ b/common/math.go
@@ -153,6 +153,10 @@ func (v Vec) Reverse() Vec {
 }
 
 func (v Vec) PowBitVec(exp []uint8) Vec {
+	if len(v) != len(exp) {
+		panic(fmt.Sprintf("|v|=%d but |exp|=%d", len(v), len(exp)))
+	}
+
 	one := c.NewZrFromInt(1)
 	n := len(v)
 	res := make(Vec, n)
@@ -279,6 +283,10 @@ func (v Vec) HadamardProd(v2 Vec) Vec {
 }
 
 func (g1v G1v) Add(g1v2 G1v) G1v {
+	if len(g1v) != len(g1v2) {
+		panic(fmt.Sprintf("|g1v|=%d but |g1v2|=%d", len(g1v), len(g1v2)))
+	}
+
 	res := make(G1v, len(g1v))
 	for i := 0; i < len(res); i++ {
 		res[i] = g1v[i].Copy()
@@ -306,6 +314,10 @@ func (g1v G1v) Neg() G1v {
 }
 
 func (g1v G1v) HadamardProd(g1v2 G1v) G1v {
+	if len(g1v) != len(g1v2) {
+		panic(fmt.Sprintf("|g1v|=%d but |g1v2|=%d", len(g1v), len(g1v2)))
+	}
+
 	res := make(G1v, len(g1v))
 	for i := 0; i < len(res); i++ {
 		res[i] = g1v[i].Copy()
@@ -371,6 +383,10 @@ func (g1v G1v) Duplicate(n int) G1v {
 }
 
 func (g2v G2v) Mulv(x []*math.Zr) G2v {
+	if len(g2v) != len(x) {
+		panic(fmt.Sprintf("|g2v|=%d but |x|=%d", len(g2v), len(x)))
+	}
+
 	res := make(G2v, len(g2v))
 	for i := 0; i < len(res); i++ {
 		res[i] = g2v[i].Mul(x[i])
@@ -391,6 +407,10 @@ func (g2v G2v) Duplicate(n int) G2v {
 }
 
 func (g2v G2v) Add(g2v2 G2v) G2v {
+	if len(g2v) != len(g2v2) {
+		panic(fmt.Sprintf("|g2v|=%d but |g2v2|=%d", len(g2v), len(g2v2)))
+	}
+
 	res := make(G2v, len(g2v))
 	for i := 0; i < len(res); i++ {
 		res[i] = g2v[i].Copy()
-- 
2.43.0


From 7d7e91a0d4a342bd1a59b20700a5ec8a3e92a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 18/24] fix: verifiers must reject negative amounts

---
 pol/pol.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index e099777..d40b4d6 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -128,6 +128,10 @@ func (lp LiabilityProof) Size() int {
 }
 
 func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *math.G1, id2path func(string) []uint16) ([]time.Duration, error) {
+	if lp.LiabilityProof.Sum < 0 {
+		return nil, fmt.Errorf("liability %d is negative", lp.LiabilityProof.Sum)
+	}
+
 	path := id2path(id)
 	expectedDigestNum := len(path)
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
@@ -294,6 +298,10 @@ type TotalProof struct {
 }
 
 func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) error {
+	if tp.Sum < 0 {
+		return fmt.Errorf("sum %d is negative", tp.Sum)
+	}
+
 	mi := common.IntToZr(tp.Sum)
 	return pp.Verify(publicParams.PPPP, mi, tp.LiabilityProof, V, publicParams.Fanout)
 }
-- 
2.43.0


From a09dafc8084696f4a51822860dd1b66bd0998f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 19/24] fix: serializing a tree must emit its vertices

---
 verkle/tree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index ae4c526..7173072 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -189,11 +189,12 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 
 func (t *Tree) Serialize(out io.Writer) {
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
-		_, isVertex := data.(*Vertex)
+		// Inner vertices are referenced by their keys in the database
+		key, isVertex := data.(string)
 		if !isVertex {
 			return nil
 		}
-		return data.(*Vertex).Bytes()
+		return t.DB.Get([]byte(key))
 	})
 }
 
-- 
2.43.0


From 1d24cc1168021586a6553e30387fffa11d96e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 20/24] fix: a serialization that cannot be written must not go
 unnoticed

---
 sparse/tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index b475e22..c580d5f 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -107,8 +107,12 @@ func (v *Vertex) Serialize(out io.Writer, path string, vertexToBytes func(interf
 	header := make([]byte, 32)
 	binary.BigEndian.PutUint32(header, uint32(len(bytes)))
 
-	out.Write(header)
-	out.Write(bytes)
+	if _, err := out.Write(header); err != nil {
+		panic(err)
+	}
+	if _, err := out.Write(bytes); err != nil {
+		panic(err)
+	}
 
 	for k, v := range v.Descendants {
 		descPath := fmt.Sprintf("%s.%d", path, k)
-- 
2.43.0


From c933846864b3b1614eda3828d587744fa0b8c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 21/24] fix: computing a missing range proof parameter digest
 raced between concurrent verifications

---
 bp/range.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bp/range.go b/bp/range.go
index 38e3ba2..beae812 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -26,7 +26,7 @@ func NewRangeProofPublicParams(n int) *RangeProofPublicParams {
 		Gs: common.RandGenVec(n, "range proof Gs"),
 	}
 
-	rppp.Digest()
+	rppp.RecomputeDigest()
 
 	return rppp
 }
@@ -35,11 +35,17 @@ func (rppp *RangeProofPublicParams) Size() int {
 	return len(rppp.Gs.Bytes()) + len(rppp.Hs.Bytes()) + len(rppp.Fs.Bytes()) + len(rppp.G.Bytes()) + len(rppp.H.Bytes()) + len(rppp.F.Bytes())
 }
 
+// Digest does not store a digest it has to compute, because
+// range proofs are produced and verified concurrently with the same parameters.
 func (rppp *RangeProofPublicParams) Digest() []byte {
 	if len(rppp.digest) != 0 {
 		return rppp.digest
 	}
 
+	return rppp.computeDigest()
+}
+
+func (rppp *RangeProofPublicParams) computeDigest() []byte {
 	h := sha256.New()
 	h.Write(rppp.G.Bytes())
 	h.Write(rppp.H.Bytes())
@@ -47,15 +53,12 @@ func (rppp *RangeProofPublicParams) Digest() []byte {
 	h.Write(rppp.Gs.Bytes())
 	h.Write(rppp.Hs.Bytes())
 	h.Write(rppp.Fs.Bytes())
-	digest := h.Sum(nil)
-	rppp.digest = digest
-	return digest
+	return h.Sum(nil)
 }
 
 // RecomputeDigest must be called whenever the generators are replaced.
 func (rppp *RangeProofPublicParams) RecomputeDigest() {
-	rppp.digest = nil
-	rppp.Digest()
+	rppp.digest = rppp.computeDigest()
 }
 
 type RangeProof struct {
-- 
2.43.0


From 749a1a735f7e41f04a3a72c0e55fe6a03fb245df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 22/24] fix: a signed hexadecimal identifier must be refused

---
 sparse/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index c580d5f..672f8b3 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -226,7 +226,7 @@ func hash(s string) string {
 
 func convertPathWithFanout(s string, fanOut uint16) []uint16 {
 	n, ok := big.NewInt(0).SetString(s, 16)
-	if !ok || n.Sign() < 0 {
+	if !ok || s[0] == '-' || s[0] == '+' {
 		panic(fmt.Sprintf("failed parsing %s as a hexadecimal number", s))
 	}
 
-- 
2.43.0


From 1e5f67bffabd077a5ca57436ba7cc637790af854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 23/24] fix: decoding into a used vertex forgets its old digest
 commitment

---
 verkle/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verkle/tree.go b/verkle/tree.go
index 7173072..5dd538f 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -111,6 +111,7 @@ func (v *Vertex) FromBytes(bytes []byte) {
 		panic(err)
 	}
 
+	v.W = nil
 	if len(rv.W) != 0 {
 		v.W, err = c.NewG1FromBytes(rv.W)
 		if err != nil {
-- 
2.43.0


From 4abb27007fe0d160ae8ae6f4d4f59c82d0d14063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 24/24] fix: a total of 64 bits is refused instead of being
 proved as a negative one

---
 pol/pol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index d40b4d6..b5c4c6c 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -318,6 +318,10 @@ func (ls *LiabilitySet) ProveTot() TotalProof {
 	if err != nil {
 		panic(err)
 	}
+	// The conversion wraps around for sums of 64 bits
+	if sumAsInt < 0 {
+		panic(fmt.Sprintf("sum %s is out of range", sum))
+	}
 
 	return TotalProof{
 		Sum:            int(sumAsInt),
-- 
2.43.0

