From e25d6f45239653943da973f85c60abfece9ccca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 01/20] fix: phase1.Verify's power checks compared nothing:
 MultiExp length mismatch error was dropped

The scalar slice was one longer than the point slice whenever a batch was
processed, so MultiExp returned an error, L1 and L2 stayed at infinity and every
ratio check passed. With the error handled, the TauG2 check also needs its
operands in the right order.
---
 phase1/phase1.go |  2 +-
 phase1/utils.go  | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 09fcb70..9f534cd 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -360,7 +360,7 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
-	if !common.SameRatio(g1, current.G1.Tau, tau2L1, tau2L2) {
+	if !common.SameRatio(g1, current.G1.Tau, tau2L2, tau2L1) {
 		return errors.New("failed pairing check")
 	}
 
diff --git a/phase1/utils.go b/phase1/utils.go
index f575206..701fa79 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -182,8 +182,12 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
@@ -214,8 +218,12 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
-- 
2.43.0


From 3b832101088fb6a462f7fcd8143761c6728713ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/20] fix: phase1.Verify skipped the pair of consecutive
 powers straddling each 2^20 batch boundary

---
 phase1/utils.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/phase1/utils.go b/phase1/utils.go
index 701fa79..de6ff58 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -166,7 +166,7 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
+	var L1, L2, tmpL1, tmpL2, last bn254.G1Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -178,6 +178,21 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 			}
 		}
 
+		// The last point of the previous batch and the first of this one are consecutive too
+		if remaining < N {
+			var rBoundary fr.Element
+			var rBi big.Int
+			if _, err := rBoundary.SetRandom(); err != nil {
+				return L1, L2, err
+			}
+			rBoundary.BigInt(&rBi)
+			tmpL1.ScalarMultiplication(&last, &rBi)
+			tmpL2.ScalarMultiplication(&buff[0], &rBi)
+			L1.Add(&L1, &tmpL1)
+			L2.Add(&L2, &tmpL2)
+		}
+		last.Set(&buff[readCount-1])
+
 		// Generate randomness
 		randomize(r)
 
@@ -202,7 +217,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
+	var L1, L2, tmpL1, tmpL2, last bn254.G2Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -214,6 +229,21 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 			}
 		}
 
+		// The last point of the previous batch and the first of this one are consecutive too
+		if remaining < N {
+			var rBoundary fr.Element
+			var rBi big.Int
+			if _, err := rBoundary.SetRandom(); err != nil {
+				return L1, L2, err
+			}
+			rBoundary.BigInt(&rBi)
+			tmpL1.ScalarMultiplication(&last, &rBi)
+			tmpL2.ScalarMultiplication(&buff[0], &rBi)
+			L1.Add(&L1, &tmpL1)
+			L2.Add(&L2, &tmpL2)
+		}
+		last.Set(&buff[readCount-1])
+
 		// Generate randomness
 		randomize(r)
 
-- 
2.43.0


From ecb91c472cfe3a4992da3e75eb1e7faa9d368f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 03/20] fix: phase1.Verify didn't tie the first point of each
 section to the contributions

The ratio checks leave every section free up to a factor, so e.g. AlphaTauG1
multiplied by a constant was accepted.
---
 phase1/phase1.go | 20 ++++++++++++++++----
 phase1/utils.go  | 33 +++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9f534cd..6cc2a6a 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -294,25 +294,25 @@ func Verify(inputPath, transformedPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	fmt.Println("Processing TauG1")
-	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
+	tau1First, tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing AlphaTauG1")
-	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
+	alphaTau1First, alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing BetaTauG1")
-	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
+	betaTau1First, betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing TauG2")
-	tau2L1, tau2L2, err := linearCombinationG2(dec, N)
+	tau2First, tau2L1, tau2L2, err := linearCombinationG2(dec, N)
 	if err != nil {
 		return err
 	}
@@ -340,6 +340,18 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Verify consistency of parameters update
 	_, _, g1, g2 := bn254.Generators()
+
+	// Verify that each section starts at the right point, the ratios only bind the points that follow
+	if !tau1First.Equal(&g1) || !tau2First.Equal(&g2) {
+		return errors.New("powers of Tau don't start at the generators")
+	}
+	if !alphaTau1First.Equal(&current.G1.Alpha) {
+		return errors.New("failed verifying update of Alpha")
+	}
+	if !betaTau1First.Equal(&current.G1.Beta) {
+		return errors.New("failed verifying update of Beta")
+	}
+
 	// Read and verify TauG1
 	fmt.Println("Verifying powers of TauG1")
 	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
diff --git a/phase1/utils.go b/phase1/utils.go
index de6ff58..1d5554b 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -161,12 +161,13 @@ func randomize(r []fr.Element) {
 	})
 }
 
-func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
+// Returns the first point along with random linear combinations of all points but the last, and of all but the first
+func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2, last bn254.G1Affine
+	var first, L1, L2, tmpL1, tmpL2, last bn254.G1Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -174,7 +175,7 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
@@ -183,13 +184,15 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 			var rBoundary fr.Element
 			var rBi big.Int
 			if _, err := rBoundary.SetRandom(); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 			rBoundary.BigInt(&rBi)
 			tmpL1.ScalarMultiplication(&last, &rBi)
 			tmpL2.ScalarMultiplication(&buff[0], &rBi)
 			L1.Add(&L1, &tmpL1)
 			L2.Add(&L2, &tmpL2)
+		} else {
+			first.Set(&buff[0])
 		}
 		last.Set(&buff[readCount-1])
 
@@ -198,10 +201,10 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -209,15 +212,15 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
-func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
+func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2, last bn254.G2Affine
+	var first, L1, L2, tmpL1, tmpL2, last bn254.G2Affine
 
 	remaining := N
 	for remaining > 0 {
@@ -225,7 +228,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
@@ -234,13 +237,15 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 			var rBoundary fr.Element
 			var rBi big.Int
 			if _, err := rBoundary.SetRandom(); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 			rBoundary.BigInt(&rBi)
 			tmpL1.ScalarMultiplication(&last, &rBi)
 			tmpL2.ScalarMultiplication(&buff[0], &rBi)
 			L1.Add(&L1, &tmpL1)
 			L2.Add(&L2, &tmpL2)
+		} else {
+			first.Set(&buff[0])
 		}
 		last.Set(&buff[readCount-1])
 
@@ -249,10 +254,10 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -260,7 +265,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
 func verifyContribution(current, prev Contribution) error {
-- 
2.43.0


From 3919619794166e62ed5a4e5f243a6c94cf1f0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 04/20] fix: phase1.Verify accepted a file without
 contributions when its points are degenerate

---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 6cc2a6a..f40294f 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -286,6 +286,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
+	if header.Contributions == 0 {
+		return errors.New("there are no contributions to verify")
+	}
 	N := int(math.Pow(2, float64(header.Power)))
 
 	// Use buffered IO to write parameters efficiently
-- 
2.43.0


From 0873fdff0653c7d5b9e5c70bfce51b28e204799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 05/20] fix: phase1.Verify ignored errors reading contributions

---
 phase1/phase1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index f40294f..8313f0a 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -333,7 +333,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	for i := 0; i < int(header.Contributions); i++ {
-		current.ReadFrom(reader)
+		if _, err := current.ReadFrom(reader); err != nil {
+			return err
+		}
 		fmt.Printf("Verifying contribution %d with Hash := %s\n", i+1, hex.EncodeToString(current.Hash))
 		if err := verifyContribution(current, prev); err != nil {
 			return err
-- 
2.43.0


From 5f12e411abc38d370eb8b43014c5f811bc6aabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 06/20] fix: phase2.Verify accepted Z and PKK when they
 couldn't be read

---
 phase2/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 3e3a312..9aee4bf 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -474,7 +474,7 @@ func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []by
 func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn254.Decoder, size int, field string) error {
 	// aggregate points
 	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
-		return nil
+		return err
 	} else {
 		if !common.SameRatio(*in, *or, *delta, *g) {
 			return fmt.Errorf("inconsistent update to %s", field)
-- 
2.43.0


From ead26be072c772b6fe216314ee612ddf4ddd8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 07/20] fix: short reads of headers and contribution hashes
 were taken as complete

A hash straddling the 4096 bytes buffer of bufio.Reader was read partially, which
broke phase 2 ceremonies of some circuit sizes, and a truncated file was accepted
by Contribute.
---
 phase1/contribution.go | 2 +-
 phase1/header.go       | 4 ++--
 phase2/contribution.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index bcc7d7c..ffaabe3 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -78,7 +78,7 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase1/header.go b/phase1/header.go
index 88eb1b3..7fe661a 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -13,14 +13,14 @@ type Header struct {
 func (p *Header) ReadFrom(reader io.Reader) error {
 	buffPower := make([]byte, 1)
 	// Read NConstraints
-	if _, err := reader.Read(buffPower); err != nil {
+	if _, err := io.ReadFull(reader, buffPower); err != nil {
 		return err
 	}
 	p.Power = buffPower[0]
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-	if _, err := reader.Read(buffContributions); err != nil {
+	if _, err := io.ReadFull(reader, buffContributions); err != nil {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
diff --git a/phase2/contribution.go b/phase2/contribution.go
index 0ca5d89..c54bbd3 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -47,7 +47,7 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
-- 
2.43.0


From 48688c8a995cbcd4700542b2e4fb245865f49a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 08/20] =?UTF-8?q?fix:=20success=20was=20reported=20after?=
 =?UTF-8?q?=20failing=20to=20write=20a=20header,=20the=20last=20contributi?=
 =?UTF-8?q?on,=20[=CE=B2]=E2=82=82=20or=20the=20domain?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 keys/keys.go     |  4 +++-
 phase1/phase1.go | 12 +++++++++---
 phase2/phase2.go |  4 +++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 47bdb44..023e7cd 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -111,7 +111,9 @@ func extractPK(phase2Path string) error {
 
 	// 0. Write domain
 	domain := fft.NewDomain(uint64(header.Domain))
-	domain.WriteTo(pkWriter)
+	if _, err := domain.WriteTo(pkWriter); err != nil {
+		return err
+	}
 
 	// 1. Read/Write [α]₁
 	if err := decEvals.Decode(&alphaG1); err != nil {
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 8313f0a..ab8a189 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -97,7 +97,9 @@ func Initialize(power byte, outputPath string) error {
 	fmt.Printf("Power %d supports up to %d constraints\n", power, N)
 
 	// Write the header
-	header.writeTo(outputFile)
+	if err := header.writeTo(outputFile); err != nil {
+		return err
+	}
 
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
@@ -142,7 +144,9 @@ func Initialize(power byte, outputPath string) error {
 
 	// Write [β]₂
 	fmt.Println("5. Writing BetaG2")
-	enc.Encode(&g2)
+	if err := enc.Encode(&g2); err != nil {
+		return err
+	}
 
 	fmt.Println("Initialization has been completed successfully")
 	return nil
@@ -264,7 +268,9 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase2/phase2.go b/phase2/phase2.go
index af219a7..811f2e7 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -154,7 +154,9 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
-- 
2.43.0


From 7506f6bd693ef719e9405c08fbb9e893ff62a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 09/20] fix: success was reported although flushing the output
 failed

---
 keys/keys.go       | 33 +++++++++++++++++++++------------
 phase1/phase1.go   | 10 ++++++++--
 phase1/utils.go    |  6 ++----
 phase2/lagrange.go |  6 ++----
 phase2/parted.go   |  7 ++++---
 phase2/phase2.go   |  5 ++++-
 phase2/utils.go    | 10 +++++-----
 7 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 023e7cd..1031b6b 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -103,7 +103,6 @@ func extractPK(phase2Path string) error {
 	}
 	defer pkFile.Close()
 	pkWriter := bufio.NewWriter(pkFile)
-	defer pkWriter.Flush()
 	encPk := bn254.NewEncoder((pkWriter))
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -236,7 +235,7 @@ func extractPK(phase2Path string) error {
 		return err
 	}
 
-	return nil
+	return pkWriter.Flush()
 }
 
 func extractSplitPK(phase2Path, session string) error {
@@ -273,7 +272,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkEFile.Close()
 	pkEWriter := bufio.NewWriter(pkEFile)
-	defer pkEWriter.Flush()
 	encPkE := bn254.NewEncoder(pkEWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.A.save", session)
@@ -283,7 +281,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkAFile.Close()
 	pkAWriter := bufio.NewWriter(pkAFile)
-	defer pkAWriter.Flush()
 	encPkA := bn254.NewEncoder(pkAWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B1.save", session)
@@ -293,7 +290,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB1File.Close()
 	pkB1Writer := bufio.NewWriter(pkB1File)
-	defer pkB1Writer.Flush()
 	encPkB1 := bn254.NewEncoder(pkB1Writer, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.Z.save", session)
@@ -303,7 +299,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkZFile.Close()
 	pkZWriter := bufio.NewWriter(pkZFile)
-	defer pkZWriter.Flush()
 	encPkZ := bn254.NewEncoder(pkZWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.K.save", session)
@@ -313,7 +308,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkKFile.Close()
 	pkKWriter := bufio.NewWriter(pkKFile)
-	defer pkKWriter.Flush()
 	encPkK := bn254.NewEncoder(pkKWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B2.save", session)
@@ -323,7 +317,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB2File.Close()
 	pkB2Writer := bufio.NewWriter(pkB2File)
-	defer pkB2Writer.Flush()
 	encPkB2 := bn254.NewEncoder(pkB2Writer, bn254.RawEncoding())
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -460,7 +453,22 @@ func extractSplitPK(phase2Path, session string) error {
 		return err
 	}
 
-	return nil
+	if err := pkEWriter.Flush(); err != nil {
+		return err
+	}
+	if err := pkAWriter.Flush(); err != nil {
+		return err
+	}
+	if err := pkB1Writer.Flush(); err != nil {
+		return err
+	}
+	if err := pkZWriter.Flush(); err != nil {
+		return err
+	}
+	if err := pkKWriter.Flush(); err != nil {
+		return err
+	}
+	return pkB2Writer.Flush()
 }
 
 func extractVK(phase2Path string) error {
@@ -497,7 +505,6 @@ func extractVK(phase2Path string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -550,7 +557,7 @@ func extractVK(phase2Path string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-	return nil
+	return vkWriter.Flush()
 }
 
 func extractSplitVK(phase2Path, session string) error {
@@ -588,7 +595,6 @@ func extractSplitVK(phase2Path, session string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -641,6 +647,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
diff --git a/phase1/phase1.go b/phase1/phase1.go
index ab8a189..2ab34ab 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -104,7 +104,6 @@ func Initialize(power byte, outputPath string) error {
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
 	writer := bufio.NewWriterSize(outputFile, buffSize)
-	defer writer.Flush()
 
 	// BN254 encoder using compressed representation of points to save storage space
 	enc := bn254.NewEncoder(writer)
@@ -148,6 +147,10 @@ func Initialize(power byte, outputPath string) error {
 		return err
 	}
 
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+
 	fmt.Println("Initialization has been completed successfully")
 	return nil
 }
@@ -182,7 +185,6 @@ func Contribute(inputPath, outputPath string) error {
 	// Use buffered IO to write parameters efficiently
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -272,6 +274,10 @@ func Contribute(inputPath, outputPath string) error {
 		return err
 	}
 
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
 
diff --git a/phase1/utils.go b/phase1/utils.go
index 1d5554b..b892915 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -318,7 +318,6 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -331,7 +330,7 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
@@ -341,7 +340,6 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -354,5 +352,5 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/lagrange.go b/phase2/lagrange.go
index ea5dd0a..b956cd7 100644
--- a/phase2/lagrange.go
+++ b/phase2/lagrange.go
@@ -17,7 +17,6 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -34,7 +33,7 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
 
 func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain) error {
@@ -45,7 +44,6 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -62,5 +60,5 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/parted.go b/phase2/parted.go
index a19446e..d95f7d0 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -210,7 +210,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -269,7 +268,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -286,5 +284,8 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 		return err
 	}
 
-	return nil
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return evalWriter.Flush()
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 811f2e7..5bdf84f 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -72,7 +72,6 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Read/Write header with extra contribution
@@ -158,6 +157,10 @@ func Contribute(inputPath, outputPath string) error {
 		return err
 	}
 
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
 
diff --git a/phase2/utils.go b/phase2/utils.go
index 9aee4bf..84cb9f5 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -229,7 +229,6 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase2File *os.File) error {
 	fmt.Println("Processing Delta and Z")
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Write [δ]₁ and [δ]₂
@@ -271,7 +270,7 @@ func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phase2File *os.File) error {
@@ -296,7 +295,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -352,7 +350,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -369,7 +366,10 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	return nil
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return evalWriter.Flush()
 }
 
 func accumulateG1(r1cs *cs_bn254.R1CS, res *bn254.G1Affine, t constraint.Term, value *bn254.G1Affine) {
-- 
2.43.0


From b6b1101f22b82318829504e33d263b6884693515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 10/20] fix: parameters of private committed wires and of the
 commitment were misfiled

The next committed wire was looked up by wire rather than by rank, and the first
private wire was taken as public because #Public includes the commitment.
---
 phase2/utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 84cb9f5..ef0114b 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -540,10 +540,14 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	vkk := make([]bn254.G1Affine, header2.Public)
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
 	vI, cI := 0, 0
+	nbPublic := header2.Public
+	if cmtInfo.Is() {
+		nbPublic-- // the commitment is counted as public, but isn't one of the leading wires
+	}
 	for i := range L {
-		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[i]
+		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
-		isPublic := i < header2.Public
+		isPublic := i < nbPublic
 		if isCommittedPrivate {
 			ckk[cI].Set(&L[i])
 			cI++
-- 
2.43.0


From 682fd738cc7f76d81691e32a35e599a51a65f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 11/20] fix: the verifying key was written without the
 circuit's CommitmentInfo

---
 keys/keys.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 1031b6b..960f8e7 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -554,6 +554,11 @@ func extractVK(phase2Path string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read CommitmentInfo
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
@@ -644,6 +649,11 @@ func extractSplitVK(phase2Path, session string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read CommitmentInfo
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-- 
2.43.0


From 0c78c6543a524fec6d9dd6e7d9bbed5c844044bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 12/20] fix: the split commitment key file contained the key
 twice

---
 keys/keys.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keys/keys.go b/keys/keys.go
index 960f8e7..e287490 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -668,7 +668,6 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
-- 
2.43.0


From fa2e07e3ec80815d2b82842cd953a60d1cedfc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 13/20] fix: contributions whose public key is the point at
 infinity passed every pairing check

Such a contribution, e.g. one erasing the secret by multiplying it by zero, proves
no knowledge of anything.
---
 phase1/utils.go | 7 +++++++
 phase2/utils.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/phase1/utils.go b/phase1/utils.go
index b892915..f30fd62 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -269,6 +269,13 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 }
 
 func verifyContribution(current, prev Contribution) error {
+	// A pairing involving the point at infinity proves nothing about the other points
+	for _, pk := range []common.PublicKey{current.PublicKeys.Tau, current.PublicKeys.Alpha, current.PublicKeys.Beta} {
+		if pk.S.IsInfinity() || pk.SX.IsInfinity() {
+			return errors.New("public key of the contribution is degenerate")
+		}
+	}
+
 	// Compute SP for τ, α, β
 	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
 	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
diff --git a/phase2/utils.go b/phase2/utils.go
index ef0114b..95228b6 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -450,6 +450,11 @@ func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error
 }
 
 func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []byte) error {
+	// A pairing involving the point at infinity proves nothing about the other points
+	if c.PublicKey.S.IsInfinity() || c.PublicKey.SX.IsInfinity() {
+		return errors.New("public key of the contribution is degenerate")
+	}
+
 	// Compute SP for δ
 	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
 
-- 
2.43.0


From 892350779a90f6c2ecc605c9b665ba2784ca2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 14/20] fix: powers outside of a byte were silently truncated
 by p1n and p1t, and power 0 isn't usable

---
 actions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/actions.go b/actions.go
index 52eb39c..ba312df 100644
--- a/actions.go
+++ b/actions.go
@@ -29,6 +29,9 @@ func p1t(cCtx *cli.Context) error {
 	if inPower < outPower {
 		return errors.New("cannot transform to a higher power")
 	}
+	if outPower < 1 || inPower > 28 {
+		return errors.New("powers must be between 1 and 28")
+	}
 	err = phase1.Transform(inputPath, outputPath, byte(inPower), byte(outPower))
 	return err
 }
@@ -46,6 +49,9 @@ func p1n(cCtx *cli.Context) error {
 	if power > 26 {
 		return errors.New("can't support powers larger than 26")
 	}
+	if power < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
 	outputPath := cCtx.Args().Get(1)
 	err = phase1.Initialize(byte(power), outputPath)
 	return err
-- 
2.43.0


From 7e133f1876bc863a997f830088702de0f2a3da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 15/20] fix: the contributions counter of phase 1 wrapped
 around, losing all contributions

---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 2ab34ab..03ca7dc 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -177,6 +177,9 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
+	if header.Contributions == math.MaxUint16 {
+		return errors.New("the maximum number of contributions has been reached")
+	}
 	header.Contributions++
 	if err := header.writeTo(outputFile); err != nil {
 		return err
-- 
2.43.0


From d7a3ba4fa1423b5b6afa3b16c120f385bbc56a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 16/20] fix: secrets and verification coefficients were used
 although the random source failed

---
 common/keypair.go |  4 +++-
 phase1/phase1.go  | 12 +++++++++---
 phase1/utils.go   |  4 +++-
 phase2/phase2.go  |  4 +++-
 phase2/utils.go   |  4 +++-
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/common/keypair.go b/common/keypair.go
index a3aa375..19f78fe 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -19,7 +19,9 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 
 	var s fr.Element
 	var sBi big.Int
-	s.SetRandom()
+	if _, err := s.SetRandom(); err != nil {
+		panic(err)
+	}
 	s.BigInt(&sBi)
 	pk.S.ScalarMultiplication(&g1, &sBi)
 
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 03ca7dc..bececc1 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -195,9 +195,15 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic parameters
 	fmt.Println("Sampling toxic parameters Tau, Alpha, and Beta")
 	var tau, alpha, beta, one fr.Element
-	tau.SetRandom()
-	alpha.SetRandom()
-	beta.SetRandom()
+	if _, err := tau.SetRandom(); err != nil {
+		return err
+	}
+	if _, err := alpha.SetRandom(); err != nil {
+		return err
+	}
+	if _, err := beta.SetRandom(); err != nil {
+		return err
+	}
 	one.SetOne()
 
 	var contribution Contribution
diff --git a/phase1/utils.go b/phase1/utils.go
index f30fd62..a997b9d 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -156,7 +156,9 @@ func scaleG2(dec *bn254.Decoder, enc *bn254.Encoder, N int, tau *fr.Element) (*b
 func randomize(r []fr.Element) {
 	common.Parallelize(len(r), func(start, end int) {
 		for i := start; i < end; i++ {
-			r[i].SetRandom()
+			if _, err := r[i].SetRandom(); err != nil {
+				panic(err)
+			}
 		}
 	})
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 5bdf84f..2be2b7d 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -90,7 +90,9 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic δ
 	var delta, deltaInv fr.Element
 	var deltaBI, deltaInvBI big.Int
-	delta.SetRandom()
+	if _, err := delta.SetRandom(); err != nil {
+		return err
+	}
 	deltaInv.Inverse(&delta)
 
 	delta.BigInt(&deltaBI)
diff --git a/phase2/utils.go b/phase2/utils.go
index 95228b6..4bb87db 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -502,7 +502,9 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 		// generate randomness
 		common.Parallelize(len(r), func(start, end int) {
 			for i := start; i < end; i++ {
-				r[i].SetRandom()
+				if _, err := r[i].SetRandom(); err != nil {
+					panic(err)
+				}
 			}
 		})
 
-- 
2.43.0


From cdbd5da52d947cee9e04f7d1ed98f96321c26231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 17/20] fix: giving the input as output path truncated it
 before it was read

---
 common/utils.go  | 20 +++++++++++++++++++-
 phase1/phase1.go |  4 ++--
 phase2/parted.go |  3 ++-
 phase2/phase2.go |  4 ++--
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/common/utils.go b/common/utils.go
index e88726a..55fae5c 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -1,7 +1,9 @@
 package common
 
 import (
+	"fmt"
 	"math/bits"
+	"os"
 
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 )
@@ -41,4 +43,20 @@ func SameRatio(a1, b1 bn254.G1Affine, a2, b2 bn254.G2Affine) bool {
 		panic(err)
 	}
 	return res
-}
\ No newline at end of file
+}
+
+// CreateOutput creates the file at path unless it's one of the inputs, which would be truncated
+func CreateOutput(path string, inputPaths ...string) (*os.File, error) {
+	if outputInfo, err := os.Stat(path); err == nil {
+		for _, inputPath := range inputPaths {
+			inputInfo, err := os.Stat(inputPath)
+			if err != nil {
+				return nil, err
+			}
+			if os.SameFile(inputInfo, outputInfo) {
+				return nil, fmt.Errorf("output %s would overwrite input %s", path, inputPath)
+			}
+		}
+	}
+	return os.Create(path)
+}
diff --git a/phase1/phase1.go b/phase1/phase1.go
index bececc1..02a4272 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -28,7 +28,7 @@ func Transform(inputPath, outputPath string, inPower, outPower byte) error {
 	defer inputFile.Close()
 
 	// Output file is in compressed representation
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
@@ -164,7 +164,7 @@ func Contribute(inputPath, outputPath string) error {
 	defer inputFile.Close()
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/parted.go b/phase2/parted.go
index d95f7d0..abad1c6 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
@@ -21,7 +22,7 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 2be2b7d..d9a58e2 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -19,7 +19,7 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path, r1csPath)
 	if err != nil {
 		return err
 	}
@@ -66,7 +66,7 @@ func Contribute(inputPath, outputPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c41a95dbe8677545162d9b7bf491f52c11064785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 18/20] fix: exporting the verifier contract panicked instead
 of reporting errors

---
 keys/keys.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index e287490..0b5f2f3 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -704,20 +704,22 @@ func ExtractSplitKeys(phase2Path, session string) error {
 func ExportSol(session string) error {
 	filename := session + ".sol"
 	fmt.Printf("Exporting %s\n", filename)
-	f, _ := os.Open(session + ".vk.save")
-	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
-	_, err := verifyingKey.ReadFrom(f)
+	f, err := os.Open(session + ".vk.save")
 	if err != nil {
-		panic(fmt.Errorf("read file error"))
+		return err
 	}
-	err = f.Close()
-	f, err = os.Create(filename)
-	if err != nil {
-		panic(err)
+	defer f.Close()
+	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
+	if _, err := verifyingKey.ReadFrom(f); err != nil {
+		return fmt.Errorf("couldn't read the verifying key: %w", err)
 	}
-	err = verifyingKey.ExportSolidity(f)
+	solFile, err := os.Create(filename)
 	if err != nil {
-		panic(err)
+		return err
+	}
+	defer solFile.Close()
+	if err := verifyingKey.ExportSolidity(solFile); err != nil {
+		return err
 	}
 	fmt.Printf("%s has been extracted successfully\n", filename)
 	return nil
-- 
2.43.0


From 51a0c0a2d9b79b44efccf4b2401b1539a09edd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 19/20] fix: p2n dropped the lazified constraints of a circuit,
 p2np doesn't

---
 phase2/utils.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 4bb87db..3b527b7 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -176,7 +176,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 
 	// Accumlate {[A]₁}
 	buff := make([]bn254.G1Affine, header2.Wires)
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -189,7 +190,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 	// Reset buff
 	buff = make([]bn254.G1Affine, header2.Wires)
 	// Accumlate {[B]₁}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -213,7 +215,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 		return err
 	}
 	// Accumlate {[B]₂}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG2(&r1cs, &buff2[t.WireID()], t, &tauG2[i])
 		}
@@ -306,7 +309,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Output(Tau)
 		for _, t := range c.O {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -317,7 +321,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Right(AlphaTauG1)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -328,7 +333,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Left(BetaTauG1)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
-- 
2.43.0


From 725ba3632f3c9a4741229aae4018376e46aacef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 20/20] fix: p2np silently left out constraints when given a
 smaller #constraints than the circuit's

---
 phase2/parted.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index abad1c6..a8f9161 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -33,6 +33,9 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	cs := &cs_bn254.R1CS{}
 	// support nbR1C is small
 	cs.LoadFromSplitBinaryConcurrent(session, nbR1C, batchSize, runtime.NumCPU())
+	if nbCons != cs.GetNbConstraints() {
+		return fmt.Errorf("the circuit #Constraints are %d, not %d", cs.GetNbConstraints(), nbCons)
+	}
 
 	// 1. Process Headers
 	header1, header2, err := processHeaderParted(cs, nbCons, phase1File, phase2File)
-- 
2.43.0

