From 5549df34a89943e2a42c20397941b6b45690f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 01/72] fix: median of a neighborhood ignores stale buffer
 entries at image borders

---
 internal/median/gather.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 5d68a89..04aaf7e 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -34,5 +34,5 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 		}
 	}
 
-	return MedianFloat32(buffer)
+	return MedianFloat32(buffer[:num])
 }
-- 
2.43.0


From 0aed5e6dbab194412824d4daa102071f05bfd99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 02/72] fix: use portable 3x3 median filter for lines narrower
 than the AVX2 vector width

---
 internal/median/median3x3_amd64.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..e6eb109 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,8 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    // the AVX2 code processes eight columns at a time, narrower lines would be accessed out of bounds
+    if width>=8 && cpuid.CPU.AVX2() {
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
-- 
2.43.0


From bb999846e298f199f8065130419a0b5a079d2750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 03/72] fix: statistics of pixel counts not divisible by four
 no longer read past the end of the data

---
 internal/stats/stats_amd64.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..85b924e 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,7 +23,8 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
+    // vector code processes whole groups of four values only
+    if cpuid.CPU.AVX2() && len(data)&3==0 {
         return calcMinMeanMaxAVX2(data)
     }
     return calcMinMeanMaxPureGo(data)
@@ -35,7 +36,8 @@ func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
+    // vector code processes whole groups of four values only
+    if cpuid.CPU.AVX2() && len(data)&3==0 {
 		return calcVarianceAVX2(data, mean)
     }
 	return calcVariancePureGo(data, mean)
-- 
2.43.0


From d270bdb13aa5db83e310885550302c6d51b6cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 04/72] fix: noise estimation of lines narrower than a vector
 register no longer reads outside of the data

---
 internal/stats/noise_amd64.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 226d55c..3a42f6f 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -25,7 +25,8 @@ import (
 // Estimate the level of gaussian noise on a natural image.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
-    if cpuid.CPU.AVX2() {
+    // vector code needs lines of at least one full vector
+    if cpuid.CPU.AVX2() && width>=8 {
         return estimateNoiseAVX2(data, width)
     }
     return estimateNoisePureGo(data,width)
-- 
2.43.0


From 3c1f6a980c7e74e74b9c53afdd71343ef2316623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 05/72] fix: histogram of constant data counts all values in
 the first bin, histogram peak in the last bin no longer crashes

---
 internal/stats/histogram.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/stats/histogram.go b/internal/stats/histogram.go
index 1f058f5..4b1e27b 100644
--- a/internal/stats/histogram.go
+++ b/internal/stats/histogram.go
@@ -34,6 +34,11 @@ func Histogram(data []float32, min, max float32, bins []int32) {
 	for i := range bins {
 		bins[i] = 0
 	}
+	if !(max > min) {
+		// constant data
+		bins[0] = int32(len(data))
+		return
+	}
 	scale := float32(len(bins)-1) / (max - min)
 	for _, d := range data {
 		index := (d - min) * scale
@@ -41,6 +46,14 @@ func Histogram(data []float32, min, max float32, bins []int32) {
 	}
 }
 
+// Returns the histogram value between the given peak bin and its right neighbor, if there is one
+func peakValue(bins []int32, maxIndex int) float32 {
+	if maxIndex+1 >= len(bins) {
+		return float32(bins[maxIndex])
+	}
+	return 0.5 * float32(bins[maxIndex]+bins[maxIndex+1])
+}
+
 // Returns the location and the value of the histogram peak
 func GetPeak(bins []int32, min, max float32) (x, y float32) {
 	maxIndex, maxValue := -1, int32(math.MinInt32)
@@ -51,7 +64,7 @@ func GetPeak(bins []int32, min, max float32) (x, y float32) {
 	}
 
 	x = min + (float32(maxIndex)+0.5)*(max-min)/float32(len(bins)-1)
-	y = 0.5 * float32(bins[maxIndex]+bins[maxIndex+1])
+	y = peakValue(bins, maxIndex)
 	return x, y
 }
 
@@ -132,7 +145,7 @@ func GetPerceptualHistogramPeak(bins []int32, min, max float32) (x, y float32) {
 	x = fromPerceptualBins(float32(maxIndex)+0.5, min, max, len(bins))
 	//scale:=float32(math.Log(float64(max-min+1)))/float32(len(bins))
 	//x=min + float32(math.Exp(float64((float32(maxIndex)+0.5)*scale)))
-	y = 0.5 * float32(bins[maxIndex]+bins[maxIndex+1])
+	y = peakValue(bins, maxIndex)
 	return x, y
 }
 
-- 
2.43.0


From b1bf019ad89e8fdca57705ef3ceeddbc6b919c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 06/72] fix: biweight midvariance is zero if most values are
 identical, so that IKSS terminates

---
 internal/stats/stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..dc35fd3 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -506,6 +506,10 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	}
 	mad := qsort.QSelectMedianFloat32(mads)
 	mads = nil
+	if mad == 0 {
+		// at least half of the values equal the median
+		return 0
+	}
 
 	ys := tmp[:len(xs)]
 	for i, x := range xs {
-- 
2.43.0


From a7f5fd89384dcf07743667803be970dc31a80664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 07/72] fix: Qn scale estimate of a single value is zero

---
 internal/stats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index dc35fd3..e814253 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -435,6 +435,9 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 // Sampling approach appears to be mine
 func FastApproxQn(data []float32, samples []float32) float32 {
 	max := uint32(len(data))
+	if max < 2 {
+		return 0 // there are no pairs
+	}
 	rng := fastrand.RNG{}
 	for i := range samples {
 		index1 := 1 + rng.Uint32n(max-1)
-- 
2.43.0


From 9a2bca337671153250869cdece124ae771b492d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 08/72] fix: sigma clipped location and scale estimate
 terminates if no pair of values is within bounds

---
 internal/stats/stats.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index e814253..bbc265e 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -474,6 +474,20 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 	return qn
 }
 
+// Returns true if at least two of the data values are within the given bounds
+func hasPairWithin(data []float32, lowBound, highBound float32) bool {
+	found := 0
+	for _, d := range data {
+		if d >= lowBound && d <= highBound {
+			found++
+			if found >= 2 {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // Returns a rapid robust estimation of location and scale. Uses a fast approximate median based on randomized sampling,
 // iteratively sigma clipped with a fast approximate Qn based on random sampling. Exits once the absolute change in
 // location and scale is below epsilon.
@@ -485,6 +499,9 @@ func FastApproxSigmaClippedMedianAndQn(data []float32, sigmaLow, sigmaHigh float
 	for i := 0; ; i++ {
 		lowBound := location - sigmaLow*scale
 		highBound := location + sigmaLow*scale
+		if !hasPairWithin(data, lowBound, highBound) {
+			return location, scale // nothing to sample from
+		}
 
 		newLocation := FastApproxBoundedMedian(data, lowBound, highBound, samples) // sampling
 		newScale := FastApproxBoundedQn(data, lowBound, highBound, samples)        // sampling
-- 
2.43.0


From aad73f946aaa567cfcd8c4209cf9febcecc0e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 09/72] fix: statistics scaled with a negative factor keep
 minimum below maximum and a positive deviation

---
 internal/stats/stats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index bbc265e..d076208 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -92,8 +92,13 @@ func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	s.min = s.min*multiplier + offset
 	s.max = s.max*multiplier + offset
 	s.mean = s.mean*multiplier + offset
-	s.stdDev = s.stdDev * multiplier
 	s.location = s.location*multiplier + offset
+	if multiplier < 0 {
+		// reverses the order of values
+		s.min, s.max = s.max, s.min
+		multiplier = -multiplier
+	}
+	s.stdDev = s.stdDev * multiplier
 	s.scale = s.scale * multiplier
 	s.noise = s.noise * multiplier
 }
-- 
2.43.0


From 0b96f22d935a4f457a40da0f9757ca39e3c96c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 10/72] fix: weighted sigma clipping keeps every value together
 with its own weight

---
 internal/ops/stack/stack.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..10a1e23 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -442,6 +442,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	scratchFull :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -484,7 +485,9 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			scratchCur :=scratchFull[:len(gatheredCur)]
+			copy(scratchCur, gatheredCur) // selection reorders, which would separate values from their weights
+			median:=qsort.QSelectMedianFloat32(scratchCur)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -710,6 +713,7 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull  :=make([]float32,len(lightsData))
 	weightsFull   :=make([]float32,len(weights))
+	scratchFull   :=make([]float32,len(lightsData))
 	winsorizedFull:=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
@@ -753,7 +757,9 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			scratchCur :=scratchFull[:len(gatheredCur)]
+			copy(scratchCur, gatheredCur) // selection reorders, which would separate values from their weights
+			median:=qsort.QSelectMedianFloat32(scratchCur)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
-- 
2.43.0


From cfcc76097d83890d8b4c3c7f8513c5bd41e84dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 11/72] fix: noise and HFR weighted stacking of equally good
 frames uses equal weights instead of NaN

---
 internal/ops/stack/stack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 10a1e23..db526b7 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -249,7 +249,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			weights[i]=1
+			if maxNoise>minNoise { weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise)) }
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
@@ -261,7 +262,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			weights[i]=1
+			if maxHFR>minHFR { weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR)) }
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
-- 
2.43.0


From 16016bb5759dffd0ce502cd69500b6a53589a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 12/72] fix: stacking no frames or frames of different size
 returns an error instead of crashing

---
 internal/ops/stack/stack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index db526b7..6669f15 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -113,6 +113,14 @@ func (op *OpStack) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.P
 
 // Stack a set of light frames. Limits parallelism to the number of available cores
 func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, err error) {
+	// validate input frames
+	if len(f)==0 { return nil, errors.New("no frames to stack") }
+	for _,l:=range f {
+		if !fits.EqualInt32Slice(l.Naxisn, f[0].Naxisn) || len(l.Data)!=len(f[0].Data) {
+			return nil, errors.New(fmt.Sprintf("%d: Frame dimensions %v differ from dimensions %v of the first frame", l.ID, l.Naxisn, f[0].Naxisn))
+		}
+	}
+
 	// validate stacking modes and perform automatic mode selection if necesssary
 	mode:=op.Mode
 	if mode<StMedian || mode>StAuto {
-- 
2.43.0


From ac3b4abf31ad9665a1baf796711132339681670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 13/72] fix: MAD sigma stacking with weights returns an error
 instead of crashing

---
 internal/ops/stack/stack.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 6669f15..a909ee1 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -135,6 +135,9 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
+	if mode==StMADSigma && weights!=nil {
+		return nil, errors.New("MADSigma stacking with weights is still unimplemented")
+	}
 
 	// create return value array
 	data:=make([]float32,len(f[0].Data))
@@ -187,11 +190,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 				}
 
 			case StMADSigma:
-				if weights==nil {
-					clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-				} else {
-					panic("MADSigma stacking with weights is still unimplemented")
-				}
+				clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 
 			case StLinearFit:
 				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-- 
2.43.0


From 9c95fa34a14f2a516dce8fd8b4c275afc81cb7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 14/72] fix: stacking with all values clipped falls back to the
 median instead of NaN

---
 internal/ops/stack/stack.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index a909ee1..ab6f336 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -530,7 +530,11 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
             		weightedSum+=gatheredCur[i] * weightsCur[i]
             		weightsSum +=weightsCur[i]
             	}
-				res[i]=weightedSum/weightsSum
+				if len(gatheredCur)>0 {
+					res[i]=weightedSum/weightsSum
+				} else {
+					res[i]=median // all values were out of bounds
+				}
             	break
             }
 		}
@@ -605,6 +609,12 @@ func StackMADSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh floa
 			}
 		}
 
+		// use median if all values were out of bounds
+		if len(gatheredCur)==0 {
+			res[i]=median
+			continue
+		}
+
 		// calculate mean
 		mean:=float32(0)
 		for _,g:=range(gatheredCur) { mean+=g }
@@ -830,7 +840,11 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
             		weightedSum+=gatheredCur[i] * weightsCur[i]
             		weightsSum +=weightsCur[i]
             	}
-				res[i]=weightedSum/weightsSum
+				if len(gatheredCur)>0 {
+					res[i]=weightedSum/weightsSum
+				} else {
+					res[i]=median // all values were out of bounds
+				}
             	break
             }
         }
-- 
2.43.0


From e8197d2237dbd1fb8a74dd6266d7b1eb488659cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 15/72] fix: sigma clipping down to a single value returns that
 value

---
 internal/ops/stack/stack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index ab6f336..afeed35 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -435,6 +435,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
 				res[i]=mean
+				if len(gatheredCur)==1 { res[i]=gatheredCur[0] } // mean still includes the values just clipped
             	break
             }
 		}
@@ -715,6 +716,7 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
 				res[i]=mean
+				if len(gatheredCur)==1 { res[i]=gatheredCur[0] } // mean still includes the values just clipped
             	break
             }
         }
-- 
2.43.0


From a1fed607cbeafdad55459065680145776f340ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:17 +0000
Subject: [PATCH 16/72] fix: linear fit stacking counts only rejected values,
 and never rejects all of them

---
 internal/ops/stack/stack.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index afeed35..b77990b 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -917,8 +917,12 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 			sigma/=float32(len(gatheredCur))
 			//sigma=float32(math.Sqrt(float64(sigma)))
 
+			// keep two or fewer values, they do not define outliers
+			if len(gatheredCur)<3 { break }
+
 			// reject outliers
 			left     :=0
+			rejectedLow, rejectedHigh:=int32(0), int32(0)
 			lowBound :=sigmaLow *sigma
 			highBound:=sigmaHigh*sigma
 			for i,g:=range gatheredCur {
@@ -926,17 +930,20 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 				if lin-g>lowBound {
 					gatheredCur[i]=gatheredCur[left]  // reject
 					left+=1
-					numClippedLow++
+					rejectedLow++
 				} else if g-lin>highBound {
 					gatheredCur[i]=gatheredCur[left]  // reject
 					left+=1
-					numClippedHigh++
+					rejectedHigh++
 				}				
 			}
 
-			if left==0 || len(gatheredCur)<3{
+			// terminate if no more values are out of bounds, or none would remain
+			if left==0 || left==len(gatheredCur) {
             	break
             }
+			numClippedLow +=rejectedLow
+			numClippedHigh+=rejectedHigh
 			gatheredCur=gatheredCur[left:]
 		}
 		res[i]=mean
-- 
2.43.0


From 8d8e22b14de2dc3ae2c5221ff603e48115dedeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 17/72] fix: batch count is calculated from the final batch
 size, so that no frame is dropped

---
 internal/ops/stack/stackbatches.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..2f2aba1 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -172,6 +172,7 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		if batchSize < 2 {
 			continue
 		}
+		numBatches = (numFrames + batchSize - 1) / batchSize // smaller batches may need more of them
 		if batchSize < int64(maxThreads) {
 			continue
 		}
-- 
2.43.0


From 9962466b39aa0ad3a8745ae38b0ee1161a60c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:50 +0000
Subject: [PATCH 18/72] fix: batch partitioning returns an error for empty
 images or file lists instead of crashing or hanging

---
 internal/ops/stack/stackbatches.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 2f2aba1..7e6bd00 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -121,22 +121,29 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm []ops.Promise,
 	numBatches, batchSize, maxThreads int64, err error) {
 	numFrames := int64(len(ins))
+	if numFrames == 0 {
+		return nil, 0, 0, 0, errors.New("No input files to prepare batches")
+	}
 	width, height := int64(0), int64(0)
 	if c.DarkFrame != nil {
 		width, height = int64(c.DarkFrame.Naxisn[0]), int64(c.DarkFrame.Naxisn[1])
 	} else if c.FlatFrame != nil {
 		width, height = int64(c.FlatFrame.Naxisn[0]), int64(c.FlatFrame.Naxisn[1])
-	} else if len(ins) > 0 {
+	} else {
 		first, err := ins[0]()
 		if err != nil {
 			return nil, 0, 0, 0, err
 		}
 		fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
+		if len(first.Naxisn) < 2 {
+			return nil, 0, 0, 0, errors.New("Cannot prepare batches of images with less than two dimensions")
+		}
 		width, height = int64(first.Naxisn[0]), int64(first.Naxisn[1])
-	} else {
-		return nil, 0, 0, 0, errors.New("No input files to prepare batches")
 	}
 	pixels := width * height
+	if pixels <= 0 {
+		return nil, 0, 0, 0, errors.New("Cannot prepare batches of empty images")
+	}
 	mPixels := float32(width) * float32(height) * 1e-6
 	bytes := pixels * 4
 	mib := bytes / 1024 / 1024
-- 
2.43.0


From c1e87f81c67c2ea4814a267888f0c9b746661f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 19/72] fix: linear regression slope is not too small by a
 factor n/(n+1)

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index d076208..6c5d50d 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -605,7 +605,7 @@ func LinearRegression(xs, ys []float32) (slope, intercept, xmean, xstddev, ymean
 		diff := (xs[i] - xmean) * (ys[i] - ymean)
 		corr += diff
 	}
-	corr /= xstddev * ystddev * (float32(len(xs)) + 1)
+	corr /= xstddev * ystddev * float32(len(xs))
 
 	// calculate the regression line
 	slope = corr * ystddev / xstddev
-- 
2.43.0


From 8701efbf48e2ed0dbb36d944615b67c9b45e325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 20/72] fix: batches of different dimensions are an error
 instead of a crash

---
 internal/ops/stack/stackbatches.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 7e6bd00..5f4a1f8 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -95,6 +95,9 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 
 		// Update stack of stacks
 		if numBatches > 1 {
+			if stack != nil && !fits.EqualInt32Slice(stack.Naxisn, batch.Naxisn) {
+				return nil, fmt.Errorf("Dimensions %v of batch %d differ from dimensions %v of the batches before", batch.Naxisn, b+1, stack.Naxisn)
+			}
 			stack = StackIncremental(stack, batch, float32(batchFrames))
 			stackFrames += batchFrames
 		} else {
-- 
2.43.0


From 985aa06205e70b215a040821a91bc7f0d7b69db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 21/72] fix: reading FITS data in arbitrary portions no longer
 overruns the read buffer

---
 internal/fits/read.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..067962f 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -221,8 +221,8 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
@@ -267,8 +267,8 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
@@ -313,8 +313,8 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
@@ -360,8 +360,8 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
@@ -407,8 +407,8 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
-- 
2.43.0


From 5d784e7e65129f6aa1baf7d6069c6f5a19b2379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 22/72] fix: FITS data delivered together with the end of file
 is used instead of reported as an error

---
 internal/fits/read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 067962f..d960b8d 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -185,7 +185,7 @@ func (fits *Image) readInt8Data(r io.Reader) error {
 			bytesToRead = bufLen
 		}
 		bytesRead, err := r.Read(buf[:bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // data may come together with the end of file
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -225,7 +225,7 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // data may come together with the end of file
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -271,7 +271,7 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // data may come together with the end of file
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -317,7 +317,7 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // data may come together with the end of file
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -364,7 +364,7 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // data may come together with the end of file
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -411,7 +411,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && bytesRead == 0 { // data may come together with the end of file
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
-- 
2.43.0


From 877685386127d817046bc88bff7597f87471e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 23/72] fix: FITS files without data or with invalid dimensions
 are an error instead of a crash

---
 internal/fits/read.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index d960b8d..2312131 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -110,17 +110,27 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 0 || naxis > 999 { // limits as per standard
+		return fmt.Errorf("%d: Invalid NAXIS value %d", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
-	fits.Pixels = int32(1)
+	pixels := int64(1)
 	for i := int32(1); i <= naxis; i++ {
 		name := "NAXIS" + strconv.FormatInt(int64(i), 10)
 		var nai int32
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 0 {
+			return fmt.Errorf("%d: Invalid %s value %d", fits.ID, name, nai)
+		}
 		fits.Naxisn[i-1] = nai
-		fits.Pixels *= int32(nai)
+		pixels *= int64(nai)
+		if pixels > math.MaxInt32 {
+			return fmt.Errorf("%d: Image dimensions %v are too large", fits.ID, fits.Naxisn[:i])
+		}
 	}
+	fits.Pixels = int32(pixels)
 
 	// check key optional fields relevant for stacking and image processing
 	if fits.Bzero, err = fits.PopHeaderInt32OrFloat("BZERO"); err != nil {
@@ -138,6 +148,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if !readData {
 		return nil
 	}
+	if naxis == 0 || fits.Pixels == 0 {
+		return fmt.Errorf("%d: File contains no image data", fits.ID)
+	}
 	return fits.readData(f, logWriter)
 }
 
-- 
2.43.0


From 3746739888c313e288490749ebf977f368d9d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 24/72] fix: FITS comments are no longer mixed up with the
 history

---
 internal/fits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 2312131..1b7becd 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -492,7 +492,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('H'): // history line
 				h.History = append(h.History, string(subValues[i]))
 			case byte('C'): // comment line
-				h.Comments = append(h.History, string(subValues[i]))
+				h.Comments = append(h.Comments, string(subValues[i]))
 			case byte('k'): // key
 				key = string(subValues[i])
 			case byte('b'): // boolean
-- 
2.43.0


From eb7c6566bef87f2439140c1ef95796b62076ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 25/72] fix: FITS header integers beyond 32 bits keep their
 value instead of being truncated

---
 internal/fits/read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 1b7becd..ee576ed 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -502,8 +502,10 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 				}
 			case byte('i'): // int
 				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
-				if err == nil {
+				if err == nil && val >= math.MinInt32 && val <= math.MaxInt32 {
 					h.Ints[key] = int32(val)
+				} else if val, err := strconv.ParseFloat(string(subValues[i]), 64); err == nil {
+					h.Floats[key] = float32(val) // exceeds integer range
 				}
 			case byte('f'): // float
 				val, err := strconv.ParseFloat(string(subValues[i]), 64)
-- 
2.43.0


From 9d10e8ef62d892b455f68e07c18a2f76bb1578f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 26/72] fix: FITS header floats with D exponent, or without
 decimal point, are read instead of ignored

---
 internal/fits/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index ee576ed..497a900 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -508,7 +508,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val) // exceeds integer range
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				val, err := strconv.ParseFloat(strings.Replace(strings.ToUpper(string(subValues[i])), "D", "E", 1), 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
@@ -557,7 +557,8 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
+	expo := "[EDed][-+]?[0-9]+"
+	floa := "(?P<f>[+-]?(?:[0-9]*\\.[0-9]*(?:" + expo + ")?|[0-9]+" + expo + "))"
 	stri := "'(?P<s>[^']*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
-- 
2.43.0


From 9f9278b0e1f1824f3880df98960fe02311e71f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 27/72] fix: FITS header strings containing single quotes are
 read instead of ignored

---
 internal/fits/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 497a900..32aa76a 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -513,7 +513,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val)
 				}
 			case byte('s'): // string
-				h.Strings[key] = string(subValues[i])
+				h.Strings[key] = strings.Replace(string(subValues[i]), "''", "'", -1)
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -559,7 +559,7 @@ func compileRE() *regexp.Regexp {
 	inte := "(?P<i>[+-]?[0-9]+)"
 	expo := "[EDed][-+]?[0-9]+"
 	floa := "(?P<f>[+-]?(?:[0-9]*\\.[0-9]*(?:" + expo + ")?|[0-9]+" + expo + "))"
-	stri := "'(?P<s>[^']*)'"
+	stri := "'(?P<s>(?:[^']|'')*)'" // single quotes within are doubled
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-- 
2.43.0


From 9332f184c27643d7114a2232d3f88d35bb53be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 28/72] fix: FITS header strings are written only once

---
 internal/fits/write.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..4d625a3 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,7 +94,6 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
 	// FIXME: ignoring h.Comments and h.History for now
 }
-- 
2.43.0


From d6c2670c798a64e05a412e746c094fb03d5268c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 29/72] fix: FITS header floats are written in standard
 notation, and are not read back as integers or ignored

---
 internal/fits/write.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 4d625a3..c6d56b1 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -23,6 +23,7 @@ import (
 	"math"
 	"os"
 	"path"
+	"strconv"
 	"strings"
 )
 
@@ -136,7 +137,16 @@ func writeInt64(w io.Writer, key string, value int64, comment string) {
 func writeFloat32(w io.Writer, key string, value float32, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20s / %-47s", key, formatFloat(float64(value), 32), comment)
+}
+
+
+// Formats a FITS header float value, always with a decimal point to distinguish it from integers
+func formatFloat(value float64, bits int) string {
+	s:=strconv.FormatFloat(value, 'G', -1, bits)
+	if strings.Contains(s, ".") { return s }
+	if e:=strings.Index(s, "E"); e>=0 { return s[:e]+"."+s[e:] }
+	return s+"."
 }
 
 
@@ -144,7 +154,7 @@ func writeFloat32(w io.Writer, key string, value float32, comment string) {
 func writeFloat64(w io.Writer, key string, value float64, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20s / %-47s", key, formatFloat(value, 64), comment)
 }
 
 
-- 
2.43.0


From 8e3a18c05bbb05aedddf0d90cbce15f42aa1925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 30/72] fix: long FITS header strings are not split within an
 escaped single quote

---
 internal/fits/write.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index c6d56b1..dad94e1 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -165,22 +165,31 @@ func writeString(w io.Writer, key, value, comment string) {
 
 	// escape ' characters
 	value=strings.Join(strings.Split(value, "'"), "''")
-	// FIXME: Malformatted output ERROR if printing breaks the '' characters!
 
 	if len(value)<=18 {
 		fmt.Fprintf(w, "%-8s= '%s'%s / %-47s", key, value, strings.Repeat(" ", 18-len(value)), comment)
 	} else {
-		fmt.Fprintf(w, "%-8s= '%s&' / %-47s", key, value[0:17], comment)
-		value=value[17:]
+		n:=splitEscaped(value, 17)
+		fmt.Fprintf(w, "%-8s= '%s&'%s / %-47s", key, value[:n], strings.Repeat(" ", 17-n), comment)
+		value=value[n:]
 		for ; len(value)>66 ; {
-			fmt.Fprintf(w, "CONTINUE  '%s&' ", value[0:66])
-			value=value[66:]
+			n=splitEscaped(value, 66)
+			fmt.Fprintf(w, "CONTINUE  '%s&' %s", value[:n], strings.Repeat(" ", 66-n))
+			value=value[n:]
 		}
 		fmt.Fprintf(w, "CONTINUE  '%s'%s", value, strings.Repeat(" ", 50+(18-len(value))))
 	}	
 }
 
 
+// Returns the number of characters of the escaped value, up to the given limit, which can be split off without breaking a '' pair
+func splitEscaped(value string, limit int) int {
+	quotes:=limit-len(strings.TrimRight(value[:limit], "'"))
+	if quotes&1!=0 { limit-- }
+	return limit
+}
+
+
 // Writes a FITS header end record 
 func writeEnd(w io.Writer) {
 	fmt.Fprintf(w, "END%s", strings.Repeat(" ", 80-3))
-- 
2.43.0


From 62076bd269f3a5eca65323c66d24ead000a3c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 31/72] fix: long FITS header strings are read completely
 instead of being cut off

---
 internal/fits/read.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 32aa76a..42b123b 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -458,6 +458,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 	buf := make([]byte, fitsBlockSize)
 
+	lastString := "" // key of the string value in the line before, if any
 	for h.Length = 0; !h.End; {
 		// read next header unit
 		bytesRead, err := io.ReadFull(r, buf)
@@ -472,16 +473,19 @@ func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 			subValues := reParser.FindSubmatch(line)
 			if subValues == nil {
 				fmt.Fprintf(logWriter, "%d: Warning:Cannot parse '%s', ignoring\n", id, string(line))
+				lastString = ""
 			} else {
 				subNames := reParser.SubexpNames()
-				h.readLine(subNames, subValues, id, lineNo, logWriter)
+				lastString = h.readLine(subNames, subValues, lastString, id, lineNo, logWriter)
 			}
 		}
 	}
 	return nil
 }
 
-func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int, logWriter io.Writer) {
+// Reads a header line, given the key of the string value in the line before if any.
+// Returns the key of the string value in this line, if any
+func (h *Header) readLine(subNames []string, subValues [][]byte, lastString string, id, lineNo int, logWriter io.Writer) (newLastString string) {
 	key := ""
 	// ignore index 0 which is the whole line
 	for i := 1; i < len(subNames); i++ {
@@ -514,6 +518,12 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 				}
 			case byte('s'): // string
 				h.Strings[key] = strings.Replace(string(subValues[i]), "''", "'", -1)
+				newLastString = key
+			case byte('S'): // continuation of the string in the line before
+				if last := h.Strings[lastString]; strings.HasSuffix(last, "&") {
+					h.Strings[lastString] = last[:len(last)-1] + strings.Replace(string(subValues[i]), "''", "'", -1)
+					newLastString = lastString
+				}
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -523,6 +533,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			}
 		}
 	}
+	return newLastString
 }
 
 func (h *Header) Print() {
@@ -546,6 +557,8 @@ func compileRE() *regexp.Regexp {
 	rest := ".*"
 	histLine := hist + white + "(?P<H>" + rest + ")"
 
+	contLine := "CONTINUE" + white + "'(?P<S>(?:[^']|'')*)'" + whiteOpt + "(?:/.*)?"
+
 	commKey := "COMMENT"
 	commLine := commKey + white + "(?P<C>" + rest + ")"
 
@@ -563,13 +576,12 @@ func compileRE() *regexp.Regexp {
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-	// missing: CONTINUE for strings
 	// missing: complex int: (nr, nr)
 	// missing: complex float: (nr, nr)
 
 	commOpt := "(?:/(?P<c>.*))?"
 	keyLine := key + whiteOpt + equals + whiteOpt + val + whiteOpt + commOpt
 
-	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + keyLine + "|" + endLine + ")$"
+	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + contLine + "|" + keyLine + "|" + endLine + ")$"
 	return regexp.MustCompile(lineRe)
 }
-- 
2.43.0


From e9295e43b772802192f7ce2aee0da4a40cfcbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 32/72] fix: overwriting a longer FITS file leaves nothing of
 its old contents

---
 internal/fits/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index dad94e1..834da39 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -32,7 +32,7 @@ import (
 // Compresses with gzip if .gz or gzip suffix is present.
 func (fits *Image) WriteFile(fileName string) error {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
 	defer f.Close()
 
-- 
2.43.0


From 0f20d5901c365fe7cac88b1c2e12d1b27ec92f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 33/72] fix: errors on completing a compressed or uncompressed
 FITS file are reported

---
 internal/fits/write.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 834da39..c316f79 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -30,11 +30,13 @@ import (
 // Writes an in-memory FITS image to a file with given filename.
 // Creates/overwrites the file if necessary.
 // Compresses with gzip if .gz or gzip suffix is present.
-func (fits *Image) WriteFile(fileName string) error {
+func (fits *Image) WriteFile(fileName string) (err error) {
 	//fmt.Println("Reading from " + fileName + "..." )
 	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
-	defer f.Close()
+	defer func() {
+		if errClose:=f.Close(); err==nil { err=errClose }
+	}()
 
 	var w io.Writer=f
 
@@ -43,7 +45,9 @@ func (fits *Image) WriteFile(fileName string) error {
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
+		defer func() {
+			if errClose:=gw.Close(); err==nil { err=errClose }
+		}()
 		w=gw
 	} 
 
-- 
2.43.0


From 5157f2ebd620a2b9ca91d51acd77011223d4d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 34/72] fix: color TIFF files are read instead of crashing

---
 internal/fits/tiff16.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..439a726 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -169,7 +169,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
+	sizeTwoThirds := 2 * sizeThird
 
 	// keep running stats
 	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
-- 
2.43.0


From 4674dd28df80fa06fd70c9af5f73649c0bb77c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 35/72] fix: TIFF files of other color depths are read, or an
 error, instead of crashing

---
 internal/fits/tiff16.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 439a726..fde94a9 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -153,6 +154,10 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
+	if channels == 0 || width <= 0 || height <= 0 || int64(width)*int64(height)*int64(channels) > math.MaxInt32 {
+		return fmt.Errorf("%d: unsupported TIFF image type in file %s", f.ID, fileName)
+	}
+	shift := uint(16 - bitpix) // colors are converted to 16 bits below
 
 	// set FITS metadata
 	f.Bitpix = bitpix
@@ -180,8 +185,8 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
-				gray := float32(c.Y)
+				c := color.Gray16Model.Convert(t.At(x, y)).(color.Gray16)
+				gray := float32(c.Y >> shift)
 				f.Data[y*width+x] = gray
 
 				// update stats
@@ -199,8 +204,8 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
-				r, g, b := float32(c.R), float32(c.G), float32(c.B)
+				c := color.RGBA64Model.Convert(t.At(x, y)).(color.RGBA64)
+				r, g, b := float32(c.R>>shift), float32(c.G>>shift), float32(c.B>>shift)
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
-- 
2.43.0


From 698eded07e99e1a497d07e3abf5bc9045f3742fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 36/72] fix: errors on completing a TIFF or JPEG file are
 reported

---
 internal/fits/tiff16.go   | 28 ++++++++++++++++++++++------
 internal/fits/writejpg.go | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index fde94a9..c1d48af 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -29,15 +29,23 @@ import (
 )
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if errClose := file.Close(); err == nil {
+			err = errClose
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if errFlush := writer.Flush(); err == nil {
+			err = errFlush
+		}
+	}()
 
 	return f.WriteTIFF16(writer, min, max, gamma)
 }
@@ -92,15 +100,23 @@ func (f *Image) WriteTIFF16(writer io.Writer, min, max, gamma float32) error {
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if errClose := file.Close(); err == nil {
+			err = errClose
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if errFlush := writer.Flush(); err == nil {
+			err = errFlush
+		}
+	}()
 
 	return f.WriteMonoTIFF16(writer, min, max, gamma)
 }
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..3af594d 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -26,15 +26,23 @@ import (
 )
 
 // Write a FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if errClose := file.Close(); err == nil {
+			err = errClose
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if errFlush := writer.Flush(); err == nil {
+			err = errFlush
+		}
+	}()
 
 	return f.WriteJPG(writer, min, max, gamma, quality)
 }
@@ -89,15 +97,23 @@ func (f *Image) WriteJPG(writer io.Writer, min, max, gamma float32, quality int)
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if errClose := file.Close(); err == nil {
+			err = errClose
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if errFlush := writer.Flush(); err == nil {
+			err = errFlush
+		}
+	}()
 
 	return f.WriteMonoJPG(writer, min, max, gamma, quality)
 }
-- 
2.43.0


From 8faa8f4b683b7b9fec800fb92995887c3b5b5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 37/72] fix: failure to save a TIFF or JPEG file is reported

---
 internal/ops/operator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index ff41e01..1a7ffcc 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -432,11 +432,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
@@ -444,11 +444,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
 		}
-- 
2.43.0


From a2e0b725581586db40787b06bad71182220fb523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 38/72] fix: images saved with a padded id pattern like %04d no
 longer overwrite each other

---
 internal/ops/operator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 1a7ffcc..fa5b4c6 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -391,6 +392,8 @@ func (op *OpSave) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+var idPattern = regexp.MustCompile("%[0-9]*d") // placeholder for the image id, e.g. %d or %04d
+
 func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err error) {
 	if op.FilePattern == "" {
 		return f, nil
@@ -399,7 +402,7 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
 	}
 	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
+	if idPattern.MatchString(fileName) {
 		fileName = fmt.Sprintf(op.FilePattern, f.ID)
 	}
 	fnLower := strings.ToLower(fileName)
-- 
2.43.0


From 3f5e6f94a6ad75e88e87d036b41d4adc822ecb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 39/72] fix: report images without a full bayer cell instead of
 dividing by zero

---
 internal/ops/pre/debayer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/debayer.go b/internal/ops/pre/debayer.go
index 0527432..c541492 100644
--- a/internal/ops/pre/debayer.go
+++ b/internal/ops/pre/debayer.go
@@ -42,6 +42,9 @@ func DebayerBilinear(data []float32, width int32, debayer, cfa string) (res []fl
 	// translate CFA type to offsets
 	xOffset, yOffset, err:=getOffsets(cfa)
 	if err!=nil { return nil, 0, err }
+	if width-xOffset<2 || int32(len(data))/width-yOffset<2 {
+		return nil, 0, errors.New("Image too small for debayering")
+	}
 
 	// Select color channel and debayer
 	switch(debayer) {
-- 
2.43.0


From 409ea8718b9cebb844786d19e69c11d8d0fc7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 40/72] fix: bin color planes separately, and report images
 without rows instead of panicking

---
 internal/fits/fits.go          | 39 ++++++++++++++++++++--------------
 internal/ops/pre/preprocess.go |  3 +++
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..d189846 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -161,13 +161,16 @@ func (f *Image) DimensionsToString() string {
 
 // Apply NxN binning to source image and return new resulting image
 func NewImageBinNxN(src *Image, n int32) *Image {
-	// calculate binned image size
-	binnedPixels:=int32(1)
+	// calculate binned image size. Only the first two axes are spatial, color planes are kept
+	planes:=int32(1)
 	binnedNaxisn:=make([]int32, len(src.Naxisn))
 	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
-		binnedNaxisn[i]=binnedN
-		binnedPixels*=binnedN
+		binnedNaxisn[i]=originalN
+		if i<2 {
+			binnedNaxisn[i]=originalN/n
+		} else {
+			planes*=originalN
+		}
 	}
 
 	binned:=NewImageFromNaxisn(binnedNaxisn, nil)
@@ -176,19 +179,23 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
-	for y:=int32(0); y<binnedNaxisn[1]; y++ {
-		for x:=int32(0); x<binnedNaxisn[0]; x++ {
-			sum:=float32(0)
-			for yoff:=int32(0); yoff<n; yoff++ {
-				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
-					sum+=src.Data[origPos]
+	for plane:=int32(0); plane<planes; plane++ {
+		srcData   :=   src.Data[plane*   src.Naxisn[0]*   src.Naxisn[1]:]
+		binnedData:=binned.Data[plane*binned.Naxisn[0]*binned.Naxisn[1]:]
+		for y:=int32(0); y<binnedNaxisn[1]; y++ {
+			for x:=int32(0); x<binnedNaxisn[0]; x++ {
+				sum:=float32(0)
+				for yoff:=int32(0); yoff<n; yoff++ {
+					for xoff:=int32(0); xoff<n; xoff++ {
+						origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
+						sum+=srcData[origPos]
+					}
 				}
+				avg:=sum*normalizer
+				binnedPos:=y*binned.Naxisn[0] + x
+				binnedData[binnedPos]=avg
 			}
-			avg:=sum*normalizer
-			binnedPos:=y*binned.Naxisn[0] + x
-			binned.Data[binnedPos]=avg
-		}		
+		}
 	}
 
 	return binned
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..2084ecc 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -325,6 +325,9 @@ func (op *OpBin) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err e
 	if op.BinSize <= 1 {
 		return f, nil
 	}
+	if len(f.Naxisn) < 2 {
+		return nil, fmt.Errorf("%d: cannot bin image with dimensions %v", f.ID, f.Naxisn)
+	}
 	f = fits.NewImageBinNxN(f, op.BinSize)
 	fmt.Fprintf(c.Log, "%d: After %xx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
 	return f, nil
-- 
2.43.0


From 28cda257cd3e63ae9f35a06eb69558728cbc7246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 41/72] fix: deband images with empty or zero rows and columns
 without panicking or producing infinities

---
 internal/ops/pre/banding.go | 42 ++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index c2a3eae..d5131d9 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,10 +88,16 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
+		if numSamples==0 {
+			rowPercentiles[row]=float32(math.NaN())
+			continue
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
 
+	if !fillMissingPercentiles(rowPercentiles) { return f, nil }
+
 	// correct each row
 	lowest, highest:=float32(1), float32(0)
 	for row:=int32(0); row<numRows; row++ {
@@ -115,7 +121,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		medianOfRowPercentiles:=qsort.QSelectMedianFloat32(rowPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfRowPercentiles / rowPercentiles[row]
+		factor:=debandFactor(medianOfRowPercentiles, rowPercentiles[row])
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
@@ -131,6 +137,30 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	return f, nil
 }
 
+// Replaces the percentiles of lines without any samples, given as NaN, with those of the closest line before,
+// or else after. Returns false if no line has any samples
+func fillMissingPercentiles(percentiles []float32) bool {
+	lastValid:=-1
+	for i,p:=range(percentiles) {
+		if math.IsNaN(float64(p)) {
+			if lastValid>=0 { percentiles[i]=percentiles[lastValid] }
+			continue
+		}
+		if lastValid<0 {
+			for j:=0; j<i; j++ { percentiles[j]=p }
+		}
+		lastValid=i
+	}
+	return lastValid>=0
+}
+
+// Calculates the correction factor for a line with given percentile. Lines which cannot be scaled are left as they are
+func debandFactor(target, percentile float32) float32 {
+	factor:=target / percentile
+	if math.IsNaN(float64(factor)) || math.IsInf(float64(factor), 0) { return 1 }
+	return factor
+}
+
 func fixWindowEdge(window []float32, missing int32) {
   // calculate medians of the left and right halves of the window
   left:=make([]float32, len(window)/2)
@@ -195,7 +225,7 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Percentile<=0 || op.Percentile>=100 { return f, nil }
+	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
@@ -224,10 +254,16 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 				numSamples++
 			}
 		}
+		if numSamples==0 {
+			colPercentiles[col]=float32(math.NaN())
+			continue
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
 
+	if !fillMissingPercentiles(colPercentiles) { return f, nil }
+
 	// calculate median of percentiles
 	copy(colPercentilesClone, colPercentiles)
 
@@ -254,7 +290,7 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 		medianOfColPercentiles:=qsort.QSelectMedianFloat32(colPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfColPercentiles / colPercentiles[col]
+		factor:=debandFactor(medianOfColPercentiles, colPercentiles[col])
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
-- 
2.43.0


From 4a1846ab601c2c1f6a5d628b77e40c986598821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 42/72] fix: handle background grids with a single row or
 column of cells

---
 internal/ops/pre/background.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8d9a671..80281f6 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -71,6 +71,12 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 
 	gridCellsX := (width + gridSpacing/2) / gridSpacing
 	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsX < 1 {
+		gridCellsX = 1 // grid spacing exceeds the image
+	}
+	if gridCellsY < 1 {
+		gridCellsY = 1
+	}
 	gridCells := gridCellsX * gridCellsY
 	gridSpacingX := float32(width) / float32(gridCellsX)
 	gridSpacingY := float32(height) / float32(gridCellsY)
@@ -354,6 +360,9 @@ func (b Background) Render() (dest []float32) {
 				xl--
 				xh--
 			}
+			if xl < 0 {
+				xl = 0 // only one cell in this direction
+			}
 			if yl < 0 {
 				yl++
 				yh++
@@ -362,12 +371,15 @@ func (b Background) Render() (dest []float32) {
 				yl--
 				yh--
 			}
+			if yl < 0 {
+				yl = 0 // only one cell in this direction
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
@@ -433,6 +445,9 @@ func (b Background) Subtract(dest []float32) error {
 				xl--
 				xh--
 			}
+			if xl < 0 {
+				xl = 0 // only one cell in this direction
+			}
 			if yl < 0 {
 				yl++
 				yh++
@@ -441,12 +456,15 @@ func (b Background) Subtract(dest []float32) error {
 				yl--
 				yh--
 			}
+			if yl < 0 {
+				yl = 0 // only one cell in this direction
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
-- 
2.43.0


From 61369d7cafe0f46a9aacca452eae5375185b6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 43/72] fix: extract backgrounds with constant, fully masked or
 clipped grid cells without panicking

---
 internal/ops/pre/background.go | 42 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 80281f6..fe3c335 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -92,6 +92,7 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 	b.binStarsIntoCells(stars)
 
 	b.init(src, sigma)
+	b.interpolateMissing()
 	//LogPrintf("Sigma %f\n", sigma)
 	//LogPrintln(b.CellsString())
 
@@ -177,8 +178,14 @@ func (b *Background) init(src []float32, sigma float32) {
 	}
 }
 
-// Clips the top n entries from the background gradient
+// Clips the top n entries from the background gradient, leaving at least one
 func (b *Background) clip(n int32, logWriter io.Writer) {
+	if n >= b.GridCells {
+		n = b.GridCells - 1
+	}
+	if n <= 0 {
+		return
+	}
 	buffer := make([]float32, b.GridCells)
 	copy(buffer, b.Cells)
 	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
@@ -186,7 +193,13 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 
 	ignoredCells := int32(0)
 	for i, cell := range b.Cells {
-		if cell >= threshold {
+		if cell > threshold {
+			b.Cells[i] = float32(math.NaN())
+			ignoredCells++
+		}
+	}
+	for i, cell := range b.Cells {
+		if cell == threshold && ignoredCells < n {
 			b.Cells[i] = float32(math.NaN())
 			ignoredCells++
 		}
@@ -197,13 +210,23 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	b.OutlierCells = ignoredCells
 
 	// Then replace cells with interpolations
-	for neighbors := 8; neighbors >= 0; neighbors-- {
+	b.interpolateMissing()
+	buffer = nil
+}
+
+// Replaces missing cells with interpolations of their neighbors. Uses zero if there are no cells to interpolate from
+func (b *Background) interpolateMissing() {
+	for neighbors := 8; neighbors >= 1; neighbors-- {
 		numChanged := 1
 		for numChanged > 0 {
 			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
 		}
 	}
-	buffer = nil
+	for i, cell := range b.Cells {
+		if math.IsNaN(float64(cell)) {
+			b.Cells[i] = 0
+		}
+	}
 }
 
 func (b *Background) smoothe() {
@@ -478,11 +501,15 @@ func (b Background) Subtract(dest []float32) error {
 	return nil
 }
 
-// Fit background cell to given source image, except where masked out
+// Fit background cell to given source image, except where masked out. Returns NaN if all of it is masked out
 func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
 	// Gather grid cell contents without known stars
 	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
 
+	if len(medBuffer) == 0 {
+		return float32(math.NaN())
+	}
+
 	// Approximate the local background histogram peak location via median. Reorders the buffer
 	median := qsort.QSelectMedianFloat32(medBuffer)
 
@@ -498,11 +525,14 @@ func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yE
 	// Calculate trimmed median without upward outliers
 	numSamples := 0
 	for _, v := range medBuffer {
-		if v < upperBound {
+		if v <= upperBound {
 			medBuffer[numSamples] = v
 			numSamples++
 		}
 	}
+	if numSamples == 0 {
+		return float32(math.NaN())
+	}
 	medBuffer = medBuffer[:numSamples]
 	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
 	return trimmedMedian
-- 
2.43.0


From 1dd76020427cf7fdbbdabcf4fe56c5541aec4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 44/72] fix: save the extracted background when asked to

---
 internal/ops/pre/preprocess.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2084ecc..a842964 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -390,10 +390,13 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
-		_, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
 		if err != nil {
 			return nil, err
 		}
+		if _, err = promises[0](); err != nil {
+			return nil, err
+		}
 		Subtract(f.Data, f.Data, bgData)
 		bgFits.Data, bgData = nil, nil
 	}
-- 
2.43.0


From cbe3ae47da10a7a51ebc5e6397c697291f4f9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 45/72] fix: save extracted backgrounds under the number of
 their image

---
 internal/ops/pre/preprocess.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index a842964..0286399 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -389,6 +389,7 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	} else {
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
+		bgFits.ID = f.ID
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
 		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
 		if err != nil {
-- 
2.43.0


From 66c8afae6668f2fcb4832a0becec8ac4eeba252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 46/72] fix: compute transforms for stars in the same row, and
 report degenerate ones

---
 internal/star/coord.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/star/coord.go b/internal/star/coord.go
index 9c69bc2..f10f1f6 100644
--- a/internal/star/coord.go
+++ b/internal/star/coord.go
@@ -116,23 +116,25 @@ func IdentityTransform2D() Transform2D {
 // system, and corresponding reference points in second coordinate system.
 // p1, p2, p3 are in the first system. p1p, p2p, p3p are in the second. 
 func NewTransform2D(p1, p2, p3, p1p, p2p, p3p Point2D) (Transform2D, error) {
-	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) /
-	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
+	det:=(p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y)
 
-	b:=( (p2p.X-p1p.X) - a*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) / det
+
+	b:=( (p2p.X-p1p.X)*(p3.X-p1.X) - (p3p.X-p1p.X)*(p2.X-p1.X) ) / det
 
 	c:=p1p.X - a*p1.X - b*p1.Y
 
-	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) /
-	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
+	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) / det
 
-	e:=( (p2p.Y-p1p.Y) - d*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	e:=( (p2p.Y-p1p.Y)*(p3.X-p1.X) - (p3p.Y-p1p.Y)*(p2.X-p1.X) ) / det
 
-	f:=p1p.Y - d*p1.X - e*p1.Y   
+	f:=p1p.Y - d*p1.X - e*p1.Y
 
-	if math.IsInf(float64(a),0) || math.IsInf(float64(b),0) || math.IsInf(float64(d),0) || math.IsInf(float64(e),0) {
-		return Transform2D{}, errors.New("divide by zero")
-	} 
+	for _, v:=range([]float32{a,b,c,d,e,f}) {
+		if math.IsInf(float64(v),0) || math.IsNaN(float64(v)) {
+			return Transform2D{}, errors.New("divide by zero")
+		}
+	}
 	return Transform2D{a,b,c,d,e,f}, nil
 }
 
-- 
2.43.0


From a9f653a18deb7d0f477e3d5b324643935ac8d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 47/72] fix: align with fewer than three reference stars
 without panicking

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 8b12768..8e4a562 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -132,6 +132,7 @@ func generateTriangles(stars []Star, indices []int, scaleFactor float32) []Trian
 // Finds the closest matches between the given triangles and the reference triangles
 func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match) {
 	kdt:=a.RefTri3DT
+	if len(kdt)==0 { return nil }
 	matches=make([]Match, len(triangles))
 
 	for i, tri := range triangles {
-- 
2.43.0


From fa99f4271dc63bab2f9918a5a7354d8cd6fe4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 48/72] fix: report a missing histogram reference when aligning

---
 internal/ops/post/postprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index a31d57c..492bb10 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -167,6 +167,9 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		case OOBModeNaN:
 			outOfBounds = float32(math.NaN())
 		case OOBModeRefLocation:
+			if c.MatchHisto == nil {
+				return nil, errors.New("missing histogram reference")
+			}
 			outOfBounds = c.MatchHisto.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
-- 
2.43.0


From b7e1b692f5dd2f0f4101dc50870122320c163c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 49/72] fix: ignore NaN pixels in the local median instead of
 panicking

---
 internal/median/gather.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 04aaf7e..0fd7fc6 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -18,6 +18,7 @@
 package median
 
 import (
+	"math"
 )
 
 
@@ -29,6 +30,7 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 	for _,o :=range(mask) {
 		indexO:=index+o
 		if indexO>=0 && indexO<int32(len(data)) {
+			if math.IsNaN(float64(data[indexO])) { continue }  // NaN cannot be ordered
 			buffer[num]=data[indexO]
 			num++
 		}
-- 
2.43.0


From 2f066a1cd92553db29dab6b63cb6b9c3378935fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 50/72] fix: keep star positions and masses from wrapping
 around to other image rows

---
 internal/star/findstars.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 2ccc4a8..cba1050 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -279,11 +279,13 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 		// until the shifts are below 0.01 pixel (i.e. 0.0001 squared error), or max rounds reached
 		shiftSquared:=float32(math.MaxFloat32)
 		for round:=int32(0); shiftSquared>0.0001 && round<10; round++ {
+			column:=s.Index % int32(width)
 			// calculate star mass and first moments from current x,y
 			xMoment, yMoment:=float32(0), float32(0)
 			mass:=float32(0)
 			for y:=-radius; y<=radius; y++ {
 				for x:=-radius; x<=radius; x++ {
+					if column+x<0 || column+x>=width { continue }  // do not wrap around to other rows
 					index:=s.Index+y*int32(width)+x
 					value:=float32(0)
 					if index>=0 && int(index)<len(data) {
@@ -332,6 +334,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 		// calculate mass, moment and HFR
 		moment, mass, pixels:=float32(0), float32(0), int32(0)
 		rad:=int32(math.Ceil(float64(radius)))
+		column:=s.Index % width
 		distSqLimit:=int32(math.Ceil(float64(radius+1e-8)*float64(radius+1e-8)))
 		for y:=-rad; y<=rad; y++ {
 			for x:=-rad; x<=rad; x++ {
@@ -341,7 +344,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if index>=0 && index<int32(len(data)) && column+x>=0 && column+x<width {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
@@ -367,7 +370,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if index>=0 && index<int32(len(data)) && column+x>=0 && column+x<width {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
-- 
2.43.0


From 191f2cfaef9dd93501d6b4366b4f86f91c35938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 51/72] fix: round star shifts to the left and up to the
 nearest pixel

---
 internal/star/findstars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index cba1050..a8d78cc 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -310,7 +310,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			preciseDeltaX:=newX-s.X
 			preciseDeltaY:=newY-s.Y
 			shiftSquared  =preciseDeltaX*preciseDeltaX + preciseDeltaY*preciseDeltaY
-			index:=s.Index + width*int32(deltaY+0.5)+int32(deltaX+0.5)
+			index:=s.Index + width*int32(math.Floor(float64(deltaY)+0.5))+int32(math.Floor(float64(deltaX)+0.5))
 			value:=float32(0)
 			if index>=0 && int(index)<len(data) {
 				value=float32(data[index])
-- 
2.43.0


From af0cc5910e4ca5e42e894383f1eba0aa4176368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 52/72] fix: report a half flux radius of zero rather than NaN
 without stars

---
 internal/star/findstars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index a8d78cc..e0837bc 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -394,6 +394,6 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 		avgHFR+=float32(hfr)
 	}
-	avgHFR/=float32(numRemainingStars)
+	if numRemainingStars>0 { avgHFR/=float32(numRemainingStars) }
 	return stars[:numRemainingStars], avgHFR
 }
-- 
2.43.0


From b000b99097ba2640fa01a68b441ff440cf33bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 53/72] fix: detect stars next to NaN and infinite pixels
 without panicking

---
 internal/star/findstars.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index e0837bc..0761bc5 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -290,7 +290,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 					value:=float32(0)
 					if index>=0 && int(index)<len(data) {
 						value=data[index]-threshold
-						if value<0 { value=0 }
+						if !(value>0) || math.IsInf(float64(value), 0) { value=0 }  // invalid pixels carry no flux
 					}
 					xMoment+=float32(x)*value
 					yMoment+=float32(y)*value
@@ -346,7 +346,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				value:=float32(0.0)
 				if index>=0 && index<int32(len(data)) && column+x>=0 && column+x<width {
 					v:=data[index]-location
-					if v>0 { value=v }
+					if v>0 && !math.IsInf(float64(v), 0) { value=v }
 				}
 				moment  +=distance*value
 				mass    +=value
@@ -372,7 +372,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				value:=float32(0.0)
 				if index>=0 && index<int32(len(data)) && column+x>=0 && column+x<width {
 					v:=data[index]-location
-					if v>0 { value=v }
+					if v>0 && !math.IsInf(float64(v), 0) { value=v }
 				}
 				innerMass  +=value
 				innerPixels++
-- 
2.43.0


From d27df3a2b699a38e28e22f0784e8ff0a7f62a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 54/72] fix: recompute statistics after blurring, sharpening,
 bad pixel removal, debayering and luminance application

---
 internal/fits/rgb.go            | 1 +
 internal/ops/hsl/hsl.go         | 1 +
 internal/ops/pre/preprocess.go  | 3 +++
 internal/ops/stretch/stretch.go | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..2a965a9 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -85,6 +85,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
 	hsl.Exposure+=lum.Exposure
+	hsl.Stats.Clear()
 }
 
 
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..79a78da 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 0286399..0abc7c9 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -197,6 +198,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		fmt.Fprintf(c.Log, "%d: Removed %d bad bayer pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, numRemoved, 100.0*float32(numRemoved)/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -243,6 +245,7 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	}
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..a8965ae 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -372,6 +372,7 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -420,5 +421,6 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From 3407c8db554be3e4ee2fc93eaddb5b4e7d40c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 55/72] fix: keep pixels finite when matching the histogram of
 images with zero location or scale

---
 internal/fits/pixelops.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..c3eb6dd 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -586,7 +586,8 @@ func (f* Image) SCNR(factor float32) {
 // Adjust image data to match the histogram peak of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchLocation(refLocation float32) {
-	multiplier:=refLocation / f.Stats.Location()
+	multiplier:=float32(1)
+	if f.Stats.Location()!=0 { multiplier=refLocation / f.Stats.Location() } // no factor moves a location of zero
 	data:=f.Data
 	for i, d:=range data {
 		data[i]=d*multiplier
@@ -599,7 +600,8 @@ func (f *Image) MatchLocation(refLocation float32) {
 // Adjust image data to match the histogram shape of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchHistogram(refStats *stats.Stats) {
-	multiplier:=refStats.Scale()    / f.Stats.Scale()
+	multiplier:=float32(1)
+	if f.Stats.Scale()!=0 { multiplier=refStats.Scale() / f.Stats.Scale() } // no factor widens a uniform image
 	offset    :=refStats.Location() - f.Stats.Location()*multiplier
 	data:=f.Data
 	for i, d:=range data {
-- 
2.43.0


From 994dcf9197b1e3f020e1cdf8b16cfcceeb0be636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 56/72] fix: use the upper bound given for background
 neutralization

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index c3eb6dd..846d03a 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -470,7 +470,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From bfb6c655f9d2f07ce80ade1c165b7eccbd6e0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 57/72] fix: map values below the midtones black point to zero

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 846d03a..803d7b7 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -219,7 +219,7 @@ func pfMidtones(data []float32, params interface{}) {
 	for i, d:=range data {
 		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
 		if value<clipLow { 
-			value=0 
+			value=clipLow
 	    } else if value>clipHigh {
 	    	value=1
 	    }
-- 
2.43.0


From 4bfa1f9468170c9a5bed25bc4913c6fd353758e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 58/72] fix: blur and sharpen with kernels larger than the
 image, and with tiny or invalid sigma

---
 internal/ops/stretch/usm.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..1b0a019 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -21,13 +21,16 @@ import (
 
 const sqrt2 float32 = float32(math.Sqrt2)
 
-// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range
+// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range,
+// repeatedly if the kernel is larger than the image
 func reflect(size, x int) int {
-	if x < 0 {
-		return -x - 1
-	}
-	if x >= size {
-		return 2*size - x - 1
+	for x < 0 || x >= size {
+		if x < 0 {
+			x = -x - 1
+		}
+		if x >= size {
+			x = 2*size - x - 1
+		}
 	}
 	return x
 }
@@ -39,6 +42,9 @@ func GaussianDefiniteIntegral(mu, sigma, x float32) float32 {
 
 // Generates a 1D gaussian kernel for the given sigma. Based on symbolic integration via error function
 func GaussianKernel1D(sigma float32) (kernel []float32) {
+	if !(sigma > 0) {
+		return []float32{1} // no blur
+	}
 	mu := float32(0)
 
 	// Find minimal kernel width for which the area under the curve left of the kernel is below the acceptable error
@@ -52,6 +58,9 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 		}
 		radius++
 	}
+	if radius < 0 {
+		radius = 0
+	}
 	width := 2*radius + 1
 	kernel = make([]float32, width)
 
-- 
2.43.0


From e0144d22fe3ec24bcaeb35bf5d6e60bb9d31415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 59/72] fix: report channels and luminance of different size as
 errors, and combine uniform channels to finite values

---
 internal/fits/rgb.go    | 1 +
 internal/ops/hsl/hsl.go | 3 +++
 internal/ops/rgb/rgb.go | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 2a965a9..8060fb8 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -73,6 +73,7 @@ func getCommonNormalizationFactors(chans []*Image) (min, mult float32) {
 			max=ch.Stats.Max()
 		}
 	}
+	if max<=min { return min, 1 } // uniform channels, cannot be stretched
 	mult=1 / (max - min)
 	return min, mult
 }
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 79a78da..086d567 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -60,6 +60,9 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if c.LumFrame == nil {
 		return f, nil
 	}
+	if len(c.LumFrame.Data) != len(f.Data)/3 {
+		return nil, fmt.Errorf("luminance dimensions %v do not match color image dimensions %v", c.LumFrame.Naxisn, f.Naxisn)
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
 	c.LumFrame.MonoToHSLuvLum()
 
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f530d65..05aeee5 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -62,6 +62,9 @@ func (op *OpRGBCombine) MakePromises(ins []ops.Promise, c *ops.Context) (outs []
 		if err != nil {
 			return nil, err
 		}
+		if len(fs) != len(ins) {
+			return nil, fmt.Errorf("%s operator with %d inputs, %d of them empty", op.Type, len(ins), len(ins)-len(fs))
+		}
 		return op.Apply(fs, c)
 	}
 	return []ops.Promise{out}, nil
@@ -71,6 +74,11 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	for _, f := range fs[1:] {
+		if !fits.EqualInt32Slice(f.Naxisn, fs[0].Naxisn) {
+			return nil, fmt.Errorf("dimensions %v of channel %d differ from dimensions %v of channel %d", f.Naxisn, f.ID, fs[0].Naxisn, fs[0].ID)
+		}
+	}
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
 	}
-- 
2.43.0


From 80efe53dd29cb936d0bcdf2ceb5d9d1664940783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 60/72] fix: balance colors of images without usable blocks,
 stars or contrast without NaNs and crashes

---
 internal/fits/rgb.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 8060fb8..51ef3f9 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -94,6 +94,10 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 // Then find the darkest block, and set it to the desired color; and find the average star color,
 // and set it to the desired color  
 func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim float32, shadows, highlights RGB, logWriter io.Writer) error {
+	if block<=0 || border<0 || skipBright<0 || skipDim<0 {
+		return fmt.Errorf("invalid settings for color balance: block %d border %g skipBright %g skipDim %g", block, border, skipBright, skipDim)
+	}
+
 	// Estimate location (=histogram peak, background black point) per color channel
 	statsR:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 0, 3)
 	statsG:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
@@ -112,6 +116,9 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	statsB=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 
 	darkest:= f.findDarkestBlock(block, border)
+	if darkest.R==math.MaxFloat32 {
+		return fmt.Errorf("no block of size %d outside %g%% border of %dx%d image", block, border*100, f.Naxisn[0], f.Naxisn[1])
+	}
 	clip   := float32(0.9)
 	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
@@ -136,9 +143,9 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 	// starNewR, starNewG, starNewB := float32(0.902), float32(0.99), float32(0.955)
 
 	// Calculate multiplicative correction factors
-	alphaR:=(newHighlights.R - newShadows.R) / (curHighlights.R - curShadows.R)
-	alphaG:=(newHighlights.G - newShadows.G) / (curHighlights.G - curShadows.G)
-	alphaB:=(newHighlights.B - newShadows.B) / (curHighlights.B - curShadows.B)
+	alphaR:=correctionFactor(curShadows.R, curHighlights.R, newShadows.R, newHighlights.R)
+	alphaG:=correctionFactor(curShadows.G, curHighlights.G, newShadows.G, newHighlights.G)
+	alphaB:=correctionFactor(curShadows.B, curHighlights.B, newShadows.B, newHighlights.B)
 
 	// Calculate additive correction factors 
 	betaR:=newShadows.R - alphaR * curShadows.R
@@ -151,6 +158,13 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 }
 
 
+// Returns the factor which maps the current range of values to the new one. A channel without range is only moved
+func correctionFactor(curLow, curHigh, newLow, newHigh float32) float32 {
+	if curHigh==curLow { return 1 }
+	return (newHigh - newLow) / (curHigh - curLow)
+}
+
+
 // finds mean color of the darkest block in a given color image
 func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
   width:=f.Naxisn[0]
@@ -278,6 +292,7 @@ func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
 	}
 
 	// normalize and return totals
+	if totalPixels==0 { return RGB{0, 0, 0} }
 	norm:=1.0/float32(totalPixels)
 	return RGB{totalR*norm, totalG*norm, totalB*norm}
 }
-- 
2.43.0


From e4cc634f50736500a1425a61c7a246585d1397ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 61/72] fix: do not apply operators to frames skipped by a
 prior filter or alignment

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index fa5b4c6..6b30c5c 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -200,6 +200,9 @@ func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
 		if f, err = in(); err != nil {
 			return nil, err
 		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // frame was skipped by a prior operator
 		if f, err = op.Apply(f, c); err != nil {
 			return nil, err
 		} // apply unary operator
-- 
2.43.0


From 8f40e0c44b71141e1fdd79631c0fdaf09e76d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 62/72] fix: reference selection passes every frame on in its
 own place, once, and shares no changing state

---
 internal/ops/operator.go     | 10 ++++--
 internal/ops/ref/refframe.go | 63 ++++++++++++++++++++----------------
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 6b30c5c..4abd03e 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -70,8 +70,14 @@ func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMo
 // A promise for a FITS image. Returns a materialized image, or an error
 type Promise func() (f *fits.Image, err error)
 
-// Materializes all promises with given concurrency limit
+// Materializes all promises with given concurrency limit. Results without an image are removed
 func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Image, err error) {
+	outs, err = MaterializeEach(ins, maxThreads, forget)
+	return RemoveNils(outs), err
+}
+
+// Materializes all promises with given concurrency limit. The i-th result is that of the i-th promise, and may be nil
+func MaterializeEach(ins []Promise, maxThreads int, forget bool) (outs []*fits.Image, err error) {
 	if len(ins) == 0 {
 		return nil, nil
 	}
@@ -113,7 +119,7 @@ func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Im
 			}
 		}
 	}
-	return RemoveNils(outs), err
+	return outs, err
 }
 
 // Remove nils from an array of fits.Images, editing the underlying array in place
diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 71e021c..8fbafc6 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -40,11 +40,11 @@ var srTargetStrings = []string{"alignment", "histogram"}
 
 type OpSelectReference struct {
 	ops.OpBase
-	Target       SelRefTarget      `json:"target"`
-	Mode         string            `json:"mode"`
-	StarDetect   *pre.OpStarDetect `json:"starDetect"`
-	mutex        sync.Mutex        `json:"-"`
-	materialized []*fits.Image     `json:"-"`
+	Target      SelRefTarget      `json:"target"`
+	Mode        string            `json:"mode"`
+	StarDetect  *pre.OpStarDetect `json:"starDetect"`
+	mutex       sync.Mutex        `json:"-"`
+	selectedFor *ops.Context      `json:"-"` // context for which a reference has been selected already
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpSelectReferenceDefault() }) } // register the operator for JSON decoding
@@ -85,13 +85,14 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	}
 
 	outs = make([]ops.Promise, len(ins))
+	pending := append([]ops.Promise{}, ins...) // shared by the outputs; yields the materialized image once there is one
 	for i, _ := range ins {
-		outs[i] = op.applySingle(i, ins, c)
+		outs[i] = op.applySingle(i, ins, pending, c)
 	}
 	return outs, nil
 }
 
-func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Context) ops.Promise {
+func (op *OpSelectReference) applySingle(i int, ins, pending []ops.Promise, c *ops.Context) ops.Promise {
 	return func() (f *fits.Image, err error) {
 		op.mutex.Lock()             // lock so a single thread accesses the reference frame
 		if c.RefFrameError != nil { // if reference frame detection failed in a prior thread
@@ -99,15 +100,11 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 			return nil, errors.New("same error")
 		}
 		if (op.Target == SRAlign && c.AlignStars != nil) ||
-			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
-			op.mutex.Unlock() // unlock immediately to allow ...
-			if op.materialized == nil || op.materialized[i] == nil {
-				return ins[i]() // ... materializations to be parallelized by the caller
-			} else {
-				mat := op.materialized[i]
-				op.materialized[i] = nil // remove reference to free memory
-				return mat, nil
-			}
+			(op.Target == SRHisto && c.MatchHisto != nil) || op.selectedFor == c { // if a reference frame already exists
+			in := pending[i]
+			pending[i] = ins[i] // remove reference to free memory
+			op.mutex.Unlock()   // unlock immediately to allow ...
+			return in()         // ... materializations to be parallelized by the caller
 		}
 		defer op.mutex.Unlock() // else release lock later when reference frame is computed
 
@@ -151,14 +148,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 
 		// otherwise, materialize the input promises
-		op.materialized, c.RefFrameError = ops.MaterializeAll(ins, c.MaxThreads, false)
+		var images []*fits.Image
+		images, c.RefFrameError = ops.MaterializeEach(ins, c.MaxThreads, false)
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
 
 		// Auto-select mode for (L)RGB
 		if mode == "%rgb" {
-			if len(op.materialized) > 3 {
+			if len(images) > 3 {
 				mode, fileID, atoiErr = "3", 3, nil
 			} else {
 				mode = "%starsHFR"
@@ -169,15 +167,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		var refScore float32
 		var refFrame *fits.Image
 		if mode == "%starsHFR" {
-			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(op.materialized)
+			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(images)
 		} else if mode == "%location" {
-			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(op.materialized, c)
+			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(images, c)
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(op.materialized) {
+			if fileID < 0 || fileID >= len(images) {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = op.materialized[fileID]
+			refFrame = images[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
@@ -190,20 +188,28 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		fmt.Fprintf(c.Log, "Using image %d with score %.4g as %s reference.\n", refFrame.ID, refScore, srTargetStrings[op.Target])
 		op.assignResults(c, refFrame)
 
-		// return promise for the materialized image of this instance
-		mat := op.materialized[i]
-		op.materialized[i] = nil // remove reference
-		return mat, nil
+		// keep the materialized images for the other instances, and return that of this instance
+		for j := range images {
+			if j != i {
+				image := images[j]
+				pending[j] = func() (*fits.Image, error) { return image, nil }
+			}
+		}
+		return images[i], nil
 	}
 }
 
 func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) {
+	op.selectedFor = c
 	if op.Target == SRAlign {
 		c.AlignNaxisn = refFrame.Naxisn
 		c.AlignStars = refFrame.Stars
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-		c.MatchHisto = refFrame.Stats
+		refFrame.Stats.Location() // calculate now, as the frame is changed by other operators while the histogram is in use
+		histo := *refFrame.Stats
+		histo.FreeData() // the frame's pixels are not needed any more
+		c.MatchHisto = &histo
 	} else {
 		fmt.Fprintf(c.Log, "Invalid reference selection target %d, skipping.\n", op.Target)
 	}
@@ -231,6 +237,9 @@ func selectReferenceMedianLoc(lights []*fits.Image, c *ops.Context) (refFrame *f
 	fun := func(f *fits.Image) float32 { return f.Stats.Location() }
 	locs := inParallel(lights, fun, c.MaxThreads)
 	locs = removeNaNs(locs)
+	if len(locs) == 0 {
+		return nil, 0, errors.New("Unable to select reference frame with median location")
+	}
 
 	// calculate median
 	medianLoc := qsort.QSelectMedianFloat32(locs)
-- 
2.43.0


From d9d8a7789631c8372cc148008399fff704ecd688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 63/72] fix: leave the black point alone rather than set pixels
 to NaN when asked to move white

---
 internal/fits/pixelops.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 803d7b7..eaa9ff1 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -649,6 +649,7 @@ func (f* Image) ScaleRGB(r, g, b float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMove(before, after float32) {
+    if !(before<1 && after<1) { return } // white cannot be moved by shifting black
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
@@ -663,6 +664,7 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
+    if !(before<1 && after<1) { return } // white cannot be moved by shifting black
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
-- 
2.43.0


From 3d8a75a906caac94ffebfb7508485486a542afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 64/72] fix: keep the color filter array of bad pixel removal
 when writing and reading pipelines as JSON

---
 internal/ops/pre/preprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 0abc7c9..50b2809 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -147,7 +147,7 @@ type OpBadPixel struct {
 	ops.OpUnaryBase
 	SigmaLow  float32    `json:"sigmaLow"`
 	SigmaHigh float32    `json:"sigmaHigh"`
-	Debayer   *OpDebayer `json:"-"`
+	Debayer   *OpDebayer `json:"debayer,omitempty"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpBadPixelDefaults() }) } // register the operator for JSON decoding
-- 
2.43.0


From d7b51ddbb883247b2fd73dcd42d2767d7d1229f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 65/72] fix: blur and sharpen each color plane on its own

---
 internal/ops/stretch/stretch.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index a8965ae..848934a 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -371,12 +371,25 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	for _, plane:=range planes(f) {
+		GaussianBlur(plane, int(f.Naxisn[0]), op.Sigma)
+	}
 	f.Stats.Clear()
 	return f, nil
 }
 
 
+// Returns the color planes of the image, which are filtered separately. Mono images have a single plane
+func planes(f *fits.Image) (ps [][]float32) {
+	size:=len(f.Data)
+	if len(f.Naxisn)>2 { size=int(f.Naxisn[0])*int(f.Naxisn[1]) }
+	for lower:=0; size>0 && lower+size<=len(f.Data); lower+=size {
+		ps=append(ps, f.Data[lower:lower+size])
+	}
+	return ps
+}
+
+
 // An operator to apply unsharp masking to an image. Based on subtraction of a gaussian blur from the original image
 type OpUnsharpMask struct {
 	ops.OpUnaryBase
@@ -420,7 +433,10 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
-	f.Stats.SetData(f.Data)
+	min, max:=f.Stats.Min(), f.Stats.Max()
+	for _, plane:=range planes(f) {
+		copy(plane, UnsharpMask(plane, int(f.Naxisn[0]), op.Sigma, op.Gain, min, max, absThresh))
+	}
+	f.Stats.Clear()
 	return f, nil
 }
-- 
2.43.0


From 795c4ba493d56a69f0e10eca7271d6dc8c0bdf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 66/72] fix: write session statistics completely when not
 stacking in batches, when frames are skipped, and for several exports, and
 report errors

---
 internal/ops/operator.go           |  7 ----
 internal/ops/ref/exportstats.go    | 61 ++++++++++--------------------
 internal/ops/stack/stackbatches.go |  2 -
 3 files changed, 19 insertions(+), 51 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 4abd03e..8dd5fb4 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -16,13 +16,11 @@
 package ops
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"os"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -49,11 +47,6 @@ type Context struct {
 	MatchHisto      *stats.Stats
 	RefFrameError   error
 	LumFrame        *fits.Image
-
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 6516ef0..9eefce9 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -16,7 +16,7 @@
 package ref
 
 import (
-	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -32,6 +32,7 @@ type OpExportStats struct {
 	mutex        sync.Mutex    `json:"-"`
 	materialized []*fits.Image `json:"-"`
 	opError      error         `json:"-"`
+	rows         bytes.Buffer  `json:"-"` // statistics of the frames processed so far
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -55,7 +56,8 @@ func (op *OpExportStats) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	*op = OpExportStats(def)
+	op.OpUnaryBase = def.OpUnaryBase
+	op.FileName = def.FileName
 	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
 	return nil
 }
@@ -69,51 +71,26 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	op.mutex.Lock()         // lock so a single thread is active
 	defer op.mutex.Unlock() // always release lock on exit
 
-	// write stats
-	if c.StatsProcessed == 0 {
-		err = op.writeHeader(c)
-		if err != nil {
-			return nil, err
-		}
-	}
-	op.writeStats(f, c)
-	c.StatsProcessed++
-	if c.StatsProcessed == c.StatsTotal {
-		op.writeFooter(c)
-	}
-
-	return f, nil
-}
-
-func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
-	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
-	c.StatsFile, err = os.Create(op.FileName)
-	if err != nil {
-		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
-	}
-	c.StatsBufWriter = bufio.NewWriter(c.StatsFile)
-
-	c.StatsBufWriter.WriteString(sessionStatsHeader)
-	fmt.Fprintf(c.StatsBufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
-
-	return nil
-}
-
-func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
+	// add the frame, and write the file with all frames so far. It is complete after each
+	// frame, as the number of frames which pass the prior steps is not known
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(c.StatsBufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+	fmt.Fprintf(&op.rows, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
 		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
+	if err = op.writeFile(); err != nil {
+		return nil, fmt.Errorf("%d: error writing file %s: %s", f.ID, op.FileName, err.Error())
+	}
+	return f, nil
 }
 
-func (op *OpExportStats) writeFooter(c *ops.Context) {
-	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
-	fmt.Fprintf(c.StatsBufWriter, "]")
-	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	c.StatsBufWriter.Flush()
-	c.StatsBufWriter = nil
-	c.StatsFile.Close()
-	c.StatsFile = nil
+func (op *OpExportStats) writeFile() error {
+	var b bytes.Buffer
+	b.WriteString(sessionStatsHeader)
+	b.WriteString("[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
+	b.Write(op.rows.Bytes())
+	b.WriteString("]")
+	b.WriteString(sessionStatsTrailer)
+	return os.WriteFile(op.FileName, b.Bytes(), 0666)
 }
 
 const sessionStatsHeader = `<html>
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 5f4a1f8..3d07b7a 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -60,8 +60,6 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		return nil, err
 	}
 	c.MaxThreads = int(maxThreads)
-	c.StatsTotal = len(insPerm)
-	c.StatsProcessed = 0
 
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
-- 
2.43.0


From a9ad5a9fec3e9b1119ce7b18919538f7d35e4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 67/72] fix: each calibration step applies only the dark and
 flat it names

---
 internal/ops/pre/preprocess.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 50b2809..daa3afc 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -71,7 +71,7 @@ func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		return nil, err
 	} // lazy init of dark and flat frames
 
-	if c.DarkFrame != nil {
+	if op.Dark != "" && c.DarkFrame != nil { // there may be several calibration steps
 		if !fits.EqualInt32Slice(f.Naxisn, c.DarkFrame.Naxisn) {
 			if f.Pixels!=c.DarkFrame.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from dark dimensions %v",
@@ -84,7 +84,7 @@ func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		f.Stats.Clear()
 	}
 
-	if c.FlatFrame != nil {
+	if op.Flat != "" && c.FlatFrame != nil {
 		if !fits.EqualInt32Slice(f.Naxisn, c.FlatFrame.Naxisn) {
 			if f.Pixels!=c.FlatFrame.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from flat dimensions %v",
@@ -103,14 +103,14 @@ func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 func (op *OpCalibrate) init(c *ops.Context) error {
 	op.mutex.Lock()
 	defer op.mutex.Unlock()
-	if !((op.Dark != "" && c.DarkFrame == nil) ||
-		(op.Flat != "" && c.FlatFrame == nil)) {
+	loadDark, loadFlat := op.Dark != "" && c.DarkFrame == nil, op.Flat != "" && c.FlatFrame == nil
+	if !loadDark && !loadFlat {
 		return nil
 	}
 
 	var promises []ops.Promise
 	for i, name := range []string{op.Dark, op.Flat} {
-		if name != "" {
+		if (i == 0 && loadDark) || (i == 1 && loadFlat) {
 			promise, err := ops.NewOpLoad(-(i+1), name).MakePromises(nil, c)
 			if err != nil {
 				return err
@@ -127,12 +127,12 @@ func (op *OpCalibrate) init(c *ops.Context) error {
 		return err
 	}
 
-	if op.Dark != "" {
+	if loadDark {
 		c.DarkFrame = images[0]
-		if op.Flat != "" {
+		if loadFlat {
 			c.FlatFrame = images[1]
 		}
-	} else if op.Flat != "" {
+	} else if loadFlat {
 		c.FlatFrame = images[0]
 	}
 
-- 
2.43.0


From 9bbd74d0e3236b7febdb0a62a77a9d2bf84e005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 68/72] fix: exclude stars larger than a grid cell from the
 background

---
 internal/ops/pre/background.go | 50 +++++++++++++++-------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index fe3c335..b7cafe7 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -115,40 +115,34 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 func (b *Background) binStarsIntoCells(stars []star.Star) {
 	cs := b.CellStars
 	for _, s := range stars {
-		sx, sy, hfr := s.X, s.Y, s.HFR*b.HFRFactor
-		// Trace 3x3 grid centered around the star position
-		for yOff := -1; yOff < 2; yOff++ {
-			for xOff := -1; xOff < 2; xOff++ {
-				x := sx + float32(xOff)*hfr
-				y := sy + float32(yOff)*hfr
-
-				cellX := int32(x / b.GridSpacingX)
-				if cellX < 0 {
-					cellX = 0
-				}
-				if cellX >= b.GridCellsX {
-					cellX = b.GridCellsX - 1
-				}
-
-				cellY := int32(y / b.GridSpacingY)
-				if cellY < 0 {
-					cellY = 0
-				}
-				if cellY >= b.GridCellsY {
-					cellY = b.GridCellsY - 1
-				}
-
+		sx, sy, radius := s.X, s.Y, s.HFR*b.HFRFactor+0.5 // cells start and end between pixels
+		// Trace all cells around the star position, there may be many of them
+		xFirst, xLast := cellIndex(sx-radius, b.GridSpacingX, b.GridCellsX), cellIndex(sx+radius, b.GridSpacingX, b.GridCellsX)
+		yFirst, yLast := cellIndex(sy-radius, b.GridSpacingY, b.GridCellsY), cellIndex(sy+radius, b.GridSpacingY, b.GridCellsY)
+		for cellY := yFirst; cellY <= yLast; cellY++ {
+			for cellX := xFirst; cellX <= xLast; cellX++ {
 				cellOffset := cellY*b.GridCellsX + cellX
-				c := cs[cellOffset]
-				l := len(c)
-				if l == 0 || c[l-1] != s {
-					cs[cellOffset] = append(c, s)
-				}
+				cs[cellOffset] = append(cs[cellOffset], s)
 			}
 		}
 	}
 }
 
+// Returns the index of the grid cell for the given coordinate, limited to the grid
+func cellIndex(x, gridSpacing float32, gridCells int32) int32 {
+	if !(x > 0) {
+		return 0
+	}
+	if x >= gridSpacing*float32(gridCells) {
+		return gridCells - 1
+	}
+	cell := int32(x / gridSpacing)
+	if cell >= gridCells {
+		cell = gridCells - 1
+	}
+	return cell
+}
+
 // Initialize background by approximating each grid cell with a linear gradient
 func (b *Background) init(src []float32, sigma float32) {
 	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
-- 
2.43.0


From ece76dfb58e1033126fde30b8584fb0a7c4ed407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:23 +0000
Subject: [PATCH 69/72] fix: statistics of TIFF color images cover the values
 of all channels

---
 internal/fits/tiff16.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index c1d48af..7fab127 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -226,23 +226,22 @@ func (f *Image) ReadTIFF(fileName string) error {
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
 
-				// convert r, g, b to greyscale value
-				gray := 0.2126*r + 0.7152*g + 0.0722*b
-
-				// update stats
-				if gray < min {
-					min = gray
+				// update stats, which cover the values of all channels
+				for _, v := range [3]float32{r, g, b} {
+					if v < min {
+						min = v
+					}
+					if v > max {
+						max = v
+					}
+					sum += float64(v)
 				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	}
 
 	// finalize stats
-	mean := float32(sum / float64(width) / float64(height))
+	mean := float32(sum / float64(f.Pixels))
 	f.Stats = stats.NewStatsWithMMM(f.Data, f.Naxisn[0], min, max, mean)
 
 	return nil
-- 
2.43.0


From bdc84b3c2ccbcde28f9f71c2606e7db8202be66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 70/72] fix: keep the half flux radius when projecting an image

---
 internal/fits/project.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 785bc5b..31fe35b 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -33,7 +33,7 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 	// Create new FITS image for the result
 	destWidth := destNaxisn[0]
 	res = NewImageFromNaxisn(destNaxisn, nil)
-	res.ID, res.Exposure = img.ID, img.Exposure
+	res.ID, res.Exposure, res.HFR = img.ID, img.Exposure, img.HFR
 
 	// Resample image from the target coordinate system PoV
 	d := img.Data
-- 
2.43.0


From 68055272f0dcbb9e683ef640a61baff32ff732cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:25 +0000
Subject: [PATCH 71/72] fix: report a missing half flux radius instead of
 weighting by its default

---
 internal/ops/stack/stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index b77990b..086a720 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -263,6 +263,7 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
 		for i:=0; i<len(f); i+=1 {
 			h:=f[i].HFR
+			if h==0 { return nil, errors.New(fmt.Sprintf("%d: Missing half flux radius information for HFR-weighted stacking", f[i].ID)) }
 			if h<minHFR { minHFR=h }
 			if h>maxHFR { maxHFR=h }
 		}		
-- 
2.43.0


From 0b79d49b7f246ccc68a6fb19b7a6c8aeab77a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 72/72] fix: estimate the noise of images with invalid pixels
 from the valid ones

---
 internal/stats/noise.go | 21 +++++++++++++++++++++
 internal/stats/stats.go |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/internal/stats/noise.go b/internal/stats/noise.go
index 730f043..fd740d6 100644
--- a/internal/stats/noise.go
+++ b/internal/stats/noise.go
@@ -53,3 +53,24 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
     factor:=float32(math.Sqrt(0.5*math.Pi)) / (6 * float32(width-2) * float32(height - 2))
     return sum*factor
 }
+
+// Estimate the level of gaussian noise on an image with invalid pixels, from the pixels whose neighborhood is valid.
+// Returns zero if there are none
+func estimateNoiseOfValidPixels(data []float32, width int32) float32 {
+    height:=int32(len(data))/width
+    sum, count:=float64(0), 0
+    for y:=int32(1); y<height-1; y++ {
+        for x:=int32(1); x<width-1; x++ {
+            conv:=float32(0)
+            for j,w:=range enWeights {
+                conv+=data[(y+int32(j)/3-1)*width + x+int32(j)%3-1]*w
+            }
+            if !math.IsNaN(float64(conv)) {
+                sum+=math.Abs(float64(conv))
+                count++
+            }
+        }
+    }
+    if count==0 { return 0 }
+    return float32(sum*math.Sqrt(0.5*math.Pi)/(6*float64(count)))
+}
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 6c5d50d..988aa9f 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -174,6 +174,9 @@ func (s *Stats) Noise() float32 {
 			panic("Cannot calculate stats on nil data")
 		}
 		s.noise = EstimateNoise(s.data, s.width)
+		if math.IsNaN(float64(s.noise)) { // e.g. the borders of aligned frames
+			s.noise = estimateNoiseOfValidPixels(s.data, s.width)
+		}
 		s.haveNoise = true
 	}
 	return s.noise
-- 
2.43.0

