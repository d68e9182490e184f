From 972ac92d78bfbacdab781a3ff3535549cf76388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:01 +0000
Subject: [PATCH 01/27] fix: do not export a zero for a cumulative gauge that
 has no value yet

The output entry of a series exists before its first value is merged, so a
concurrent collection by a cumulative reader reported a gauge value of 0 that
was never set.
---
 .../sdk/metric/internal/viewstate/collectors.go    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/collectors.go b/lightstep/sdk/metric/internal/viewstate/collectors.go
index dd2a7b3..96d26f2 100644
--- a/lightstep/sdk/metric/internal/viewstate/collectors.go
+++ b/lightstep/sdk/metric/internal/viewstate/collectors.go
@@ -32,6 +32,8 @@ type statefulSyncInstrument[N number.Any, Storage any, Methods aggregator.Method
 
 // Collect for synchronous cumulative temporality.
 func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence, output *[]data.Instrument) {
+	var methods Methods
+
 	p.instLock.Lock()
 	defer p.instLock.Unlock()
 
@@ -39,6 +41,18 @@ func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence,
 
 	for set, entry := range p.data {
 		p.appendPoint(ioutput, set, &entry.storage, aggregation.CumulativeTemporality, seq.Start, seq.Now, false)
+
+		if methods.Kind() != aggregation.GaugeKind {
+			continue
+		}
+		// The entry is created before its first value arrives,
+		// an unset gauge is not a zero gauge.
+		ptsArr := ioutput.Points
+		point := &ptsArr[len(ptsArr)-1]
+
+		if cpy, _ := methods.ToStorage(point.Aggregation); !methods.HasChange(cpy) {
+			ioutput.Points = ptsArr[0 : len(ptsArr)-1 : cap(ptsArr)]
+		}
 	}
 }
 
-- 
2.43.0


From bcf8276c48a363ebe056ca654100b8612a4a1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 02/27] fix: allocate gauge sequence numbers in the order of
 updates

A sequence number taken before the lock let a late writer store an old number,
after which the merge into the output discarded the latest value.
---
 lightstep/sdk/metric/aggregator/gauge/gauge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/aggregator/gauge/gauge.go b/lightstep/sdk/metric/aggregator/gauge/gauge.go
index d2b060c..914ea0f 100644
--- a/lightstep/sdk/metric/aggregator/gauge/gauge.go
+++ b/lightstep/sdk/metric/aggregator/gauge/gauge.go
@@ -138,13 +138,13 @@ func (Methods[N, Traits]) Copy(from, to *State[N, Traits]) {
 }
 
 func (Methods[N, Traits]) Update(state *State[N, Traits], number N) {
-	newSeq := atomic.AddUint64(&sequenceVar, 1)
-
 	state.lock.Lock()
 	defer state.lock.Unlock()
 
+	// The sequence number is allocated under the lock so that the
+	// order of sequence numbers is the order of updates.
 	state.value = number
-	state.seq = newSeq
+	state.seq = atomic.AddUint64(&sequenceVar, 1)
 }
 
 func (Methods[N, Traits]) Merge(from, to *State[N, Traits]) {
-- 
2.43.0


From a2c86c0e15ca15080fb5e0ba7d6068400697c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:32 +0000
Subject: [PATCH 03/27] fix: do not report an older gauge value after a newer
 one was collected

When a view merges several attribute sets into one delta series, a value set
before the one already collected could be merged by the next collection and be
reported as the current one.
---
 lightstep/sdk/metric/aggregator/gauge/gauge.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/aggregator/gauge/gauge.go b/lightstep/sdk/metric/aggregator/gauge/gauge.go
index 914ea0f..c73abd0 100644
--- a/lightstep/sdk/metric/aggregator/gauge/gauge.go
+++ b/lightstep/sdk/metric/aggregator/gauge/gauge.go
@@ -40,6 +40,10 @@ type (
 		lock  sync.Mutex
 		value N
 		seq   uint64
+
+		// moved is the sequence number of the last value taken
+		// by Move(), values older than that are out of date.
+		moved uint64
 	}
 
 	Int64   = State[int64, number.Int64Traits]
@@ -127,6 +131,9 @@ func (Methods[N, Traits]) Move(from, to *State[N, Traits]) {
 	to.value = from.value
 	to.seq = from.seq
 
+	if from.seq != 0 {
+		from.moved = from.seq
+	}
 	from.seq = 0
 }
 
@@ -151,7 +158,7 @@ func (Methods[N, Traits]) Merge(from, to *State[N, Traits]) {
 	to.lock.Lock()
 	defer to.lock.Unlock()
 
-	if from.seq != 0 && from.seq > to.seq {
+	if from.seq != 0 && from.seq > to.seq && from.seq > to.moved {
 		to.value = from.value
 		to.seq = from.seq
 	}
-- 
2.43.0


From da8c7082a6783be45b0ba2cd1d7cba98af2bd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:43 +0000
Subject: [PATCH 04/27] fix: do not collect from an instrument that every
 reader drops

---
 lightstep/sdk/metric/meter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 90e877d..2373a97 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -171,10 +171,12 @@ func configureInstrument[T any](
 	inst := ctor(desc, m.provider.cfg.performance, m, compiled)
 	err := conflicts.AsError()
 
+	// A nil instrument was dropped in every pipeline, there is nothing
+	// to collect.
 	if inst != nil {
 		m.byDesc[desc] = inst
+		*listPtr = append(*listPtr, inst)
 	}
-	*listPtr = append(*listPtr, inst)
 	if err != nil {
 		// Handle instrument creation errors when they're new,
 		// not for repeat entries above.
-- 
2.43.0


From a89aae310d3a092d734e351fd7e14e57c355e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:43 +0000
Subject: [PATCH 05/27] fix: do not modify the list of callbacks while it is
 being collected

---
 lightstep/sdk/metric/meter.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 2373a97..4f73822 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -98,17 +98,21 @@ func (mr *metricRegistration) Unregister() error {
 		return ErrAlreadyUnregistered
 	}
 
-	mycb := mr.callback
-	cbs := mr.meter.callbacks
-
-	for i := 0; i < len(cbs); i++ {
-		if mycb == cbs[i] {
-			cbs[i] = cbs[len(cbs)-1]
-			mr.meter.callbacks = cbs[:len(cbs)-1]
-			break
+	mr.meter.lock.Lock()
+	defer mr.meter.lock.Unlock()
+
+	// Collection uses a shallow copy of the list without holding the
+	// lock, therefore build a new list instead of modifying it.
+	cbs := make([]*asyncstate.Callback, 0, len(mr.meter.callbacks))
+
+	for _, cb := range mr.meter.callbacks {
+		if cb != mr.callback {
+			cbs = append(cbs, cb)
 		}
 	}
 
+	mr.meter.callbacks = cbs
+
 	mr.callback = nil
 
 	return nil
-- 
2.43.0


From 4314fac4a0fa2d8f349974a0a3f27cde7000cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:02 +0000
Subject: [PATCH 06/27] fix: make concurrent collections by one reader
 exclusive

---
 lightstep/sdk/metric/producer.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lightstep/sdk/metric/producer.go b/lightstep/sdk/metric/producer.go
index b9bb66c..e111e6d 100644
--- a/lightstep/sdk/metric/producer.go
+++ b/lightstep/sdk/metric/producer.go
@@ -44,20 +44,20 @@ func (mp *MeterProvider) producerFor(pipe int) Producer {
 
 // Produce runs collection and produces a new metrics data object.
 func (pp *providerProducer) Produce(inout *data.Metrics) data.Metrics {
+	// Collections by one reader are exclusive: asynchronous
+	// observations of two collections would otherwise be added
+	// together, and the delta intervals would not correspond with
+	// the data reported in them.
+	pp.lock.Lock()
+	defer pp.lock.Unlock()
+
 	ordered := pp.provider.getOrdered()
 
 	// Note: the Last time is only used in delta-temporality
-	// scenarios.  This lock protects the only stateful change in
-	// `pp` but does not prevent concurrent collection.  If a
-	// delta-temporality reader were to call Produce
-	// concurrently, the results would be be recorded with
-	// non-overlapping timestamps but would have been collected in
-	// an overlapping way.
-	pp.lock.Lock()
+	// scenarios.
 	lastTime := pp.lastCollect
 	nowTime := time.Now()
 	pp.lastCollect = nowTime
-	pp.lock.Unlock()
 
 	var output data.Metrics
 	if inout != nil {
-- 
2.43.0


From d36ebb2f2735c4a5602fef5a168d88e3deaa2e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:02 +0000
Subject: [PATCH 07/27] fix: synchronize reading the descriptor with merging
 descriptions

---
 lightstep/sdk/metric/internal/viewstate/base_instrument.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index fdc6beb..eea9337 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -77,6 +77,8 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) OriginalName() str
 }
 
 func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) Descriptor() sdkinstrument.Descriptor {
+	metric.instLock.Lock()
+	defer metric.instLock.Unlock()
 	return metric.desc
 }
 
-- 
2.43.0


From f922676b1e96f3fe63316a0bb44d47058b02d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 08/27] fix: do not truncate attributes in the caller's slice

---
 lightstep/sdk/metric/sdkinstrument/performance.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lightstep/sdk/metric/sdkinstrument/performance.go b/lightstep/sdk/metric/sdkinstrument/performance.go
index fce29c5..4499602 100644
--- a/lightstep/sdk/metric/sdkinstrument/performance.go
+++ b/lightstep/sdk/metric/sdkinstrument/performance.go
@@ -101,14 +101,24 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 	if sizeLimit == 0 {
 		return attrs
 	}
+	// The input belongs to the caller, copy it before the first change.
+	copied := false
+	modify := func() {
+		if !copied {
+			attrs = append([]attribute.KeyValue(nil), attrs...)
+			copied = true
+		}
+	}
 	for idx, kv := range attrs {
 		if len(kv.Key) > int(sizeLimit) {
+			modify()
 			attrs[idx].Key = kv.Key[:sizeLimit]
 		}
 		switch attrs[idx].Value.Type() {
 		case attribute.STRING:
 			s := kv.Value.AsString()
 			if len(s) > int(sizeLimit) {
+				modify()
 				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
 			}
 
@@ -122,6 +132,7 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 				}
 			}
 			if any {
+				modify()
 				attrs[idx].Value = attribute.StringSliceValue(ss)
 			}
 		}
-- 
2.43.0


From 20c3e22cafaf341a12559b7a362a0b7699ec18f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:30 +0000
Subject: [PATCH 09/27] fix: do not export after the periodic reader was shut
 down

---
 lightstep/sdk/metric/periodic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index 54fef5d..d902b86 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -57,6 +57,9 @@ type PeriodicReader struct {
 	producer Producer
 	stop     context.CancelFunc
 	wait     sync.WaitGroup
+
+	// finished is set (under lock) by the final collection.
+	finished bool
 }
 
 type PeriodicReaderOption func(*PeriodicReader)
@@ -138,7 +141,10 @@ func (pr *PeriodicReader) collectWithTimeout(ctx context.Context, method func(co
 func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
 	pr.stop()
 	pr.wait.Wait()
-	return pr.collect(ctx, pr.exporter.ShutdownMetrics)
+	return pr.collect(ctx, func(ctx context.Context, final data.Metrics) error {
+		pr.finished = true
+		return pr.exporter.ShutdownMetrics(ctx, final)
+	})
 }
 
 // ForceFlush immediately waits for an existing collection, otherwise
@@ -156,6 +162,11 @@ func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Conte
 	pr.lock.Lock()
 	defer pr.lock.Unlock()
 
+	// Shutdown was the last export.
+	if pr.finished {
+		return ErrAlreadyShutdown
+	}
+
 	// The lock ensures that re-use of `pr.data` is successful, it
 	// means that shutdown, flush, and ordinary collection are
 	// exclusive.  Note that shutdown will cancel a concurrent
-- 
2.43.0


From 065706ee975cb0f66b98942fb59a036db00a2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:41 +0000
Subject: [PATCH 10/27] fix: apply a hint under every matching view clause

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3bb06c0..64a853f 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -277,16 +277,17 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			continue
 		}
 
+		// The hint erases itself from the modified description; the
+		// original is needed for the other clauses.
 		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
-		instrument = modified // the hint erases itself from the description
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
 		}
 
 		cf := singleBehavior{
-			fromName: instrument.Name,
-			desc:     viewDescriptor(instrument, view),
+			fromName: modified.Name,
+			desc:     viewDescriptor(modified, view),
 			kind:     akind,
 			acfg:     pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
 			tempo:    tempo,
-- 
2.43.0


From 794b0cae62bac418c694c4e457a1fd21d67efee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:41 +0000
Subject: [PATCH 11/27] fix: drop an instrument whose hint says so when a view
 clause matches

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 64a853f..11ae8af 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -284,6 +284,9 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
 		}
+		if hinted && akind == aggregation.DropKind {
+			continue
+		}
 
 		cf := singleBehavior{
 			fromName: modified.Name,
-- 
2.43.0


From 57975f29fa654700f7eb57e27f02471eceb9d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:58 +0000
Subject: [PATCH 12/27] fix: resolve the kind of sum that a hint asks for from
 the instrument

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 11ae8af..3acec37 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -635,8 +635,8 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // checkSemanticCompatibility checks whether an instrument /
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
-	if behavior.hinted {
-		// Anything goes!
+	if behavior.hinted && behavior.kind != aggregation.AnySumKind {
+		// Anything goes, but the kind of sum has to be resolved.
 		return nil
 	}
 
-- 
2.43.0


From df01428411190eb6cff32ecab8a3baa0546df684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:58 +0000
Subject: [PATCH 13/27] fix: reject hints that ask for an asynchronous
 histogram

---
 .../sdk/metric/internal/viewstate/viewstate.go      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3acec37..ca3cddb 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -635,14 +635,17 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // checkSemanticCompatibility checks whether an instrument /
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
-	if behavior.hinted && behavior.kind != aggregation.AnySumKind {
-		// Anything goes, but the kind of sum has to be resolved.
-		return nil
-	}
-
 	agg := behavior.kind
 	cat := agg.Category(ik)
 
+	if behavior.hinted && agg != aggregation.AnySumKind {
+		// Anything goes, but the kind of sum has to be resolved,
+		// and there are no asynchronous histograms.
+		if ik.Synchronous() || cat != aggregation.HistogramCategory {
+			return nil
+		}
+	}
+
 	if agg == aggregation.AnySumKind {
 		switch cat {
 		case aggregation.MonotonicSumCategory, aggregation.HistogramCategory:
-- 
2.43.0


From eefb80f9e144b974c301e6f7e58d8ede44559a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:55 +0000
Subject: [PATCH 14/27] fix: enforce the instrument cardinality limit against
 concurrent and colliding series

---
 .../metric/internal/syncstate/bykeyvalue.go   | 25 ++++++++++++++-----
 .../sdk/metric/internal/syncstate/sync.go     | 12 +++++++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index 41b421d..d8d0e57 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -162,7 +162,7 @@ func acquireReadLockedKV(inst *Observer, fp uint64, attrs []attribute.KeyValue,
 	// attribute set.  Note this means we are performing
 	// two map lookups for overflowing attributes and only
 	// one lookup if the attribute set was preexisting.
-	if !*overflow && uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1 {
+	if !*overflow && inst.atLimit() {
 		// Use the overflow attributes, repeat.
 		attrs = pipeline.OverflowAttributes
 		fp = overflowAttributesFingerprint
@@ -200,7 +200,15 @@ func acquireNotfoundKV[N number.Any](inst *Observer, fp uint64, attrs []attribut
 	newRec.computeAttrsUnderLock(attrs)
 
 	for {
-		acquired, loaded := acquireWriteKV(inst, fp, newRec)
+		acquired, loaded, overflow := acquireWriteKV(inst, fp, newRec)
+
+		if overflow {
+			// The limit was reached after it was tested in
+			// acquireReadKV.
+			fp = overflowAttributesFingerprint
+			newRec.computeAttrsUnderLock(pipeline.OverflowAttributes)
+			continue
+		}
 
 		if !loaded {
 			// When this happens, we are waiting for the call to delete()
@@ -215,7 +223,7 @@ func acquireNotfoundKV[N number.Any](inst *Observer, fp uint64, attrs []attribut
 }
 
 // acquireWriteKV acquires the write lock and gets or sets a `*record`.
-func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool) {
+func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (_ *recordKV, loaded, overflow bool) {
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
@@ -223,14 +231,19 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 
 		if inst.performance.IgnoreCollisions || attributesEqual(oldRec.attrsList, newRec.attrsList) {
 			if oldRec.refMapped.ref() {
-				return oldRec, true
+				return oldRec, true, false
 			}
 			// in which case, there's been a race
-			return nil, false
+			return nil, false, false
 		}
 	}
 
+	if fp != overflowAttributesFingerprint && inst.atLimit() {
+		return nil, false, true
+	}
+
 	newRec.next = inst.currentFP[fp]
 	inst.currentFP[fp] = newRec
-	return newRec, true
+	inst.numRecords++
+	return newRec, true, false
 }
diff --git a/lightstep/sdk/metric/internal/syncstate/sync.go b/lightstep/sdk/metric/internal/syncstate/sync.go
index 2ac340a..1266761 100644
--- a/lightstep/sdk/metric/internal/syncstate/sync.go
+++ b/lightstep/sdk/metric/internal/syncstate/sync.go
@@ -55,6 +55,10 @@ type Observer struct {
 
 	// currentFP is protected by lock.
 	currentFP map[uint64]*recordKV
+
+	// numRecords is the number of records in currentFP, including
+	// those having the same fingerprint.  It is protected by lock.
+	numRecords uint32
 }
 
 // New builds a new synchronous instrument *Observer given the
@@ -123,6 +127,8 @@ func (inst *Observer) SnapshotAndProcess() {
 					tail.next = rec
 					tail = rec
 				}
+			} else {
+				inst.numRecords--
 			}
 		}
 
@@ -142,6 +148,12 @@ func (inst *Observer) SnapshotAndProcess() {
 	}
 }
 
+// atLimit returns true when one more record, other than the overflow
+// record, would pass the limit.  The lock is held, at least for reading.
+func (inst *Observer) atLimit() bool {
+	return inst.numRecords >= inst.performance.InstrumentCardinalityLimit-1
+}
+
 // collect collects the record.  When the record has been inactive for
 // the configured number of periods, it is removed from memory.
 func (inst *Observer) collect(fp uint64, rec *recordKV) bool {
-- 
2.43.0


From d1bb71532beb63ed94800efbd8901cafc9aa970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:58 +0000
Subject: [PATCH 15/27] fix: view clause without aggregator config overrides
 the configured default

A matching clause that does not set an aggregator configuration was
validated into the hard-coded defaults, and replaced the reader's
default configuration and the hinted configuration.
---
 .../metric/internal/viewstate/viewstate.go    | 23 +++++++++----------
 lightstep/sdk/metric/view/views.go            |  6 ++++-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index ca3cddb..8d96383 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -195,26 +195,25 @@ func (v *Compiler) Collectors() []data.Collector {
 // tryToApplyHint looks for a Lightstep-specified hint structure
 // encoded as JSON in the description.  If valid, returns the modified
 // configuration, otherwise returns the default for the instrument.
-func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg, defCfg aggregator.Config, hinted bool) {
+func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg aggregator.Config, hinted bool) {
 	// These are the default behaviors, we'll use them unless there's a valid hint.
 	akind = v.views.Defaults.Aggregation(instrument.Kind)
 	tempo = v.views.Defaults.Temporality(instrument.Kind)
-	defCfg = v.views.Defaults.AggregationConfig(
+	acfg = v.views.Defaults.AggregationConfig(
 		instrument.Kind,
 		instrument.NumberKind,
 	)
-	acfg = defCfg
 
 	// Check for required JSON symbols, empty strings, ...
 	if !strings.Contains(instrument.Description, "{") {
-		return instrument, akind, tempo, acfg, defCfg, hinted
+		return instrument, akind, tempo, acfg, hinted
 	}
 
 	var hint view.Hint
 	if err := json.Unmarshal([]byte(instrument.Description), &hint); err != nil {
 		// This could be noisy if valid descriptions contain spurious '{' chars.
 		otel.Handle(fmt.Errorf("hint parse error: %w", err))
-		return instrument, akind, tempo, acfg, defCfg, hinted
+		return instrument, akind, tempo, acfg, hinted
 	}
 
 	// Replace the hint input with its embedded description.
@@ -254,7 +253,7 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 		acfg.CardinalityLimit = hint.Config.CardinalityLimit
 	}
 
-	return instrument, akind, tempo, acfg, defCfg, hinted
+	return instrument, akind, tempo, acfg, hinted
 }
 
 // Compile is called during NewInstrument by the Meter
@@ -279,7 +278,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 		// The hint erases itself from the modified description; the
 		// original is needed for the other clauses.
-		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
+		modified, hintAkind, tempo, hintAcfg, hinted := v.tryToApplyHint(instrument)
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
@@ -292,7 +291,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			fromName: modified.Name,
 			desc:     viewDescriptor(modified, view),
 			kind:     akind,
-			acfg:     pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
+			acfg:     pickAggConfig(hintAcfg, view.AggregatorConfig()),
 			tempo:    tempo,
 			hinted:   hinted,
 		}
@@ -307,7 +306,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 	// If there were no matching views, set the default aggregation.
 	if len(matches) == 0 {
-		modified, akind, tempo, acfg, _, hinted := v.tryToApplyHint(instrument)
+		modified, akind, tempo, acfg, hinted := v.tryToApplyHint(instrument)
 		instrument = modified // the hint erases itself from the description
 
 		if akind != aggregation.DropKind {
@@ -624,9 +623,9 @@ func equalConfigs(a, b aggregator.Config) bool {
 }
 
 // pickAggConfig returns the aggregator configuration prescribed by a
-// view clause when it not the default value, otherwise the hinted config.
-func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config {
-	if viewCfg != defCfg {
+// view clause when it is set, otherwise the hinted or default config.
+func pickAggConfig(hintCfg, viewCfg aggregator.Config) aggregator.Config {
+	if viewCfg != (aggregator.Config{}) {
 		return viewCfg
 	}
 	return hintCfg
diff --git a/lightstep/sdk/metric/view/views.go b/lightstep/sdk/metric/view/views.go
index 49bd207..184aa37 100644
--- a/lightstep/sdk/metric/view/views.go
+++ b/lightstep/sdk/metric/view/views.go
@@ -107,7 +107,11 @@ func Validate(v *Views) (*Views, error) {
 		clause := &valid.Clauses[i]
 
 		err = v.checkAggregation(err, &clause.aggregation, aggregation.UndefinedKind)
-		err = v.checkAggConfig(err, &clause.acfg)
+		// When the clause does not set a configuration, the default
+		// for the instrument applies.
+		if clause.acfg != (aggregator.Config{}) {
+			err = v.checkAggConfig(err, &clause.acfg)
+		}
 
 		if clause.instrumentName != "" && clause.instrumentNameRegexp != nil {
 			err = multierr.Append(err, fmt.Errorf("view has instrument name and regexp matches"))
-- 
2.43.0


From 2f1f3360cf4d9f1cbdb8fde56f42c3ec2e718c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:01 +0000
Subject: [PATCH 16/27] fix: instruments of different temporality shared one
 output

When two instruments are output under one name with different
temporality, through a hint or the reader's per-kind selector, the data
of the second was reported with the temporality of the first.
---
 .../sdk/metric/internal/viewstate/base_instrument.go  |  5 +++++
 lightstep/sdk/metric/internal/viewstate/errors.go     |  4 ++++
 lightstep/sdk/metric/internal/viewstate/viewstate.go  | 11 +++++++++++
 3 files changed, 20 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index eea9337..08b6f7e 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -54,6 +54,7 @@ type instrumentBase[N number.Any, Storage, Auxiliary any, Methods aggregator.Met
 	fromName string
 	desc     sdkinstrument.Descriptor
 	acfg     aggregator.Config
+	tempo    aggregation.Temporality
 	data     map[attribute.Set]*storageHolder[Storage, Auxiliary]
 
 	keysSet    *attribute.Set
@@ -90,6 +91,10 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) Config() aggregato
 	return metric.acfg
 }
 
+func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) Temporality() aggregation.Temporality {
+	return metric.tempo
+}
+
 func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) initStorage(s *Storage) {
 	var methods Methods
 	methods.Init(s, metric.acfg)
diff --git a/lightstep/sdk/metric/internal/viewstate/errors.go b/lightstep/sdk/metric/internal/viewstate/errors.go
index b395ab2..2b956a3 100644
--- a/lightstep/sdk/metric/internal/viewstate/errors.go
+++ b/lightstep/sdk/metric/internal/viewstate/errors.go
@@ -126,6 +126,8 @@ type Duplicate interface {
 	Keys() *attribute.Set
 	// Config is the aggregator configuration.
 	Config() aggregator.Config
+	// Temporality is the aggregation temporality.
+	Temporality() aggregation.Temporality
 	// OriginalName is the original name of the Duplicate
 	// instrument before renaming.
 	OriginalName() string
@@ -173,6 +175,8 @@ func (c Conflict) duplicateError() string {
 		s.WriteString(fmt.Sprintf(" conflicts %v, %v%v", conf1, conf2, name2))
 	} else if !equalConfigs(inst1.Config(), inst2.Config()) {
 		s.WriteString(" has conflicts: different aggregator configuration")
+	} else if inst1.Temporality() != inst2.Temporality() {
+		s.WriteString(" has conflicts: different temporality")
 	} else {
 		s.WriteString(" has conflicts: different attribute filters")
 	}
diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 8d96383..d111f85 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -333,6 +333,12 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 		// to the default, via in place update.
 		semanticErr := checkSemanticCompatibility(instrument.Kind, &behavior)
 
+		// Asynchronous gauges are never delta, see newAsyncView.
+		if behavior.tempo != aggregation.DeltaTemporality ||
+			(behavior.kind == aggregation.GaugeKind && !behavior.desc.Kind.Synchronous()) {
+			behavior.tempo = aggregation.CumulativeTemporality
+		}
+
 		existingInsts := v.names[behavior.desc.Name]
 		var leaf leafInstrument
 
@@ -346,6 +352,9 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			if inst.Aggregation() != behavior.kind {
 				continue
 			}
+			if inst.Temporality() != behavior.tempo {
+				continue
+			}
 			if inst.Descriptor().Kind.Synchronous() != behavior.desc.Kind.Synchronous() {
 				continue
 			}
@@ -430,6 +439,7 @@ func newSyncView[
 		fromName:   behavior.fromName,
 		desc:       behavior.desc,
 		acfg:       behavior.acfg,
+		tempo:      behavior.tempo,
 		data:       map[attribute.Set]*storageHolder[Storage, int64]{},
 		keysSet:    behavior.keysSet,
 		keysFilter: behavior.keysFilter,
@@ -505,6 +515,7 @@ func newAsyncView[
 		fromName:   behavior.fromName,
 		desc:       behavior.desc,
 		acfg:       behavior.acfg,
+		tempo:      behavior.tempo,
 		data:       map[attribute.Set]*storageHolder[Storage, notUsed]{},
 		keysSet:    behavior.keysSet,
 		keysFilter: behavior.keysFilter,
-- 
2.43.0


From 6ce1da96c8fe06d93a1fe8bdde7504a4f016bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 17/27] fix: measurements counted twice when two view clauses
 give the same output

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index d111f85..028521c 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -17,6 +17,7 @@ package viewstate // import "github.com/lightstep/otel-launcher-go/lightstep/sdk
 import (
 	"encoding/json"
 	"fmt"
+	"slices"
 	"strings"
 	"sync"
 
@@ -407,7 +408,11 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			}
 			conflicts.Add(v.views.Name, c)
 		}
-		compiled = append(compiled, leaf)
+		// When several clauses lead to the same output, the
+		// instrument uses it once.
+		if !slices.Contains(compiled, Instrument(leaf)) {
+			compiled = append(compiled, leaf)
+		}
 	}
 	return Combine(instrument, compiled...), conflicts
 }
-- 
2.43.0


From a484ee068b7947ba78e00f179a13b90eee69b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:45 +0000
Subject: [PATCH 18/27] fix: an attribute without a value does not crash the
 exporter

CopyAttributes panicked for a KeyValue having a key and the zero Value,
which any recording call accepts; it is exported as an empty value.
---
 lightstep/sdk/internal/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/internal/common.go b/lightstep/sdk/internal/common.go
index bd40754..91dbc26 100644
--- a/lightstep/sdk/internal/common.go
+++ b/lightstep/sdk/internal/common.go
@@ -106,7 +106,8 @@ func CopyAttributes(dest pcommon.Map, src attribute.Set) {
 				sl.AppendEmpty().SetStr(v)
 			}
 		default:
-			panic("unhandled case")
+			// The value was never set, e.g., KeyValue{Key: "k"}.
+			dest.PutEmpty(key)
 		}
 	}
 }
-- 
2.43.0


From 050aafca24049d7fbb9d6ba646ccc51625b306e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:45 +0000
Subject: [PATCH 19/27] fix: negative int64 numbers convert to float64 as
 negative

CoerceToFloat64 converted the unsigned representation, so the sum, min
and max of integer histograms were exported as about 1.8e19 when negative.
---
 lightstep/sdk/metric/number/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/number/number.go b/lightstep/sdk/metric/number/number.go
index ee4dd61..28d0272 100644
--- a/lightstep/sdk/metric/number/number.go
+++ b/lightstep/sdk/metric/number/number.go
@@ -40,7 +40,7 @@ type Any interface {
 // CoerceToFloat64 converts Number to float64 according to Kind.
 func (n Number) CoerceToFloat64(k Kind) float64 {
 	if k == Int64Kind {
-		return float64(n)
+		return float64(int64(n))
 	}
 	return math.Float64frombits(uint64(n))
 }
-- 
2.43.0


From c65d9b2dcd41f96c61e445624d02c0ce704e6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:45 +0000
Subject: [PATCH 20/27] fix: min and max of integer min/max/sum/count points
 are converted

The bits of the integers were exported as if they were a float64.
---
 lightstep/sdk/metric/internal/export/export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index a226228..dde7b14 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -252,8 +252,8 @@ func copyMMSCPoints(m pmetric.Metric, inM data.Instrument) {
 			dp.SetSum(t.Sum().CoerceToFloat64(number.Int64Kind))
 			dp.SetCount(t.Count())
 			if t.Count() != 0 {
-				dp.SetMax(number.ToFloat64(t.Max()))
-				dp.SetMin(number.ToFloat64(t.Min()))
+				dp.SetMax(t.Max().CoerceToFloat64(number.Int64Kind))
+				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 		case *minmaxsumcount.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
-- 
2.43.0


From ed84da0b2a3319bdb4190e1654cd6de9e2c6cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 21/27] fix: histograms scraped by Prometheus include negative
 values and all scales

Explicit buckets were made with the logarithm mapping, which does not exist
for scales of zero and below (nil pointer dereference), negative buckets were
left out, and boundaries that overflow were reported as zero.
---
 .../sdk/metric/internal/export/export.go      | 90 +++++++++++++------
 1 file changed, 62 insertions(+), 28 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index dde7b14..876ccc5 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -17,7 +17,10 @@ package export
 import (
 	"context"
 	"errors"
+	"math"
 
+	"github.com/lightstep/go-expohisto/mapping"
+	"github.com/lightstep/go-expohisto/mapping/exponent"
 	"github.com/lightstep/go-expohisto/mapping/logarithm"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
@@ -117,7 +120,7 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 
 		case *histogram.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
@@ -127,52 +130,83 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(number.ToFloat64(t.Min()))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 		default:
 			panic("unhandled case")
 		}
 	}
 }
 
+// bucketMapping returns the mapping of a scale to bucket boundaries.
+func bucketMapping(scale int32) (mapping.Mapping, error) {
+	if scale <= exponent.MaxScale {
+		return exponent.NewMapping(scale)
+	}
+	return logarithm.NewMapping(scale)
+}
+
 // copyExplicitHistogramBuckets converts a Lightstep exponential histogram to an OTel histogram with
 // explicitly defined buckets.
 func copyExplicitHistogramBuckets(
 	sourcePositiveBuckets aggregation.Buckets,
+	sourceNegativeBuckets aggregation.Buckets,
 	sourceZeroCount uint64,
 	sourceScale int32,
 	dest pmetric.HistogramDataPoint,
 ) {
-	// add the zero bucket in: (-Inf, 0]
-	dest.ExplicitBounds().Append(0)
-	dest.BucketCounts().Append(sourceZeroCount)
-
-	if sourcePositiveBuckets.Len() > 0 {
-		positiveOffset := sourcePositiveBuckets.Offset()
-		positiveNumElements := int32(sourcePositiveBuckets.Len())
-		mapping, _ := logarithm.NewMapping(sourceScale)
-		leftBound, _ := mapping.LowerBoundary(positiveOffset)
-
-		for element := int32(0); element < positiveNumElements; element++ {
-			index := element + positiveOffset
-
-			rightBound, _ := mapping.LowerBoundary(index + 1)
-
-			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
-			// This has no count.
-			if element == 0 {
-				dest.ExplicitBounds().Append(leftBound)
-				dest.BucketCounts().Append(0)
-			}
+	// Boundaries that are not representable are left out, in which case the count
+	// belongs to the next bucket.
+	pending := uint64(0)
+	addBucket := func(rightBound float64, err error, count uint64) {
+		pending += count
+		if err != nil || math.IsInf(rightBound, 0) {
+			return
+		}
+		dest.ExplicitBounds().Append(rightBound)
+		dest.BucketCounts().Append(pending)
+		pending = 0
+	}
+
+	boundaries, mappingErr := bucketMapping(sourceScale)
+	lowerBoundary := func(index int32) (float64, error) {
+		if mappingErr != nil {
+			return 0, mappingErr
+		}
+		return boundaries.LowerBoundary(index)
+	}
+
+	if numElements := int32(sourceNegativeBuckets.Len()); numElements > 0 {
+		offset := sourceNegativeBuckets.Offset()
+
+		// The bucket that ends where the first user-defined bucket starts has no count.
+		bound, err := lowerBoundary(offset + numElements)
+		addBucket(-bound, err, 0)
+
+		for element := numElements - 1; element >= 0; element-- {
+			bound, err := lowerBoundary(offset + element)
+			addBucket(-bound, err, sourceNegativeBuckets.At(uint32(element)))
+		}
+	}
+
+	// add the zero bucket in: (..., 0]
+	addBucket(0, nil, sourceZeroCount)
+
+	if numElements := int32(sourcePositiveBuckets.Len()); numElements > 0 {
+		offset := sourcePositiveBuckets.Offset()
 
-			dest.ExplicitBounds().Append(rightBound)
-			dest.BucketCounts().Append(sourcePositiveBuckets.At(uint32(element)))
+		// We have to add a bucket to get from zero to the start of the first user-defined bucket.
+		// This has no count.
+		bound, err := lowerBoundary(offset)
+		addBucket(bound, err, 0)
 
-			leftBound = rightBound
+		for element := int32(0); element < numElements; element++ {
+			bound, err := lowerBoundary(offset + element + 1)
+			addBucket(bound, err, sourcePositiveBuckets.At(uint32(element)))
 		}
 	}
 
-	// There are no elements in the (..., +Inf] bucket.
-	dest.BucketCounts().Append(0)
+	// The elements in the (..., +Inf] bucket.
+	dest.BucketCounts().Append(pending)
 }
 
 func copyExponentialHistogramPoints(m pmetric.Metric, inM data.Instrument) {
-- 
2.43.0


From e860f4d81b924c148ea7f82472a704917d760b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:43 +0000
Subject: [PATCH 22/27] fix: exporting spans does not reorder the attributes of
 the spans

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 93a3048..ac4d059 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -15,6 +15,8 @@
 package otelcol
 
 import (
+	"slices"
+
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"go.opentelemetry.io/collector/pdata/pcommon"
 	"go.opentelemetry.io/collector/pdata/ptrace"
@@ -24,6 +26,12 @@ import (
 	apitrace "go.opentelemetry.io/otel/trace"
 )
 
+// copyAttributes copies a list of attributes, which attribute.NewSet would sort
+// in place, though they belong to the span.
+func copyAttributes(dest pcommon.Map, src []attribute.KeyValue) {
+	internal.CopyAttributes(dest, attribute.NewSet(slices.Clone(src)...))
+}
+
 func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 	for _, event := range events {
 		e1 := dest.AppendEmpty()
@@ -31,7 +39,7 @@ func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 		e1.SetName(event.Name)
 		e1.SetTimestamp(pcommon.NewTimestampFromTime(event.Time))
 
-		internal.CopyAttributes(e1.Attributes(), attribute.NewSet(event.Attributes...))
+		copyAttributes(e1.Attributes(), event.Attributes)
 	}
 }
 
@@ -43,7 +51,7 @@ func copyLinks(dest ptrace.SpanLinkSlice, links []trace.Link) {
 		l1.SetTraceID(pcommon.TraceID(link.SpanContext.TraceID()))
 		l1.TraceState().FromRaw(link.SpanContext.TraceState().String())
 
-		internal.CopyAttributes(l1.Attributes(), attribute.NewSet(link.Attributes...))
+		copyAttributes(l1.Attributes(), link.Attributes)
 	}
 }
 
@@ -113,7 +121,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 		s.Status().SetCode(translateSpanStatusCode(tr.Status().Code))
 		s.Status().SetMessage(tr.Status().Description)
 
-		internal.CopyAttributes(s.Attributes(), attribute.NewSet(tr.Attributes()...))
+		copyAttributes(s.Attributes(), tr.Attributes())
 		copyEvents(s.Events(), tr.Events())
 		copyLinks(s.Links(), tr.Links())
 	}
-- 
2.43.0


From b8f5bc62e58fb7414ead3e4bd43e41ba117b9326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:47 +0000
Subject: [PATCH 23/27] fix: spans are exported under their own resource and
 scope

Spans of scopes with equal names but other versions or schema URLs, and spans
of other resources, were put together with the previous span, and a first span
with an empty scope name crashed the exporter.
---
 .../sdk/trace/exporters/otlp/otelcol/otlp.go  | 39 +++++++++++--------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index ac4d059..95777df 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -22,6 +22,7 @@ import (
 	"go.opentelemetry.io/collector/pdata/ptrace"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/sdk/instrumentation"
 	"go.opentelemetry.io/otel/sdk/trace"
 	apitrace "go.opentelemetry.io/otel/trace"
 )
@@ -86,24 +87,28 @@ func translateSpanKind(in apitrace.SpanKind) ptrace.SpanKind {
 func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 	out := ptrace.NewTraces()
 
-	if len(in) == 0 {
-		return out
-	}
-	rs := out.ResourceSpans().AppendEmpty()
-
-	c.ResourceMap.Get(in[0].Resource()).CopyTo(rs.Resource())
-
-	curName := ""
-	var ss ptrace.ScopeSpans
-	for _, tr := range in {
-		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope name is encountered.
-		if ssName := tr.InstrumentationScope().Name; ssName != curName {
-			curName = ssName
+	var (
+		rs          ptrace.ResourceSpans
+		ss          ptrace.ScopeSpans
+		curResource attribute.Distinct
+		curScope    instrumentation.Scope
+	)
+	for i, tr := range in {
+		// input is list of ReadOnlySpans. Add spans to the same resourcespan and
+		// scopespan until a new resource or scope is encountered.
+		resource := tr.Resource().Equivalent()
+		newResource := i == 0 || resource != curResource
+		if newResource {
+			curResource = resource
+			rs = out.ResourceSpans().AppendEmpty()
+			c.ResourceMap.Get(tr.Resource()).CopyTo(rs.Resource())
+		}
+		if scope := tr.InstrumentationScope(); newResource || scope != curScope {
+			curScope = scope
 			ss = rs.ScopeSpans().AppendEmpty()
-			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
-			ss.Scope().SetName(tr.InstrumentationScope().Name)
-			ss.Scope().SetVersion(tr.InstrumentationScope().Version)
+			ss.SetSchemaUrl(scope.SchemaURL)
+			ss.Scope().SetName(scope.Name)
+			ss.Scope().SetVersion(scope.Version)
 		}
 
 		s := ss.Spans().AppendEmpty()
-- 
2.43.0


From a08085a0e0e3ac232ad7be166e399a000786d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 24/27] fix: an empty metric endpoint disables metrics

As for tracing, and as the validation of the endpoint and the message about it
have it; it was a fatal error.
---
 launcher/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launcher/config.go b/launcher/config.go
index c19ff12..a7b0d74 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -387,7 +387,7 @@ func setupTracing(c Config) (func() error, error) {
 type setupFunc func(Config) (func() error, error)
 
 func setupMetrics(c Config) (func() error, error) {
-	if !c.MetricsEnabled {
+	if !c.MetricsEnabled || c.MetricExporterEndpoint == "" {
 		c.logger.Debugf("metrics are disabled by configuration: no endpoint set")
 		return nil, nil
 	}
-- 
2.43.0


From b00d6e9b25911b92314b14d67b01e911b2d3d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:19 +0000
Subject: [PATCH 25/27] fix: do not share runtime/metrics samples between
 concurrent collections

---
 lightstep/instrumentation/runtime/builtin.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lightstep/instrumentation/runtime/builtin.go b/lightstep/instrumentation/runtime/builtin.go
index a5685de..120d1cc 100644
--- a/lightstep/instrumentation/runtime/builtin.go
+++ b/lightstep/instrumentation/runtime/builtin.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"runtime/metrics"
+	"sync"
 
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
@@ -184,7 +185,13 @@ func (r *builtinRuntime) register(desc *builtinDescriptor) error {
 		})
 	}
 
+	// lock protects samples: readers may collect at the same time.
+	var lock sync.Mutex
+
 	if _, err := r.meter.RegisterCallback(func(ctx context.Context, obs metric.Observer) error {
+		lock.Lock()
+		defer lock.Unlock()
+
 		r.readFunc(samples)
 
 		for idx, samp := range samples {
-- 
2.43.0


From 041d4a49c6e5b2522a6b4ac62570c629ea2462ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:26 +0000
Subject: [PATCH 26/27] fix: an observation that outlives its callback leaves
 an empty series behind

---
 lightstep/sdk/metric/internal/asyncstate/async.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/asyncstate/async.go b/lightstep/sdk/metric/internal/asyncstate/async.go
index ab540bd..696de71 100644
--- a/lightstep/sdk/metric/internal/asyncstate/async.go
+++ b/lightstep/sdk/metric/internal/asyncstate/async.go
@@ -76,6 +76,8 @@ type (
 	}
 )
 
+var errLateObservation = fmt.Errorf("async instrument used after callback return")
+
 func NewState(pipe int) *State {
 	return &State{
 		pipe:  pipe,
@@ -153,7 +155,7 @@ func (obs *Observer) getOrCreate(cs *callbackState, options []metric.ObserveOpti
 func Observe[N number.Any, Traits number.Traits[N]](inst metric.Observable, cs *callbackState, value N, options []metric.ObserveOption) {
 	cb := cs.getCallback()
 	if cb == nil {
-		otel.Handle(fmt.Errorf("async instrument used after callback return"))
+		otel.Handle(errLateObservation)
 		return
 	}
 	if unwrapped, ok := inst.(interface {
@@ -176,6 +178,16 @@ func Observe[N number.Any, Traits number.Traits[N]](inst metric.Observable, cs *
 		return
 	}
 
+	// Hold the lock while recording the observation, so that it is
+	// either part of this collection or comes too late: the callback
+	// may have returned since the check above.
+	cs.lock.Lock()
+	defer cs.lock.Unlock()
+
+	if cs.callback == nil {
+		otel.Handle(errLateObservation)
+		return
+	}
 	if acc := obs.getOrCreate(cs, options); acc != nil {
 		acc.(viewstate.Updater[N]).Update(value)
 	}
-- 
2.43.0


From 0c63fac4fbf5ca47c630f66f885fd35452cf5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:19 +0000
Subject: [PATCH 27/27] fix: limit attributes that have the fingerprint of the
 overflow attributes

---
 lightstep/sdk/metric/internal/syncstate/bykeyvalue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index d8d0e57..990a5ae 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -238,7 +238,9 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (_ *recordKV, l
 		}
 	}
 
-	if fp != overflowAttributesFingerprint && inst.atLimit() {
+	// Note that other attributes may have the fingerprint of the overflow
+	// attributes, they are limited like any other.
+	if inst.atLimit() && !attributesEqual(newRec.attrsList, pipeline.OverflowAttributes) {
 		return nil, false, true
 	}
 
-- 
2.43.0

