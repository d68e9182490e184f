# Edits that keep the behaviour: all are applied together and every check must
# stay quiet.
P='lightstep/sdk/metric/'
R=[
# syncstate: kept records are gathered first and linked afterwards
(P+'internal/syncstate/sync.go',"""		var head *recordKV
		var tail *recordKV
""","""		var kept []*recordKV
"""),
(P+'internal/syncstate/sync.go',"""			if inst.collect(key, rec) {
				if head == nil {
					// The first time a record will be kept,
					// it becomes the head and tail.
					head = rec
					tail = rec
				} else {
					// Subsequently, update the tail of the
					// list.  Note that this creates a
					// temporarily invalid list will be
					// repaired outside the loop, below.
					tail.next = rec
					tail = rec
				}
			} else {
				inst.numRecords--
			}
		}

		// When no records are kept, delete the map entry.
		if head == nil {
			delete(inst.currentFP, key)
			continue
		}

		// Otherwise, terminate the list that was built.
		tail.next = nil

		if head != reclist {
			// If the head changes, update the map.
			inst.currentFP[key] = head
		}
	}
}
""","""			if !inst.collect(key, rec) {
				inst.numRecords--
				continue
			}
			kept = append(kept, rec)
		}

		inst.keep(key, kept)
	}
}

// keep makes the list for a fingerprint.
func (inst *Observer) keep(fp uint64, recs []*recordKV) {
	if len(recs) == 0 {
		delete(inst.currentFP, fp)
		return
	}
	var next *recordKV
	for i := len(recs) - 1; i >= 0; i-- {
		recs[i].next = next
		next = recs[i]
	}
	inst.currentFP[fp] = next
}
"""),
(P+'internal/syncstate/sync.go',"""	var keyValues []attribute.KeyValue
	if cfg.KeyValues != nil {
		keyValues = cfg.KeyValues
	} else {
		// TODO: This is a new code path for optimization,
		// for now fall back to the slow path.
		keyValues = cfg.Attributes.ToSlice()
	}

	keyValues = inst.performance.TruncateAttributes(keyValues)

	if inst.performance.MeasurementProcessor != nil {
		keyValues = inst.performance.MeasurementProcessor.Process(ctx, keyValues)
	}
	rec := acquireUninitializedKV[N](inst, keyValues)

	defer rec.refMapped.unref()

	rec.readAccumulator().(viewstate.Updater[N]).Update(num)

	// Record was modified.
	atomic.AddUint32(&rec.updateCount, 1)
}
""","""	rec := acquireUninitializedKV[N](inst, inst.attributesOf(ctx, cfg))
	updateRecord(rec, num)
	rec.refMapped.unref()
}

// attributesOf returns the attributes of a measurement.
func (inst *Observer) attributesOf(ctx context.Context, cfg OpConfig) []attribute.KeyValue {
	kvs := cfg.KeyValues
	if kvs == nil {
		kvs = cfg.Attributes.ToSlice()
	}
	kvs = inst.performance.TruncateAttributes(kvs)
	if p := inst.performance.MeasurementProcessor; p != nil {
		return p.Process(ctx, kvs)
	}
	return kvs
}

// updateRecord updates the record and says that it was modified.
func updateRecord[N number.Any](rec *recordKV, num N) {
	acc := rec.readAccumulator()
	acc.(viewstate.Updater[N]).Update(num)
	atomic.AddUint32(&rec.updateCount, 1)
}
"""),
# bykeyvalue: a loop in place of the second call
(P+'internal/syncstate/bykeyvalue.go',"""	overflow := false
	fp, attrs, rec := acquireReadLockedKV(inst, fp, attrs, &overflow)

	if rec != nil {
		return fp, attrs, rec
	}
	// The overflow signal indicates another call is needed w/ the
	// same logic but updated fp and attrs.
	if !overflow {
		// Otherwise, this is the first appearance of an overflow.
		return fp, attrs, nil
	}
	// In which case fp and attrs are now the overflow attributes.
	return acquireReadLockedKV(inst, fp, attrs, &overflow)
}

func acquireReadLockedKV(inst *Observer, fp uint64, attrs []attribute.KeyValue, overflow *bool) (uint64, []attribute.KeyValue, *recordKV) {
	rec := inst.currentFP[fp]

	// Potentially test for hash collisions.
	if !inst.performance.IgnoreCollisions {
		for rec != nil && !attributesEqual(attrs, rec.attrsList) {
			rec = rec.next
		}
	}

	// Existing record case.
	if rec != nil && rec.refMapped.ref() {
		// At this moment it is guaranteed that the
		// record is in the map and will not be removed.
		return fp, attrs, rec
	}

	// Check for overflow after checking for the original
	// attribute set.  Note this means we are performing
	// two map lookups for overflowing attributes and only
	// one lookup if the attribute set was preexisting.
	if !*overflow && inst.atLimit() {
		// Use the overflow attributes, repeat.
		attrs = pipeline.OverflowAttributes
		fp = overflowAttributesFingerprint
		*overflow = true
	}

	return fp, attrs, nil
}
""","""	for try := 0; try < 2; try++ {
		if rec := inst.find(fp, attrs); rec != nil && rec.refMapped.ref() {
			return fp, attrs, rec
		}
		if try == 0 {
			if !inst.atLimit() {
				break
			}
			attrs = pipeline.OverflowAttributes
			fp = overflowAttributesFingerprint
		}
	}
	return fp, attrs, nil
}

// find returns the record for the attributes, if any.  The lock is held.
func (inst *Observer) find(fp uint64, attrs []attribute.KeyValue) *recordKV {
	for rec := inst.currentFP[fp]; rec != nil; rec = rec.next {
		if inst.performance.IgnoreCollisions || attributesEqual(rec.attrsList, attrs) {
			return rec
		}
	}
	return nil
}
"""),
(P+'internal/syncstate/bykeyvalue.go',"""	for oldRec := inst.currentFP[fp]; oldRec != nil; oldRec = oldRec.next {

		if inst.performance.IgnoreCollisions || attributesEqual(oldRec.attrsList, newRec.attrsList) {
			if oldRec.refMapped.ref() {
				return oldRec, true, false
			}
			// in which case, there's been a race
			return nil, false, false
		}
	}
""","""	if old := inst.find(fp, newRec.attrsList); old != nil {
		if !old.refMapped.ref() {
			return nil, false, false
		}
		return old, true, false
	}
"""),
(P+'internal/syncstate/bykeyvalue.go',"""		if a[i].Value.Type() != b[i].Value.Type() {
			return false
		}
		if a[i].Key != b[i].Key {
			return false
		}
		switch a[i].Value.Type() {
		case attribute.INVALID, attribute.BOOL, attribute.INT64, attribute.FLOAT64, attribute.STRING:
			if a[i].Value != b[i].Value {
				return false
			}
		case attribute.BOOLSLICE:
			if !sliceEqual(a[i].Value.AsBoolSlice(), b[i].Value.AsBoolSlice()) {
				return false
			}
		case attribute.INT64SLICE:
			if !sliceEqual(a[i].Value.AsInt64Slice(), b[i].Value.AsInt64Slice()) {
				return false
			}
		case attribute.FLOAT64SLICE:
			if !sliceEqual(a[i].Value.AsFloat64Slice(), b[i].Value.AsFloat64Slice()) {
				return false
			}
		case attribute.STRINGSLICE:
			if !sliceEqual(a[i].Value.AsStringSlice(), b[i].Value.AsStringSlice()) {
				return false
			}
		}

	}
	return true
}
""","""		if a[i].Key != b[i].Key || !valuesEqual(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

// valuesEqual compares type and value.
func valuesEqual(a, b attribute.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Type() {
	case attribute.BOOLSLICE:
		return sliceEqual(a.AsBoolSlice(), b.AsBoolSlice())
	case attribute.INT64SLICE:
		return sliceEqual(a.AsInt64Slice(), b.AsInt64Slice())
	case attribute.FLOAT64SLICE:
		return sliceEqual(a.AsFloat64Slice(), b.AsFloat64Slice())
	case attribute.STRINGSLICE:
		return sliceEqual(a.AsStringSlice(), b.AsStringSlice())
	}
	return a == b
}
"""),
# truncation: the change is computed per attribute
(P+'sdkinstrument/performance.go',"""	// The input belongs to the caller, copy it before the first change.
	copied := false
	modify := func() {
		if !copied {
			attrs = append([]attribute.KeyValue(nil), attrs...)
			copied = true
		}
	}
	for idx, kv := range attrs {
		if len(kv.Key) > int(sizeLimit) {
			modify()
			attrs[idx].Key = kv.Key[:sizeLimit]
		}
		switch attrs[idx].Value.Type() {
		case attribute.STRING:
			s := kv.Value.AsString()
			if len(s) > int(sizeLimit) {
				modify()
				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
			}

		case attribute.STRINGSLICE:
			any := false
			ss := kv.Value.AsStringSlice()
			for jdx := range ss {
				if len(ss[jdx]) > int(sizeLimit) {
					ss[jdx] = ss[jdx][:sizeLimit]
					any = true
				}
			}
			if any {
				modify()
				attrs[idx].Value = attribute.StringSliceValue(ss)
			}
		}
	}
	return attrs
}
""","""	var out []attribute.KeyValue
	for idx, kv := range attrs {
		cut, changed := truncate(kv, int(sizeLimit))
		if !changed {
			continue
		}
		if out == nil {
			// The input belongs to the caller.
			out = make([]attribute.KeyValue, len(attrs))
			copy(out, attrs)
		}
		out[idx] = cut
	}
	if out == nil {
		return attrs
	}
	return out
}

// truncate returns the attribute within the limit, and whether that is another.
func truncate(kv attribute.KeyValue, limit int) (attribute.KeyValue, bool) {
	changed := false
	short := func(s string) string {
		if len(s) <= limit {
			return s
		}
		changed = true
		return s[:limit]
	}
	kv.Key = attribute.Key(short(string(kv.Key)))
	if kv.Value.Type() == attribute.STRING {
		if s := short(kv.Value.AsString()); changed {
			kv.Value = attribute.StringValue(s)
		}
	} else if kv.Value.Type() == attribute.STRINGSLICE {
		in := kv.Value.AsStringSlice()
		list := make([]string, 0, len(in))
		for _, s := range in {
			list = append(list, short(s))
		}
		kv.Value = attribute.StringSliceValue(list)
	}
	return kv, changed
}
"""),
# viewstate: the comparison of outputs in a function, matches and behaviors in one loop
(P+'internal/viewstate/viewstate.go',"""			if inst.Aggregation() != behavior.kind {
				continue
			}
			if inst.Temporality() != behavior.tempo {
				continue
			}
			if inst.Descriptor().Kind.Synchronous() != behavior.desc.Kind.Synchronous() {
				continue
			}

			if inst.Descriptor().Unit != behavior.desc.Unit {
				continue
			}
			if inst.Descriptor().NumberKind != behavior.desc.NumberKind {
				continue
			}
			if !equalConfigs(inst.Config(), behavior.acfg) {
				continue
			}

			// For attribute keys, test for equal nil-ness or equal value.
			instKeys := inst.Keys()
			confKeys := behavior.keysSet
			if (instKeys == nil) != (confKeys == nil) {
				continue
			}
			if instKeys != nil && *instKeys != *confKeys {
				continue
			}
""","""			if !coincide(inst, behavior) {
				continue
			}
"""),
(P+'internal/viewstate/viewstate.go',"""// buildView compiles either""","""// coincide says whether the behavior is the one the instrument has.
func coincide(inst leafInstrument, b singleBehavior) bool {
	d := inst.Descriptor()
	same := d.NumberKind == b.desc.NumberKind &&
		d.Unit == b.desc.Unit &&
		d.Kind.Synchronous() == b.desc.Kind.Synchronous()
	if !same || inst.Temporality() != b.tempo || inst.Aggregation() != b.kind {
		return false
	}
	if !equalConfigs(inst.Config(), b.acfg) {
		return false
	}
	keys := inst.Keys()
	if keys == nil || b.keysSet == nil {
		return keys == b.keysSet
	}
	return keys.Equals(b.keysSet)
}

// buildView compiles either"""),
(P+'internal/viewstate/viewstate.go',"""	var matches []view.ClauseConfig

	for _, view := range v.views.Clauses {
		if !view.Matches(v.library, instrument) {
			continue
		}
		matches = append(matches, view)
	}

	for _, view := range matches {
		akind := view.Aggregation()
""","""	matched := 0

	for _, view := range v.views.Clauses {
		if !view.Matches(v.library, instrument) {
			continue
		}
		matched++
		akind := view.Aggregation()
"""),
(P+'internal/viewstate/viewstate.go',"""	if len(matches) == 0 {
		modified""","""	if matched == 0 {
		modified"""),
# the limit
(P+'internal/viewstate/base_instrument.go',"""	} else if sz == lim-1 {
		// If this is not the overflow set, check whether the
		// overflow aggregator already exists.  If it already
		// exists, allow this attribute set to be created,
		// otherwise force creation of the overflow attribute
		// set.
		if kvs != overflowAttributeSet {
			if _, overflowed := metric.data[overflowAttributeSet]; !overflowed {
				// First overflow event.
				kvs = overflowAttributeSet
			}
			// If not overflowed, the overflow aggregator
			// already exists, means we're creating the
			// last aggregator until existing attribute
			// sets fall out of use.
		}
	}
""","""	} else if _, overflowed := metric.data[overflowAttributeSet]; sz == lim-1 && !overflowed {
		// The last place is for the overflow.
		kvs = overflowAttributeSet
	}
"""),
(P+'internal/viewstate/base_instrument.go',"""	entry = &storageHolder[Storage, Auxiliary]{}
	methods.Init(&entry.storage, metric.acfg)
	metric.data[kvs] = entry
	return entry
""","""	created := new(storageHolder[Storage, Auxiliary])
	methods.Init(&created.storage, metric.acfg)
	metric.data[kvs] = created
	return created
"""),
# accumulators: snapshot of all first, reverse order
(P+'internal/viewstate/accumulators.go',"""	for _, coll := range a {
		coll.(Updater[N]).Update(value)
	}
""","""	for i := len(a) - 1; i >= 0; i-- {
		a[i].(Updater[N]).Update(value)
	}
"""),
# minmaxsumcount
(P+'aggregator/minmaxsumcount/minmaxsumcount.go',"""	to.lock.Lock()
	defer to.lock.Unlock()

	if from.fields.count != 0 {
		if to.fields.count == 0 {
			to.fields.min = from.fields.min
			to.fields.max = from.fields.max
		} else {
			if from.fields.min < to.fields.min {
				to.fields.min = from.fields.min
			}
			if from.fields.max > to.fields.max {
				to.fields.max = from.fields.max
			}
		}
	}

	to.fields.sum += from.fields.sum
	to.fields.count += from.fields.count
}
""","""	if from.count == 0 {
		return
	}
	to.lock.Lock()
	defer to.lock.Unlock()

	if to.count == 0 {
		to.fields = from.fields
		return
	}
	to.min, to.max = min(to.min, from.min), max(to.max, from.max)
	to.sum += from.sum
	to.count += from.count
}
"""),
# meter: early returns
(P+'meter.go',"""	cb, err := asyncstate.NewCallback(instruments, m, function)

	var reg metric.Registration
	if err == nil {
		m.lock.Lock()
		defer m.lock.Unlock()
		m.callbacks = append(m.callbacks, cb)
		reg = &metricRegistration{
			meter:    m,
			callback: cb,
		}
	}
	return reg, err
}
""","""	cb, err := asyncstate.NewCallback(instruments, m, function)
	if err != nil {
		return nil, err
	}
	reg := &metricRegistration{callback: cb, meter: m}

	m.lock.Lock()
	m.callbacks = append(m.callbacks, cb)
	m.lock.Unlock()

	return reg, nil
}
"""),
(P+'meter.go',"""	mr.meter.lock.Lock()
	defer mr.meter.lock.Unlock()

	// Collection uses a shallow copy of the list without holding the
	// lock, therefore build a new list instead of modifying it.
	cbs := make([]*asyncstate.Callback, 0, len(mr.meter.callbacks))

	for _, cb := range mr.meter.callbacks {
		if cb != mr.callback {
			cbs = append(cbs, cb)
		}
	}

	mr.meter.callbacks = cbs

	mr.callback = nil

	return nil
}
""","""	mr.meter.remove(mr.callback)
	mr.callback = nil
	return nil
}

// remove takes a callback off the list, which collections use a copy of.
func (m *meter) remove(callback *asyncstate.Callback) {
	m.lock.Lock()
	defer m.lock.Unlock()

	var left []*asyncstate.Callback
	for i, cb := range m.callbacks {
		if cb == callback {
			left = append(left, m.callbacks[:i]...)
			m.callbacks = append(left, m.callbacks[i+1:]...)
			return
		}
	}
}
"""),
# export: one function for the extremes, state by function
(P+'internal/export/export.go',"""	success := err == nil
	var state string
	if success {
		state = "ok"
	} else if errors.Is(err, context.Canceled) {
		state = "canceled"
	} else if errors.Is(err, context.DeadlineExceeded) {
		state = "timeout"
	} else {
		state = "error"
	}

	var attrs = []attribute.KeyValue{
		attribute.Bool("success", success),
		attribute.String("state", state),
	}
""","""	state := stateOf(err)

	attrs := []attribute.KeyValue{
		attribute.String("state", state),
		attribute.Bool("success", err == nil),
	}
"""),
(P+'internal/export/export.go',"""func ExportMetrics(""","""// stateOf says how an export ended.
func stateOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		return "timeout"
	}
	return "error"
}

func ExportMetrics("""),
(P+'internal/export/export.go',"""	span.SetAttributes(append(attrs, attribute.Int64("num_points", points))...)
	if err == nil {
		span.SetStatus(otelcodes.Ok, state)
	} else {
		span.SetStatus(otelcodes.Error, err.Error())
	}
	return err
""","""	span.SetAttributes(attribute.Int64("num_points", points))
	span.SetAttributes(attrs...)
	if err != nil {
		span.SetStatus(otelcodes.Error, err.Error())
		return err
	}
	span.SetStatus(otelcodes.Ok, state)
	return nil
"""),
(P+'internal/export/export.go',"""	if src.Len() == 0 {
		return
	}
	dest.SetOffset(src.Offset())
	dest.BucketCounts().EnsureCapacity(int(src.Len()))
	for i := uint32(0); i < src.Len(); i++ {
		dest.BucketCounts().Append(src.At(i))
	}
""","""	counts := make([]uint64, src.Len())
	for i := range counts {
		counts[i] = src.At(uint32(i))
	}
	if len(counts) != 0 {
		dest.SetOffset(src.Offset())
		dest.BucketCounts().FromRaw(counts)
	}
"""),
# the exporter: one list of errors
(P+'exporters/otlp/otelcol/client.go',"""	var err error
	if err1 := c.ForceFlushMetrics(ctx, data); err1 != nil {
		err = multierr.Append(err, err1)
	}
	if err2 := c.batcher.Shutdown(ctx); err2 != nil {
		err = multierr.Append(err, err2)
	}
	if err3 := c.exporter.Shutdown(ctx); err3 != nil {
		err = multierr.Append(err, err3)
	}
	return err
""","""	return multierr.Combine(
		c.ExportMetrics(ctx, data),
		c.batcher.Shutdown(ctx),
		c.exporter.Shutdown(ctx),
	)
"""),
# pipelines: a table of preferences, the period in a function
('pipelines/metrics.go',"""	period := 30 * time.Second

	if c.ReportingPeriod != "" {
		period, err = time.ParseDuration(c.ReportingPeriod)
		if err != nil {
			return nil, fmt.Errorf("invalid metric reporting period: %v", err)
		}
		if period <= 0 {
			return nil, fmt.Errorf("invalid metric reporting period: %v", c.ReportingPeriod)
		}
	}
""","""	period, err := c.period()
	if err != nil {
		return nil, fmt.Errorf("invalid metric reporting period: %v", err)
	}
"""),
('pipelines/metrics.go',"""func NewMetricsPipeline(c PipelineConfig) (func() error, error) {
	var err error
""","""// period is the interval of the reader.
func (c PipelineConfig) period() (time.Duration, error) {
	if c.ReportingPeriod == "" {
		return 30 * time.Second, nil
	}
	d, err := time.ParseDuration(c.ReportingPeriod)
	if err == nil && d <= 0 {
		err = fmt.Errorf("%v is not positive", c.ReportingPeriod)
	}
	return d, err
}

func NewMetricsPipeline(c PipelineConfig) (func() error, error) {
"""),
('pipelines/metrics.go',"""	syncPref := aggregation.CumulativeTemporality
	asyncPref := aggregation.CumulativeTemporality

	switch lower := strings.ToLower(c.TemporalityPreference); lower {
	case "delta":
		// Delta means exercising the cumulative-to-delta
		// export path.  This is an unusual setting for
		// Lightstep users to choose.
		syncPref = aggregation.DeltaTemporality
		asyncPref = aggregation.DeltaTemporality
	case "stateless", "lowmemory":
		syncPref = aggregation.DeltaTemporality
	case "", "cumulative":
	default:
		return nil, fmt.Errorf("invalid temporality preference: %v", c.TemporalityPreference)

	}
	return view""","""	type pref struct{ sync, async aggregation.Temporality }
	const cumulative, delta = aggregation.CumulativeTemporality, aggregation.DeltaTemporality
	prefs, ok := map[string]pref{
		"":           {cumulative, cumulative},
		"cumulative": {cumulative, cumulative},
		"delta":      {delta, delta},
		"stateless":  {delta, cumulative},
		"lowmemory":  {delta, cumulative},
	}[strings.ToLower(c.TemporalityPreference)]
	if !ok {
		return nil, fmt.Errorf("invalid temporality preference: %v", c.TemporalityPreference)
	}
	return view"""),
('pipelines/metrics.go',"""				return syncPref
			default:
				return asyncPref
""","""				return prefs.sync
			default:
				return prefs.async
"""),
# runtime: the observations are prepared as functions
('lightstep/instrumentation/runtime/builtin.go',"""		for idx, samp := range samples {
			switch samp.Value.Kind() {
			case metrics.KindUint64:
				obs.ObserveInt64(instruments[idx].(metric.Int64Observable), int64(samp.Value.Uint64()), instAttrs[idx]...)
			case metrics.KindFloat64:
				obs.ObserveFloat64(instruments[idx].(metric.Float64Observable), samp.Value.Float64(), instAttrs[idx]...)
			default:
				// KindFloat64Histogram (unsupported in OTel) and KindBad
				// (unsupported by runtime/metrics).  Neither should happen
				// if runtime/metrics and the code above are working correctly.
				return fmt.Errorf("invalid runtime/metrics value kind: %v", samp.Value.Kind())
			}
		}
		return nil
""","""		for idx := range samples {
			if err := observeSample(obs, instruments[idx], samples[idx].Value, instAttrs[idx]); err != nil {
				return err
			}
		}
		return nil
"""),
('lightstep/instrumentation/runtime/builtin.go',"""// register parses each""","""// observeSample observes one value that the runtime gave.
func observeSample(obs metric.Observer, inst metric.Observable, value metrics.Value, opts []metric.ObserveOption) error {
	switch kind := value.Kind(); kind {
	case metrics.KindUint64:
		obs.ObserveInt64(inst.(metric.Int64Observable), int64(value.Uint64()), opts...)
	case metrics.KindFloat64:
		obs.ObserveFloat64(inst.(metric.Float64Observable), value.Float64(), opts...)
	default:
		return fmt.Errorf("invalid runtime/metrics value kind: %v", kind)
	}
	return nil
}

// register parses each"""),
]
