# Edits that keep the behaviour: all are applied together and every check must
# stay quiet.
P='lightstep/sdk/metric/'
I='lightstep/instrumentation/'
R=[
# histogram: no defer, reads in another order
(P+'aggregator/histogram/histogram.go',"""	agg.lock.Lock()
	defer agg.lock.Unlock()
	agg.Histogram.Update(number)
""","""	agg.locked(func() { agg.Histogram.Update(number) })
"""),
(P+'aggregator/histogram/histogram.go',"""	to.Histogram.Clear()

	from.lock.Lock()
	defer from.lock.Unlock()
	from.Histogram.Swap(&to.Histogram)
""","""	from.lock.Lock()
	to.Histogram.Clear()
	from.Histogram.Swap(&to.Histogram)
	from.lock.Unlock()
"""),
(P+'aggregator/histogram/histogram.go',"""	to.lock.Lock()
	defer to.lock.Unlock()
	to.Histogram.MergeFrom(&from.Histogram)
}
""","""	to.locked(func() { to.Histogram.MergeFrom(&from.Histogram) })
}

// locked calls f with the lock held.
func (h *Histogram[N, Traits]) locked(f func()) {
	h.lock.Lock()
	defer h.lock.Unlock()
	f()
}
"""),
# views
(P+'view/view.go',"""	standard := []Option{
		WithDefaultAggregationKindSelector(StandardAggregationKind),
		WithDefaultAggregationTemporalitySelector(StandardTemporality),
		WithDefaultAggregationConfigSelector(StandardConfigForPerformance(perf)),
	}
	var cfg Config
	for _, option := range append(standard, options...) {
		cfg = option.apply(cfg)
	}
	return cfg
""","""	var cfg Config
	apply := func(opts ...Option) {
		for i := range opts {
			cfg = opts[i].apply(cfg)
		}
	}
	apply(
		WithDefaultAggregationConfigSelector(StandardConfigForPerformance(perf)),
		WithDefaultAggregationTemporalitySelector(StandardTemporality),
		WithDefaultAggregationKindSelector(StandardAggregationKind),
	)
	apply(options...)
	return cfg
"""),
# host: helpers and loops
(I+'host/host.go',"""			hostTime := hostTimeSlice[0]
			obs.ObserveFloat64(hostCPUTime, hostTime.User, AttributeCPUTimeUser...)
			obs.ObserveFloat64(hostCPUTime, hostTime.System, AttributeCPUTimeSystem...)

			// Note: "other" is the sum of all other known states.
			other := hostTime.Nice +
				hostTime.Iowait +
				hostTime.Irq +
				hostTime.Softirq +
				hostTime.Steal +
				hostTime.Guest +
				hostTime.GuestNice

			obs.ObserveFloat64(hostCPUTime, other, AttributeCPUTimeOther...)
			obs.ObserveFloat64(hostCPUTime, hostTime.Idle, AttributeCPUTimeIdle...)
""","""			hostTime := &hostTimeSlice[0]
			for _, st := range []struct {
				seconds float64
				attrs   []metric.ObserveOption
			}{
				{hostTime.Idle, AttributeCPUTimeIdle},
				{otherTime(hostTime), AttributeCPUTimeOther},
				{hostTime.User, AttributeCPUTimeUser},
				{hostTime.System, AttributeCPUTimeSystem},
			} {
				obs.ObserveFloat64(hostCPUTime, st.seconds, st.attrs...)
			}
"""),
(I+'host/host.go',"""func (h *host) register() error {
""","""// otherTime is the sum of all other known states.
func otherTime(t *cpu.TimesStat) float64 {
	sum := 0.0
	for _, x := range []float64{t.Nice, t.Iowait, t.Irq, t.Softirq, t.Steal, t.Guest, t.GuestNice} {
		sum += x
	}
	return sum
}

func (h *host) register() error {
"""),
(I+'host/host.go',"""			obs.ObserveFloat64(hostMemoryUtilization, float64(vmStats.Used)/float64(vmStats.Total), AttributeMemoryUsed...)
			obs.ObserveFloat64(hostMemoryUtilization, float64(vmStats.Available)/float64(vmStats.Total), AttributeMemoryAvailable...)
""","""			total := float64(vmStats.Total)
			share := func(n uint64) float64 { return float64(n) / total }
			obs.ObserveFloat64(hostMemoryUtilization, share(vmStats.Available), AttributeMemoryAvailable...)
			obs.ObserveFloat64(hostMemoryUtilization, share(vmStats.Used), AttributeMemoryUsed...)
"""),
# cputime
(I+'cputime/cputime.go',"""			processUser, processSystem, uptime := c.getProcessTimes(ctx)

			// Uptime
			obs.ObserveFloat64(processUptime, uptime)

			// Process CPU time
			obs.ObserveFloat64(processCPUTime, processUser, AttributeCPUTimeUser...)
			obs.ObserveFloat64(processCPUTime, processSystem, AttributeCPUTimeSystem...)
			return nil
""","""			user, system, up := c.getProcessTimes(ctx)

			obs.ObserveFloat64(processCPUTime, system, AttributeCPUTimeSystem...)
			obs.ObserveFloat64(processCPUTime, user, AttributeCPUTimeUser...)
			obs.ObserveFloat64(processUptime, up)
			return nil
"""),
# periodic: a channel in place of the wait group, the ticker is stopped
(P+'periodic.go',"""	pr.wait.Add(1)

	go pr.start(ctx)
""","""	pr.done = make(chan struct{})

	go pr.start(ctx, pr.done)
"""),
(P+'periodic.go',"""func (pr *PeriodicReader) start(ctx context.Context) {
	defer pr.wait.Done()
	ticker := time.NewTicker(pr.interval)
	for {

		select {
		case <-ctx.Done():
			return
		case <-ticker.C:
			if err := pr.collectWithTimeout(ctx, pr.exporter.ExportMetrics); err != nil {
				otel.Handle(err)
			}
		}
	}
}
""","""func (pr *PeriodicReader) start(ctx context.Context, done chan<- struct{}) {
	ticker := time.NewTicker(pr.interval)
	defer func() {
		ticker.Stop()
		close(done)
	}()
	for pr.again(ctx, ticker.C) {
		err := pr.collectWithTimeout(ctx, pr.exporter.ExportMetrics)
		if err == nil {
			continue
		}
		otel.Handle(err)
	}
}

// again waits for the next period.
func (pr *PeriodicReader) again(ctx context.Context, tick <-chan time.Time) bool {
	select {
	case <-tick:
		return true
	case <-ctx.Done():
		return false
	}
}
"""),
(P+'periodic.go',"""	pr.stop()
	pr.wait.Wait()
""","""	pr.stop()
	<-pr.done
"""),
# doevery: a sync.Map
(P+'internal/doevery/doevery.go',"""		prevInvocation, ok := mostRecentInvocationMap[key]

		invoking := !ok || time.Since(prevInvocation) > dur
		if invoking {
			mostRecentInvocationMap[key] = time.Now()
		}
		return invoking
	}()

	if !shouldInvoke {
		// Just return early, nothing to change.
		return
	}

	// Invoke. We already updated the time.
	f()
""","""		if last, known := mostRecentInvocationMap[key]; known && time.Since(last) <= dur {
			return false
		}
		mostRecentInvocationMap[key] = time.Now()
		return true
	}()

	// We already updated the time.
	if shouldInvoke {
		f()
	}
"""),
# provider
(P+'provider.go',"""	m := mp.meters[lib]
	if m != nil {
		return m
	}
	m = &meter{
		provider:  mp,
		library:   lib,
		byDesc:    map[sdkinstrument.Descriptor]interface{}{},
		compilers: pipeline.NewRegister[*viewstate.Compiler](len(mp.cfg.readers)),
	}
	for pipe := range m.compilers {
		m.compilers[pipe] = viewstate.New(lib, mp.views[pipe])
	}
	mp.ordered = append(mp.ordered, m)
	mp.meters[lib] = m
	return m
}
""","""	if m, has := mp.meters[lib]; has {
		return m
	}
	m := mp.newMeter(lib)
	mp.meters[lib] = m
	mp.ordered = append(mp.ordered, m)
	return m
}

func (mp *MeterProvider) newMeter(lib instrumentation.Scope) *meter {
	compilers := pipeline.NewRegister[*viewstate.Compiler](len(mp.cfg.readers))
	for pipe, v := range mp.views {
		compilers[pipe] = viewstate.New(lib, v)
	}
	return &meter{
		provider:  mp,
		library:   lib,
		byDesc:    map[sdkinstrument.Descriptor]interface{}{},
		compilers: compilers,
	}
}
"""),
(P+'provider.go',"""	mp.lock.Lock()
	meters := mp.meters
	mp.meters = nil
	mp.lock.Unlock()

	if meters == nil {
		return ErrAlreadyShutdown
	}
""","""	if !mp.close() {
		return ErrAlreadyShutdown
	}
"""),
(P+'provider.go',"""// getOrdered returns meters in the order they were registered.
func (mp *MeterProvider) getOrdered() []*meter {
	mp.lock.Lock()
	defer mp.lock.Unlock()
	return mp.ordered
}""","""// close returns true the first time.
func (mp *MeterProvider) close() bool {
	mp.lock.Lock()
	defer mp.lock.Unlock()
	first := mp.meters != nil
	mp.meters = nil
	return first
}

// getOrdered returns meters in the order they were registered.
func (mp *MeterProvider) getOrdered() []*meter {
	mp.lock.Lock()
	l := mp.ordered
	mp.lock.Unlock()
	return l
}"""),
# async
(P+'internal/asyncstate/async.go',"""	imap, has := cs.state.store[obs]

	if !has {
		imap = map[attribute.Set]viewstate.Accumulator{}
		cs.state.store[obs] = imap
	}

	ocfg := metric.NewObserveConfig(options)
	aset := ocfg.Attributes()
	aset = attribute.NewSet(obs.performance.TruncateAttributes(aset.ToSlice())...)

	se, has := imap[aset]
	if !has {
		se = comp.NewAccumulator(aset)
		imap[aset] = se
	}
	return se
""","""	ocfg := metric.NewObserveConfig(options)
	given := ocfg.Attributes()
	aset := attribute.NewSet(obs.performance.TruncateAttributes(given.ToSlice())...)

	accs := cs.state.store[obs]
	if acc, ok := accs[aset]; ok {
		return acc
	}
	if accs == nil {
		accs = make(map[attribute.Set]viewstate.Accumulator, 4)
		cs.state.store[obs] = accs
	}
	acc := comp.NewAccumulator(aset)
	accs[aset] = acc
	return acc
"""),
(P+'internal/viewstate/collectors.go',"""		// Compute the difference.
		pval, has := p.prior[set]

		if set == pipeline.OverflowAttributeSet {
			ofe = entry
		}
		if has {
			// This does `*pval := *storage - *pval`
			methods.SubtractSwap(&pval.storage, &entry.storage)

			// Skip the series if it has not changed.
			if !methods.HasChange(&pval.storage) {
				continue
			}
			entry = pval
		}
		p.appendPoint(ioutput, set, &entry.storage,""","""		if set == pipeline.OverflowAttributeSet {
			ofe = entry
		}
		diff := entry
		if pval := p.prior[set]; pval != nil {
			// This does `*pval := *storage - *pval`
			methods.SubtractSwap(&pval.storage, &entry.storage)

			if diff = pval; !methods.HasChange(&diff.storage) {
				continue // the series has not changed
			}
		}
		p.appendPoint(ioutput, set, &diff.storage,"""),
# traces: a function per span, spans grouped by map
('lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go',"""	var (
		rs          ptrace.ResourceSpans
		ss          ptrace.ScopeSpans
		curResource attribute.Distinct
		curScope    instrumentation.Scope
	)
	for i, tr := range in {
		// input is list of ReadOnlySpans. Add spans to the same resourcespan and
		// scopespan until a new resource or scope is encountered.
		resource := tr.Resource().Equivalent()
		newResource := i == 0 || resource != curResource
		if newResource {
			curResource = resource
			rs = out.ResourceSpans().AppendEmpty()
			c.ResourceMap.Get(tr.Resource()).CopyTo(rs.Resource())
		}
		if scope := tr.InstrumentationScope(); newResource || scope != curScope {
			curScope = scope
			ss = rs.ScopeSpans().AppendEmpty()
			ss.SetSchemaUrl(scope.SchemaURL)
			ss.Scope().SetName(scope.Name)
			ss.Scope().SetVersion(scope.Version)
		}

		s := ss.Spans().AppendEmpty()
""","""	type scopeKey struct {
		resource attribute.Distinct
		scope    instrumentation.Scope
	}
	resources := map[attribute.Distinct]ptrace.ScopeSpansSlice{}
	scopes := map[scopeKey]ptrace.SpanSlice{}
	for _, tr := range in {
		key := scopeKey{tr.Resource().Equivalent(), tr.InstrumentationScope()}
		byScope, has := resources[key.resource]
		if !has {
			rs := out.ResourceSpans().AppendEmpty()
			c.ResourceMap.Get(tr.Resource()).CopyTo(rs.Resource())
			byScope = rs.ScopeSpans()
			resources[key.resource] = byScope
		}
		spans, has := scopes[key]
		if !has {
			ss := byScope.AppendEmpty()
			ss.SetSchemaUrl(key.scope.SchemaURL)
			ss.Scope().SetName(key.scope.Name)
			ss.Scope().SetVersion(key.scope.Version)
			spans = ss.Spans()
			scopes[key] = spans
		}

		s := spans.AppendEmpty()
"""),
('lightstep/sdk/trace/exporters/otlp/otelcol/client.go',"""	success := err == nil
	var state string
	if success {
		state = "ok"
	} else if errors.Is(err, context.Canceled) {
		state = "canceled"
	} else if errors.Is(err, context.DeadlineExceeded) {
		state = "timeout"
	} else {
		state = "error"
	}
""","""	success := err == nil
	state := "error"
	switch {
	case success:
		state = "ok"
	case errors.Is(err, context.Canceled):
		state = "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		state = "timeout"
	}
"""),
(P+'periodic.go','	wait     sync.WaitGroup\n','	done     chan struct{}\n'),
]
