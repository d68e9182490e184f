# Edits that keep the behaviour: all are applied together and every check must
# stay quiet.
P='lightstep/sdk/metric/'
R=[
(P+'internal/syncstate/bykeyvalue.go',"""			inst:      inst,
			refMapped: newRefcountMapped(),
		},
	}
""","""			inst: inst,
		},
	}
	newRec.refMapped.start()
"""),
(P+'internal/syncstate/sync.go','	atomic.AddUint32(&rec.updateCount, 1)','	rec.updateCount.Add(1)'),
(P+'internal/syncstate/sync.go','	mods := atomic.LoadUint32(&rec.updateCount)','	mods := rec.updateCount.Load()'),
(P+'internal/syncstate/sync.go','	updateCount uint32\n','	updateCount atomic.Uint32\n'),
(P+'internal/syncstate/refcount_mapped.go','	value int64\n','	value atomic.Int64\n'),
(P+'internal/syncstate/refcount_mapped.go','''func newRefcountMapped() refcountMapped {
	return refcountMapped{
		value: 2,
	}
}''','''func (rm *refcountMapped) start() {
	rm.value.Store(2)
}'''),
(P+'internal/syncstate/refcount_mapped.go','atomic.AddInt64(&rm.value, 2)&1','rm.value.Add(2)&1'),
(P+'internal/syncstate/refcount_mapped.go','atomic.AddInt64(&rm.value, -2)','rm.value.Add(-2)'),
(P+'internal/syncstate/refcount_mapped.go','''	if atomic.LoadInt64(&rm.value) != 0 {
		return false
	}
	return atomic.CompareAndSwapInt64(
		&rm.value,
		0,
		1,
	)''','''	return rm.value.CompareAndSwap(0, 1)'''),
(P+'periodic.go','''	ticker := time.NewTicker(pr.interval)
''','''	ticker := time.NewTicker(pr.interval)
	defer ticker.Stop()
	done := ctx.Done()
'''),
(P+'periodic.go','		case <-ctx.Done():\n			return\n','		case <-done:\n			return\n'),
(P+'internal/doevery/doevery.go','''	shouldInvoke := func() bool {
		mu.Lock()
		defer mu.Unlock()

		prevInvocation, ok := mostRecentInvocationMap[key]

		invoking := !ok || time.Since(prevInvocation) > dur
		if invoking {
			mostRecentInvocationMap[key] = time.Now()
		}
		return invoking
	}()

	if !shouldInvoke {
		// Just return early, nothing to change.
		return
	}

	// Invoke. We already updated the time.
	f()
}''','''	if claim(key, dur) {
		f()
	}
}

// claim tells whether this is the first time in dur, and takes it.
func claim(key invocationKey, dur time.Duration) bool {
	mu.Lock()
	defer mu.Unlock()

	now := time.Now()
	if prev, ok := mostRecentInvocationMap[key]; ok && now.Sub(prev) <= dur {
		return false
	}
	mostRecentInvocationMap[key] = now
	return true
}'''),
(P+'provider.go','''	var err error
	for _, r := range mp.cfg.readers {
		err = multierr.Append(err, r.ForceFlush(ctx))
	}
	return err
}''','''	return mp.everyReader(func(r Reader) error { return r.ForceFlush(ctx) })
}

// everyReader calls f for every reader and returns all errors.
func (mp *MeterProvider) everyReader(f func(Reader) error) error {
	var errs []error
	for _, r := range mp.cfg.readers {
		if err := f(r); err != nil {
			errs = append(errs, err)
		}
	}
	return multierr.Combine(errs...)
}'''),
(P+'internal/asyncstate/callback.go','''	c.function(ctx, cp)
	cp.invalidate()
''','''	defer cp.invalidate()
	c.function(ctx, cp)
'''),
(P+'internal/asyncstate/async.go','''	ocfg := metric.NewObserveConfig(options)
	aset := ocfg.Attributes()
	aset = attribute.NewSet(obs.performance.TruncateAttributes(aset.ToSlice())...)

	se, has := imap[aset]
	if !has {
		se = comp.NewAccumulator(aset)
		imap[aset] = se
	}
	return se
''','''	ocfg := metric.NewObserveConfig(options)
	given := ocfg.Attributes()
	aset := attribute.NewSet(obs.performance.TruncateAttributes(given.ToSlice())...)

	if se := imap[aset]; se != nil {
		return se
	}
	imap[aset] = comp.NewAccumulator(aset)
	return imap[aset]
'''),
(P+'internal/viewstate/collectors.go','''		if methods.HasChange(cpy) {
			continue
		}

''','''		if methods.HasChange(cpy) {
			continue
		}
		unused := numRefs == 0

'''),
(P+'internal/viewstate/collectors.go','''		if numRefs == 0 {
			delete(p.data, set)
''','''		if unused {
			delete(p.data, set)
'''),
(P+'internal/export/export.go','''	for _, inS := range in.Scopes {
		sm := rm.ScopeMetrics().AppendEmpty()
''','''	rm.ScopeMetrics().EnsureCapacity(len(in.Scopes))
	for i := range in.Scopes {
		inS := &in.Scopes[i]
		sm := rm.ScopeMetrics().AppendEmpty()
'''),
(P+'aggregator/gauge/gauge.go','''	if from.seq != 0 && from.seq > to.seq && from.seq > to.moved {
		to.value = from.value
		to.seq = from.seq
	}''','''	newest := to.seq
	if to.moved > newest {
		newest = to.moved
	}
	if from.seq <= newest {
		return
	}
	to.value, to.seq = from.value, from.seq'''),
('lightstep/sdk/internal/common.go','''			sl := dest.PutEmptySlice(key)
			sl.EnsureCapacity(len(inA.Value.AsStringSlice()))
			for _, v := range inA.Value.AsStringSlice() {
				sl.AppendEmpty().SetStr(v)
			}''','''			strs := inA.Value.AsStringSlice()
			sl := dest.PutEmptySlice(key)
			for i := 0; i < len(strs); i++ {
				sl.AppendEmpty().SetStr(strs[i])
			}'''),
('pipelines/trace.go','''	for _, key := range c.Propagators {
		prop := propagatorsMap[key]
		if prop != nil {
			props = append(props, prop)
		}
	}''','''	for _, key := range c.Propagators {
		if prop, known := propagatorsMap[key]; known {
			props = append(props, prop)
		}
	}'''),
('launcher/config.go','''	for _, setup := range []setupFunc{setupTracing, setupMetrics} {
		shutdown, err := setup(c)
		if err != nil {
			c.logger.Fatalf("setup error: %v", err)
			continue
		}
		if shutdown != nil {
			ls.shutdownFuncs = append(ls.shutdownFuncs, shutdown)
		}
	}
	return ls''','''	ls.add(setupTracing)
	ls.add(setupMetrics)
	return ls
}

// add sets up one signal.
func (ls *Launcher) add(setup setupFunc) {
	switch shutdown, err := setup(ls.config); {
	case err != nil:
		ls.config.logger.Fatalf("setup error: %v", err)
	case shutdown != nil:
		ls.shutdownFuncs = append(ls.shutdownFuncs, shutdown)
	}'''),
]
R=[x for x in R if x]
