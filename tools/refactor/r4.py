# Edits that keep the behaviour, about which primitives of concurrency are used:
# typed atomics, a channel as a lock, copy on write, read-write locks.
P='lightstep/sdk/metric/'
S=P+'internal/syncstate/'
R=[
# typed atomics
(S+'refcount_mapped.go','	value int64\n','	value atomic.Int64\n'),
(S+'refcount_mapped.go','''func newRefcountMapped() refcountMapped {
	return refcountMapped{
		value: 2,
	}
}
''','''func (rm *refcountMapped) init() {
	rm.value.Store(2)
}
'''),
(S+'refcount_mapped.go','atomic.AddInt64(&rm.value, 2)&1','rm.value.Add(2)&1'),
(S+'refcount_mapped.go','	atomic.AddInt64(&rm.value, -2)','	rm.value.Add(-2)'),
(S+'refcount_mapped.go','''	if atomic.LoadInt64(&rm.value) != 0 {
		return false
	}
	return atomic.CompareAndSwapInt64(
		&rm.value,
		0,
		1,
	)''','''	return rm.value.CompareAndSwap(0, 1)'''),
(S+'bykeyvalue.go','''		record: record{
			inst:      inst,
			refMapped: newRefcountMapped(),
		},
	}
''','''		record: record{
			inst: inst,
		},
	}
	newRec.refMapped.init()
'''),
(S+'sync.go','	updateCount uint32','	updateCount atomic.Uint32'),
(S+'sync.go','atomic.LoadUint32(&rec.updateCount)','rec.updateCount.Load()'),
(S+'sync.go','atomic.AddUint32(&rec.updateCount, 1)','rec.updateCount.Add(1)'),
# once, by hand
(S+'sync.go','''	once sync.Once

	// accum''','''	initLock sync.Mutex
	ready    atomic.Bool

	// accum'''),
(S+'sync.go','''	rec.once.Do(rec.initialize)
	return rec.accumulatorUnsafe''','''	if !rec.ready.Load() {
		rec.initLock.Lock()
		if !rec.ready.Load() {
			rec.initialize()
			rec.ready.Store(true)
		}
		rec.initLock.Unlock()
	}
	return rec.accumulatorUnsafe'''),
# gauge
(P+'aggregator/gauge/gauge.go','''	sequenceVar uint64 = initialSequence
''','''	sequenceVar = func() *atomic.Uint64 {
		v := new(atomic.Uint64)
		v.Store(initialSequence)
		return v
	}()
'''),
(P+'aggregator/gauge/gauge.go','atomic.AddUint64(&sequenceVar, 1)','sequenceVar.Add(1)'),
# the producer's lock is a channel
(P+'producer.go','	lock        sync.Mutex\n','	lock        chan struct{}\n'),
(P+'producer.go','	"sync"\n',''),
(P+'producer.go','''	return &providerProducer{
''','''	return &providerProducer{
		lock:        make(chan struct{}, 1),
'''),
(P+'producer.go','''	pp.lock.Lock()
	defer pp.lock.Unlock()
''','''	pp.lock <- struct{}{}
	defer func() { <-pp.lock }()
'''),
# the callbacks are copied on write and read without the lock
(P+'meter.go','	callbacks  []*asyncstate.Callback\n','	callbacks  atomic.Pointer[[]*asyncstate.Callback]\n'),
(P+'meter.go','	"sync"\n','	"sync"\n	"sync/atomic"\n'),
(P+'meter.go','''		m.callbacks = append(m.callbacks, cb)
''','''		m.setCallbacks(append(m.getCallbacks(), cb))
'''),
(P+'meter.go','''	cbs := make([]*asyncstate.Callback, 0, len(mr.meter.callbacks))

	for _, cb := range mr.meter.callbacks {''','''	old := mr.meter.getCallbacks()
	cbs := make([]*asyncstate.Callback, 0, len(old))

	for _, cb := range old {'''),
(P+'meter.go','	mr.meter.callbacks = cbs\n','	mr.meter.setCallbacks(cbs)\n'),
(P+'meter.go','''// Unregister prevents''','''func (m *meter) getCallbacks() []*asyncstate.Callback {
	p := m.callbacks.Load()
	if p == nil {
		return nil
	}
	return append([]*asyncstate.Callback(nil), *p...)
}

func (m *meter) setCallbacks(cbs []*asyncstate.Callback) {
	m.callbacks.Store(&cbs)
}

// Unregister prevents'''),
(P+'producer.go','''	callbacks := m.callbacks
	m.lock.Unlock()
''','''	callbacks := m.getCallbacks()
	m.lock.Unlock()
'''),
# read-write locks
(P+'internal/asyncstate/callback.go','	lock sync.Mutex\n','	lock sync.RWMutex\n'),
(P+'internal/asyncstate/callback.go','''func (cs *callbackState) getCallback() *Callback {
	cs.lock.Lock()
	defer cs.lock.Unlock()''','''func (cs *callbackState) getCallback() *Callback {
	cs.lock.RLock()
	defer cs.lock.RUnlock()'''),
(P+'internal/asyncstate/async.go','''	cs.lock.Lock()
	defer cs.lock.Unlock()

	if cs.callback == nil''','''	cs.lock.RLock()
	defer cs.lock.RUnlock()

	if cs.callback == nil'''),
(P+'provider.go','	lock      sync.Mutex\n','	lock      sync.RWMutex\n'),
(P+'provider.go','''func (mp *MeterProvider) getOrdered() []*meter {
	mp.lock.Lock()
	defer mp.lock.Unlock()''','''func (mp *MeterProvider) getOrdered() []*meter {
	mp.lock.RLock()
	defer mp.lock.RUnlock()'''),
(P+'aggregator/gauge/gauge.go','		lock  sync.Mutex\n','		lock  sync.RWMutex\n'),
(P+'aggregator/gauge/gauge.go','''func (Methods[N, Traits]) Copy(from, to *State[N, Traits]) {
	from.lock.Lock()
	defer from.lock.Unlock()''','''func (Methods[N, Traits]) Copy(from, to *State[N, Traits]) {
	from.lock.RLock()
	defer from.lock.RUnlock()'''),
# doevery: look before locking
(P+'internal/doevery/doevery.go','	mu sync.Mutex\n','	mu sync.RWMutex\n'),
(P+'internal/doevery/doevery.go','''		mu.Lock()
		defer mu.Unlock()

		prev''','''		mu.RLock()
		last, seen := mostRecentInvocationMap[key]
		mu.RUnlock()
		if seen && time.Since(last) <= dur {
			return false
		}

		mu.Lock()
		defer mu.Unlock()

		prev'''),
# the accumulator's lock by pointer, the count by its own helper
(P+'internal/viewstate/accumulators.go','	syncLock sync.Mutex\n','	syncLock *sync.Mutex\n'),
(P+'internal/viewstate/accumulators.go','	sc := &syncAccumulator[N, Storage, Methods]{}\n','	sc := &syncAccumulator[N, Storage, Methods]{syncLock: new(sync.Mutex)}\n'),
# host and runtime: a channel as lock
('lightstep/instrumentation/host/host.go','''		lock sync.Mutex
''','''		lock = make(chan struct{}, 1)
'''),
('lightstep/instrumentation/host/host.go','''	lock.Lock()
	defer lock.Unlock()

	''','''	lock <- struct{}{}
	defer func() { <-lock }()

	'''),
('lightstep/instrumentation/host/host.go','''			lock.Lock()
			defer lock.Unlock()
''','''			lock <- struct{}{}
			defer func() { <-lock }()
'''),
('lightstep/instrumentation/host/host.go','''	"sync"\n''',''),
('lightstep/instrumentation/runtime/builtin.go','	var lock sync.Mutex\n','	var lock sync.RWMutex\n'),
]
