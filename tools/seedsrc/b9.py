import os
_d = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/seedsrc'
n3 = {'__file__': os.path.join(_d, 'b3.py')}
exec(open(os.path.join(_d, 'b3.py')).read(), n3)
head, M, mut, NUM = n3['head'], n3['M'], n3['mut'], n3['NUM']

SEEDS = [
 dict(id="c05-filter-memo", property="C05", pkg=M,
  edits=[(M+"/internal/viewstate/base_instrument.go", '''	if !invalidFilter && metric.keysFilter == nil {
		return kvs
	}
	var res attribute.Set
	if !invalidFilter {
		res, _ = kvs.Filter(*metric.keysFilter)
''', '''	if !invalidFilter && metric.keysFilter == nil {
		return kvs
	}
	var res attribute.Set
	if !invalidFilter {
		// Filtering is expensive, and the sets repeat.
		enc := kvs.Encoded(attribute.DefaultEncoder())
		if memo, ok := metric.filtered.Load(enc); ok {
			return memo.(attribute.Set)
		}
		res, _ = kvs.Filter(*metric.keysFilter)
		metric.filtered.Store(enc, res)
'''), (M+"/internal/viewstate/base_instrument.go", '''	keysFilter *attribute.Filter
}
''', '''	keysFilter *attribute.Filter

	// filtered maps encoded attributes to what the filter keeps.
	filtered sync.Map
}
''')],
  needs="a view that selects keys, and two attribute sets with values of different type that print the same (1 and the text 1)",
  breaks="The second set's measurements are reported under the first one's attributes.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	rdr := sdk.NewManualReader("r")
	mp := sdk.NewMeterProvider(sdk.WithReader(rdr, view.WithClause(view.WithKeys([]attribute.Key{"k"}))))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(ctx, 1, metric.WithAttributes(attribute.Int("k", 1)))
	c.Add(ctx, 1, metric.WithAttributes(attribute.String("k", "1")))
	d := rdr.Produce(nil)
	if n := len(d.Scopes[0].Instruments[0].Points); n != 2 {
		t.Fatalf("%d series", n)
	}
}
'''),
 dict(id="c18-callers-map", property="C18", pkg="launcher",
  edits=[("launcher/config.go", '''		if c.Headers == nil {
			c.Headers = make(map[string]string)
		}
		for''', '''		if len(c.Headers) == 0 {
			c.Headers = headers
			return
		}
		for''')],
  needs="a map of headers given to two configurations, the first one with an access token",
  breaks="The token is written into the caller's map, and is sent by the second configuration, which has none (or overrides none).",
  demo='''package launcher

import "testing"

func TestDemo(t *testing.T) {
	h := map[string]string{"x": "y"}
	_ = newConfig(WithHeaders(h), WithAccessToken("one"))
	c := newConfig(WithHeaders(h))
	if tok := c.Headers["lightstep-access-token"]; tok != "" {
		t.Fatal("token of another configuration: ", tok)
	}
}
'''),
 dict(id="c07-first-view-only", property="C07", pkg=M,
  edits=[(M+"/internal/viewstate/accumulators.go", '''	for _, coll := range a {
		coll.SnapshotAndProcess(release)
	}
''', '''	for _, coll := range a {
		coll.SnapshotAndProcess(release)
		// The record is released once.
		release = false
	}
''')],
  needs="two readers, or two view clauses, and series that come and go until the limit of the second one is reached",
  breaks="The second reader never lets go of idle series, and reports new ones as overflow.",
  demo=head() + '''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	a, b := sdk.NewManualReader("a"), sdk.NewManualReader("b")
	lm := view.WithDefaultAggregationTemporalitySelector(aggregation.LowMemoryTemporality)
	mp := sdk.NewMeterProvider(sdk.WithReader(a, lm), sdk.WithReader(b, lm),
		sdk.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: 4, InactiveCollectionPeriods: 1}))
	c, _ := mp.Meter("m").Int64Counter("c")
	for i := 0; i < 10; i++ {
		c.Add(ctx, 1, metric.WithAttributes(attribute.Int("i", i)))
		for j := 0; j < 4; j++ {
			a.Produce(nil)
			d := b.Produce(nil)
			for _, p := range d.Scopes[0].Instruments[0].Points {
				if p.Attributes.HasValue("otel.metric.overflow") {
					t.Fatal("overflow")
				}
			}
		}
	}
}
'''),
]
