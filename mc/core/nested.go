package main

import (
	"context"
	"fmt"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// Callbacks that use the API themselves: record, create instruments and
// meters, register and unregister callbacks, their own included.

var nestedNames = []string{"record", "create and record", "create a conflicting one", "new meter", "create observable", "register", "unregister another", "unregister itself", "unregister what it registered"}

func nestedBody(r *mc.R) {
	var ops [2]int
	for i := range ops {
		ops[i] = r.Choose(len(nestedNames))
	}
	kind := asyncKinds[r.Choose(2)]
	par := r.ChooseBool()
	delta := r.ChooseBool()
	r.Logf("%v delta %v concurrent %v: %s, %s", kind, delta, par, nestedNames[ops[0]], nestedNames[ops[1]])
	rd := metric.NewManualReader("rd")
	p := newProvider(sdkinstrument.Performance{}, metric.WithReader(rd, tempoOpt(delta)))
	m := p.Meter("m")
	o, err := mkInst(m, "o", kind, false, 0, "", "")
	if err != nil {
		r.Failf(r.Prop(), "%v", err)
		return
	}
	existing, _ := m.Int64Counter("existing")

	collection := 0
	runs := map[string][]int{}
	ran := func(n string) { runs[n] = append(runs[n], collection) }
	firstAllowed := map[string]int{} // must run from here on
	gone := map[string]int{}         // unregistered during this collection
	regs := map[string]apimetric.Registration{}
	nreg := 0
	var recorded, newRecorded int64
	var register func(n string)
	register = func(n string) {
		reg, err := m.RegisterCallback(func(_ context.Context, ob apimetric.Observer) error {
			ran(n)
			ob.ObserveInt64(o.obs.(apimetric.Int64Observable), int64(collection+1), apimetric.WithAttributes(attribute.String("cb", n)))
			return nil
		}, o.obs)
		if err != nil {
			r.Failf(r.Prop(), "register in a callback: %v", err)
			return
		}
		regs[n], firstAllowed[n] = reg, collection+1
	}
	unregister := func(n string) {
		if _, was := gone[n]; was || regs[n] == nil {
			return
		}
		if err := regs[n].Unregister(); err != nil {
			r.Failf(r.Prop(), "unregister in a callback: %v", err)
		}
		gone[n] = collection
	}
	do := func(op int, self string) {
		switch op {
		case 0:
			existing.Add(bg, 1)
			recorded++
		case 1:
			c, err := m.Int64Counter("new")
			if err != nil {
				r.Failf(r.Prop(), "create in a callback: %v", err)
				return
			}
			c.Add(bg, 1)
			newRecorded++
		case 2:
			if _, err := m.Float64Histogram("existing"); err == nil {
				r.Failf(r.Prop(), "no conflict reported in a callback")
			}
		case 3:
			c, err := p.Meter("m2").Int64Counter("new")
			if err != nil {
				r.Failf(r.Prop(), "create in a callback: %v", err)
				return
			}
			c.Add(bg, 1)
			newRecorded++
		case 4:
			if _, err := mkInst(m, "o2", kind, true, 0, "", ""); err != nil {
				r.Failf(r.Prop(), "create in a callback: %v", err)
			}
		case 5:
			nreg++
			register(fmt.Sprint("reg", nreg))
		case 6:
			if self == "A" {
				unregister("B")
			} else {
				unregister("A")
			}
		case 7:
			unregister(self)
		case 8:
			if nreg > 0 {
				unregister(fmt.Sprint("reg", nreg))
			}
		}
	}
	for i, n := range []string{"A", "B"} {
		i, n := i, n
		reg, err := m.RegisterCallback(func(_ context.Context, ob apimetric.Observer) error {
			ran(n)
			do(ops[i], n)
			ob.ObserveInt64(o.obs.(apimetric.Int64Observable), int64(collection+1), apimetric.WithAttributes(attribute.String("cb", n)))
			return nil
		}, o.obs)
		if err != nil {
			r.Failf(r.Prop(), "%v", err)
			return
		}
		regs[n] = reg
	}
	var sumExisting, sumNew float64
	collect := func() []Point {
		collection++
		pts := pointsOf(rd.Produce(nil))
		e, nw := 0.0, 0.0
		for _, pt := range pts {
			switch pt.Name {
			case "existing":
				e += pt.Val
			case "new":
				nw += pt.Val
			}
		}
		if delta {
			sumExisting += e
			sumNew += nw
		} else {
			sumExisting, sumNew = e, nw
		}
		return pts
	}
	for c := 0; c < 3; c++ {
		var pts []Point
		if par {
			// Meanwhile others use the same meter.
			r.Par(func() { pts = collect() }, func() {
				x, _ := m.Int64Counter("third")
				x.Add(bg, 1)
			})
		} else {
			pts = collect()
		}
		seen := map[string]bool{}
		for _, pt := range pts {
			if pt.Name == "o" {
				seen[pt.Attrs] = true
			}
		}
		for n := range regs {
			k := 0
			for _, x := range runs[n] {
				if x == collection {
					k++
				}
			}
			g, was := gone[n]
			must := firstAllowed[n] <= collection && (!was || g > collection)
			mustNot := was && g < collection
			if k > 1 || (must && k != 1) || (mustNot && k != 0) {
				r.Failf(r.Prop(), "callback %s ran %d times in collection %d, it is registered since %d, unregistered in %v %d", n, k, collection, firstAllowed[n], was, g)
			}
			if at := attrString(attribute.NewSet(attribute.String("cb", n))); seen[at] != (k == 1) {
				r.Failf(r.Prop(), "callback %s ran %d times in collection %d, its series reported: %v", n, k, collection, seen[at])
			}
		}
	}
	// What callbacks recorded arrives with this or the next collection.
	collect()
	if op := fmt.Sprint(sumExisting, sumNew); op != fmt.Sprint(float64(recorded), float64(newRecorded)) {
		// The last collection's callbacks may have recorded after it.
		collect()
	}
	if sumExisting > float64(recorded) || sumNew > float64(newRecorded) || sumExisting < float64(recorded-2) || sumNew < float64(newRecorded-2) {
		r.Failf(r.Prop(), "callbacks recorded %d and %d, reported %v and %v", recorded, newRecorded, sumExisting, sumNew)
	}
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "cb-nested", Props: []string{"C09", "C24"}, Bound: [2]int{1, 2}, Race: [2]int{0, 1}, MapOffs: []uint64{0},
		Doc:  "callbacks that use the API themselves, alone and while others do",
		Body: nestedBody,
	})
}
