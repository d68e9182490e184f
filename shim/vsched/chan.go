package vsched

import "unsafe"

// Channel operations of the code under test.  Readiness is decided without
// consuming (length of a buffered channel, known or probed closure, or a
// rendezvous partner); the operation itself is then carried out for real by
// the thread that performs it.

// Case is one case of a select, or a single send or receive.
type Case interface {
	ready() bool
	perform()
}

// RecvCase receives from Ch.
type RecvCase[T any] struct {
	Ch    <-chan T
	V     T
	OK    bool
	stash bool
	box   chan T
	ack   chan struct{}
	hit   bool
	th    int
}

// NewRecv makes a receive case.
func NewRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{Ch: ch} }

//go:norace
func (c *RecvCase[T]) ready() bool {
	if c.Ch == nil {
		return false
	}
	if c.stash || c.hit {
		return true
	}
	if len(c.Ch) > 0 {
		return true
	}
	{
		// Probe closure: nobody really sends on an unbuffered managed
		// channel, so a successful receive means closed, or a value from
		// an unmanaged goroutine, which is kept.
		raceOff()
		defer raceOn()
		select {
		case v, ok := <-c.Ch:
			if ok {
				c.V, c.OK, c.stash = v, true, true
			}
			return true
		default:
		}
	}
	if cap(c.Ch) == 0 {
		return c.partner() != nil
	}
	return false
}

//go:norace
func sameChan[T any](a chan<- T, b <-chan T) bool {
	return *(*unsafe.Pointer)(unsafe.Pointer(&a)) == *(*unsafe.Pointer)(unsafe.Pointer(&b))
}

// waitingSend is the pending send of some thread on the same channel.
//
//go:norace
func (c *RecvCase[T]) partner() *SendCase[T] {
	for i := 0; i < s.n; i++ {
		if i == c.th {
			continue
		}
		switch p := s.threads[i].pend.(type) {
		case *SendCase[T]:
			if sameChan(p.Ch, c.Ch) && !p.taken {
				return p
			}
		case *selectOp:
			for _, cs := range p.cases {
				if sc, ok := cs.(*SendCase[T]); ok && sameChan(sc.Ch, c.Ch) && !sc.taken && p.won < 0 {
					return sc
				}
			}
		}
	}
	return nil
}

func (c *RecvCase[T]) Enabled() bool { return c.ready() }

//go:norace
func (c *RecvCase[T]) perform() {
	if c.stash {
		return
	}
	if len(c.Ch) == 0 && cap(c.Ch) == 0 {
		if p := c.partner(); p != nil {
			p.taken = true
			if p.sel != nil {
				p.sel.won = p.selIdx
			}
			c.V, c.OK = <-p.box, true
			p.ack <- struct{}{}
			return
		}
	}
	c.V, c.OK = <-c.Ch
}

// SendCase sends V on Ch.
type SendCase[T any] struct {
	Ch     chan<- T
	V      T
	taken  bool
	box    chan T
	ack    chan struct{}
	sel    *selectOp
	selIdx int
}

// NewSend makes a send case.
func NewSend[T any](ch chan<- T, v T) *SendCase[T] {
	c := &SendCase[T]{Ch: ch, V: v, box: make(chan T, 1), ack: make(chan struct{}, 1)}
	c.box <- v
	return c
}

// An unbuffered send completes when a receiver takes it, so the receiver is
// always the active party: the send is enabled once taken.
//
//go:norace
func (c *SendCase[T]) ready() bool {
	if c.Ch == nil {
		return false
	}
	if cap(c.Ch) == 0 {
		return c.taken
	}
	return len(c.Ch) < cap(c.Ch)
}

func (c *SendCase[T]) Enabled() bool { return c.ready() }

//go:norace
func (c *SendCase[T]) perform() {
	if cap(c.Ch) == 0 {
		<-c.ack
		return
	}
	c.Ch <- c.V
}

type selectOp struct {
	cases []Case
	def   bool
	won   int
}

//go:norace
func (o *selectOp) Enabled() bool {
	if o.def || o.won >= 0 {
		return true
	}
	for _, c := range o.cases {
		if c.ready() {
			return true
		}
	}
	return false
}

// Select performs one ready case and returns its index, or -1 for default.
//
//go:norace
func Select(def bool, cases ...Case) int {
	o := &selectOp{cases: cases, def: def, won: -1}
	me := Me()
	for i, c := range cases {
		if b, ok := c.(interface{ bind(*selectOp, int, int) }); ok {
			b.bind(o, i, me)
		}
	}
	if !s.active {
		return nativeSelect(def, cases)
	}
	Point(o)
	if o.won >= 0 {
		cases[o.won].perform()
		return o.won
	}
	var rdy [16]int
	n := 0
	for i, c := range cases {
		if n < len(rdy) && c.ready() {
			rdy[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	i := rdy[0]
	if n > 1 {
		i = rdy[Choose(n, 0)]
	}
	cases[i].perform()
	return i
}

//go:norace
func (c *RecvCase[T]) bind(_ *selectOp, _, th int) { c.th = th }

//go:norace
func (c *SendCase[T]) bind(o *selectOp, i, _ int) { c.sel, c.selIdx = o, i }

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !s.active {
		v, ok := <-ch
		return v, ok
	}
	c := NewRecv(ch)
	c.th = Me()
	Point(c)
	c.perform()
	return c.V, c.OK
}

// Send is ch <- v.
//
//go:norace
func Send[T any](ch chan<- T, v T) {
	if !s.active {
		ch <- v
		return
	}
	c := NewSend(ch, v)
	Point(c)
	c.perform()
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	Point(Always)
	close(ch)
}
