package rt

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// Channel operations of the instrumented code. The channels are real ones,
// but no thread ever blocks inside them: an operation that cannot proceed
// blocks the thread in the kernel until the other side comes. Meetings at
// channels without a buffer take place here, as they cannot happen between
// two goroutines of which only one runs at a time.

// waiter is one case of a blocked operation.
type waiter struct {
	t    *Thread
	ch   unsafe.Pointer
	send bool
	c    Case
	wait *wait
	i    int
}

// wait is a blocked operation.
type wait struct{ done int } // the case that was completed by the other side, or -1

// Case is a case of a select statement.
type Case interface {
	try() bool // does it if it need not wait
	on() (ch unsafe.Pointer, send bool)
	value() interface{}
	give(v interface{})
	real() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// RCase is a receive.
type RCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// SCase is a send.
type SCase[T any] struct {
	c chan<- T
	v T
}

func RecvCase[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }

func SendCase[T any](c chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{c, v} }
}

func (r *RCase[T]) on() (unsafe.Pointer, bool) {
	return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)), false
}
func (s *SCase[T]) on() (unsafe.Pointer, bool) { return *(*unsafe.Pointer)(unsafe.Pointer(&s.c)), true }

func (r *RCase[T]) value() interface{} { return nil }
func (s *SCase[T]) value() interface{} { return &s.v }
func (r *RCase[T]) give(v interface{}) { r.V, r.OK = *v.(*T), true }
func (s *SCase[T]) give(v interface{}) {}

func (r *RCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (s *SCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}

func (r *RCase[T]) got(v reflect.Value, ok bool) {
	if r.OK = ok; ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}
func (s *SCase[T]) got(v reflect.Value, ok bool) {}

func (r *RCase[T]) try() bool {
	p, _ := r.on()
	if p == nil {
		return false
	}
	if cap(r.c) == 0 {
		if w := meet(p, true); w != nil {
			RaceRelease(p)
			r.give(w.c.value())
			complete(w)
			RaceAcquire(p)
			return true
		}
	}
	select {
	case r.V, r.OK = <-r.c:
		wakeChan(p)
		return true
	default:
		return false
	}
}

func (s *SCase[T]) try() bool {
	p, _ := s.on()
	if p == nil {
		return false
	}
	if cap(s.c) == 0 {
		if w := meet(p, false); w != nil {
			RaceRelease(p)
			w.c.give(&s.v)
			complete(w)
			RaceAcquire(p)
			return true
		}
	}
	select {
	case s.c <- s.v: // it panics if the channel is closed
		wakeChan(p)
		return true
	default:
		return false
	}
}

// meet finds a thread that waits for the other side of a channel.
//
//go:norace
func meet(ch unsafe.Pointer, send bool) *waiter {
	n := 0
	for _, w := range kern.waiters {
		if w.ch == ch && w.send == send && w.wait.done < 0 && w.t != kern.cur {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	for _, w := range kern.waiters { // in the order they came, as Go does
		if w.ch == ch && w.send == send && w.wait.done < 0 && w.t != kern.cur {
			RaceAcquire(unsafe.Pointer(w.wait))
			return w
		}
	}
	return nil
}

//go:norace
func complete(w *waiter) {
	RaceRelease(unsafe.Pointer(w.wait))
	w.wait.done = w.i
	w.t.state = runnable
}

// wakeChan lets the threads that wait for a channel look again.
//
//go:norace
func wakeChan(ch unsafe.Pointer) {
	if kern == nil {
		return
	}
	for _, w := range kern.waiters {
		if w.ch == ch && w.t.state == blocked {
			w.t.state = runnable
		}
	}
}

// Select does one of the cases and returns its number; -1 for the default.
func Select(dflt bool, cases ...Case) int {
	if !controlled() {
		return realSelect(dflt, cases)
	}
	Point()
	for {
		at := 0
		if len(cases) > 1 {
			at = int(runtime.VerifMapRand() % uint64(len(cases)))
		}
		for i := range cases {
			j := (at + i) % len(cases)
			if cases[j].try() {
				return j
			}
		}
		if dflt {
			return -1
		}
		if i := park(cases); i >= 0 {
			return i
		}
	}
}

//go:norace
func controlled() bool { return kern != nil && kern.cur != nil }

//go:norace
func park(cases []Case) int {
	k := kern
	t := k.cur
	w := &wait{done: -1}
	RaceRelease(unsafe.Pointer(w))
	for i, c := range cases {
		ch, send := c.on()
		if ch != nil {
			k.waiters = append(k.waiters, &waiter{t, ch, send, c, w, i})
		}
	}
	t.inChan = true
	t.key = unsafe.Pointer(w)
	k.ask(opBlock)
	t.inChan = false
	var rest []*waiter
	for _, x := range k.waiters {
		if x.wait != w {
			rest = append(rest, x)
		}
	}
	k.waiters = rest
	if w.done >= 0 {
		RaceAcquire(unsafe.Pointer(w))
	}
	return w.done
}

func realSelect(dflt bool, cases []Case) int {
	var l []reflect.SelectCase
	for _, c := range cases {
		l = append(l, c.real())
	}
	if dflt {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(l)
	if i == len(cases) {
		return -1
	}
	cases[i].got(v, ok)
	return i
}

// Send is c <- v, as Send(c)(v).
func Send[T any](c chan<- T) func(T) {
	return func(v T) { Select(false, &SCase[T]{c, v}) }
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	r := &RCase[T]{c: c}
	Select(false, r)
	return r.V
}

// Recv2 is <-c, with whether the channel was open.
func Recv2[T any](c <-chan T) (T, bool) {
	r := &RCase[T]{c: c}
	Select(false, r)
	return r.V, r.OK
}

// Ranger is for "for range c"; the variable of the loop is given to Next.
func Ranger[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }

// Ranger2 also makes that variable.
func Ranger2[T any](c <-chan T) (r *RCase[T], v T) { return &RCase[T]{c: c}, v }

func (r *RCase[T]) Next(v *T) bool {
	if Select(false, r); r.OK && v != nil {
		*v = r.V
	}
	return r.OK
}

// Close is close(c).
func Close[T any](c chan<- T) {
	close(c)
	wakeChan(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
}

// Forever is select {}.
func Forever() {
	if controlled() {
		for {
			park(nil)
		}
	}
}

// After is time.After in simulated time.
func After(d time.Duration) <-chan time.Time {
	if !controlled() {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		Send[time.Time](c)(time.Now())
	})
	return c
}
