// Package rt is the part of the simulator that runs inside the instrumented
// code: scheduling points, threads, blocking and the step budget.
//
// All instrumented code runs on kernel threads: goroutines of which exactly
// one runs at any moment, chosen by the kernel. Handing over happens through
// channels whose synchronisation is hidden from the race detector, so that
// only the program's own locks order memory accesses in its eyes. For the
// same reason everything a thread shares with the kernel is accessed in
// norace functions.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

// Steps counts executed scheduling points; Limit is the budget of a run.
var (
	Steps int64
	Limit int64 = 1 << 62
	Cov   []uint8
	kern  *Kernel
)

// Operations a thread asks of the kernel.
const (
	opYield = iota
	opBlock
	opSleep
	opCall
	opDone
)

// thread states
const (
	runnable = iota
	blocked
	sleeping
	finished
)

// Call is a request (a simulated system call) handed to the kernel.
type Call struct {
	Op   int
	FD   int
	Off  int64
	Path string
	Buf  []byte // kernel-owned copy of the bytes written, or the bytes read
	N    int64  // size of the caller's buffer, or the result
	Err  int
	OK   bool
	Mode uint32
	Ino  uint64
}

// Thread is one simulated thread.
type Thread struct {
	ID     int
	Name   string
	resume chan struct{}
	state  int
	op     int
	key    unsafe.Pointer
	wakeAt time.Duration
	call   *Call
	proc   func()
	daemon bool // started by another thread
	inChan bool // blocked in a channel operation
	killed bool

	// Outcome.
	Panic    interface{} // value the thread panicked with
	Stack    string
	Exited   bool // it called os.Exit
	ExitCode int
	Over     bool // it exceeded the step budget
	Done     bool // it returned normally
	Site     int  // last scheduling point
}

// Kernel owns the threads.
type Kernel struct {
	Threads   []*Thread
	cur       *Thread
	back      chan struct{}
	countdown int64
	live      int

	// Policy, set by the simulator; run in the kernel's goroutine.
	Pick     func(runnable []*Thread) *Thread // which thread runs next
	Quantum  func() int64                     // how many points it may pass
	Syscall  func(t *Thread, c *Call)
	Now      func() time.Duration
	Advance  func(to time.Duration) // jump the clock
	OnSwitch func(t *Thread, site int)

	Process  bool // all threads end when the first one returns
	Deadlock bool
	Switches int64
	waiters  []*waiter
}

// Stuck is called if a thread does not come back to the kernel in real time.
var Stuck = func(msg string) { panic(msg) }

//go:norace
func Y(site int) {
	Steps++
	if site < len(Cov) {
		Cov[site] = 1
	}
	k := kern
	if k == nil || k.cur != nil && k.cur.killed {
		return
	}
	if Steps > Limit && k.cur != nil && !k.cur.Over {
		k.cur.Over = true
		k.cur.Site = site
		buf := make([]byte, 16<<10)
		k.cur.Stack = string(buf[:runtime.Stack(buf, false)])
		runtime.Goexit()
	}
	k.countdown--
	if k.countdown <= 0 && k.cur != nil {
		k.cur.Site = site
		k.ask(opYield)
	}
}

// ask hands the processor to the kernel until it resumes the calling thread.
//
//go:norace
func (k *Kernel) ask(op int) {
	t := k.cur
	if t == nil || t.state == finished {
		return
	}
	if t.killed { // a deferred function of a thread that is no more
		runtime.Goexit()
	}
	t.op = op
	raceOff()
	k.back <- struct{}{}
	<-t.resume
	raceOn()
	runtime.VerifMapHere()
	if t.killed {
		runtime.Goexit()
	}
}

// Active tells whether a kernel is running threads.
//
//go:norace
func Active() bool { return kern != nil && kern.cur != nil }

// Current returns the running thread, or nil.
//
//go:norace
func Current() *Thread {
	if kern == nil {
		return nil
	}
	return kern.cur
}

// Point is a scheduling point at an operation of the simulator itself.
//
//go:norace
func Point() {
	if kern != nil && kern.cur != nil {
		kern.ask(opYield)
	}
}

// Block blocks the thread until Wake(key).
//
//go:norace
func Block(key unsafe.Pointer) {
	kern.cur.key = key
	kern.ask(opBlock)
}

// Wake makes all threads blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	k := kern
	if k == nil {
		return
	}
	for i := 0; i < len(k.Threads); i++ {
		if t := k.Threads[i]; t.state == blocked && t.key == key {
			t.state = runnable
		}
	}
}

// Sleep lets simulated time pass for the thread.
//
//go:norace
func Sleep(d time.Duration) {
	if kern == nil || kern.cur == nil {
		return
	}
	kern.cur.wakeAt = d
	kern.ask(opSleep)
}

// DoCall hands a system call to the kernel. The strings and buffers of c must
// be private copies made by the caller in norace code.
//
//go:norace
func DoCall(c *Call) {
	kern.cur.call = c
	kern.ask(opCall)
}

// Exit ends the thread as os.Exit would end the process.
//
//go:norace
func Exit(code int) {
	t := kern.cur
	t.Exited, t.ExitCode = true, code
	runtime.Goexit()
}

// Go starts f on a new thread.
//
//go:norace
func Go(f func()) {
	if kern == nil || kern.cur == nil {
		go f()
		return
	}
	if kern.cur.killed {
		return
	}
	kern.Spawn(fmt.Sprintf("%s+%d", kern.cur.Name, len(kern.Threads)), f).daemon = true
}

// Spawn adds a thread; it may be called before Run or by a running thread.
//
//go:norace
func (k *Kernel) Spawn(name string, f func()) *Thread {
	t := &Thread{ID: len(k.Threads), Name: name, resume: make(chan struct{}), proc: f}
	k.Threads = append(k.Threads, t)
	go k.main(t)
	return t
}

//go:norace
func (k *Kernel) main(t *Thread) {
	raceOff()
	<-t.resume
	raceOn()
	runtime.VerifMapHere()
	defer k.finish(t)
	if t.killed {
		return
	}
	defer t.catch()
	t.proc()
	t.Done = true
}

//go:norace
func (t *Thread) catch() {
	if t.killed {
		recover()
		return
	}
	if t.Done || t.Exited || t.Over {
		return
	}
	if r := recover(); r != nil {
		t.Panic = r
		t.Stack = string(debug.Stack())
	}
}

//go:norace
func (k *Kernel) finish(t *Thread) {
	t.op = opDone
	RaceRelease(unsafe.Pointer(t))
	raceOff()
	k.back <- struct{}{}
	raceOn()
}

// Run runs all threads until each has finished or none can proceed.
// It must be called by one goroutine that is not a thread.
//
//go:norace
func (k *Kernel) Run() {
	k.back = make(chan struct{})
	if kern != nil {
		panic("rt: nested kernels")
	}
	kern = k
	defer func() {
		k.killAll()
		kern = nil
	}()
	idle := 0
	beat := new(int64)
	stop := startWatch(beat, k)
	defer stop()
	for {
		*beat++
		var ready []*Thread
		alive, main := 0, 0
		for _, t := range k.Threads {
			if t.state == runnable {
				ready = append(ready, t)
			}
			if t.state != finished {
				alive++
				if !t.daemon {
					main++
				}
			}
		}
		if alive == 0 {
			return
		}
		if len(ready) == 0 {
			if main == 0 { // what is left waits for ever, or for its time
				return
			}
			// nobody can run: let time pass
			var next *Thread
			for _, t := range k.Threads {
				if t.state == sleeping && (next == nil || t.wakeAt < next.wakeAt) {
					next = t
				}
			}
			if next == nil {
				// the other side of a channel may be outside the simulator
				if idle++; idle < 200 && k.retry() {
					if idle > 1 {
						time.Sleep(5 * time.Millisecond)
					}
					continue
				}
				k.Deadlock = true
				return
			}
			if k.Now() < next.wakeAt {
				k.Advance(next.wakeAt)
			}
			for _, t := range k.Threads {
				if t.state == sleeping && t.wakeAt <= k.Now() {
					t.state = runnable
				}
			}
			continue
		}
		t := ready[0]
		if len(ready) > 1 {
			t = k.Pick(ready)
			k.countdown = k.Quantum()
		} else {
			k.countdown = 1 << 62
			if alive > 1 {
				k.countdown = 20000 // sleepers may have become due
			}
		}
		k.Switches++
		if !t.inChan {
			idle = 0
		}
	again:
		k.cur = t
		*beat++
		raceOff()
		t.resume <- struct{}{}
		<-k.back
		raceOn()
		k.cur = nil
		switch t.op {
		case opYield:
			if k.OnSwitch != nil {
				k.OnSwitch(t, t.Site)
			}
		case opBlock:
			t.state = blocked
		case opSleep:
			t.state = sleeping
			t.wakeAt += k.Now()
		case opCall:
			k.Syscall(t, t.call)
			goto again
		case opDone:
			t.state = finished
			RaceAcquire(unsafe.Pointer(t))
			if t.Exited || k.Process && t == k.Threads[0] { // the whole process is gone
				return
			}
		}
		for _, s := range k.Threads {
			if s.state == sleeping && s.wakeAt <= k.Now() {
				s.state = runnable
			}
		}
	}
}

// retry lets the threads that wait for a channel look again.
//
//go:norace
func (k *Kernel) retry() bool {
	any := false
	for _, t := range k.Threads {
		if t.state == blocked && t.inChan {
			t.state = runnable
			any = true
		}
	}
	return any
}

// One watchdog goroutine for the whole process: it looks whether the kernel
// that runs is the same, without a beat, for too long.
var (
	watchKernel *Kernel
	watchBeat   *int64
	watchOn     bool
)

//go:norace
func startWatch(beat *int64, k *Kernel) func() {
	watchKernel, watchBeat = k, beat
	if !watchOn {
		watchOn = true
		go watch()
	}
	return stopWatch
}

//go:norace
func stopWatch() { watchKernel, watchBeat = nil, nil }

//go:norace
func watch() {
	var k0 *Kernel
	var b0 int64
	for {
		time.Sleep(30 * time.Second)
		k, b := watchKernel, watchBeat
		if k == nil {
			k0 = nil
			continue
		}
		if k == k0 && *b == b0 && k.cur != nil {
			name := k.cur.Name
			buf := make([]byte, 1<<20)
			Stuck("thread " + name + " did not come back to the simulator\n" + string(buf[:runtime.Stack(buf, true)]))
			return
		}
		k0, b0 = k, *b
	}
}

// killAll ends the threads that have not finished. Their deferred functions
// run, but have no effect outside the process.
//
//go:norace
func (k *Kernel) killAll() {
	for i := 0; i < len(k.Threads); i++ {
		t := k.Threads[i]
		if t.state == finished {
			continue
		}
		t.killed = true
		k.cur = t
		raceOff()
		t.resume <- struct{}{}
		<-k.back
		raceOn()
		k.cur = nil
		t.state = finished
		RaceAcquire(unsafe.Pointer(t))
	}
}
