// Package vsync replaces the sync package in code whose interleavings are explored:
// under Run only one goroutine runs at a time, and every operation of this package is
// a point where another one can be chosen to go on.
//
// It has to be compiled without race detector (also in a program with it): the edges
// which the detector sees are those of the operations, not those of the scheduler.
package vsync

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

// Choice is a point of an execution.
type Choice struct {
	Enabled []int // threads which can go on
	Chosen  int   // thread which goes on
	Cur     int   // thread which was running, or -1 if it cannot go on or has to give way
}

// Result is what an execution gave.
type Result struct {
	Choices      []Choice
	Deadlock     string // what each thread is waiting for, if none can go on
	Uncontrolled bool   // a thread waits for something which is not controlled
	Log          []Event
}

// Event is something recorded by a thread with Record.
type Event struct {
	Thread, Op int
	What       string
	N          int
}

type thread struct {
	id     int
	resume chan bool
	desc   string
	can    func() bool
	done   bool
	spin   int
}

type scheduler struct {
	threads []*thread
	goids   [16]int64 // no maps here: the runtime tells the race detector about them
	yield   chan *thread
	log     []Event
	cur     int  // thread which is running
	left    int  // threads which have not finished
	others  int  // goroutines which are not threads
	dead    bool // nobody is scheduling any more
}

var (
	g      sync.Mutex // the state of every primitive of this package
	gcond  = sync.NewCond(&g)
	active *scheduler
)

func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	s = s[:bytes.IndexByte(s, ' ')]
	n, _ := strconv.ParseInt(string(s), 10, 64)
	return n
}

func self() *thread {
	if s := active; s != nil && !s.dead {
		return s.find()
	}
	return nil
}

func (s *scheduler) find() *thread {
	if s.cur >= 0 && runtime.NumGoroutine() <= s.others+s.left {
		return s.threads[s.cur] // there are only those which are known
	}
	id := goid()
	for i, th := range s.threads {
		if s.goids[i] == id {
			return th
		}
	}
	return nil
}

// wait does something as soon as it is possible.
func wait(desc string, can func() bool, do func()) {
	raceDisable()
	defer raceEnable()
	if th := self(); th != nil {
		th.point(desc, can)
		if do != nil {
			do()
		}
		return
	}
	g.Lock()
	for can != nil && !can() {
		gcond.Wait()
	}
	if do != nil {
		do()
	}
	gcond.Broadcast()
	g.Unlock()
}

func (th *thread) point(desc string, can func() bool) {
	th.desc, th.can = desc, can
	active.yield <- th
	<-th.resume
}

// Point is a point where another thread can be chosen.
func Point(desc string) { wait(desc, nil, nil) }

// Record adds something to the log of this execution.
func Record(op int, what string, n int) {
	raceDisable()
	defer raceEnable()
	s := active
	if s == nil {
		return
	}
	if th := s.find(); th != nil {
		s.log = append(s.log, Event{th.id, op, what, n})
	}
}

var ends [16]byte

const spinLimit = 300 // steps of a thread while others could go on
const waitLimit = 4 * time.Second
const maxSteps = 20000

// Run does the functions as threads, with the choices given and after that without
// changing of thread unless it is necessary.
func Run(prefix []int, funcs []func()) (res Result) {
	defer func() {
		for i := range funcs { // also those which have not finished, before this
			raceAcquire(unsafe.Pointer(&ends[i]))
		}
	}()
	raceDisable()
	defer raceEnable()
	s := &scheduler{yield: make(chan *thread), log: make([]Event, 0, 4096), cur: -1, others: runtime.NumGoroutine()}
	for i := range funcs {
		s.threads = append(s.threads, &thread{id: i, resume: make(chan bool)})
	}
	ready := make(chan bool)
	for i := range funcs {
		th, f := s.threads[i], funcs[i]
		raceEnable() // they see everything done until now
		go func() {
			raceDisable()
			s.goids[th.id] = goid()
			ready <- true
			<-th.resume
			raceEnable()
			f()
			raceRelease(unsafe.Pointer(&ends[th.id]))
			raceDisable()
			th.done = true
			s.yield <- th
			raceEnable()
		}()
		raceDisable()
		<-ready
	}
	active = s
	defer func() {
		s.dead = true
		active = nil
		res.Log = s.log
	}()
	cur := -1
	timer := time.NewTimer(time.Hour)
	for {
		var enabled []int
		left := 0
		for _, th := range s.threads {
			if th.done {
				continue
			}
			left++
			if th.can == nil || th.can() {
				enabled = append(enabled, th.id)
			}
		}
		if left == 0 {
			return
		}
		if len(enabled) == 0 || len(res.Choices) > maxSteps {
			for _, th := range s.threads {
				if !th.done {
					res.Deadlock += fmt.Sprintf(" thread %d waits in %s;", th.id, th.desc)
				}
			}
			return
		}
		def := enabled[0]
		curEnabled := false
		for k, e := range enabled {
			if e == cur {
				curEnabled = true
				if s.threads[cur].spin < spinLimit || len(enabled) == 1 {
					def = cur
				} else { // it must be waiting for the others
					s.threads[cur].spin = 0
					curEnabled = false
					def = enabled[(k+1)%len(enabled)]
				}
				break
			}
		}
		c := def
		if n := len(res.Choices); n < len(prefix) {
			c = prefix[n]
		}
		ch := Choice{Enabled: enabled, Chosen: c, Cur: -1}
		if curEnabled {
			ch.Cur = cur
		}
		res.Choices = append(res.Choices, ch)
		th := s.threads[c]
		if c != cur {
			for _, x := range s.threads {
				x.spin = 0
			}
		}
		th.spin++
		cur = c
		s.cur, s.left = c, left
		th.can = nil
		th.resume <- true
		timer.Reset(waitLimit)
		select {
		case <-s.yield:
		case <-timer.C:
			res.Uncontrolled = true
			return
		}
	}
}
