package vsched

import (
	"runtime"
	"sync"
	"time"
)

// Scheduling points are reached by goroutines that take turns. Turns are passed
// through plain variables that the race detector doesn't look at, so that they
// order nothing: two accesses that only the turns keep apart are still a race.
var (
	on      bool
	turn    int
	steps   int
	done    [2]bool
	plan    []int
	trace   []int32
	record  bool
	Blocked int // executions in which the goroutine whose turn it was waited for the other
)

// P is a scheduling point.
//
//go:norace
func P(id int) {
	if !on {
		return
	}
	if record {
		trace = append(trace, int32(id))
	}
	steps++
	if len(plan) == 0 || steps < plan[0] {
		return
	}
	other := 1 - turn
	if done[other] {
		return
	}
	plan = plan[1:]
	steps = 0
	pass(turn, other)
}

// pass gives the turn away and waits for it.
//
//go:norace
func pass(me, other int) {
	turn = other
	wait(me)
}

//go:norace
func wait(me int) {
	idle, last := 0, -1
	var since time.Time
	for on && turn != me {
		runtime.Gosched()
		if steps != last {
			last, idle = steps, 0
			continue
		}
		idle++
		if idle == 1000 {
			since = time.Now()
		}
		if idle > 1000 && idle%1000 == 0 && time.Since(since) > 200*time.Millisecond {
			// The other one is blocked, or done in: let both run.
			Blocked++
			on = false
		}
	}
}

//go:norace
func finish(me int) {
	done[me] = true
	steps = 0
	if !done[1-me] {
		turn = 1 - me
	} else {
		on = false
	}
}

//go:norace
func begin(p []int) {
	done = [2]bool{}
	turn, steps = 0, 0
	plan = p
	on = true
}

// Run runs two tasks by turns. The first one runs until it has passed p[0]
// points, then the other until it has passed p[1], and so on; after the last
// change a task runs to its end.
func Run(p []int, tasks [2]func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	begin(p)
	for i := range tasks {
		i := i
		go func() {
			defer wg.Done()
			defer finish(i)
			wait(i)
			tasks[i]()
		}()
	}
	wg.Wait()
}

// Trace lists the points that a task passes when it runs alone.
//
//go:norace
func Trace(task func()) []int32 {
	trace = nil
	done = [2]bool{false, true}
	plan = nil
	turn, steps = 0, 0
	record, on = true, true
	task()
	record, on = false, false
	return trace
}
