// Package selftest holds small concurrent programs with known outcomes, for testing the engine itself.
package selftest

import (
	"strconv"
	"sync"
	"sync/atomic"

	"vharness/verif"
)

// HLock: 2 orders.
func HLock() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	s := ""
	for i := 0; i < 2; i++ {
		n := strconv.Itoa(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			s += n
			mu.Unlock()
		}()
	}
	wg.Wait()
	verif.Cover(s)
	verif.Assert(len(s) == 2, "both ran")
	verif.Assert(verif.Running() == 1, "all ended")
}

// HLock3: 6 orders.
func HLock3() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	s := ""
	for i := 0; i < 3; i++ {
		n := strconv.Itoa(i)
		wg.Add(1)
		go func() {
			mu.Lock()
			s += n
			mu.Unlock()
			wg.Done()
		}()
	}
	wg.Wait()
	verif.Cover(s)
}

// HRaceX: a data race.
func HRaceX() {
	var wg sync.WaitGroup
	n := 0
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			n++
		}()
	}
	wg.Wait()
	_ = n
}

// HRaceFlagX: a race only when the flag is seen late.
func HRaceFlagX() {
	var flag atomic.Bool
	x := 0
	done := make(chan bool)
	go func() {
		x = 1
		flag.Store(true)
		close(done)
	}()
	if !flag.Load() {
		x = 2
	}
	<-done
	_ = x
}

// HRaceFlag: no race, publication through the flag.
func HRaceFlag() {
	var flag atomic.Bool
	x := 0
	done := make(chan bool)
	go func() {
		x = 1
		flag.Store(true)
		close(done)
	}()
	if flag.Load() {
		verif.Cover("early")
		verif.Assert(x == 1, "published")
	} else {
		verif.Cover("late")
	}
	<-done
}

// HDeadX: lock order deadlock.
func HDeadX() {
	var a, b sync.Mutex
	done := make(chan bool, 2)
	go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); done <- true }()
	go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); done <- true }()
	<-done
	<-done
}

// HChan: two producers and two consumers of an unbuffered channel: 2 pairings x 2 orders.
func HChan() {
	c := make(chan int)
	r := make([]int, 2)
	var wg sync.WaitGroup
	wg.Add(4)
	for i := 0; i < 2; i++ {
		i := i
		go func() { c <- i; wg.Done() }()
		go func() { r[i] = <-c; wg.Done() }()
	}
	wg.Wait()
	verif.Cover(strconv.Itoa(r[0]) + strconv.Itoa(r[1]))
}

// HSteal: one value sent after another receiver may have taken the first.
func HSteal() {
	c := make(chan int, 1)
	out := make([]int, 2)
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { c <- 1; c <- 2; wg.Done() }()
	for i := 0; i < 2; i++ {
		i := i
		go func() { out[i] = <-c; wg.Done() }()
	}
	wg.Wait()
	verif.Cover(strconv.Itoa(out[0]) + strconv.Itoa(out[1]))
}

// HDefault: a sender that gives up, a receiver that may arrive early or late.
func HDefault() {
	c := make(chan int)
	q := make(chan bool)
	res := ""
	var mu sync.Mutex
	go func() {
		mu.Lock()
		mu.Unlock()
		select {
		case <-c:
			res = "got"
		case <-q:
			res = "quit"
		}
		q <- true
	}()
	select {
	case c <- 1:
		<-q
	default:
		q <- true
		<-q
	}
	verif.Cover(res)
}

// HClosedX: a send on a closed channel in one order.
func HClosedX() {
	c := make(chan int, 1)
	go func() { c <- 1 }()
	close(c)
	verif.Settle()
}

// HSelect: two ready channels.
func HSelect() {
	a, b := make(chan int, 1), make(chan int, 1)
	go func() { a <- 1 }()
	go func() { b <- 1 }()
	select {
	case <-a:
		verif.Cover("a")
	case <-b:
		verif.Cover("b")
	}
	verif.Settle()
}

// HCloseSelect: workers end on close, after 0, 1 or 2 items.
func HCloseSelect() {
	in, stop := make(chan int), make(chan struct{})
	n := 0
	done := make(chan bool)
	go func() {
		defer close(done)
		for {
			select {
			case <-in:
				n++
			case <-stop:
				return
			}
		}
	}()
	go func() {
		for i := 0; i < 2; i++ {
			select {
			case in <- i:
			case <-stop:
				return
			}
		}
	}()
	close(stop)
	<-done
	verif.Settle()
	verif.Cover(strconv.Itoa(n))
	verif.Assert(verif.Running() == 1, "all ended")
}

// HStoreBuffer: sequential consistency, r0=r1=0 impossible.
func HStoreBuffer() {
	var x, y int32
	var r0, r1 int32
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { atomic.StoreInt32(&x, 1); r0 = atomic.LoadInt32(&y); wg.Done() }()
	go func() { atomic.StoreInt32(&y, 1); r1 = atomic.LoadInt32(&x); wg.Done() }()
	wg.Wait()
	verif.Cover(strconv.Itoa(int(r0)) + strconv.Itoa(int(r1)))
	verif.Assert(r0+r1 > 0, "sequential consistency")
}

// HThree: reads by three threads of two flags; every combination but none extra.
func HThree() {
	var x int32
	var wg sync.WaitGroup
	r := make([]int32, 3)
	wg.Add(4)
	for i := 0; i < 3; i++ {
		i := i
		go func() {
			r[i] = atomic.LoadInt32(&x) + atomic.LoadInt32(&x)
			wg.Done()
		}()
	}
	go func() { atomic.StoreInt32(&x, 1); wg.Done() }()
	wg.Wait()
	verif.Cover(strconv.Itoa(int(r[0])) + strconv.Itoa(int(r[1])) + strconv.Itoa(int(r[2])))
}

// HOnce: once.
func HOnce() {
	var o sync.Once
	n := 0
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			o.Do(func() { n++ })
			verif.Assert(n == 1, "once")
			wg.Done()
		}()
	}
	wg.Wait()
}

var fresh []int

// HFresh: package state starts anew on every path.
//
//verif:props SELF
func HFresh() {
	verif.Choice("a", 4)
	verif.Assert(len(fresh) == 0, "package state is fresh")
	fresh = append(fresh, 1)
}
