package models

import (
	"context"
	"net"
	"os/user"
	"time"

	"vharness/verif"
)

// The network: harnesses set these before starting the code under test.
var (
	DialHook   func(ctx context.Context, network, addr string) (net.Conn, error)
	ListenHook func(network, addr string) (net.Listener, error)
)

// Dial opens a connection.
//
//verif:replace net.Dial
func Dial(network, addr string) (net.Conn, error) {
	return DialHook(context.Background(), network, addr)
}

// DialTimeout opens a connection.
//
//verif:replace net.DialTimeout
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return DialHook(context.Background(), network, addr)
}

// DialerDial opens a connection.
//
//verif:replace (*net.Dialer).Dial
func DialerDial(d *net.Dialer, network, addr string) (net.Conn, error) {
	return DialHook(context.Background(), network, addr)
}

// DialerDialContext opens a connection.
//
//verif:replace (*net.Dialer).DialContext
func DialerDialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	return DialHook(ctx, network, addr)
}

// Listen opens a listener.
//
//verif:replace net.Listen
func Listen(network, addr string) (net.Listener, error) { return ListenHook(network, addr) }

// ListenConfigListen opens a listener.
//
//verif:replace (*net.ListenConfig).Listen
func ListenConfigListen(lc *net.ListenConfig, ctx context.Context, network, addr string) (net.Listener, error) {
	return ListenHook(network, addr)
}

// Time passes only when nothing else can run.

// Now is a fixed instant.
//
//verif:replace time.Now
func Now() time.Time { return epoch }

var epoch = time.Unix(1600000000, 0)

// Since measures the time since t.
//
//verif:replace time.Since
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until measures the time to t.
//
//verif:replace time.Until
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// short is a time in which nothing needs to have happened: what lasts shorter ends at any moment. Longer times end once
// nothing else can happen.
const short = 100 * time.Millisecond

// Sleep waits.
//
//verif:replace time.Sleep
func Sleep(d time.Duration) {
	if d >= short {
		verif.Sleep()
	}
}

// timer is the state of a timer: the function it runs and, for a short one, what has become of it.
type timer struct {
	f       func()
	short   bool
	over    bool // fired or stopped
	started int
}

var timers = map[*time.Timer]*timer{}

func startTimer(t *time.Timer, d time.Duration, f func()) *time.Timer {
	var x *timer
	n := 0
	verif.Sync(nil, func() {
		x = timers[t]
		if x == nil {
			x = &timer{f: f}
			timers[t] = x
		}
		x.short = d < short
		if x.short {
			x.started++
			x.over = false
			n = x.started
		}
	}, t)
	if n == 0 {
		verif.StartTimer(t, x.f)
		return t
	}
	go func() {
		run := false
		verif.Sync(nil, func() {
			if n == x.started && !x.over {
				run, x.over = true, true
			}
		}, t)
		if run {
			x.f()
		}
	}()
	return t
}

// AfterFunc runs f after that time.
//
//verif:replace time.AfterFunc
func AfterFunc(d time.Duration, f func()) *time.Timer { return startTimer(&time.Timer{}, d, f) }

// NewTimer sends after that time.
//
//verif:replace time.NewTimer
func NewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	return startTimer(&time.Timer{C: c}, d, func() {
		select {
		case c <- Now():
		default:
		}
	})
}

// TimerReset starts a timer anew.
//
//verif:replace (*time.Timer).Reset
func TimerReset(t *time.Timer, d time.Duration) bool {
	active := TimerStop(t)
	startTimer(t, d, nil)
	return active
}

// ticks is how often a ticker ticks.
const ticks = 3

// NewTicker ticks a few times, each once nothing else can run.
//
//verif:replace time.NewTicker
func NewTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	left := ticks
	var tick func()
	tick = func() {
		select {
		case c <- Now():
		default:
		}
		left--
		if left > 0 {
			verif.StartTimer(t, tick)
		}
	}
	verif.StartTimer(t, tick)
	return t
}

// Tick ticks a few times.
//
//verif:replace time.Tick
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// TickerStop ends a ticker.
//
//verif:replace (*time.Ticker).Stop
func TickerStop(t *time.Ticker) { verif.StopTimer(t) }

// After sends after that time.
//
//verif:replace time.After
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// TimerStop prevents a timer from firing.
//
//verif:replace (*time.Timer).Stop
func TimerStop(t *time.Timer) bool {
	stopped, isShort := false, false
	verif.Sync(nil, func() {
		if x := timers[t]; x != nil && x.short {
			isShort = true
			stopped = !x.over
			x.over = true
		}
	}, t)
	if !isShort {
		stopped = verif.StopTimer(t)
	}
	if t.C != nil {
		select { // since Go 1.23 nothing stale is received after Stop
		case <-t.C:
		default:
		}
	}
	return stopped
}

// OSUser is the user the process runs as; OSUserErr makes the lookup fail.
var (
	OSUser    = "osuser"
	OSUserErr error
)

// CurrentUser finds the user the process runs as.
//
//verif:replace os/user.Current
func CurrentUser() (*user.User, error) {
	if OSUserErr != nil {
		return nil, OSUserErr
	}
	return &user.User{Uid: "1000", Gid: "1000", Username: OSUser, Name: OSUser, HomeDir: "/home/" + OSUser}, nil
}
