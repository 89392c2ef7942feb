package hserver

import (
	"github.com/hired/gevulot/pkg/server"

	"vharness/verif"
)

// cfgs makes n different configurations.
func cfgs(n int) []*server.Config {
	var l []*server.Config
	for i := 0; i < n; i++ {
		l = append(l, &server.Config{Listen: string(rune('a' + i)), DatabaseURL: dbURL})
	}
	return l
}

// is tells whether c says what w says.
func is(c, w *server.Config) bool {
	return c != nil && c.Listen == w.Listen && c.DatabaseURL == w.DatabaseURL
}

func index(l []*server.Config, c *server.Config) int {
	for i, x := range l {
		if is(x, c) {
			return i
		}
	}
	return -1
}

// updates feeds configurations to a distributor.
type updates struct {
	ch   chan *server.Config
	stop chan struct{}
	n    int // how many have been taken
}

func newUpdates(room int) *updates {
	return &updates{ch: make(chan *server.Config, room), stop: make(chan struct{})}
}

func (u *updates) put(l ...*server.Config) {
	for _, c := range l {
		select {
		case u.ch <- c:
		case <-u.stop:
			return
		}
	}
}

// HGet: several goroutines read the configuration while it is updated.
//
//verif:props C22 C24 C28
//verif:bound two readers reading twice, two updates (three in thorough), one of them possibly empty, at any moment; every schedule
//verif:cover first second
//verif:opt sched=1 replay=engine
func HGet() {
	l := cfgs(pick(2, 3))
	switch verif.Choice("contents", 3) {
	case 1:
		l[0] = &server.Config{}
	case 2:
		l[len(l)-1] = &server.Config{}
	}
	u := newUpdates(verif.Choice("room", 2))
	p := server.NewConfigDistributor(u.ch)
	done := 0
	for i := 0; i < 2; i++ {
		go func() {
			last := -1
			for j := 0; j < 2; j++ {
				c, err := p.Get()
				verif.Assert(err == nil, "an open distributor reports no error")
				k := index(l, c)
				verif.Assert(k >= 0, "what is read is a configuration")
				verif.Assert(k >= last, "an older configuration never follows a newer one")
				last = k
			}
			verif.Sync(nil, func() { done++ }, &done)
			if last == 0 {
				verif.Cover("first")
			} else {
				verif.Cover("second")
			}
		}()
	}
	if verif.Choice("wait", 2) == 1 {
		verif.Settle()
		verif.Assert(done == 0, "reading waits for the first configuration")
	}
	go u.put(l...)
	verif.Settle()
	verif.Assert(done == 2, "the readers got a configuration")
	c, err := p.Get()
	verif.Assert(err == nil && is(c, l[len(l)-1]), "the latest configuration is read once all are processed")
	p.Close()
	c, err = p.Get()
	verif.Assert(c == nil && err == server.ErrConfigDistributorClosed, "reading from a closed distributor is refused")
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// HGetClosed: the distributor is closed while goroutines read, or its source ends.
//
//verif:props C22 C24 C28
//verif:bound one reader (two in thorough), one update or none, closed by a call, two calls or the end of its source at any moment; every schedule
//verif:cover read refused
//verif:opt sched=1 replay=engine
func HGetClosed() {
	l := cfgs(1)
	u := newUpdates(1)
	p := server.NewConfigDistributor(u.ch)
	n, done := pick(1, 2), 0
	for i := 0; i < n; i++ {
		go func() {
			c, err := p.Get()
			if err == nil {
				verif.Assert(is(c, l[0]), "what is read is a configuration")
				verif.Cover("read")
			} else {
				verif.Assert(err == server.ErrConfigDistributorClosed && c == nil, "a closed distributor is reported")
				verif.Cover("refused")
			}
			verif.Sync(nil, func() { done++ }, &done)
		}()
	}
	how := verif.Choice("how", 3)
	up := verif.Choice("update", 2) == 1
	if how == 2 {
		if up {
			u.put(l...)
		}
		close(u.ch)
		verif.Settle()
	} else {
		go func() {
			if up {
				u.put(l...)
			}
		}()
		if how == 1 {
			go p.Close()
		}
		p.Close()
		c, err := p.Get()
		verif.Assert(c == nil && err == server.ErrConfigDistributorClosed, "reading from a closed distributor is refused")
		verif.Assert(p.Subscribe(make(chan *server.Config, 1)) == server.ErrConfigDistributorClosed, "subscribing to a closed distributor is refused")
		verif.Settle()
	}
	verif.Assert(done == n, "every reader returned")
	c, err := p.Get()
	verif.Assert(c == nil && err == server.ErrConfigDistributorClosed, "reading from a closed distributor is refused")
	p.Close()
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// expects tells whether got is what a subscriber must receive that subscribed after k updates.
func expects(l []*server.Config, k int, ok func(old, c *server.Config) bool, got []*server.Config) bool {
	n := 0
	for i := k - 1; i < len(l); i++ {
		if i < 0 {
			continue
		}
		var old *server.Config
		if i >= k && i > 0 {
			old = l[i-1]
		}
		if ok(old, l[i]) {
			if n >= len(got) || !is(got[n], l[i]) {
				return false
			}
			n++
		}
	}
	return n == len(got)
}

var (
	byListen = func(o, c *server.Config) bool { return o == nil || o.Listen != c.Listen }
	byURL    = func(o, c *server.Config) bool { return o != nil && o.DatabaseURL != c.DatabaseURL }
	either   = func(o, c *server.Config) bool { return byListen(o, c) || byURL(o, c) }
	always   = func(o, c *server.Config) bool { return true }
	never    = func(o, c *server.Config) bool { return false }
)

// HSubscribe: a subscriber with arbitrary filters, subscribing between arbitrary updates.
//
//verif:props C23 C24
//verif:bound two updates (three in thorough) with arbitrary changes, a subscriber with no, one or two filters subscribing before, between or after them, receiving through a channel without room (one in thorough); every schedule
//verif:cover early between
//verif:opt sched=1 replay=engine
func HSubscribe() {
	n := pick(2, 3)
	var l []*server.Config
	for i := 0; i < n; i++ {
		l = append(l, &server.Config{Listen: []string{"a", "b"}[verif.Choice("listen", 2)], DatabaseURL: []string{"x", "y"}[verif.Choice("url", 2)]})
	}
	var checks []server.ConfigChangedCheckFn
	var ok func(o, c *server.Config) bool
	switch verif.Choice("filters", 4) {
	case 0:
		ok = always
	case 1:
		ok, checks = byListen, []server.ConfigChangedCheckFn{byListen}
	case 2:
		ok, checks = byURL, []server.ConfigChangedCheckFn{byURL}
	case 3:
		ok, checks = either, []server.ConfigChangedCheckFn{byURL, byListen}
	}
	u := newUpdates(0)
	p := server.NewConfigDistributor(u.ch)
	when := verif.Choice("when", n+1)
	verif.Assert(p.Subscribe(make(chan *server.Config), never) == nil, "subscribing succeeds") // the distributor starts taking updates
	ch := make(chan *server.Config, verif.Choice("room", pick(1, 2)))
	for _, c := range l[:when] {
		u.put(c)
		verif.Settle()
	}
	verif.Assert(p.Subscribe(ch, checks...) == nil, "subscribing succeeds")
	var got []*server.Config
	go func() {
		for c := range ch {
			c := c
			verif.Sync(nil, func() { got = append(got, c) }, &got)
		}
	}()
	verif.Settle()
	for _, c := range l[when:] {
		u.put(c)
		verif.Settle()
	}
	verif.Assert(expects(l, when, ok, got), "the subscriber gets the current configuration and every accepted update in order")
	if when == 0 {
		verif.Cover("early")
	} else {
		verif.Cover("between")
	}
	p.Close()
	verif.Settle()
	close(ch)
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// HSubscribeBusy: a subscriber subscribes while updates arrive, and reads as they come.
//
//verif:props C23 C24 C28
//verif:bound two updates with an arbitrary change, a subscriber with one filter or none, receiving through a channel without room (one in thorough); every schedule
//verif:cover all late
//verif:opt sched=1 replay=engine
func HSubscribeBusy() {
	l := []*server.Config{{Listen: "a"}, {Listen: []string{"a", "b"}[verif.Choice("listen", 2)]}}
	ok := always
	var checks []server.ConfigChangedCheckFn
	if verif.Choice("filters", 2) == 1 {
		ok, checks = byListen, []server.ConfigChangedCheckFn{byListen}
	}
	u := newUpdates(0)
	p := server.NewConfigDistributor(u.ch)
	go func() {
		_, err := p.Get()
		verif.Assert(err == nil, "an open distributor reports no error")
	}()
	go u.put(l...)
	ch := make(chan *server.Config, verif.Choice("room", pick(1, 2)))
	verif.Assert(p.Subscribe(ch, checks...) == nil, "subscribing succeeds")
	var got []*server.Config
	go func() {
		for c := range ch {
			c := c
			verif.Sync(nil, func() { got = append(got, c) }, &got)
		}
	}()
	verif.Settle()
	fits := false
	for k := 0; k <= len(l); k++ {
		fits = fits || expects(l, k, ok, got)
	}
	verif.Assert(fits, "the subscriber gets the current configuration and every accepted update in order")
	if len(got) > 0 && is(got[0], l[0]) {
		verif.Cover("all")
	} else {
		verif.Cover("late")
	}
	p.Close()
	verif.Settle()
	close(ch)
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// HUnsubscribe: unsubscribing or closing while updates are being delivered; afterwards the subscriber closes its channel.
//
//verif:props C23 C24 C28
//verif:bound two updates under way (one, if the distributor is closed or another subscriber goes on, in quick), a subscriber that reads as many of them as it likes, then unsubscribes or closes the distributor; every schedule
//verif:cover unsubscribed closed
//verif:opt sched=1 replay=engine
func HUnsubscribe() {
	how := verif.Choice("how", 2)
	other := how == 0 && verif.Choice("other", 2) == 1
	n := 2
	if other || how == 1 {
		n = pick(1, 2)
	}
	l := cfgs(n)
	u := newUpdates(0)
	p := server.NewConfigDistributor(u.ch)
	ch := make(chan *server.Config, verif.Choice("room", 2))
	rest := make(chan *server.Config, n)
	if other {
		verif.Assert(p.Subscribe(rest) == nil, "subscribing succeeds")
	}
	verif.Assert(p.Subscribe(ch) == nil, "subscribing succeeds")
	go u.put(l...)
	k := verif.Choice("read", n+1)
	for i := 0; i < k; i++ {
		verif.Assert(is(<-ch, l[i]), "updates arrive in order")
	}
	if how == 0 {
		p.Unsubscribe(ch)
		close(ch)
		verif.Settle()
		verif.Assert(!other || len(rest) == n, "other subscribers go on receiving")
		p.Unsubscribe(ch)
		p.Close()
		verif.Cover("unsubscribed")
	} else {
		p.Close()
		close(ch)
		verif.Cover("closed")
	}
	close(rest)
	close(u.stop)
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// HResubscribe: a channel is unsubscribed twice at once and subscribed again.
//
//verif:props C23 C24 C28
//verif:bound two goroutines unsubscribing one channel, which is subscribed again once the first returned, then an update (two in thorough), then closing; every schedule
//verif:cover kept dropped
//verif:opt sched=1 replay=engine
func HResubscribe() {
	n := pick(1, 2)
	l := cfgs(n)
	u := newUpdates(n)
	p := server.NewConfigDistributor(u.ch)
	ch := make(chan *server.Config, n)
	verif.Assert(p.Subscribe(ch) == nil, "subscribing succeeds")
	late := verif.Choice("late", 2) == 1
	if !late {
		go p.Unsubscribe(ch)
	}
	p.Unsubscribe(ch)
	verif.Assert(p.Subscribe(ch) == nil, "subscribing again succeeds")
	if late {
		go p.Unsubscribe(ch)
		verif.Settle()
	}
	u.put(l...)
	verif.Settle()
	k := len(ch)
	verif.Assert(!late || k == 0, "nothing arrives after unsubscribing")
	verif.Assert(k == 0 || k == n, "a subscription is kept or dropped as a whole")
	if k > 0 {
		for _, c := range l {
			verif.Assert(is(<-ch, c), "updates arrive in order, once")
		}
		verif.Cover("kept")
	} else {
		verif.Cover("dropped")
	}
	p.Close()
	verif.Assert(len(ch) == 0, "nothing arrives after closing")
	close(ch)
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// HSubscribeAgain: a channel is subscribed again with other filters, or again after unsubscribing.
//
//verif:props C23 C24
//verif:bound two updates with arbitrary changes between which the channel is subscribed again with another filter or none, possibly unsubscribed before; every schedule
//verif:cover replaced renewed
//verif:opt sched=1 replay=engine
func HSubscribeAgain() {
	mk := func() *server.Config {
		return &server.Config{Listen: []string{"a", "b"}[verif.Choice("listen", 2)], DatabaseURL: []string{"x", "y"}[verif.Choice("url", 2)]}
	}
	l := []*server.Config{mk(), mk()}
	u := newUpdates(0)
	p := server.NewConfigDistributor(u.ch)
	ch := make(chan *server.Config, 8)
	verif.Assert(p.Subscribe(ch, byListen) == nil, "subscribing succeeds")
	u.put(l[0])
	verif.Settle()
	verif.Assert(len(ch) == 1 && is(<-ch, l[0]), "the first configuration is accepted")
	if verif.Choice("un", 2) == 1 {
		p.Unsubscribe(ch)
		verif.Cover("renewed")
	} else {
		verif.Cover("replaced")
	}
	ok := byURL
	if verif.Choice("filters", 2) == 1 {
		verif.Assert(p.Subscribe(ch, byURL) == nil, "subscribing again succeeds")
	} else {
		ok = always
		verif.Assert(p.Subscribe(ch) == nil, "subscribing again succeeds")
	}
	verif.Settle()
	for len(ch) > 0 {
		verif.Assert(is(<-ch, l[0]), "only the current configuration can arrive")
	}
	u.put(l[1])
	verif.Settle()
	if ok(l[0], l[1]) {
		verif.Assert(len(ch) == 1 && is(<-ch, l[1]), "an update the new filter accepts arrives once")
	} else {
		verif.Assert(len(ch) == 0, "an update the new filter does not accept does not arrive")
	}
	p.Close()
	close(ch)
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// HSourceEnds: the source of updates ends after its last update.
//
//verif:props C23 C24 C28
//verif:bound one or two updates, then the end of the source; one subscriber that reads; every schedule
//verif:cover ended
//verif:opt sched=1 replay=engine
func HSourceEnds() {
	n := verif.Choice("n", 3)
	l := cfgs(n)
	u := newUpdates(0)
	p := server.NewConfigDistributor(u.ch)
	ch := make(chan *server.Config, verif.Choice("room", 2))
	verif.Assert(p.Subscribe(ch) == nil, "subscribing succeeds")
	go func() {
		u.put(l...)
		close(u.ch)
	}()
	for i := 0; i < n; i++ {
		verif.Assert(is(<-ch, l[i]), "every update arrives in order")
	}
	verif.Settle()
	_, err := p.Get()
	verif.Assert(err == server.ErrConfigDistributorClosed, "the end of the source closes the distributor")
	verif.Assert(p.Subscribe(ch) == server.ErrConfigDistributorClosed, "the end of the source closes the distributor")
	verif.Assert(verif.Running() == 1, "no goroutine remains")
	p.Unsubscribe(ch)
	p.Close()
	verif.Cover("ended")
}

// HClosedAlready: the distributor is closed although it is being closed already or its source ended,
// while an update is being delivered.
//
//verif:props C23 C24 C28
//verif:bound one update under way (two in thorough) to a subscriber that reads at most one; another goroutine closes too, or the source ends, at any moment; every schedule
//verif:cover delivered undelivered
//verif:opt sched=1 replay=engine
func HClosedAlready() {
	n := pick(1, 2)
	l := cfgs(n)
	u := newUpdates(n)
	p := server.NewConfigDistributor(u.ch)
	ch := make(chan *server.Config, verif.Choice("room", 2))
	verif.Assert(p.Subscribe(ch) == nil, "subscribing succeeds")
	u.put(l...)
	got := 0
	if verif.Choice("reads", 2) == 1 {
		verif.Assert(is(<-ch, l[0]), "the first configuration comes first")
		got = 1
	}
	if verif.Choice("ends", 2) == 1 {
		close(u.ch)
	} else {
		go p.Close()
	}
	p.Close()
	for len(ch) > 0 { // what was delivered before it was closed
		verif.Assert(got < n && is(<-ch, l[got]), "updates come in order")
		got++
	}
	close(ch)
	verif.Settle() // sending now would panic
	if got == n {
		verif.Cover("delivered")
	} else {
		verif.Cover("undelivered")
	}
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}

// HManyUpdates: a subscriber that lags behind many updates.
//
//verif:props C23 C24
//verif:bound 70 updates while a subscriber does not read, which then reads them all, twice; one schedule
//verif:cover end
//verif:opt sched=one replay=engine
func HManyUpdates() {
	const n = 70
	l := cfgs(2 * n)
	u := newUpdates(0)
	p := server.NewConfigDistributor(u.ch)
	ch := make(chan *server.Config)
	verif.Assert(p.Subscribe(ch) == nil, "subscribing succeeds")
	for k := 0; k < 2; k++ {
		part := l[k*n : k*n+n]
		u.put(part...)
		verif.Settle()
		c, err := p.Get()
		verif.Assert(err == nil && is(c, part[n-1]), "reading returns the newest configuration")
		for i := 0; i < n; i++ {
			verif.Assert(is(<-ch, part[i]), "a subscriber gets every update in order, however late it reads")
		}
		verif.Settle()
		select {
		case <-ch:
			verif.Assert(false, "an update arrives once")
		default:
		}
	}
	p.Close()
	close(ch)
	verif.Settle()
	verif.Assert(verif.Running() == 1, "no goroutine remains")
	verif.Cover("end")
}

// HDistributorBusy: everything happens at once.
//
//verif:props C24 C28
//verif:bound one update under way, a subscriber that reads one update and unsubscribes, and closing, all at any moment (a reader and a second closing as well in thorough); every schedule
//verif:cover end
//verif:opt sched=1 replay=engine
func HDistributorBusy() {
	l := cfgs(1)
	u := newUpdates(0)
	p := server.NewConfigDistributor(u.ch)
	go u.put(l...)
	if verif.Thorough() {
		go func() { _, _ = p.Get() }()
		go p.Close()
	}
	go func() {
		ch := make(chan *server.Config)
		if p.Subscribe(ch) == nil {
			select {
			case <-ch:
			case <-u.stop:
			}
			p.Unsubscribe(ch)
			close(ch)
		}
	}()
	p.Close()
	close(u.stop)
	verif.Settle()
	verif.Assert(verif.Running() == 1, "every call returned and no goroutine remains")
	verif.Cover("end")
}

// HEvent: several goroutines fire one event and watch it.
//
//verif:props C21 C28
//verif:bound three goroutines firing (four in thorough), one watching; every schedule
//verif:cover before after
//verif:opt sched=1 replay=engine
func HEvent() {
	e := server.NewEvent()
	verif.Assert(!e.HasFired(), "a new event has not fired")
	select {
	case <-e.Done():
		verif.Assert(false, "the channel of a new event is open")
	default:
	}
	n, won := pick(3, 4), 0
	back := 0
	for i := 0; i < n; i++ {
		go func() {
			w := e.Fire()
			verif.Assert(e.HasFired(), "the event reads as fired once firing returned")
			select {
			case <-e.Done():
			default:
				verif.Assert(false, "the channel is closed once firing returned")
			}
			verif.Sync(nil, func() {
				if w {
					won++
				}
				back++
			}, &won)
		}()
	}
	if e.HasFired() {
		verif.Cover("after")
		verif.Assert(e.HasFired(), "a fired event stays fired")
	} else {
		verif.Cover("before")
	}
	<-e.Done()
	verif.Settle()
	verif.Assert(back == n && won == 1, "exactly one call fires the event")
	verif.Assert(e.HasFired() && !e.Fire(), "a fired event stays fired")
	verif.Assert(verif.Running() == 1, "no goroutine remains")
}
