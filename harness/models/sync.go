package models

import (
	"sync"

	"vharness/verif"
)

var pools = map[*sync.Pool]*[]any{}

func poolOf(p *sync.Pool) (items *[]any) {
	items = pools[p]
	if items == nil {
		items = new([]any)
		pools[p] = items
	}
	return items
}

// PoolGet returns what was put in last, which the real pool may do.
//
//verif:replace (*sync.Pool).Get
func PoolGet(p *sync.Pool) (x any) {
	verif.Sync(nil, func() {
		items := poolOf(p)
		if n := len(*items); n > 0 {
			x = (*items)[n-1]
			*items = (*items)[:n-1]
		}
	}, p)
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

// PoolPut keeps x.
//
//verif:replace (*sync.Pool).Put
func PoolPut(p *sync.Pool, x any) {
	if x == nil {
		return
	}
	verif.Sync(nil, func() {
		items := poolOf(p)
		*items = append(*items, x)
	}, p)
}

type waiter struct{ woken bool }

var waiters = map[*sync.Cond]*[]*waiter{}

func waitersOf(c *sync.Cond) *[]*waiter {
	w := waiters[c]
	if w == nil {
		w = new([]*waiter)
		waiters[c] = w
	}
	return w
}

// CondWait waits to be woken.
//
//verif:replace (*sync.Cond).Wait
func CondWait(c *sync.Cond) {
	w := &waiter{}
	verif.Sync(nil, func() {
		l := waitersOf(c)
		*l = append(*l, w)
	}, c)
	c.L.Unlock()
	verif.Sync(func() bool { return w.woken }, nil, c)
	c.L.Lock()
}

// CondSignal wakes the waiter that waits longest.
//
//verif:replace (*sync.Cond).Signal
func CondSignal(c *sync.Cond) {
	verif.Sync(nil, func() {
		if l := waitersOf(c); len(*l) > 0 {
			(*l)[0].woken = true
			*l = (*l)[1:]
		}
	}, c)
}

// CondBroadcast wakes every waiter.
//
//verif:replace (*sync.Cond).Broadcast
func CondBroadcast(c *sync.Cond) {
	verif.Sync(nil, func() {
		l := waitersOf(c)
		for _, w := range *l {
			w.woken = true
		}
		*l = nil
	}, c)
}

var syncMaps = map[*sync.Map]map[any]any{}

func mapOf(m *sync.Map) map[any]any {
	x := syncMaps[m]
	if x == nil {
		x = map[any]any{}
		syncMaps[m] = x
	}
	return x
}

// MapLoad is Load.
//
//verif:replace (*sync.Map).Load
func MapLoad(m *sync.Map, key any) (v any, ok bool) {
	verif.Sync(nil, func() { v, ok = mapOf(m)[key] }, m)
	return v, ok
}

// MapStore is Store.
//
//verif:replace (*sync.Map).Store
func MapStore(m *sync.Map, key, v any) { verif.Sync(nil, func() { mapOf(m)[key] = v }, m) }

// MapDelete is Delete.
//
//verif:replace (*sync.Map).Delete
func MapDelete(m *sync.Map, key any) { verif.Sync(nil, func() { delete(mapOf(m), key) }, m) }

// MapClear is Clear.
//
//verif:replace (*sync.Map).Clear
func MapClear(m *sync.Map) { verif.Sync(nil, func() { syncMaps[m] = map[any]any{} }, m) }

// MapLoadOrStore is LoadOrStore.
//
//verif:replace (*sync.Map).LoadOrStore
func MapLoadOrStore(m *sync.Map, key, v any) (old any, loaded bool) {
	verif.Sync(nil, func() {
		old, loaded = mapOf(m)[key]
		if !loaded {
			mapOf(m)[key] = v
			old = v
		}
	}, m)
	return old, loaded
}

// MapLoadAndDelete is LoadAndDelete.
//
//verif:replace (*sync.Map).LoadAndDelete
func MapLoadAndDelete(m *sync.Map, key any) (old any, loaded bool) {
	verif.Sync(nil, func() {
		old, loaded = mapOf(m)[key]
		delete(mapOf(m), key)
	}, m)
	return old, loaded
}

// MapSwap is Swap.
//
//verif:replace (*sync.Map).Swap
func MapSwap(m *sync.Map, key, v any) (old any, loaded bool) {
	verif.Sync(nil, func() {
		old, loaded = mapOf(m)[key]
		mapOf(m)[key] = v
	}, m)
	return old, loaded
}

// MapCompareAndSwap is CompareAndSwap.
//
//verif:replace (*sync.Map).CompareAndSwap
func MapCompareAndSwap(m *sync.Map, key, old, v any) (swapped bool) {
	verif.Sync(nil, func() {
		cur, ok := mapOf(m)[key]
		if swapped = ok && cur == old; swapped {
			mapOf(m)[key] = v
		}
	}, m)
	return swapped
}

// MapRange is Range over the entries there are at its start.
//
//verif:replace (*sync.Map).Range
func MapRange(m *sync.Map, f func(key, v any) bool) {
	var keys, vals []any
	verif.Sync(nil, func() {
		for k, v := range mapOf(m) {
			keys, vals = append(keys, k), append(vals, v)
		}
	}, m)
	for i, k := range keys {
		if !f(k, vals[i]) {
			return
		}
	}
}
