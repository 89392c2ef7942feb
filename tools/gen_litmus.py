#!/usr/bin/env python3
"""Writes random concurrent programs (harness/selftest/gen/gen.go) for comparing the reduction with every interleaving.
usage: gen_litmus.py SEED COUNT OPS"""
import random, sys
seed, count, nops = map(int, sys.argv[1:4])
R = random.Random(seed)
out = ['package gen', '', 'import (', '\t"fmt"', '\t"strings"', '\t"sync"', '\t"sync/atomic"', '', '\t"vharness/verif"', ')', '',
       'var _ = fmt.Sprint', 'var _ sync.Mutex', 'var _ atomic.Bool', '']
def op(t, k, closers, ind):
    kinds = ['send', 'recv', 'select', 'select', 'nb', 'lock', 'store', 'load', 'rlock', 'wlock', 'close']
    o = R.choice(kinds)
    ch = lambda: R.choice(['a', 'b'])
    val = str(t * 10 + k)
    def case(c):
        if R.random() < .5:
            return f'case {c} <- {val}:', f'r[{t}] += "s{c}"'
        return f'case v, ok := <-{c}:', f'r[{t}] += fmt.Sprint("r{c}", v, ok)'
    if o == 'send': return [f'{ch()} <- {val}']
    if o == 'recv': return [f'v{k}, ok{k} := <-{ch()}', f'r[{t}] += fmt.Sprint(v{k}, ok{k})']
    if o in ('select', 'nb'):
        l = ['select {']
        cs = ['a', 'b'] if R.random() < .7 else [ch()]
        if o == 'select' and len(cs) == 1: cs = [cs[0], 'q']
        for c in cs:
            if c == 'q':
                l += ['case <-q:', f'\tr[{t}] += "q"']
                continue
            h, b = case(c)
            l += [h, '\t' + b]
        if o == 'nb': l += ['default:', f'\tr[{t}] += "d"']
        return l + ['}']
    if o == 'lock': return ['mu.Lock()', f'x += "{t}{k}"', 'mu.Unlock()']
    if o == 'store': return [f'fl.Store({val})']
    if o == 'load': return [f'r[{t}] += fmt.Sprint(fl.Load())']
    if o == 'rlock': return ['rw.RLock()', f'r[{t}] += y', 'rw.RUnlock()']
    if o == 'wlock': return ['rw.Lock()', f'y += "{t}"', 'rw.Unlock()']
    if o == 'close':
        if closers: return [f'fl.Store({val})']
        closers.append(1)
        return ['close(q)']
for i in range(count):
    ca, cb = R.choice([0, 0, 1]), R.choice([0, 1, 1, 2])
    nt = R.choice([2, 3])
    out += [f'func H{i:03d}() {{', f'\ta, b, q := make(chan int, {ca}), make(chan int, {cb}), make(chan bool)',
            '\tvar mu sync.Mutex', '\tvar rw sync.RWMutex', '\tvar fl atomic.Int32', '\tx, y := "", ""', f'\tr := make([]string, {nt})',
            '\t_, _, _, _, _, _ = a, b, q, &mu, &rw, &fl']
    closers = []
    for t in range(nt):
        out.append('\tgo func() {')
        for k in range(R.randint(1, nops)):
            out += ['\t\t' + l for l in op(t, k, closers, 2)]
        out.append('\t}()')
    out += ['\tverif.Settle()', '\tverif.Cover(fmt.Sprint(x, "/", y, "/", strings.Join(r, ","), "/", verif.Running()))', '}', '']
import os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'selftest', 'gen')
os.makedirs(d, exist_ok=True)
open(os.path.join(d, 'gen.go'), 'w').write('\n'.join(out))
