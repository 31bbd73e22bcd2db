package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alicebob/miniredis/v2"
	redlock "github.com/blnkfinance/blnk/internal/lock"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/redis/go-redis/v9"
)

func init() {
	checks["P22"] = locks
}

// lockTap sees every command a client sends to Redis.
type lockTap struct {
	mu     sync.Mutex
	before func(n int, cmd redis.Cmder) error
	n      int
}

func (t *lockTap) set(f func(int, redis.Cmder) error) {
	t.mu.Lock()
	t.before, t.n = f, 0
	t.mu.Unlock()
}
func (t *lockTap) DialHook(next redis.DialHook) redis.DialHook {
	return func(ctx context.Context, network, addr string) (net.Conn, error) { return next(ctx, network, addr) }
}
func (t *lockTap) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		t.mu.Lock()
		f := t.before
		t.n++
		n := t.n
		t.mu.Unlock()
		if f != nil {
			if err := f(n, cmd); err != nil {
				cmd.SetErr(err)
				return err
			}
		}
		return next(ctx, cmd)
	}
}
func (t *lockTap) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return next
}

// lockOf is what both kinds of lock offer.
type lockOf interface {
	Lock(context.Context, time.Duration) error
	WaitLock(context.Context, time.Duration, time.Duration) error
	Unlock(context.Context) error
}

type grant struct {
	value string
	until time.Duration
}

type lockRig struct {
	c   *rig.Check
	mr  *miniredis.Miniredis
	now time.Duration
	// who holds what, by the calls that succeeded
	held map[string]grant
	hist []string
}

func (l *lockRig) client() (redis.UniversalClient, *lockTap) {
	cl := redis.NewClient(&redis.Options{Addr: l.mr.Addr(), MaxRetries: -1})
	t := &lockTap{}
	cl.AddHook(t)
	return cl, t
}

func (l *lockRig) bad(key, f string, x ...any) {
	l.c.Violate(key, fmt.Sprintf(f, x...)+"; history: "+strings.Join(l.hist[max(0, len(l.hist)-14):], " | "), l.hist)
}

func (l *lockRig) pass(d time.Duration) {
	l.mr.FastForward(d)
	l.now += d
	for k, g := range l.held {
		if g.until <= l.now {
			delete(l.held, k)
		}
	}
}

// agree compares what Redis holds with what was granted.
func (l *lockRig) agree(what string) bool {
	ok := true
	keys := l.mr.Keys()
	for _, k := range keys {
		v, _ := l.mr.Get(k)
		g, granted := l.held[k]
		switch {
		case !granted:
			l.bad("left-held", "after %s key %q is held by %q, to whom no call granted it (or who gave it back)", what, k, v)
			ok = false
		case g.value != v:
			l.bad("taken", "after %s key %q is held by %q while it was granted to %q", what, k, v, g.value)
			ok = false
		default:
			if d := l.mr.TTL(k) - (g.until - l.now); d < -2*time.Millisecond || d > 2*time.Millisecond {
				l.bad("lease", "after %s key %q lapses in %s, it was granted for %s", what, k, l.mr.TTL(k), g.until-l.now)
				ok = false
			}
		}
	}
	for k, g := range l.held {
		if !l.mr.Exists(k) {
			l.bad("lost", "after %s key %q is free while %q holds it for another %s", what, k, g.value, g.until-l.now)
			ok = false
		}
	}
	return ok
}

type lockUser struct {
	name  string
	keys  []string // in the order given
	uniq  []string
	value string
	l     lockOf
	one   *redlock.Locker
	tap   *lockTap
}

func (l *lockRig) user(rng *rand.Rand, i int, pool []string) *lockUser {
	u := &lockUser{name: fmt.Sprintf("u%d", i), value: fmt.Sprintf("v%d-%x", i, rng.Int31())}
	cl, tap := l.client()
	u.tap = tap
	n := 1 + rng.Intn(4)
	seen := map[string]bool{}
	for len(u.keys) < n {
		k := pool[rng.Intn(len(pool))]
		u.keys = append(u.keys, k) // may repeat
		if !seen[k] {
			seen[k] = true
			u.uniq = append(u.uniq, k)
		}
	}
	if n == 1 && rng.Intn(2) == 0 {
		u.one = redlock.NewLocker(cl, u.keys[0], u.value)
		u.l = u.one
	} else {
		given := append([]string{}, u.keys...)
		if rng.Intn(4) == 0 {
			given = append(given, "")
		}
		m := redlock.NewMultiLocker(cl, given, u.value)
		got := append([]string{}, m.Keys()...)
		want := append([]string{}, u.uniq...)
		sort.Strings(want)
		s := append([]string{}, got...)
		sort.Strings(s)
		if fmt.Sprint(s) != fmt.Sprint(want) {
			l.bad("keys", "asked for %q, the lock covers %q", given, got)
		}
		u.l = m
	}
	return u
}

var lockPool = []string{"bln_1:USD", "bln_2:USD", "bln_10:USD", "inflight-commit:txn_1", "Zürich", "zz", "A", "a b"}

// sequential runs generated calls one by one, time passing between them, and compares each with the model.
func (l *lockRig) sequential(rng *rand.Rand, steps int) {
	l.mr.FlushAll()
	l.held, l.hist, l.now = map[string]grant{}, nil, 0
	pool := lockPool[:2+rng.Intn(len(lockPool)-2)]
	var us []*lockUser
	for i := 0; i < 4; i++ {
		us = append(us, l.user(rng, i, pool))
	}
	ctx := context.Background()
	for s := 0; s < steps; s++ {
		u := us[rng.Intn(len(us))]
		free := func() bool {
			for _, k := range u.uniq {
				if _, h := l.held[k]; h {
					return false
				}
			}
			return true
		}
		ttl := time.Duration(50+rng.Intn(5000)) * time.Millisecond
		what := ""
		switch op := rng.Intn(10); {
		case op < 4:
			var err error
			// the n-th command of the call does not reach Redis
			failAt := 0
			if rng.Intn(4) == 0 {
				failAt = 1 + rng.Intn(4)
			}
			failed := false
			u.tap.set(func(n int, cmd redis.Cmder) error {
				name := strings.ToLower(cmd.Name())
				if n == failAt && !strings.HasPrefix(name, "eval") && name != "del" {
					failed = true
					return errors.New("redis is away")
				}
				return nil
			})
			want := free()
			if rng.Intn(3) == 0 {
				err = u.l.WaitLock(ctx, ttl, 12*time.Millisecond)
				what = "WaitLock"
			} else {
				err = u.l.Lock(ctx, ttl)
				what = "Lock"
			}
			u.tap.set(nil)
			what = fmt.Sprintf("%s.%s(%q,%s) = %v", u.name, what, u.keys, ttl, err)
			l.hist = append(l.hist, what)
			l.c.Case(fmt.Sprintf("lock/%dkeys/free%v/fault%v/ok%v", len(u.uniq), want, failed, err == nil), err == nil || !want)
			switch {
			case err == nil && !want:
				l.bad("granted-twice", "%s while one of its keys is held: %v", what, l.held)
				return
			case err != nil && want && !failed:
				l.bad("refused", "%s while all of its keys are free", what)
				return
			}
			if err == nil {
				for _, k := range u.uniq {
					l.held[k] = grant{u.value, l.now + ttl}
				}
			}
		case op < 7:
			mine, n := true, 0
			for _, k := range u.uniq {
				if l.held[k].value == u.value {
					n++
				} else {
					mine = false
				}
			}
			err := u.l.Unlock(ctx)
			what = fmt.Sprintf("%s.Unlock(%q) = %v", u.name, u.keys, err)
			l.hist = append(l.hist, what)
			l.c.Case(fmt.Sprintf("unlock/%dkeys/mine%v/some%v", len(u.uniq), mine, n > 0), true)
			if (err == nil) != mine {
				l.bad("unlock-answer", "%s, it held %d of %d keys", what, n, len(u.uniq))
				return
			}
			for _, k := range u.uniq {
				if l.held[k].value == u.value {
					delete(l.held, k)
				}
			}
		case op == 7 && u.one != nil:
			mine := l.held[u.keys[0]].value == u.value
			err := u.one.ExtendLock(ctx, ttl)
			what = fmt.Sprintf("%s.ExtendLock(%q,%s) = %v", u.name, u.keys, ttl, err)
			l.hist = append(l.hist, what)
			l.c.Case(fmt.Sprintf("extend/mine%v", mine), true)
			if (err == nil) != mine {
				l.bad("extend-answer", "%s, it held it: %v", what, mine)
				return
			}
			if mine {
				l.held[u.keys[0]] = grant{u.value, l.now + ttl}
			}
		default:
			d := time.Duration(1+rng.Intn(3000)) * time.Millisecond
			l.pass(d)
			what = fmt.Sprintf("%s pass", d)
			l.hist = append(l.hist, what)
		}
		l.c.Add("calls", 1)
		if !l.agree(what) {
			return
		}
	}
}

// between lets a lease lapse and another client take the keys in the midst of a call: what the other was granted stays its own.
func (l *lockRig) between(rng *rand.Rand, rounds int) {
	ctx := context.Background()
	for r := 0; r < rounds; r++ {
		l.mr.FlushAll()
		l.held, l.hist, l.now = map[string]grant{}, nil, 0
		pool := lockPool[:2+rng.Intn(4)]
		a, b := l.user(rng, 0, pool), l.user(rng, 1, pool)
		op := []string{"lock", "unlock", "extend", "wait"}[rng.Intn(4)]
		if op == "extend" && a.one == nil {
			continue
		}
		if op == "unlock" || op == "extend" {
			if a.l.Lock(ctx, time.Second) != nil {
				l.bad("refused", "%q could not be locked", a.keys)
				return
			}
		}
		at := 1 + rng.Intn(2*len(a.uniq))
		done, got := false, false
		expire := op == "unlock" || op == "extend" || rng.Intn(2) == 0
		a.tap.set(func(n int, cmd redis.Cmder) error {
			if n != at || done {
				return nil
			}
			done = true
			if expire {
				l.mr.FastForward(2 * time.Second)
			}
			got = b.l.Lock(ctx, time.Minute) == nil
			l.hist = append(l.hist, fmt.Sprintf("before command %d of %s.%s(%q) %s.Lock(%q) = %v", n, a.name, op, a.keys, b.name, b.keys, got))
			return nil
		})
		var err error
		switch op {
		case "lock":
			err = a.l.Lock(ctx, 3*time.Second)
		case "wait":
			err = a.l.WaitLock(ctx, 3*time.Second, 15*time.Millisecond)
		case "unlock":
			err = a.l.Unlock(ctx)
		case "extend":
			err = a.one.ExtendLock(ctx, 3*time.Second)
		}
		a.tap.set(nil)
		l.hist = append(l.hist, fmt.Sprintf("%s.%s(%q) = %v", a.name, op, a.keys, err))
		l.c.Case(fmt.Sprintf("between/%s/command%d/granted%v/answer%v", op, at, got, err == nil), got)
		l.c.Add("interleaved_calls", 1)
		if !got {
			continue
		}
		shared := false
		for _, k := range b.uniq {
			for _, q := range a.uniq {
				shared = shared || k == q
			}
			if v, _ := l.mr.Get(k); v != b.value {
				l.bad("taken-between", "%s was granted %q for a minute and %q is held by %q", b.name, b.keys, k, v)
				return
			}
			if ttl := l.mr.TTL(k); ttl != time.Minute {
				l.bad("lease-between", "%s was granted %q for a minute, %q now lapses in %s", b.name, b.keys, k, ttl)
				return
			}
		}
		if shared && err == nil && op != "extend" && !(op == "unlock" && done && at > 1) {
			if op == "lock" || op == "wait" {
				l.bad("granted-twice", "both %s and %s were granted a key they share", a.name, b.name)
				return
			}
		}
		if err != nil && (op == "lock" || op == "wait") {
			for _, k := range l.mr.Keys() {
				if v, _ := l.mr.Get(k); v == a.value {
					l.bad("left-held", "%s.%s(%q) failed and left %q held", a.name, op, a.keys, k)
					return
				}
			}
		}
	}
}

// crowd has many clients take overlapping sets at once; each key has one holder, and all get their turn.
func (l *lockRig) crowd(rng *rand.Rand, users, turns int) {
	l.mr.FlushAll()
	l.hist = nil
	pool := lockPool[:3+rng.Intn(4)]
	owner := make([]atomic.Int64, len(lockPool))
	idx := map[string]int{}
	for i, k := range lockPool {
		idx[k] = i
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var timeouts, granted, waited atomic.Int64
	for i := 0; i < users; i++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func(i int) {
			defer wg.Done()
			for t := 0; t < turns; t++ {
				mu.Lock()
				u := l.user(r, i*1000+t, pool)
				mu.Unlock()
				ctx, cancel := context.WithCancel(context.Background())
				var err error
				start := time.Now()
				quick := r.Intn(6) == 0
				gone := r.Intn(5) == 0
				if gone {
					time.AfterFunc(time.Duration(r.Intn(4000))*time.Microsecond, cancel)
				}
				if quick {
					err = u.l.Lock(ctx, 30*time.Second)
				} else {
					err = u.l.WaitLock(ctx, 30*time.Second, 60*time.Second)
					if time.Since(start) > 3*time.Millisecond {
						waited.Add(1)
					}
				}
				if err != nil {
					if !quick && !gone {
						timeouts.Add(1)
						l.c.Violate("starved", fmt.Sprintf("a lock of %q, waited for a minute while its holders kept it for a millisecond, was refused: %v", u.keys, err), nil)
					}
					cancel()
					continue
				}
				granted.Add(1)
				me := int64(i*1000 + t + 1)
				for _, k := range u.uniq {
					if was := owner[idx[k]].Swap(me); was != 0 {
						l.c.Violate("granted-twice", fmt.Sprintf("%q was granted while another held it", k), nil)
					}
				}
				time.Sleep(time.Duration(r.Intn(900)) * time.Microsecond)
				for _, k := range u.uniq {
					if owner[idx[k]].Swap(0) != me {
						l.c.Violate("granted-twice", fmt.Sprintf("%q was granted to another while it was held", k), nil)
					}
				}
				// an abandoned request still gives its locks back
				if err := u.l.Unlock(ctx); err != nil {
					l.c.Violate("unlock-answer", fmt.Sprintf("the holder of %q could not unlock it: %v", u.keys, err), nil)
				}
				cancel()
			}
		}(i)
	}
	wg.Wait()
	if ks := l.mr.Keys(); len(ks) > 0 {
		l.c.Violate("left-held", fmt.Sprintf("all clients are done and %q are still held", ks), nil)
	}
	l.c.Add("grants", granted.Load())
	l.c.Add("waits", waited.Load())
	l.c.Case(fmt.Sprintf("crowd/%dkeys", len(pool)), waited.Load() > 0)
	l.c.State("crowd", fmt.Sprintf("%d/%d", granted.Load(), waited.Load()))
}

func locks(c *rig.Check) {
	c.Rule = "every call's answer and the keys held afterwards are compared with a model of leases; distinct_nontrivial counts (call, keys, free or held, fault, place of the other client) kinds"
	c.Assume = append(c.Assume, "Redis is the in-memory server of the repository's own tests, whose clock the harness moves", "a command that fails did not reach Redis")
	mr, err := miniredis.Run()
	if err != nil {
		c.Broken("%v", err)
		return
	}
	defer mr.Close()
	l := &lockRig{c: c, mr: mr}
	for i := 0; i < c.Pick(120, 3000) && c.Violations() < 6; i++ {
		l.sequential(c.Rng, 40)
	}
	l.between(c.Rng, c.Pick(1500, 40000))
	for i := 0; i < c.Pick(6, 200) && c.Violations() < 6; i++ {
		l.crowd(c.Rng, 12, 25)
	}
}
