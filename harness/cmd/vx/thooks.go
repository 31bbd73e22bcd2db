package main

import (
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() { checks["P29"] = p29 }

const master29 = "master-secret-29"

// thook is a registered hook as the checker last set it. Each version has a path of its own.
type thook struct {
	id, kind, path string
	active         bool
	retries        int
	plan           string // what its receiver answers
	failN          int
}

// p29get is what one version of a hook received for one transaction.
type p29get struct {
	n, ok int
	data  map[string]any
}

type p29w struct {
	*rig.World
	c    *rig.Check
	tag  string
	rng  *rand.Rand
	mu   sync.Mutex
	vers map[string]*thook            // by path
	got  map[string]map[string]*p29get // path → transaction
	bad  []string
	held chan bool // when set, deliveries to slow hooks wait for it
	busy int
}

// p29: hooks run for every posting as registered and change nothing.
func p29(c *rig.Check) {
	c.Rule = "hooks of both kinds, active and not, with receivers that answer, refuse, hang, drop the connection or fail k times, are registered, changed and deleted through several servers between rounds of postings of all kinds; for every committed posting each hook that was active must have been called with its data (a failing one at most its retries more), no other one at all, and the postings' outcomes and balances are checked as without hooks; distinct_nontrivial counts (kind, receiver, retries, effect, calls) kinds"
	all(
		func() { p29run(c, "direct", 1, nil, rig.Mix{Sync: 6, HoldSync: 3, Settle: 3, Refund: 1, Bulk: 1, Split: 1}, c.Pick(5, 40)) },
		func() { p29run(c, "queued", 2, nil, fullMix, c.Pick(4, 40)) },
		func() { p29race(c, 3) },
	)
}

func p29boot(c *rig.Check, tag string, seed int64, cfg rig.Cfg, workers int) *p29w {
	full := rig.Cfg{"server": M{"secure": true, "secret_key": master29}}
	for k, v := range cfg {
		full[k] = v
	}
	base := boot(c, tag, full, 2, workers)
	if base == nil {
		return nil
	}
	w := &p29w{World: base, c: c, tag: tag, rng: rand.New(rand.NewSource(c.Seed*1000 + seed)), vers: map[string]*thook{}, got: map[string]map[string]*p29get{}}
	w.R.Hooks.SetRespond(w.respond)
	return w
}

func (w *p29w) say(f string, a ...any) {
	if len(w.bad) < 10 {
		w.bad = append(w.bad, fmt.Sprintf(f, a...))
	}
}

func (w *p29w) respond(h *rig.Hook) int {
	if !strings.HasPrefix(h.Path, "/th/") {
		return 200
	}
	w.mu.Lock()
	v := w.vers[h.Path]
	if v == nil {
		w.say("a call of %s, which is no hook's", h.Path)
		w.mu.Unlock()
		return 200
	}
	x, err := exact(h.Body)
	o, _ := x.(map[string]any)
	d, _ := o["data"].(map[string]any)
	id := fmt.Sprint(o["transaction_id"])
	if err != nil || d == nil {
		w.say("hook %s is called with %.300s", h.Path, h.Body)
	}
	if o["hook_type"] != v.kind || h.Header.Get("X-Hook-Type") != v.kind || h.Header.Get("X-Hook-ID") != v.id {
		w.say("the %s hook %s is called as %v, %s, %s", v.kind, v.id, o["hook_type"], h.Header.Get("X-Hook-Type"), h.Header.Get("X-Hook-ID"))
	}
	mac := hmac.New(sha256.New, []byte(master29))
	mac.Write([]byte(h.Header.Get("X-Blnk-Timestamp") + "."))
	mac.Write(h.Body)
	if s := hex.EncodeToString(mac.Sum(nil)); s != h.Header.Get("X-Blnk-Signature") {
		w.say("a call of a hook is signed %s, expected %s", h.Header.Get("X-Blnk-Signature"), s)
	}
	if w.got[h.Path] == nil {
		w.got[h.Path] = map[string]*p29get{}
	}
	g := w.got[h.Path][id]
	if g == nil {
		g = &p29get{}
		w.got[h.Path][id] = g
	}
	g.n++
	if d != nil {
		g.data = d
	}
	n := g.n
	held := w.held
	w.busy++
	w.mu.Unlock()
	st := 200
	switch v.plan {
	case "ok-json":
		h.Answer = []byte(`{"success":true,"message":"fine"}`)
	case "ok-text":
		h.Answer = []byte("fine")
	case "ok-201":
		st = 201
	case "fail-k":
		if n <= v.failN {
			st = []int{500, 503, 404, 0}[n%4]
		}
	case "500":
		st = 500
	case "500-text":
		st, h.Answer = 500, []byte("no")
	case "says-no":
		h.Answer = []byte(`{"success":false,"message":"no"}`)
	case "cut":
		st = 0
	case "half":
		st = -1
	case "hang":
		time.Sleep(1300 * time.Millisecond)
		st = 500
	case "slow":
		if held != nil {
			<-held
		}
	}
	w.mu.Lock()
	w.busy--
	if st >= 200 && st < 300 && v.plan != "says-no" {
		g.ok++
	}
	w.mu.Unlock()
	return st
}

var p29plans = []string{"ok", "ok", "ok-json", "ok-text", "ok-201", "fail-k", "fail-k", "500", "500-text", "says-no", "cut", "half"}

func (w *p29w) version(id string) *thook {
	h := &thook{id: id, kind: pick(w.rng, []string{"PRE_TRANSACTION", "POST_TRANSACTION"}), path: fmt.Sprintf("/th/%s", rig.Ref("v")), active: w.rng.Intn(4) != 0, retries: w.rng.Intn(4), plan: pick(w.rng, p29plans)}
	if w.rng.Intn(40) == 0 && w.c.Thorough() {
		h.plan = "hang"
	}
	if h.plan == "fail-k" {
		h.retries = 1 + w.rng.Intn(3)
		h.failN = 1 + w.rng.Intn(h.retries)
	}
	return h
}

func (w *p29w) body(h *thook) M {
	m := M{"name": "n", "url": w.R.Hooks.Base(h.path), "type": h.kind, "active": h.active, "retry_count": h.retries}
	if h.plan == "hang" {
		m["timeout"] = 1
	} else if w.rng.Intn(2) == 0 {
		m["timeout"] = 5
	}
	return m
}

// set registers a hook (old nil) or changes one, and reads it back from some server.
func (w *p29w) set(old, h *thook) bool {
	w.mu.Lock()
	w.vers[h.path] = h
	w.mu.Unlock()
	var r *rig.Resp
	if old == nil {
		r = w.Srv(w.rng).Do("POST", "/hooks", w.body(h))
		h.id = r.S("id")
	} else {
		r = w.Srv(w.rng).Do("PUT", "/hooks/"+old.id, w.body(h))
	}
	if !r.OK() || h.id == "" {
		w.c.Violate("register", fmt.Sprintf("[%s] setting a %s hook is refused: %v", w.tag, h.kind, r), nil)
		return false
	}
	return w.reads(h)
}

func (w *p29w) reads(h *thook) bool {
	g := w.Srv(w.rng).Do("GET", "/hooks/"+h.id, nil)
	if g.J == nil || g.J["type"] != h.kind || g.J["active"] != h.active || g.J["url"] != w.R.Hooks.Base(h.path) {
		w.c.Violate("registry", fmt.Sprintf("[%s] the hook set to %s active=%v %s reads %v", w.tag, h.kind, h.active, h.path, g), nil)
		return false
	}
	return true
}

func p29run(c *rig.Check, tag string, seed int64, cfg rig.Cfg, mix rig.Mix, rounds int) {
	w := p29boot(c, tag, seed, cfg, 2)
	if w == nil {
		return
	}
	defer w.R.Close()
	if err := w.AddBalances("USD", 6, 100000); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	hooks := []*thook{}
	for k := 0; k < rounds && c.Violations() == 0 && c.Elapsed() < time.Duration(c.Pick(60, 7000))*time.Second; k++ {
		// the registry changes; calls of the round before may still be repeated
		for i := 3 + w.rng.Intn(4); i > 0 || len(hooks) < 4; i-- {
			switch n := w.rng.Intn(10); {
			case len(hooks) < 4 || n < 3 && len(hooks) < 9:
				h := w.version("")
				if !w.set(nil, h) {
					return
				}
				hooks = append(hooks, h)
			case n < 8:
				j := w.rng.Intn(len(hooks))
				h := w.version(hooks[j].id)
				if !w.set(hooks[j], h) {
					return
				}
				hooks[j] = h
			default:
				j := w.rng.Intn(len(hooks))
				h := hooks[j]
				if r := w.Srv(w.rng).Do("DELETE", "/hooks/"+h.id, nil); !r.OK() {
					c.Violate("delete", fmt.Sprintf("[%s] deleting a hook is refused: %v", tag, r), nil)
				}
				hooks = append(hooks[:j:j], hooks[j+1:]...)
			}
		}
		from := 0
		w.R.Audit.With(func() { from = len(w.R.Audit.Ord) })
		m := mix
		m.N, m.Conc = c.Pick(24, 40), 4
		w.Run(m, w.rng.Int63())
		if w.rng.Intn(2) == 0 {
			w.hangUps(4)
		}
		if k%2 == 0 { // the calls come now; else during the next round's changes
			w.R.Drain(20*time.Second, false)
			for i := 0; i < 4; i++ {
				w.R.RunRetries(false)
				time.Sleep(150 * time.Millisecond)
			}
		} else {
			w.R.Drain(20*time.Second, false)
		}
		w.judge(from, hooks, k%2 == 0)
		if k%2 == 1 {
			w.readsAll(hooks)
		}
	}
	for _, h := range hooks {
		w.reads(h)
	}
	w.CheckReqs(tag)
	w.R.Audit.Settle(tag, "doubleentry", "fold", "inflight", "reference", "overdraft")
	crashes(c, w.World, tag)
}

func (w *p29w) readsAll(hooks []*thook) {
	for _, h := range hooks {
		w.reads(h)
	}
}

// hangUps makes postings whose client goes away before the answer.
func (w *p29w) hangUps(n int) {
	bs := w.Bals["USD"]
	for i := 0; i < n; i++ {
		p := w.Srv(w.rng)
		b, _ := json.Marshal(M{"amount": 1, "precision": 100, "currency": "USD", "reference": rig.Ref("hang"), "description": "d", "source": bs[0], "destination": bs[1], "skip_queue": true, "allow_overdraft": true})
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+w.rng.Intn(12))*time.Millisecond)
		q, _ := http.NewRequestWithContext(ctx, "POST", fmt.Sprintf("http://127.0.0.1:%d/transactions", p.Port), strings.NewReader(string(b)))
		q.Header.Set("Content-Type", "application/json")
		q.Header.Set("X-Blnk-Key", master29)
		r, err := http.DefaultClient.Do(q)
		cancel()
		if err == nil {
			r.Body.Close()
		} else {
			w.c.Add("clients_gone", 1)
		}
	}
	time.Sleep(200 * time.Millisecond)
}

// judge compares the calls with the postings committed since from.
func (w *p29w) judge(from int, hooks []*thook, done bool) {
	c := w.c
	type post struct{ id, ref, amt, cur, eff, src, dst string }
	posts := map[string]post{}
	w.R.Audit.With(func() {
		for _, r := range w.R.Audit.Ord[from:] {
			if r.Effect == "none" {
				continue
			}
			posts[r.ID] = post{r.ID, r.Ref, r.Amt.String(), r.Cur, fmt.Sprint(r.Effect), r.Src, r.Dst}
		}
	})
	live := map[string]bool{}
	for _, h := range hooks {
		if h.active {
			live[h.path] = true
		}
	}
	missing := func() []string {
		w.mu.Lock()
		defer w.mu.Unlock()
		var out []string
		for _, h := range hooks {
			if !h.active {
				continue
			}
			okable := strings.HasPrefix(h.plan, "ok") || h.plan == "fail-k" && done
			for id, p := range posts {
				g := w.got[h.path][id]
				if g == nil || okable && g.ok == 0 {
					out = append(out, fmt.Sprintf("%s hook %s (%s, %d retries) for %s %s %s: %+v", h.kind, h.path, h.plan, h.retries, p.eff, id, p.ref, g))
				}
			}
		}
		sort.Strings(out)
		return out
	}
	var ms []string
	if !rig.Eventually(12*time.Second, func() bool {
		if done {
			w.R.RunRetries(false)
		}
		ms = missing()
		return len(ms) == 0
	}) {
		c.Violate("not-called", fmt.Sprintf("[%s] %d calls of active hooks did not come, e.g. %s", w.tag, len(ms), ms[0]), ms)
	}
	if done {
		for i := 0; i < 5; i++ { // all repetitions there will be
			w.R.RunRetries(false)
			time.Sleep(60 * time.Millisecond)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for path, by := range w.got {
		h := w.vers[path]
		for id, g := range by {
			p, ok := posts[id]
			if !ok {
				continue
			}
			c.Add("calls_compared", 1)
			c.Case(fmt.Sprintf("%s %s retries %d %s calls %d", h.kind, h.plan, h.retries, p.eff, g.n), true)
			if !live[path] {
				w.say("the hook at %s (%s, %s) is called for %s %s, which was posted when it was not active there", path, h.kind, h.plan, p.eff, id)
			}
			if h.kind == "POST_TRANSACTION" {
				lim := 1 + h.retries
				if strings.HasPrefix(h.plan, "ok") {
					lim = 1
				} else if h.plan == "fail-k" {
					lim = 1 + h.failN
				}
				if g.n > lim {
					w.say("the post-transaction hook (%s, %d retries) is called %d times for %s %s", h.plan, h.retries, g.n, p.eff, id)
				}
				if d := g.data; d != nil && (d["source"] != p.src || d["destination"] != p.dst) {
					w.say("the post-transaction hook for %s %s from %s to %s has the data %v → %v", p.eff, id, p.src, p.dst, d["source"], d["destination"])
				}
			}
			if d := g.data; d != nil && (d["transaction_id"] != id || d["reference"] != p.ref || d["currency"] != p.cur || h.kind == "POST_TRANSACTION" && !sameNum(d["precise_amount"], big2(p.amt))) {
				w.say("the %s hook for %s %s (%s, %s %s) has the data %v %v %v %v", h.kind, p.eff, id, p.ref, p.amt, p.cur, d["transaction_id"], d["reference"], d["precise_amount"], d["currency"])
			}
		}
	}
	for _, b := range w.bad {
		c.Violate("call", fmt.Sprintf("[%s] %s", w.tag, b), nil)
	}
	w.bad = nil
	c.Add("postings_judged", int64(len(posts)))
	if len(posts) == 0 {
		c.Broken("%s: nothing was posted in a round", w.tag)
	}
}

// p29race changes and deletes hooks while a call of them is under way.
func p29race(c *rig.Check, seed int64) {
	w := p29boot(c, "under-way", seed, nil, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	if err := w.AddBalances("USD", 3, 100000); err != nil {
		c.Broken("under-way: %v", err)
		return
	}
	for k := 0; k < c.Pick(8, 60) && c.Violations() == 0; k++ {
		h := w.version("")
		h.active, h.plan, h.retries = true, "slow", 1
		if !w.set(nil, h) {
			return
		}
		held := make(chan bool)
		w.mu.Lock()
		w.held = held
		w.mu.Unlock()
		w.Run(rig.Mix{Sync: 1, N: 2, Conc: 1}, w.rng.Int63())
		came := rig.Eventually(8*time.Second, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.busy > 0 })
		kind := []string{"deactivate", "move", "delete", "kind"}[k%4]
		n := *h
		hooks := []*thook{&n}
		n.path = "/th/" + rig.Ref("v")
		n.plan = "ok"
		switch kind {
		case "deactivate":
			n.active = false
		case "kind":
			n.kind = map[string]string{"PRE_TRANSACTION": "POST_TRANSACTION", "POST_TRANSACTION": "PRE_TRANSACTION"}[h.kind]
		}
		ok := true
		if kind == "delete" {
			hooks = nil
			if r := w.Srv(w.rng).Do("DELETE", "/hooks/"+h.id, nil); !r.OK() {
				c.Violate("delete", fmt.Sprintf("[under-way] deleting a hook is refused: %v", r), nil)
			}
		} else {
			ok = w.set(h, &n)
		}
		w.mu.Lock()
		w.held = nil
		w.mu.Unlock()
		close(held)
		if !came {
			c.Broken("under-way: no call came")
			return
		}
		if !ok {
			return
		}
		rig.Eventually(8*time.Second, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.busy == 0 })
		w.R.Drain(10*time.Second, false)
		time.Sleep(150 * time.Millisecond)
		if kind == "delete" {
			if g := w.Srv(w.rng).Do("GET", "/hooks/"+h.id, nil); g.Code != 404 {
				c.Violate("registry", fmt.Sprintf("[under-way] a hook deleted while it was being called is there: %v", g), nil)
			}
		} else {
			w.reads(&n)
		}
		from := 0
		w.R.Audit.With(func() { from = len(w.R.Audit.Ord) })
		w.Run(rig.Mix{Sync: 1, N: 2, Conc: 1}, w.rng.Int63())
		w.R.Drain(10*time.Second, false)
		time.Sleep(150 * time.Millisecond)
		w.judge(from, hooks, true)
		c.Add("changed_under_way", 1)
		c.State("under-way", kind+h.kind)
		if hooks != nil {
			w.Srv(w.rng).Do("DELETE", "/hooks/"+h.id, nil)
		}
	}
	crashes(c, w.World, "under-way")
}

var _ = big.NewInt
