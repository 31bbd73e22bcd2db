package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P03"] = p03
	checks["P12"] = p12
}

// tracked makes an identity and a balance that tracks fund lineage.
func tracked(w *rig.World, first, strategy string) (identity, balance string) {
	r := w.S[0].Do("POST", "/identities", M{"identity_type": "individual", "first_name": first, "last_name": "x", "email_address": "a@b.co", "phone_number": "+15555555555", "category": "c"})
	identity = r.S("identity_id")
	b := w.S[0].Do("POST", "/balances", M{"ledger_id": w.Ledger, "currency": "USD", "identity_id": identity, "track_fund_lineage": true, "allocation_strategy": strategy})
	balance = b.S("balance_id")
	if identity == "" || balance == "" {
		w.R.C.Broken("could not make a tracked balance: %s %s", r, b)
	}
	return
}

// p03mon watches which lineage tasks are written with which postings.
type p03mon struct {
	mu   sync.Mutex
	with map[string]int // transaction id -> tasks written in its own commit
	tot  map[string]int // transaction id -> tasks written at all
}

func watchOutbox(w *rig.World) *p03mon {
	m := &p03mon{with: map[string]int{}, tot: map[string]int{}}
	w.R.Audit.With(func() {
		w.R.Audit.Watch = func(k *pgfake.Commit) {
			ids := map[string]bool{}
			for _, ch := range k.Changes {
				if ch.Table == "blnk.transactions" && ch.Before == nil && ch.After != nil {
					ids[rig.Str(ch.After["transaction_id"])] = true
				}
			}
			m.mu.Lock()
			for _, ch := range k.Changes {
				if ch.Table == "blnk.lineage_outbox" && ch.Before == nil && ch.After != nil {
					id := rig.Str(ch.After["transaction_id"])
					m.tot[id]++
					if ids[id] {
						m.with[id]++
					}
				}
			}
			m.mu.Unlock()
		}
	})
	return m
}

type p03op struct {
	name  string
	queue bool
	// prep runs without faults and returns what to do under faults; the function returns the answers.
	prep func() func() []*rig.Resp
	refs func() []string // references the operation would record (base references)
}

func p03(c *rig.Check) {
	c.Rule = "each kind of posting is run with the k-th database statement of the process failing (serialisation error, admin shutdown, connection cut before or after it ran), for every k until the operation finishes undisturbed; after each the stored balances, records and lineage tasks are compared at commit granularity, and an acknowledged posting must be found by id and by reference; some runs kill the process at the statement; distinct_nontrivial counts (operation, statement, fault, outcome)"
	part := func(n int) func() { return func() { p03run(c, n) } }
	all(part(0), part(1), part(2), part(3), part(4))
}

func p03run(c *rig.Check, part int) {
	tag := fmt.Sprintf("part%d", part)
	w := boot(c, tag, rig.Cfg{"transaction": M{"lock_wait_timeout": 1}, "queue": M{"max_retry_attempts": 6}}, 1, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 4, 100000000); err != nil {
		c.Broken("%v", err)
		return
	}
	mon := watchOutbox(w)
	b := w.Bals["USD"]
	_, ta := tracked(w, "Ann", "FIFO")
	_, tb := tracked(w, "Bob", "LIFO")
	post := func(body M) *rig.Resp { return w.S[0].Txn(body) }
	meta := M{"BLNK_LINEAGE_PROVIDER": "acme"}
	prov := func(dst string, n int64) {
		for i := 0; i < 3; i++ {
			if r := post(M{"source": "@world", "destination": dst, "precise_amount": n, "allow_overdraft": true, "skip_queue": true, "meta_data": meta}); r.OK() {
				return
			}
		}
		c.Broken("%s: could not fund", tag)
	}
	prov(ta, 100000000)
	prov(tb, 100000000)
	var cur string
	one := func(m M) func() func() []*rig.Resp {
		return func() func() []*rig.Resp {
			cur = rig.Ref("f")
			body := merge1(m, M{"reference": cur})
			return func() []*rig.Resp { return []*rig.Resp{post(body)} }
		}
	}
	hold := func(src, dst string, act M) func() func() []*rig.Resp {
		return func() func() []*rig.Resp {
			cur = rig.Ref("f")
			h := post(M{"source": src, "destination": dst, "precise_amount": 1000, "inflight": true, "skip_queue": true, "reference": rig.Ref("h")})
			if !h.OK() {
				c.Broken("%s: hold refused: %s", tag, h)
			}
			return func() []*rig.Resp {
				return []*rig.Resp{w.S[0].Do("PUT", "/transactions/inflight/"+h.S("transaction_id"), act)}
			}
		}
	}
	ops := []p03op{
		{name: "post", prep: one(M{"source": b[0], "destination": b[1], "precise_amount": 70, "skip_queue": true})},
		{name: "post-new-indicator", prep: func() func() []*rig.Resp {
			cur = rig.Ref("f")
			body := M{"source": b[0], "destination": "@" + rig.Ref("acct"), "precise_amount": 71, "skip_queue": true, "reference": cur}
			return func() []*rig.Resp { return []*rig.Resp{post(body)} }
		}},
		{name: "post-lineage-credit", prep: one(M{"source": b[0], "destination": ta, "precise_amount": 72, "skip_queue": true, "meta_data": meta})},
		{name: "post-lineage-debit", prep: one(M{"source": ta, "destination": b[1], "precise_amount": 73, "skip_queue": true})},
		{name: "post-lineage-both", prep: one(M{"source": ta, "destination": tb, "precise_amount": 74, "skip_queue": true, "meta_data": meta})},
		{name: "hold", prep: one(M{"source": b[2], "destination": b[1], "precise_amount": 75, "inflight": true, "skip_queue": true})},
		{name: "hold-lineage", prep: one(M{"source": tb, "destination": ta, "precise_amount": 76, "inflight": true, "skip_queue": true})},
		{name: "commit", prep: hold(b[0], b[3], M{"status": "commit", "precise_amount": 300, "skip_queue": true})},
		{name: "commit-lineage", prep: hold(ta, b[3], M{"status": "commit", "skip_queue": true})},
		{name: "void", prep: hold(b[0], b[3], M{"status": "void", "skip_queue": true})},
		{name: "void-lineage", prep: hold(ta, tb, M{"status": "void", "skip_queue": true})},
		{name: "refund", prep: func() func() []*rig.Resp {
			cur = rig.Ref("f")
			h := post(M{"source": b[1], "destination": b[0], "precise_amount": 90, "skip_queue": true, "reference": rig.Ref("h")})
			return func() []*rig.Resp {
				return []*rig.Resp{w.S[0].Do("POST", "/refund-transaction/"+h.S("transaction_id"), M{"skip_queue": true})}
			}
		}},
		{name: "queued", queue: true, prep: one(M{"source": b[0], "destination": b[1], "precise_amount": 77})},
		{name: "queued-lineage", queue: true, prep: one(M{"source": ta, "destination": tb, "precise_amount": 78, "meta_data": meta})},
		{name: "queued-lot", queue: true, prep: func() func() []*rig.Resp {
			cur = rig.Ref("f")
			base := cur
			return func() []*rig.Resp {
				var rs []*rig.Resp
				var mu sync.Mutex
				var wg sync.WaitGroup
				for i := 0; i < 5; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						src := b[3]
						if i == 4 {
							src = ta
						}
						r := post(M{"source": src, "destination": tb, "precise_amount": 60 + i, "reference": fmt.Sprintf("%s-%d", base, i), "meta_data": meta})
						mu.Lock()
						rs = append(rs, r)
						mu.Unlock()
					}()
				}
				wg.Wait()
				return rs
			}
		}},
	}
	faults := []string{"40001", "57P01", "before", "after"}
	rng := rand.New(rand.NewSource(c.Seed*31 + int64(part)))
	base := map[string]string{}
	// lineage tasks each recorded posting of an operation carries, by operation and status
	tasks := func(op string, from int) string {
		var l []string
		w.R.Audit.With(func() {
			for _, t := range w.R.Audit.Ord[from:] {
				if t.Effect == "none" || t.App == "" || isShadow(w, t) {
					continue
				}
				mon.mu.Lock()
				l = append(l, fmt.Sprintf("%s %d/%d", t.Status, mon.with[t.ID], mon.tot[t.ID]))
				mon.mu.Unlock()
			}
		})
		return strings.Join(l, ",")
	}
	deadline := time.Duration(c.Pick(55, 1500)) * time.Second
	for oi, op := range ops {
		if op.queue && oi%4 != part-1 || !op.queue && (part > 1 || oi%2 != part) {
			continue
		}
		commitAt := map[int64]bool{}
		var cmu sync.Mutex
		run := func(k int64, fault string) (hit bool) {
			app := w.S[0].Name
			if op.queue {
				app = w.W[0].Name
			}
			f := op.prep()
			from := 0
			w.R.Audit.With(func() { from = len(w.R.Audit.Ord) })
			before := w.R.Audit.Snapshot()
			var n atomic.Int64
			var what atomic.Value
			{
				w.R.Eng.SetHook(func(s *stmt) *action {
					if s.App != app || (s.Kind == "other" && !s.InTx) || strings.Contains(s.Table, "lineage_outbox") && !s.InTx {
						return nil
					}
					i := n.Add(1)
					if k == 0 && s.Kind == "commit" {
						cmu.Lock()
						commitAt[i] = true
						cmu.Unlock()
					}
					if i != k {
						return nil
					}
					what.Store(fmt.Sprintf("%s %s intx=%v", s.Kind, s.Table, s.InTx))
					switch fault {
					case "before", "after":
						return &action{Cut: fault}
					case "kill":
						p := w.S[0]
						p.Cmd.Process.Kill()
						return &action{Cut: []string{"before", "after"}[rng.Intn(2)]}
					}
					return &action{Err: pgErr(fault, "injected")}
				})
			}
			rs := f()
			if op.queue {
				if err := w.R.Drain(30*time.Second, false); err != nil {
					c.Broken("%s %s: %v", tag, op.name, err)
				}
			} else {
				time.Sleep(time.Millisecond)
			}
			w.R.Eng.SetHook(nil)
			if fault == "kill" && what.Load() != nil {
				w.S[0].Kill()
				dropLocks(w)
				p, err := w.R.Start("start", nil)
				if err != nil {
					c.Broken("%v", err)
					return false
				}
				w.S[0] = p
			}
			hit = what.Load() != nil
			d := fmt.Sprintf("[%s] %s with fault %s at statement %d (%v): answers %v", tag, op.name, fault, k, what.Load(), rs)
			if k == 0 {
				base[op.name] = tasks(op.name, from)
				for _, r := range rs {
					if !r.OK() {
						c.Broken("%s", d)
					}
				}
			}
			eff := 0
			w.R.Audit.With(func() {
				for _, t := range w.R.Audit.Ord[from:] {
					if t.Effect != "none" && !isShadow(w, t) {
						eff++
					}
				}
			})
			got := tasks(op.name, from)
			if eff > 0 {
				// the postings that are there carry the tasks they carry when nothing fails
				for _, x := range strings.Split(got, ",") {
					if !strings.Contains(","+base[op.name]+",", ","+x+",") {
						c.Violate("tasks", fmt.Sprintf("%s: recorded postings and their lineage tasks (in the same commit/at all): %s; undisturbed: %s", d, got, base[op.name]), nil)
					}
				}
			}
			oks := 0
			for _, r := range rs {
				if !r.OK() {
					continue
				}
				oks++
				id := r.S("transaction_id")
				g := w.S[0].Do("GET", "/transactions/"+id, nil)
				if !g.OK() || g.S("transaction_id") != id {
					c.Violate("not-found", fmt.Sprintf("%s: acknowledged %s, then GET by id answers %s", d, id, g), nil)
				}
				ref := r.S("reference")
				if g := w.S[0].Do("GET", "/transactions/reference/"+ref, nil); !g.OK() {
					c.Violate("not-found", fmt.Sprintf("%s: acknowledged %s, then GET by reference %s answers %s", d, id, ref, g), nil)
				}
				if t := w.R.Audit.Txn(id); t == nil {
					c.Violate("not-recorded", fmt.Sprintf("%s: acknowledged %s is not recorded", d, id), nil)
				}
			}
			if !op.queue && oks > eff {
				c.Violate("acknowledged", fmt.Sprintf("%s: %d acknowledged, %d recorded", d, oks, eff), nil)
			}
			if op.queue && fault != "kill" && oks != eff {
				rej := 0
				w.R.Audit.With(func() {
					for _, t := range w.R.Audit.Ord[from:] {
						if t.Status == "REJECTED" {
							rej++
						}
					}
				})
				if eff+rej < oks {
					c.Violate("acknowledged", fmt.Sprintf("%s: %d acknowledged, %d recorded and %d rejected", d, oks, eff, rej), nil)
				}
			}
			if eff == 0 {
				if x := rig.Diff(before, w.R.Audit.Snapshot()); len(x) > 0 && !shadowMoved(w, from) {
					c.Violate("trace", fmt.Sprintf("%s: nothing recorded and yet %v", d, x), nil)
				}
			}
			c.Case(fmt.Sprintf("%s/%d/%s/%d-%d", op.name, k, fault, oks, eff), k > 0 && hit)
			if hit {
				c.Add("faults_injected", 1)
				c.State("fault_sites", fmt.Sprintf("%s %v", op.name, what.Load()))
			}
			w.R.Audit.Settle(fmt.Sprintf("%s %s fault %s at statement %d (%v)", tag, op.name, fault, k, what.Load()), "fold", "doubleentry", "reference", "inflight")
			return hit
		}
		run(0, "")
		for k := int64(1); k < 120; k++ {
			hit := false
			atCommit := commitAt[k]
			for fi, f := range faults {
				if !c.Thorough() && op.queue && fi != int(k+c.Seed)%4 && !atCommit {
					continue // the statements that commit get every fault
				}
				if c.Elapsed() > deadline {
					c.Add("cut_short", 1)
					break
				}
				hit = run(k, f) || hit
			}
			if !op.queue && rng.Intn(c.Pick(12, 2)) == 0 {
				hit = run(k, "kill") || hit
			}
			if !hit {
				break
			}
		}
	}
	for _, r := range w.R.Crashes() {
		c.Violate("crash", "["+tag+"] "+r, nil)
	}
}

// dropLocks releases the locks of killed processes, as happens when they lapse.
func dropLocks(w *rig.World) {
	time.Sleep(20 * time.Millisecond)
	for _, k := range w.R.MR.Keys() {
		if t := w.R.MR.TTL(k); t > 0 && t <= 5*time.Minute && !strings.HasPrefix(k, "asynq") {
			w.R.MR.Del(k)
		}
	}
}

// isShadow tells the service's own lineage postings.
func isShadow(w *rig.World, t *rig.Row) bool {
	if p := w.R.Audit.Txns[t.Parent]; p != nil && p != t && t.Parent != t.ID && isShadow(w, p) {
		return true // such as the settlement of a hold of one
	}
	return strings.Contains(t.Ref, "_shadow_") || strings.Contains(t.Ref, "_release_") || strings.Contains(t.Ref, "_receive_")
}

func shadowMoved(w *rig.World, from int) bool {
	y := false
	w.R.Audit.With(func() {
		for _, t := range w.R.Audit.Ord[from:] {
			y = y || isShadow(w, t) && t.Effect != "none"
		}
	})
	return y
}

// settleLineage waits until the deployment is quiet: no lineage task waiting.
func settleLineage(w *rig.World) {
	for i := 0; i < 400; i++ {
		n := 0
		for _, r := range w.R.Eng.Rows("blnk.lineage_outbox") {
			if s := rig.Str(r["status"]); s == "pending" || s == "processing" {
				n++
			}
		}
		if n == 0 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

var _ = big.NewInt

type batch12 struct {
	id       string
	qs       []*rig.Req
	legs     map[string][]string // references each member is recorded under
	atomic   bool
	inflight bool
	sync     bool
	async    bool
	fail     int // index of the member meant to fail, -1: none
	why      string
	resp     *rig.Resp
}

// p12: atomic bulks.
func p12(c *rig.Check) {
	c.Rule = "batches with a member made to fail (funds, reference used before or twice, currency, unsplittable amount, a database fault at a random statement, a client that hangs up) at every position; afterwards every member's effects, reversals and releases and the totals of every balance are compared with the outcome that was reported (in the answer or the webhook); distinct_nontrivial counts (atomic, inflight, path, failure, position, size, report) kinds"
	all(
		func() { p12run(c, "default", nil, c.Seed) },
		func() { p12run(c, "small-pages", rig.Cfg{"transaction": M{"batch_size": 2}}, c.Seed+1) },
		func() { p12run(c, "busy", rig.Cfg{"transaction": M{"lock_wait_timeout": 2}}, c.Seed+2) },
	)
}

func p12run(c *rig.Check, tag string, cfg rig.Cfg, seed int64) {
	w := boot(c, tag, cfg, 1, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 6, 10000000); err != nil {
		c.Broken("%v", err)
		return
	}
	if err := w.AddBalances("EUR", 2, 10000000); err != nil {
		c.Broken("%v", err)
		return
	}
	rng := rand.New(rand.NewSource(seed))
	bs := w.Bals["USD"]
	poor := w.S[0].Balance(w.Ledger, "USD")
	used := rig.Ref("used")
	if r := w.S[0].Txn(M{"source": bs[0], "destination": bs[1], "precise_amount": 1, "reference": used, "skip_queue": true}); !r.OK() {
		c.Broken("%s", r)
		return
	}
	busy := tag == "busy"
	stop := make(chan struct{})
	var bg sync.WaitGroup
	if busy {
		for i := 0; i < 3; i++ {
			bg.Add(1)
			go func(g int) {
				defer bg.Done()
				r := rand.New(rand.NewSource(seed*77 + int64(g)))
				for {
					select {
					case <-stop:
						return
					default:
					}
					q := w.RandReq(r)
					q.Sync = r.Intn(2) == 0
					w.Post(r, q)
					time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
				}
			}(i)
		}
	}
	var late []func()
	n := c.Pick(70, 1500)
	whys := []string{"funds", "reference", "twice", "split", "fault", "hangup", "none", "none"}
	for it := 0; it < n && c.Elapsed() < time.Duration(c.Pick(45, 3000))*time.Second; it++ {
		b := &batch12{fail: -1, atomic: rng.Intn(4) > 0, inflight: rng.Intn(2) == 0, sync: rng.Intn(6) > 0, async: rng.Intn(4) == 0, why: whys[rng.Intn(len(whys))], legs: map[string][]string{}}
		size := 1 + rng.Intn(7)
		if b.why != "none" {
			b.fail = rng.Intn(size)
		}
		if !b.sync && (b.why == "split" || b.why == "hangup" || b.why == "fault") {
			b.why, b.fail = "none", -1
		}
		if b.async && b.why == "hangup" {
			b.why, b.fail = "none", -1
		}
		var txs []M
		total := map[string]int64{}
		for i := 0; i < size; i++ {
			s, d := bs[rng.Intn(6)], bs[rng.Intn(6)]
			for d == s {
				d = bs[rng.Intn(6)]
			}
			q := &rig.Req{Kind: "bulk", Ref: rig.Ref("b"), Src: s, Dst: d, Cur: "USD", Amt: big.NewInt(1 + rng.Int63n(500)), Sync: b.sync, Inflight: b.inflight}
			if i == b.fail {
				switch b.why {
				case "funds":
					q.Src = poor
					if rng.Intn(2) == 0 {
						q.Src, q.Amt = s, big.NewInt(90000000)
					}
				case "reference":
					q.Ref = used
				case "twice":
					q.Ref = used
					if i > 0 {
						if x := b.qs[rng.Intn(i)]; x.Legs == 0 {
							q.Ref = x.Ref
						}
					}
				case "currency":
					q.Dst = w.Bals["EUR"][0]
				}
			}
			w.Permit(q.Ref, q.Perm)
			body := q.Body()
			refs := []string{q.Ref}
			if (rng.Intn(5) == 0 || i == b.fail && b.why == "split") && !(i == b.fail && b.why != "split") && q.Ref != used { // a member with several destinations
				d2 := bs[rng.Intn(6)]
				for d2 == s || d2 == d {
					d2 = bs[rng.Intn(6)]
				}
				delete(body, "destination")
				body["destinations"] = []M{{"identifier": d, "distribution": "40%"}, {"identifier": d2, "distribution": "left"}}
				if i == b.fail && b.why == "split" {
					body["destinations"] = []M{{"identifier": d, "distribution": "90%"}, {"identifier": d2, "distribution": "30%"}}
				}
				if q.Amt.Int64() < 10 {
					q.Amt = big.NewInt(10)
					body["precise_amount"] = 10
				}
				q.Legs = 2
				refs = nil
				for k := 0; k < 3; k++ {
					for _, sep := range []string{"-", "_"} {
						x := fmt.Sprintf("%s%s%d", q.Ref, sep, k)
						refs = append(refs, x)
						w.Permit(x, rig.Perm{})
					}
				}
			}
			if rng.Intn(4) == 0 { // the batch decides, whatever the member says
				body["inflight"] = !b.inflight
			}
			total[q.Src] += q.Amt.Int64()
			b.qs = append(b.qs, q)
			b.legs[q.Ref] = refs
			txs = append(txs, body)
		}
		var before map[string]string
		if !busy {
			before = w.R.Audit.Snapshot()
		}
		body := M{"transactions": txs, "atomic": b.atomic, "inflight": b.inflight, "run_async": b.async, "skip_queue": b.sync}
		var hit atomic.Bool
		if b.why == "fault" {
			var k atomic.Int64
			at := 1 + rng.Int63n(int64(9*size))
			kind := []string{"40001", "57P01", "before", "after", "08006"}[rng.Intn(5)]
			w.R.Eng.SetHook(func(s *stmt) *action {
				if s.App != w.S[0].Name || s.Kind == "other" && !s.InTx || strings.Contains(s.Table, "outbox") || k.Add(1) != at {
					return nil
				}
				hit.Store(true)
				if len(kind) == 5 && kind[0] < 'a' {
					return &action{Err: pgErr(kind, "injected")}
				}
				return &action{Cut: map[bool]string{true: "before", false: "after"}[kind == "before"]}
			})
		}
		if b.why == "hangup" {
			// the client goes away while the batch is being worked on
			var k atomic.Int64
			at := 1 + rng.Int63n(int64(8*size))
			gone := make(chan struct{})
			cl := &http.Client{Transport: &http.Transport{}}
			j, _ := json.Marshal(body)
			req, _ := http.NewRequest("POST", fmt.Sprintf("http://127.0.0.1:%d/transactions/bulk", w.S[0].Port), bytes.NewReader(j))
			req.Header.Set("Content-Type", "application/json")
			cancel := make(chan struct{})
			req.Cancel = cancel
			w.R.Eng.SetHook(func(s *stmt) *action {
				if s.App != w.S[0].Name || s.Kind == "other" && !s.InTx || strings.Contains(s.Table, "outbox") || k.Add(1) != at {
					return nil
				}
				hit.Store(true)
				close(cancel)
				<-gone
				time.Sleep(5 * time.Millisecond)
				return nil
			})
			resp, err := cl.Do(req)
			close(gone)
			b.resp = &rig.Resp{Err: err, J: M{}}
			if err == nil {
				b.resp.Code = resp.StatusCode
				resp.Body.Close()
			}
			cl.CloseIdleConnections()
			time.Sleep(60 * time.Millisecond)
			rig.Eventually(5*time.Second, w.R.Eng.Idle)
		} else {
			b.resp = w.S[0].Do("POST", "/transactions/bulk", body)
		}
		b.id = b.resp.S("batch_id")
		report := "none"
		if b.async && b.resp.OK() {
			// the outcome comes by webhook
			if !rig.Eventually(20*time.Second, func() bool {
				for _, h := range w.R.Hooks.All() {
					e, _ := h.J["event"].(string)
					d, _ := h.J["data"].(map[string]any)
					if strings.HasPrefix(e, "bulk_transaction.") && fmt.Sprint(d["batch_id"]) == b.id {
						report = strings.TrimPrefix(e, "bulk_transaction.")
						return true
					}
				}
				return false
			}) {
				c.Violate("no-report", fmt.Sprintf("[%s] the outcome of the asynchronous batch %s was never reported", tag, b.id), nil)
			}
		} else if b.resp.Err == nil {
			report = "failed"
			if b.resp.OK() {
				report = b.resp.S("status")
			}
		}
		w.R.Eng.SetHook(nil)
		reached := hit.Load()
		if busy {
			late = append(late, func() { p12check(c, w, tag, b, report, reached, nil) })
		} else {
			if err := w.R.Drain(40*time.Second, false); err != nil {
				c.Broken("%s: %v", tag, err)
				break
			}
			p12check(c, w, tag, b, report, reached, before)
		}
		pos := "none"
		if b.fail >= 0 {
			pos = []string{"first", "middle", "last"}[map[bool]int{true: 0, false: 1}[b.fail == 0]+map[bool]int{true: 1, false: 0}[b.fail > 0 && b.fail == size-1]]
		}
		c.Case(fmt.Sprintf("atomic%v/inflight%v/sync%v/async%v/%s/%s/%s", b.atomic, b.inflight, b.sync, b.async, b.why, pos, report), b.why != "none" || size > 1)
		c.Add("batches_"+report, 1)
	}
	close(stop)
	bg.Wait()
	if err := w.R.Drain(90*time.Second, false); err != nil {
		c.Broken("%s: %v", tag, err)
	} else {
		for _, f := range late {
			f()
		}
	}
	w.R.Audit.Settle(tag, "fold", "doubleentry", "inflight", "reference")
	crashes(c, w, tag)
}

func p12check(c *rig.Check, w *rig.World, tag string, b *batch12, report string, hit bool, before map[string]string) {
	d := fmt.Sprintf("[%s] batch %s of %d (atomic %v, inflight %v, skip_queue %v, run_async %v), member %d meant to fail: %s (reached %v); reported %s, answer %s", tag, b.id, len(b.qs), b.atomic, b.inflight, b.sync, b.async, b.fail, b.why, hit, report, b.resp)
	type mem struct {
		eff, rej     int
		status       string
		undone, left int
	}
	var ms []mem
	for i, q := range b.qs {
		var m mem
		seen := map[string]bool{}
		for _, ref := range b.legs[q.Ref] {
			for _, r := range []string{ref, ref + "_q"} {
				for _, t := range w.R.Audit.ByRef(r) {
					if seen[t.ID] || q.Ref == b.qs[0].Ref && i > 0 {
						continue
					}
					seen[t.ID] = true
					switch t.Effect {
					case "none":
						if t.Status == "REJECTED" {
							m.rej++
						}
						continue
					case "post":
						m.eff++
						m.status = t.Status
						if n := len(reversals(w, t)); n > 1 {
							c.Violate("undone-twice", fmt.Sprintf("%s: member %d was reversed %d times", d, i, n), nil)
						} else if n == 1 {
							m.undone++
						} else {
							m.left++
						}
					case "hold":
						m.eff++
						m.status = t.Status
						released := new(big.Int)
						for _, k := range w.R.Audit.Children(t.ID) {
							if k.Effect == "void" {
								released.Add(released, k.Amt)
							}
							if k.Effect == "commit" {
								c.Violate("committed", fmt.Sprintf("%s: member %d was committed", d, i), nil)
							}
						}
						if released.Sign() == 0 {
							m.left++
						} else {
							m.undone++
						}
					}
				}
			}
		}
		if i == b.fail && (b.why == "reference" || b.why == "twice") {
			m = mem{}
		}
		ms = append(ms, m)
	}
	want := func(q *rig.Req) int {
		if q.Legs > 0 {
			return q.Legs
		}
		return 1
	}
	txt := fmt.Sprintf("%+v", ms)
	rejected := false
	for _, m := range ms {
		rejected = rejected || m.rej > 0
	}
	dup := b.fail >= 0 && (b.why == "reference" || b.why == "twice")
	switch report {
	case "applied", "inflight":
		if b.inflight != (report == "inflight") {
			c.Violate("report", d, nil)
		}
		if b.atomic {
			// accepted: everything is there; for a queued batch the workers decide
			whole := true
			for i, m := range ms {
				if m.eff != want(b.qs[i]) || m.undone > 0 {
					whole = false
				}
			}
			if !whole {
				none := true
				for _, m := range ms {
					none = none && m.left == 0
				}
				key := "partly-applied"
				if !b.sync && (rejected || dup) {
					key = "queued-member-rejected"
					if none {
						break
					}
				}
				c.Violate(key, fmt.Sprintf("%s: reported as %s, but members ended as %s", d, report, txt), nil)
			}
		} else if b.sync {
			for i, m := range ms {
				if m.eff != want(b.qs[i]) || m.undone > 0 {
					c.Violate("partly-applied", fmt.Sprintf("%s: reported as %s, but members ended as %s", d, report, txt), nil)
					break
				}
			}
		}
		if b.sync && b.fail >= 0 && b.why != "fault" && b.why != "hangup" {
			c.Violate("report", fmt.Sprintf("%s: a member had to fail: %s", d, txt), nil)
		}
	default: // failed, or the client was gone
		if report == "failed" && b.fail < 0 && b.sync && tag != "busy" {
			c.Violate("report", fmt.Sprintf("%s: nothing was meant to fail: %s", d, txt), nil)
		}
		if b.atomic {
			all, none := true, true
			for i, m := range ms {
				if m.left > 0 {
					none = false
				}
				if m.left != want(b.qs[i]) {
					all = false
				}
			}
			if !none && !(report == "none" && all) {
				key := "left-behind"
				if b.why == "hangup" {
					key = "left-behind-hangup"
				}
				c.Violate(key, fmt.Sprintf("%s: members that stay applied or held: %s", d, txt), nil)
			}
			if before != nil && none {
				// the totals may have grown on both sides; what is left must be as before
				if x := netDiff(before, w.R.Audit.Snapshot()); len(x) > 0 {
					c.Violate("balances", fmt.Sprintf("%s: balances did not return: %v", d, x), nil)
				}
			}
		} else if b.sync {
			for i, m := range ms {
				if m.undone > 0 {
					c.Violate("undone", fmt.Sprintf("%s: a batch that is not atomic was undone: %s", d, txt), nil)
				}
				if b.why != "fault" && b.why != "hangup" && b.fail >= 0 && tag != "busy" {
					w := 0
					if i < b.fail {
						w = want(b.qs[i])
					}
					if m.eff != w {
						c.Violate("kept", fmt.Sprintf("%s: members before the failing one are kept and no others: %s", d, txt), nil)
						break
					}
				}
			}
		}
	}
}

// netDiff compares settled and held nets.
func netDiff(x, y map[string]string) []string {
	net := func(s string) string {
		if s == "" {
			return "0/0/0"
		}
		p := strings.Split(s, "/")
		return fmt.Sprintf("%s/%s/%s", new(big.Int).Sub(big2(p[0]), big2(p[1])), p[2], p[3])
	}
	var out []string
	for id := range y {
		if a, b := net(x[id]), net(y[id]); a != b && !(x[id] == "" && b == "0/0/0") {
			out = append(out, id+": "+a+" -> "+b)
		}
	}
	return out
}
