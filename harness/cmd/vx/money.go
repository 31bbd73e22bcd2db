package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P01"] = p01
	checks["P02"] = p02
	checks["P04"] = p04
}

type M = map[string]any

var coalesceOff = rig.Cfg{"transaction": M{"enable_coalescing": false, "max_workers": 4}}

// all runs functions concurrently.
func all(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
}

// mixed runs a mixed workload on a fresh deployment and hands it to fin after the queues drained.
func mixed(c *rig.Check, tag string, cfg rig.Cfg, servers, workers int, m rig.Mix, seed int64, prep, fin func(*rig.World)) {
	w, err := rig.Boot(c, cfg, servers, workers)
	if err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	defer w.R.Close()
	for _, cur := range []string{"USD", "EUR"} {
		if err := w.AddBalances(cur, 5, 20000); err != nil {
			c.Broken("%s: %v", tag, err)
			return
		}
	}
	if prep != nil {
		prep(w)
	}
	w.Run(m, seed)
	if w.Quiet != nil {
		w.Quiet()
	}
	if err := w.R.Drain(60*time.Second, false); err != nil {
		c.Broken("%s: %v", tag, err)
	}
	for _, r := range w.R.Crashes() {
		c.Violate("crash", "["+tag+"] a service process crashed: "+r, nil)
	}
	c.Sample(M{"config": tag, "requests": len(w.Reqs), "commits": w.R.Audit.Commits, "postings": w.R.Audit.Posts})
	fin(w)
}

var fullMix = rig.Mix{Sync: 6, Queued: 6, HoldSync: 4, HoldQueued: 2, Settle: 6, SettleQueued: 2, Refund: 3, Bulk: 2, Split: 2, N: 480, Conc: 16}

func scaled(m rig.Mix, f int) rig.Mix { m.N *= f; return m }

func countShapes(c *rig.Check, w *rig.World) {
	w.R.Audit.With(func() {
		for _, t := range w.R.Audit.Ord {
			c.Case(fmt.Sprintf("%s/%s/meta%v", t.Status, t.Effect, len(t.Meta) > 0), t.Effect != "none")
			c.State("balance_pairs", t.Src+t.Dst)
		}
	})
}

func p01(c *rig.Check) {
	c.Rule = "every database commit of the run is checked: each balance row has balance = credits - debits (settled and inflight), each posting debits and credits the same amount in one currency, and per currency all balances sum to zero; distinct_nontrivial counts the kinds of money-moving records seen"
	c.Assume = []string{"the database is the look-alike in harness/pgfake; every commit passes its observer"}
	f := c.Pick(1, 12)
	fin := func(tag string) func(*rig.World) {
		return func(w *rig.World) {
			w.R.Audit.Settle(tag, "doubleentry", "fold")
			countShapes(c, w)
			// what the API reports must obey the same law
			sum := map[string]*big.Int{}
			for _, b := range listAll(w.S[0], "/balances") {
				cur, _ := b["currency"].(string)
				if sum[cur] == nil {
					sum[cur] = new(big.Int)
				}
				bal, cr, db := num(b["balance"]), num(b["credit_balance"]), num(b["debit_balance"])
				sum[cur].Add(sum[cur], bal)
				if new(big.Int).Sub(cr, db).Cmp(bal) != 0 {
					c.Violate("api-difference", fmt.Sprintf("[%s] balance %v reported as balance=%s credit=%s debit=%s", tag, b["balance_id"], bal, cr, db), nil)
				}
				c.Case("api-balance", true)
			}
			for cur, s := range sum {
				if s.Sign() != 0 {
					c.Violate("api-sum", fmt.Sprintf("[%s] the %s balances reported by the API sum to %s", tag, cur, s), nil)
				}
			}
		}
	}
	all(
		func() { mixed(c, "coalescing", nil, 1, 1, scaled(fullMix, f), c.Seed, nil, fin("coalescing")) },
		func() {
			mixed(c, "hot-lane", rig.Cfg{"queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1, "insufficient_fund_retries": true, "max_retry_attempts": 2}, "transaction": M{"enable_queued_checks": true, "lock_wait_timeout": 1}}, 1, 1, scaled(fullMix, f), c.Seed+1, nil, fin("hot-lane"))
		},
	)
}

// listAll pages through a list endpoint.
func listAll(p *rig.Proc, path string) []M {
	var out []M
	seen := map[string]bool{}
	for off := 0; ; off += 100 {
		r := p.Do("GET", fmt.Sprintf("%s?limit=100&offset=%d", path, off), nil)
		n := 0
		for _, x := range r.L {
			m, _ := x.(map[string]any)
			id := fmt.Sprint(m["balance_id"], m["transaction_id"], m["id"])
			if !seen[id] {
				seen[id] = true
				out = append(out, m)
			}
			n++
		}
		if n < 100 {
			return out
		}
	}
}

// num reads a JSON number exactly.
func num(v any) *big.Int {
	s := fmt.Sprint(v)
	if r, ok := new(big.Rat).SetString(s); ok && r.IsInt() {
		return new(big.Int).Set(r.Num())
	}
	return big.NewInt(-999999999)
}

func p02(c *rig.Check) {
	c.Rule = "every balance column is compared at every commit with the fold of the recorded transactions; at the end the balances the API reports are recomputed from the transactions the API lists; distinct_nontrivial counts the kinds of records folded"
	f := c.Pick(1, 12)
	fin := func(tag string) func(*rig.World) {
		return func(w *rig.World) {
			w.R.Audit.Settle(tag, "fold", "doubleentry")
			countShapes(c, w)
			apiFold(c, w, tag)
		}
	}
	all(
		func() { mixed(c, "default", nil, 1, 1, scaled(fullMix, f), c.Seed+10, nil, fin("default")) },
		func() {
			m := scaled(fullMix, f)
			m.Conc = 24
			mixed(c, "two-workers", rig.Cfg{"transaction": M{"batch_size": 3}, "queue": M{"transaction_worker_concurrency": 8, "enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1}}, 2, 2, m, c.Seed+11, nil, fin("two-workers"))
		},
	)
}

// apiFold recomputes balances from the listed transactions, without the monitor's own model.
func apiFold(c *rig.Check, w *rig.World, tag string) {
	txs := listAll(w.S[0], "/transactions")
	byID := map[string]M{}
	for _, t := range txs {
		byID[fmt.Sprint(t["transaction_id"])] = t
	}
	type v struct{ c, d, ic, id big.Int }
	acc := map[string]*v{}
	get := func(k any) *v {
		s := fmt.Sprint(k)
		if acc[s] == nil {
			acc[s] = &v{}
		}
		return acc[s]
	}
	for _, t := range txs {
		a := num(t["precise_amount"])
		s, d := get(t["source"]), get(t["destination"])
		par := byID[fmt.Sprint(t["parent_transaction"])]
		switch t["status"] {
		case "APPLIED":
			if par != nil && par["status"] == "INFLIGHT" && par["source"] == t["source"] {
				s.id.Sub(&s.id, a)
				d.ic.Sub(&d.ic, a)
			}
			s.d.Add(&s.d, a)
			d.c.Add(&d.c, a)
		case "INFLIGHT":
			s.id.Add(&s.id, a)
			d.ic.Add(&d.ic, a)
		case "VOID":
			s.id.Sub(&s.id, a)
			d.ic.Sub(&d.ic, a)
		}
	}
	for _, b := range listAll(w.S[0], "/balances") {
		x := get(b["balance_id"])
		for _, k := range []struct {
			f string
			w *big.Int
		}{{"credit_balance", &x.c}, {"debit_balance", &x.d}, {"inflight_credit_balance", &x.ic}, {"inflight_debit_balance", &x.id}} {
			if num(b[k.f]).Cmp(k.w) != 0 {
				c.Violate("api-fold", fmt.Sprintf("[%s] balance %v reports %s=%v; its listed transactions make it %s", tag, b["balance_id"], k.f, b[k.f], k.w), nil)
			}
		}
		c.Case("api-balance", true)
	}
	c.Add("api_transactions_folded", int64(len(txs)))
}

// p04: many processes post to the same few balances at once, with delays between their reads and writes, and with the
// advisory locks of redis taken away at random, as a failover or an expiry does. No update may be lost.
func p04(c *rig.Check) {
	c.Rule = "every stored balance is compared with the fold of the recorded postings at every commit while many processes race on few balances; distinct_nontrivial counts the kinds of records, observed.distinct_commit_orders the distinct orders in which processes committed on a balance"
	run := func(tag string, sabotage bool, seed int64) {
		cfg := rig.Cfg{"transaction": M{"batch_size": 4, "lock_wait_timeout": 2}, "queue": M{"transaction_worker_concurrency": 8, "max_retry_attempts": 8}}
		w, err := rig.Boot(c, cfg, 2, 2)
		if err != nil {
			c.Broken("%v", err)
			return
		}
		defer w.R.Close()
		w.Faulty = true
		if err := w.AddBalances("USD", 3, 1000000); err != nil {
			c.Broken("%v", err)
			return
		}
		last := map[string][]string{}
		w.R.Audit.With(func() {
			w.R.Audit.Watch = func(k *pgfake.Commit) {
				for _, ch := range k.Changes {
					if ch.Table == "blnk.balances" && ch.After != nil {
						id := rig.Str(ch.After["balance_id"])
						l := append(last[id], k.App)
						if len(l) > 4 {
							l = l[len(l)-4:]
						}
						last[id] = l
						c.State("commit_orders", strings.Join(l, ">"))
					}
				}
			}
		})
		rng := rand.New(rand.NewSource(seed))
		var mu sync.Mutex
		w.R.Eng.SetHook(func(i *pgfake.StmtInfo) *pgfake.Action {
			if i.Table != "blnk.balances" && i.Kind != "commit" {
				return nil
			}
			mu.Lock()
			defer mu.Unlock()
			if rng.Intn(6) == 0 {
				return &pgfake.Action{Delay: time.Duration(rng.Intn(12)) * time.Millisecond}
			}
			return nil
		})
		stop := make(chan struct{})
		var wg sync.WaitGroup
		if sabotage {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(3 * time.Millisecond):
						for _, k := range w.R.MR.Keys() {
							if strings.HasPrefix(k, "bln_") && !strings.Contains(k, ":") {
								if w.R.MR.Del(k) {
									c.Add("locks_taken_away", 1)
								}
							}
						}
					}
				}
			}()
		}
		w.Run(scaled(rig.Mix{Sync: 8, Queued: 6, HoldSync: 3, HoldQueued: 1, Settle: 4, SettleQueued: 1, Refund: 1, Bulk: 1, N: 480, Conc: 24}, c.Pick(1, 12)), seed)
		close(stop)
		wg.Wait()
		if err := w.R.Drain(60*time.Second, false); err != nil {
			c.Broken("%s: %v", tag, err)
		}
		w.R.Audit.Settle(tag, "fold", "version", "doubleentry")
		countShapes(c, w)
		for _, q := range w.Reqs {
			if q.Sync && q.Resp.OK() {
				if eff, _, _ := w.Outcome(q); len(eff) == 0 {
					c.Violate("acknowledged-lost", fmt.Sprintf("[%s] %s was acknowledged and is not recorded", tag, q.Ref), nil)
				}
			}
		}
		ok, no := 0, 0
		for _, q := range w.Reqs {
			if q.Resp.OK() {
				ok++
			} else {
				no++
			}
		}
		c.Sample(M{"config": tag, "acknowledged": ok, "refused": no, "commits": w.R.Audit.Commits})
		for _, r := range w.R.Crashes() {
			c.Violate("crash", "["+tag+"] "+r, nil)
		}
		apiFold(c, w, tag)
	}
	all(func() { run("locks", false, c.Seed+20) }, func() { run("locks lost", true, c.Seed+21) }, func() { p04pause(c, 0) }, func() { p04pause(c, 1) }, func() { p04pause(c, 2) })
}

// p04pause stops an operation at each of its statements, takes its locks away and lets another process post to one or
// both of its balances before it goes on.
func p04pause(c *rig.Check, part int) {
	tag := fmt.Sprintf("pause%d", part)
	nw := 0
	if part > 0 {
		nw = 1
	}
	w := boot(c, tag, rig.Cfg{"transaction": M{"batch_size": 8, "lock_wait_timeout": 1}, "queue": M{"number_of_queues": 1, "transaction_worker_concurrency": 1, "max_retry_attempts": 6}}, 2, nw)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 5, 100000000); err != nil {
		c.Broken("%v", err)
		return
	}
	b := w.Bals["USD"]
	post := func(p *rig.Proc, m M) *rig.Resp { return p.Txn(m) }
	ops := map[string]func() func(){
		"post": func() func() {
			return func() { post(w.S[1], M{"source": b[0], "destination": b[1], "precise_amount": 11, "skip_queue": true}) }
		},
		"hold": func() func() {
			return func() {
				post(w.S[1], M{"source": b[0], "destination": b[1], "precise_amount": 12, "skip_queue": true, "inflight": true})
			}
		},
		"refund": func() func() {
			r := post(w.S[0], M{"source": b[0], "destination": b[1], "precise_amount": 13, "skip_queue": true})
			return func() { w.S[1].Do("POST", "/refund-transaction/"+r.S("transaction_id"), M{"skip_queue": true}) }
		},
		"commit": func() func() {
			r := post(w.S[0], M{"source": b[0], "destination": b[1], "precise_amount": 14, "skip_queue": true, "inflight": true})
			return func() {
				w.S[1].Do("PUT", "/transactions/inflight/"+r.S("transaction_id"), M{"status": "commit", "skip_queue": true})
			}
		},
		"void": func() func() {
			r := post(w.S[0], M{"source": b[0], "destination": b[1], "precise_amount": 15, "skip_queue": true, "inflight": true})
			return func() {
				w.S[1].Do("PUT", "/transactions/inflight/"+r.S("transaction_id"), M{"status": "void", "skip_queue": true})
			}
		},
	}
	names := []string{"post", "hold", "refund", "commit", "void"}
	queued := func(n int, same bool) func() func() {
		return func() func() {
			return func() {
				var fs []func()
				for i := 0; i < n; i++ {
					d := b[1]
					if !same && i%2 == 1 {
						d = b[2]
					}
					fs = append(fs, func() { post(w.S[1], M{"source": b[0], "destination": d, "precise_amount": 20 + i}) })
				}
				all(fs...)
				w.R.Drain(30*time.Second, false)
			}
		}
	}
	switch part {
	case 1:
		names, ops = []string{"lot"}, map[string]func() func(){"lot": queued(6, true)}
	case 2:
		names, ops = []string{"lot-source", "single"}, map[string]func() func(){"lot-source": queued(6, false), "single": queued(1, true)}
	}
	meanwhile := []struct {
		n        string
		src, dst string
	}{{"source", b[3], b[0]}, {"destination", b[1], b[4]}, {"both", b[1], b[0]}, {"other-destination", b[3], b[2]}}
	lim := time.Duration(c.Pick(55, 2500)) * time.Second
	for _, op := range names {
		miss := 0
		for i := int64(1); i < 120 && c.Elapsed() < lim; i++ {
			hit := false
			for mi, m := range meanwhile {
				if part > 0 && !c.Thorough() && mi != int(i+c.Seed)%3 && !(i < 25 && i > 4 && mi == int(i+c.Seed+1)%3) {
					continue
				}
				app, slow := w.S[1].Name, time.Duration(0)
				if part > 0 {
					app, slow = w.W[0].Name, 120*time.Millisecond
				}
				before := (i+int64(mi))%2 == 0
				h := pauseSlow(w, app, i, before, slow, ops[op](), func() {
					for _, k := range w.R.MR.Keys() {
						if strings.HasPrefix(k, "bln_") && !strings.Contains(k, ":") {
							w.R.MR.Del(k)
						}
					}
					r := post(w.S[0], M{"source": m.src, "destination": m.dst, "precise_amount": 7, "skip_queue": true})
					c.Case(fmt.Sprintf("pause/%s/%d/%s/%v", op, i, m.n, r.OK()), true)
				})
				hit = hit || h
				if h {
					c.Add("pauses", 1)
				}
				w.R.Audit.Settle(fmt.Sprintf("%s: %s stopped at its statement %d (before %v) without its locks while another process posted to its %s", tag, op, i, before, m.n), "fold", "version", "doubleentry")
			}
			if !hit {
				if miss++; miss > 1 || part == 0 {
					break
				}
			}
		}
	}
	crashes(c, w, tag)
}
