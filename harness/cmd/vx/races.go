package main

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() { checks["P36"] = p36 }

var (
	raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n\s+(\S+):(\d+)`)
)

// raceKey names a race by the service's own functions in its stacks.
func raceKey(t string) (key string, own bool) {
	var fs []string
	for _, part := range strings.Split(t, "\n\n") {
		if !strings.Contains(part, " at 0x") {
			continue
		}
		f, first := "", ""
		for _, m := range raceFrame.FindAllStringSubmatch(part, -1) {
			if first == "" {
				first = m[1]
			}
			if strings.Contains(m[1], "blnkfinance/blnk") {
				f = m[1][strings.LastIndex(m[1], "/")+1:]
				own = true
				break
			}
		}
		if f == "" {
			f = first[strings.LastIndex(first, "/")+1:]
		}
		fs = append(fs, f)
	}
	if !own && strings.Contains(t, "blnkfinance/blnk") {
		own = true // a goroutine the service started
	}
	if len(fs) == 2 && fs[0] > fs[1] {
		fs[0], fs[1] = fs[1], fs[0]
	}
	return strings.Join(fs, " / "), own
}

// p36: no data races. The service is built with the race detector.
func p36(c *rig.Check) {
	c.Rule = "the servers and workers, built with the race detector, do everything at once: postings of all kinds on few balances, coalescing and hot lanes, bulk requests in the background, lineage, chaining, snapshots, historical reads, monitors, hooks, metadata, tokens, keys, filters, reconciliation; every report of the detector is a violation; distinct_nontrivial counts (configuration, kind of request) pairs that were answered"
	if !strings.Contains(os.Getenv("GORACE"), "history_size") {
		os.Setenv("GORACE", "history_size=4")
	}
	seen := map[string]int{}
	var mu sync.Mutex
	run := func(tag string, cfg rig.Cfg, seed int64) func() {
		return func() { p36run(c, tag, cfg, seed, seen, &mu) }
	}
	for round := int64(0); round < int64(c.Pick(1, 30)) && c.Elapsed() < time.Duration(c.Pick(150, 8000))*time.Second; round++ {
		s := c.Seed*100 + round*10
		all(
			run("plain", rig.Cfg{"transaction": M{"hash_chain": M{"enabled": true, "poll_interval": 200000000, "batch_size": 20, "trailing_delay": 1}}}, s),
			run("hot", rig.Cfg{"queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1, "insufficient_fund_retries": true, "max_retry_attempts": 3}, "transaction": M{"batch_size": 8, "enable_queued_checks": true}, "enable_telemetry": false}, s+1),
		)
	}
	c.Add("distinct_races", int64(len(seen)))
}

func p36run(c *rig.Check, tag string, cfg rig.Cfg, seed int64, seen map[string]int, mu *sync.Mutex) {
	rng := rand.New(rand.NewSource(seed))
	full := rig.Cfg{"server": M{"secure": true, "secret_key": "master-secret-36"}}
	for k, v := range cfg {
		full[k] = v
	}
	w := boot(c, tag, full, 2, 2)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 4, 100000); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	for i := 0; i < 3; i++ {
		w.Srv(rng).Do("POST", "/hooks", M{"name": "n", "url": w.R.Hooks.Base("/th"), "type": []string{"PRE_TRANSACTION", "POST_TRANSACTION"}[i%2], "active": true, "retry_count": 1})
	}
	idt := w.Srv(rng).Do("POST", "/identities", M{"identity_type": "individual", "first_name": "Ada", "last_name": "L", "email_address": "a@b.c", "dob": "1990-05-17T00:00:00Z"}).S("identity_id")
	tracked := w.Srv(rng).Do("POST", "/balances", M{"ledger_id": w.Ledger, "currency": "USD", "identity_id": idt, "track_fund_lineage": true, "allocation_strategy": "FIFO"}).S("balance_id")
	bs := w.Bals["USD"]
	until := time.Now().Add(time.Duration(c.Pick(30, 120)) * time.Second)
	var wg sync.WaitGroup
	act := func(kind string, f func(rng *rand.Rand) *rig.Resp) {
		r := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(until) {
				if x := f(r); x != nil {
					c.Add("requests_"+kind, 1)
					c.Case(fmt.Sprintf("%s %s %d", tag, kind, x.Code/100), x.OK())
				}
				time.Sleep(time.Duration(20+r.Intn(100)) * time.Millisecond)
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := int64(0); time.Now().Before(until); i++ {
			m := fullMix
			m.Bulk, m.Split, m.N, m.Conc = 3, 3, 80, 5
			w.Run(m, seed+i*31)
		}
	}()
	body := func(r *rand.Rand) M {
		i := r.Intn(len(bs))
		return M{"amount": 1, "precision": 100, "currency": "USD", "reference": rig.Ref("r36"), "description": "d", "source": bs[i], "destination": bs[(i+1)%len(bs)], "allow_overdraft": true, "skip_queue": r.Intn(2) == 0, "meta_data": M{"a": M{"b": 1}, "BLNK_LINEAGE_PROVIDER": "p"}}
	}
	act("split", func(r *rand.Rand) *rig.Resp {
		b := body(r)
		delete(b, "destination")
		b["amount"] = 9
		b["inflight"] = r.Intn(3) == 0
		b["destinations"] = []M{{"identifier": bs[0], "distribution": "30%"}, {"identifier": bs[1], "distribution": "1"}, {"identifier": bs[2], "distribution": "left"}}
		delete(b, "source")
		b["source"] = bs[3]
		return w.Srv(r).Txn(b)
	})
	act("sources", func(r *rand.Rand) *rig.Resp {
		b := body(r)
		delete(b, "source")
		b["amount"] = 9
		b["destination"] = bs[3]
		b["sources"] = []M{{"identifier": bs[0], "distribution": "30%"}, {"identifier": bs[1], "distribution": "left"}}
		return w.Srv(r).Txn(b)
	})
	act("bulk-async", func(r *rand.Rand) *rig.Resp {
		time.Sleep(200 * time.Millisecond)
		l := []M{}
		for i := 0; i < 4; i++ {
			x := body(r)
			delete(x, "skip_queue")
			l = append(l, x)
		}
		return w.Srv(r).Do("POST", "/transactions/bulk", M{"transactions": l, "atomic": r.Intn(2) == 0, "inflight": r.Intn(2) == 0, "run_async": true, "skip_queue": r.Intn(2) == 0})
	})
	act("bulk-settle", func(r *rand.Rand) *rig.Resp {
		var ids []M
		for i := 0; i < 3; i++ {
			b := body(r)
			b["inflight"], b["skip_queue"] = true, true
			ids = append(ids, M{"transaction_id": w.Srv(r).Txn(b).S("transaction_id")})
		}
		return w.Srv(r).Do("POST", "/transactions/inflight/bulk/"+pick(r, []string{"commit", "void"}), M{"transactions": ids})
	})
	act("lineage", func(r *rand.Rand) *rig.Resp {
		b := body(r)
		if r.Intn(2) == 0 {
			b["source"], b["destination"] = "@world", tracked
			b["meta_data"] = M{"BLNK_LINEAGE_PROVIDER": pick(r, []string{"p", "q"})}
		} else {
			b["source"], b["destination"] = tracked, bs[0]
		}
		return w.Srv(r).Txn(b)
	})
	act("lineage-read", func(r *rand.Rand) *rig.Resp {
		return w.Srv(r).Do("GET", "/balances/"+tracked+"/lineage", nil)
	})
	act("dry", func(r *rand.Rand) *rig.Resp {
		b := body(r)
		b["dry_run"] = true
		return w.Srv(r).Txn(b)
	})
	act("monitor", func(r *rand.Rand) *rig.Resp {
		p := w.Srv(r)
		x := p.Do("POST", "/balance-monitors", M{"balance_id": pick(r, bs), "condition": M{"field": pick(r, monFields), "operator": ">", "value": 1 + r.Intn(1000), "precision": 100}})
		time.Sleep(300 * time.Millisecond)
		p.Do("DELETE", "/balance-monitors/"+x.S("monitor_id"), nil)
		return x
	})
	act("metadata", func(r *rand.Rand) *rig.Resp {
		return w.Srv(r).Do("POST", "/"+pick(r, []string{bs[0], bs[1], idt, w.Ledger})+"/metadata", M{"meta_data": M{"k": r.Intn(9)}})
	})
	act("tokens", func(r *rand.Rand) *rig.Resp {
		return w.Srv(r).Do("POST", "/identities/"+idt+pick(r, []string{"/tokenize/FirstName", "/detokenize"}), M{"fields": []string{"FirstName"}})
	})
	act("history", func(r *rand.Rand) *rig.Resp {
		return w.Srv(r).Do("GET", "/balances/"+pick(r, bs)+"/at?timestamp="+time.Now().UTC().Format(time.RFC3339)+pick(r, []string{"", "&from_source=true"}), nil)
	})
	act("snapshot", func(r *rand.Rand) *rig.Resp {
		time.Sleep(300 * time.Millisecond)
		return w.Srv(r).Do("POST", "/balances-snapshots?batch_size=3", nil)
	})
	act("read", func(r *rand.Rand) *rig.Resp {
		return w.Srv(r).Do("GET", pick(r, []string{"/balances/" + pick(r, bs), "/transactions?limit=20", "/balances?limit=5", "/ledgers", "/identities", "/balances/" + pick(r, bs) + "?with_queued=true", "/balance-monitors", "/hooks", "/balances/indicator/@world/currency/USD", "/health"}), nil)
	})
	act("filter", func(r *rand.Rand) *rig.Resp {
		return w.Srv(r).Do("POST", "/transactions/filter", M{"filters": []M{{"field": "status", "operator": "eq", "value": "APPLIED"}}, "limit": 10, "include_count": true})
	})
	act("keys", func(r *rand.Rand) *rig.Resp {
		p := w.Srv(r)
		k := p.Do("POST", "/api-keys", M{"name": "n", "owner": "o", "scopes": []string{"balances:read"}, "expires_at": "2099-01-01T00:00:00Z"})
		for i := 0; i < 4; i++ {
			p.Do("GET", "/balances/"+bs[0], nil, "X-Blnk-Key", k.S("key"))
		}
		p.Do("DELETE", "/api-keys/"+k.S("api_key_id")+"?owner=o", nil)
		time.Sleep(300 * time.Millisecond)
		return k
	})
	act("hooks", func(r *rand.Rand) *rig.Resp {
		p := w.Srv(r)
		h := p.Do("POST", "/hooks", M{"name": "n", "url": w.R.Hooks.Base("/th"), "type": "POST_TRANSACTION", "active": true})
		p.Do("PUT", "/hooks/"+h.S("id"), M{"name": "m", "url": w.R.Hooks.Base("/th"), "type": "PRE_TRANSACTION", "active": true})
		p.Do("DELETE", "/hooks/"+h.S("id"), nil)
		time.Sleep(300 * time.Millisecond)
		return h
	})
	act("recover", func(r *rand.Rand) *rig.Resp {
		time.Sleep(400 * time.Millisecond)
		return w.Srv(r).Do("POST", "/transactions/recover?threshold=1s", nil)
	})
	p36recon(w, act)
	wg.Wait()
	w.R.Drain(20*time.Second, false)
	w.R.Audit.Settle(tag, "doubleentry", "fold")
	crashes(c, w, tag)
	for _, p := range append(append([]*rig.Proc{}, w.S...), w.W...) {
		p.Stop(10 * time.Second)
	}
	mu.Lock()
	defer mu.Unlock()
	for _, t := range w.R.Races() {
		k, own := raceKey(t)
		if !own {
			c.Add("reports_outside", 1)
			continue
		}
		seen[k]++
		if seen[k] == 1 {
			c.Violate("race: "+k, fmt.Sprintf("[%s] data race: %s: %s", tag, k, cut(strings.Join(strings.Fields(t), " "), 600)), strings.Split(t, "\n"))
		}
	}
}

// p36recon runs reconciliations of all strategies against what is being posted.
func p36recon(w *rig.World, act func(string, func(*rand.Rand) *rig.Resp)) {
	act("reconcile", func(r *rand.Rand) *rig.Resp {
		p := w.Srv(r)
		rule := p.Do("POST", "/reconciliation/matching-rules", M{"name": "r", "criteria": []M{{"field": "amount", "operator": "equals", "allowable_drift": 0.5}, {"field": "currency", "operator": "equals"}}}).S("rule_id")
		p.Do("GET", "/reconciliation/matching-rules", nil)
		ext := []M{}
		for i := 0; i < 20; i++ {
			ext = append(ext, M{"id": rig.Ref("e36"), "amount": 1 + r.Intn(9), "reference": rig.Ref("x"), "currency": "USD", "description": "d", "date": time.Now().UTC().Format(time.RFC3339), "source": "s"})
		}
		x := p.Do("POST", "/reconciliation/start-instant", M{"external_transactions": ext, "strategy": pick(r, []string{"one_to_one", "one_to_one", "one_to_many", "many_to_one"}), "grouping_criteria": pick(r, []string{"reference", "currency", "amount"}), "matching_rule_ids": []string{rule}, "dry_run": r.Intn(3) == 0})
		rig.Eventually(6*time.Second, func() bool {
			st := p.Do("GET", "/reconciliation/"+x.S("reconciliation_id"), nil).S("status")
			return st == "completed" || st == "failed"
		})
		p.Do("DELETE", "/reconciliation/matching-rules/"+rule, nil)
		return x
	})
}
