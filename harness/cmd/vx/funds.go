package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P05"] = p05
	checks["P06"] = p06
	checks["P11"] = p11
}

func insufficient(s string) bool {
	s = strings.ToLower(s)
	return strings.Contains(s, "insufficient") || strings.Contains(s, "overdraft limit") || strings.Contains(s, "overdraft_limit")
}

// boot makes a world or marks the check as undecided.
func boot(c *rig.Check, tag string, cfg rig.Cfg, servers, workers int) *rig.World {
	w, err := rig.Boot(c, cfg, servers, workers)
	if err != nil {
		c.Broken("%s: %v", tag, err)
		return nil
	}
	return w
}

func crashes(c *rig.Check, w *rig.World, tag string) {
	for _, r := range w.R.Crashes() {
		c.Violate("crash", "["+tag+"] "+r, nil)
	}
}

func big2(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }

// avail is a balance's available funds by the monitor's model.
func avail(w *rig.World, id string) *big.Int {
	c, d, _, ind := w.R.Audit.Stored(id)
	return c.Sub(c, d).Sub(c, ind)
}

// p06: no overdraft without permission.
func p06(c *rig.Check) {
	c.Rule = "sequential phase: each request's answer is compared with an exact model of the available funds at the boundary (at, one above, one below); concurrent phases: every commit is checked against the permission its reference carried, and every refusal for funds on a source that is only debited must be justified by its final funds; distinct_nontrivial counts (permission, boundary distance, path, outcome) kinds"
	all(
		func() { p06seq(c, c.Seed) },
		func() { p06conc(c, "coalescing", nil, c.Seed+1) },
		func() {
			p06conc(c, "hot-lane", rig.Cfg{"queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1, "insufficient_fund_retries": true, "max_retry_attempts": 2}, "transaction": M{"batch_size": 5}}, c.Seed+2)
		},
		func() {
			p06conc(c, "queued-checks", rig.Cfg{"transaction": M{"enable_queued_checks": true}}, c.Seed+3)
		},
		func() { p06recover(c, c.Seed+4) },
	)
}

func p06seq(c *rig.Check, seed int64) {
	w := boot(c, "sequential", nil, 1, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	if err := w.AddBalances("USD", 4, 0); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	funds := []*big.Int{big.NewInt(1000), big2("9223372036854775807"), big2("18446744073709551617"), big2("340282366920938463463374607431768211455")}
	for i, b := range bs {
		w.FundBal(b, "USD", funds[i])
	}
	type hold struct {
		id   string
		left *big.Int
	}
	var holds []hold
	limits := []string{"", "", "0.29", "1", "57.57", "1.1", "1000000", "123456789.12", "0.004", "0.009", "0.996", "100000000000000000"}
	n := c.Pick(260, 4000)
	for i := 0; i < n; i++ {
		s := bs[rng.Intn(len(bs))]
		d := bs[rng.Intn(len(bs))]
		if d == s || rng.Intn(3) == 0 {
			d = "@sink"
		}
		av := avail(w, s)
		perm := rig.Perm{Allow: rng.Intn(3) == 0}
		lim := limits[rng.Intn(len(limits))]
		lb, slack := new(big.Int), new(big.Int)
		if lim != "" {
			r, _ := new(big.Rat).SetString(lim)
			r.Mul(r, big.NewRat(100, 1))
			lb = new(big.Int).Div(r.Num(), r.Denom())
			if !r.IsInt() { // how a fraction of the smallest unit rounds is left open
				lb.Add(lb, big.NewInt(1))
				slack = big.NewInt(1)
			}
			perm.Limit = lb
		}
		delta := []int64{-2, -1, 0, 1, 2}[rng.Intn(5)]
		base := av
		if rng.Intn(2) == 0 {
			base = new(big.Int).Add(av, lb)
		}
		amt := new(big.Int).Add(base, big.NewInt(delta))
		if rng.Intn(4) == 0 {
			amt = big.NewInt(1 + rng.Int63n(300))
		}
		if amt.Sign() <= 0 {
			amt = big.NewInt(1 + rng.Int63n(5))
		}
		q := &rig.Req{Kind: "seq", Ref: rig.Ref("f"), Src: s, Dst: d, Cur: "USD", Amt: amt, Sync: true, Inflight: rng.Intn(4) == 0, Perm: perm}
		free := perm.Allow && lim == ""
		want := free || amt.Cmp(new(big.Int).Add(av, lb)) <= 0
		if room := new(big.Int).Add(av, lb); !free && slack.Sign() > 0 && amt.Cmp(room) == 0 {
			continue
		}
		body := q.Body()
		if lim != "" {
			body["overdraft_limit"] = jnum(lim)
		}
		w.Permit(q.Ref, perm)
		before := w.R.Audit.Snapshot()
		dry := rng.Intn(3) == 0
		if dry {
			body["dry_run"] = true
			pr := w.S[0].Do("POST", "/transactions", body)
			if b, ok := pr.J["would_apply"].(bool); pr.OK() && ok && b != want {
				c.Violate("dry-run", fmt.Sprintf("dry run of %s from available %s limit %s allow %v predicts would_apply=%v", amt, av, lim, perm.Allow, b), nil)
			}
			delete(body, "dry_run")
		}
		q.Resp = w.S[0].Do("POST", "/transactions", body)
		diff := rig.Diff(before, w.R.Audit.Snapshot())
		side := "refuse"
		if want {
			side = "accept"
		}
		c.Case(fmt.Sprintf("seq/%s/allow%v/lim%v/delta%d/inflight%v", side, perm.Allow, lim != "", delta, q.Inflight), true)
		if i < 3 {
			c.Sample(M{"amount": amt.String(), "available": av.String(), "limit": lim, "allow": perm.Allow, "answer": q.Resp.Code})
		}
		desc := fmt.Sprintf("%s from available %s, limit %q, allow_overdraft %v, inflight %v: %s", amt, av, lim, perm.Allow, q.Inflight, q.Resp)
		switch {
		case want && !q.Resp.OK():
			c.Violate("refused", "a posting within its funds was refused: "+desc, nil)
		case !want && q.Resp.OK():
			c.Violate("overdrawn", "a posting beyond its funds was accepted: "+desc, nil)
		case !want && len(diff) > 0:
			c.Violate("refused-moved", fmt.Sprintf("a refused posting changed balances %v: %s", diff, desc), nil)
		case !want && (q.Resp.Code < 400 || q.Resp.Code > 499):
			c.Violate("refused-code", "a refusal for funds was not answered with a 4xx: "+desc, nil)
		case want && len(diff) == 0:
			c.Violate("accepted-lost", "an accepted posting changed no balance: "+desc, nil)
		}
		if want && q.Resp.OK() && q.Inflight {
			holds = append(holds, hold{q.Resp.S("transaction_id"), amt})
		}
		// return the money now and then, and settle holds
		if rng.Intn(5) == 0 && len(holds) > 0 {
			k := rng.Intn(len(holds))
			st := []string{"commit", "void"}[rng.Intn(2)]
			w.S[0].Do("PUT", "/transactions/inflight/"+holds[k].id, M{"status": st, "skip_queue": true})
			holds = append(holds[:k], holds[k+1:]...)
		}
		if av := avail(w, s); av.Cmp(big.NewInt(50)) < 0 {
			back := new(big.Int).Sub(funds[rng.Intn(len(funds))], av)
			w.FundBal(s, "USD", back)
		}
	}
	w.R.Audit.Settle("sequential", "overdraft", "fold", "doubleentry")
	crashes(c, w, "sequential")
}

type jnum string

func (j jnum) MarshalJSON() ([]byte, error) { return []byte(j), nil }

func p06conc(c *rig.Check, tag string, cfg rig.Cfg, seed int64) {
	w := boot(c, tag, cfg, 2, 2)
	if w == nil {
		return
	}
	defer w.R.Close()
	if err := w.AddBalances("USD", 6, 5000); err != nil {
		c.Broken("%v", err)
		return
	}
	src := w.Bals["USD"][:3] // only debited
	dst := append([]string{"@sink"}, w.Bals["USD"][3:]...)
	var wg sync.WaitGroup
	for g := 0; g < 12; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed*131 + int64(g)))
			for i := 0; i < c.Pick(26, 200); i++ {
				q := &rig.Req{Kind: "conc", Src: src[rng.Intn(3)], Dst: dst[rng.Intn(len(dst))], Cur: "USD", Amt: big.NewInt(1 + rng.Int63n(260)), Sync: rng.Intn(2) == 0, Inflight: rng.Intn(6) == 0}
				switch rng.Intn(10) {
				case 0, 1, 2:
					q.Perm = rig.Perm{Allow: true, Limit: big.NewInt(100 * (1 + rng.Int63n(4)))}
				case 3:
					q.Perm = rig.Perm{Limit: big.NewInt(100 * (1 + rng.Int63n(3)))}
				}
				if rng.Intn(8) == 0 {
					n := 3
					var txs []M
					for k := 0; k < n; k++ {
						x := *q
						x.Ref = rig.Ref("fb")
						w.Permit(x.Ref, x.Perm)
						txs = append(txs, x.Body())
					}
					w.Srv(rng).Do("POST", "/transactions/bulk", M{"transactions": txs, "atomic": false, "inflight": q.Inflight, "skip_queue": q.Sync})
					continue
				}
				w.Post(rng, q)
			}
		}(g)
	}
	wg.Wait()
	if err := w.R.Drain(90*time.Second, false); err != nil {
		c.Broken("%s: %v", tag, err)
	}
	w.R.Audit.Settle(tag, "overdraft", "fold")
	refusals := 0
	queuedChecks := tag == "queued-checks"
	for _, q := range w.Reqs {
		if q.Fund {
			continue
		}
		eff, rej, _ := w.Outcome(q)
		refused := q.Sync && q.Resp.Err == nil && !q.Resp.OK() && insufficient(string(q.Resp.Raw))
		for _, r := range rej {
			if insufficient(fmt.Sprint(r.Meta)) {
				refused = true
			}
		}
		c.Case(fmt.Sprintf("%s/sync%v/inflight%v/allow%v/lim%v/eff%d/refused%v", tag, q.Sync, q.Inflight, q.Perm.Allow, q.Perm.Limit != nil, len(eff), refused), true)
		if refused {
			refusals++
			lim := new(big.Int)
			if q.Perm.Limit != nil {
				lim = q.Perm.Limit
			}
			if room := new(big.Int).Add(avail(w, q.Src), lim); !queuedChecks && q.Amt.Cmp(room) <= 0 {
				c.Violate("refused", fmt.Sprintf("[%s] %s from %s (limit %s) was refused for funds although %s remained at the end of a run that only debited it", tag, q.Amt, q.Src, lim, room), nil)
			}
		}
	}
	c.Add("refusals_judged", int64(refusals))
	crashes(c, w, tag)
}

// Stale makes the queued transactions old enough for recovery.
func stale(w *rig.World) {
	w.R.Eng.Do(true, "UPDATE blnk.transactions SET created_at = created_at - interval '5 hours' WHERE status = 'QUEUED'")
}

// p06recover: queued transactions whose task was lost are replayed by recovery under the same permission.
func p06recover(c *rig.Check, seed int64) {
	tag := "recovery"
	w := boot(c, tag, nil, 1, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	if err := w.AddBalances("USD", 3, 1000); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	for i := 0; i < c.Pick(30, 80); i++ {
		q := &rig.Req{Kind: "lost", Src: bs[i%3], Dst: "@sink", Cur: "USD", Amt: big.NewInt(150 + rng.Int63n(300))}
		switch rng.Intn(3) {
		case 0:
			q.Perm = rig.Perm{Allow: true, Limit: big.NewInt(200)}
		case 1:
			q.Perm = rig.Perm{Limit: big.NewInt(300)}
		}
		w.Post(nil, q)
	}
	rig.Eventually(10*time.Second, func() bool { p, _, _, _, _ := w.R.Queues(); return p >= c.Pick(30, 80) })
	w.R.MR.FlushAll() // the queue is lost
	stale(w)
	for i := 0; i < 6; i++ {
		w.S[0].Do("POST", "/transactions/recover?threshold=2m", nil)
	}
	w.R.Audit.Settle(tag, "overdraft", "fold")
	n := 0
	for _, q := range w.Reqs {
		eff, rej, _ := w.Outcome(q)
		n += len(eff)
		c.Case(fmt.Sprintf("%s/allow%v/lim%v/eff%d/rej%d", tag, q.Perm.Allow, q.Perm.Limit != nil, len(eff), len(rej)), true)
	}
	c.Add("recovered", int64(n))
	if n == 0 {
		c.Broken("recovery applied nothing")
	}
}

// p05: a reference is posted at most once.
func p05(c *rig.Check) {
	c.Rule = "many concurrent and later submissions of the same reference by every path; at most one moves money, refused ones get a 4xx; distinct_nontrivial counts (paths used, winners, answers) combinations"
	run := func(tag string, cfg rig.Cfg, seed int64, slow bool) {
		w := boot(c, tag, cfg, 2, 2)
		if w == nil {
			return
		}
		defer w.R.Close()
		rng := rand.New(rand.NewSource(seed))
		if err := w.AddBalances("USD", 4, 1000000); err != nil {
			c.Broken("%v", err)
			return
		}
		bs := w.Bals["USD"]
		if slow {
			jitter(w, seed, 5, 15)
		}
		type sub struct {
			kind string
			sync bool
			r    *rig.Resp
		}
		rounds := c.Pick(60, 900)
		var mu sync.Mutex
		subs := map[string][]sub{}
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for k := 0; k < rounds; k++ {
			ref := rig.Ref("dup")
			if k%7 == 0 {
				ref = ref + []string{"_q", "_1", "%20x", "'q", "é", " sp"}[rng.Intn(6)]
			}
			w.Permit(ref, rig.Perm{Allow: true})
			n := 2 + rng.Intn(5)
			late := rng.Intn(3)
			s1 := rng.Int63()
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				rr := rand.New(rand.NewSource(s1))
				send := func() {
					mu.Lock()
					x := rr.Intn(8)
					i, j := rr.Intn(4), rr.Intn(3)
					if j >= i {
						j++
					}
					q := &rig.Req{Ref: ref, Src: bs[i], Dst: bs[j], Cur: "USD", Amt: big.NewInt(1 + rr.Int63n(50)), Sync: rr.Intn(3) > 0, Inflight: rr.Intn(4) == 0}
					srv := w.S[rr.Intn(2)]
					mu.Unlock()
					var r *rig.Resp
					kind := "single"
					switch {
					case x == 0:
						kind = "bulk"
						b := q.Body()
						o := &rig.Req{Ref: rig.Ref("o"), Src: bs[i], Dst: bs[j], Cur: "USD", Amt: big.NewInt(1), Sync: q.Sync}
						r = srv.Do("POST", "/transactions/bulk", M{"transactions": []M{o.Body(), b}, "atomic": rr.Intn(2) == 0, "skip_queue": q.Sync})
					case x == 1:
						kind = "bulk-twice"
						r = srv.Do("POST", "/transactions/bulk", M{"transactions": []M{q.Body(), q.Body()}, "atomic": false, "skip_queue": q.Sync})
					default:
						r = srv.Do("POST", "/transactions", q.Body())
					}
					mu.Lock()
					subs[ref] = append(subs[ref], sub{kind, q.Sync, r})
					mu.Unlock()
				}
				var in sync.WaitGroup
				for i := 0; i < n; i++ {
					in.Add(1)
					go func() { defer in.Done(); send() }()
				}
				in.Wait()
				for i := 0; i < late; i++ {
					time.Sleep(time.Duration(i*20) * time.Millisecond)
					send()
				}
			}()
		}
		wg.Wait()
		if err := w.R.Drain(90*time.Second, false); err != nil {
			c.Broken("%s: %v", tag, err)
		}
		w.R.Eng.SetHook(nil)
		w.R.Audit.Settle(tag, "reference", "fold")
		for ref, ss := range subs {
			q := &rig.Req{Ref: ref}
			eff, rej, _ := w.Outcome(q)
			moved := 0
			for _, t := range eff {
				// a refund by an atomic bulk's rollback carries its own reference
				_ = t
				moved++
			}
			okSync, anyOK := 0, false
			kinds := map[string]bool{}
			for _, s := range ss {
				kinds[fmt.Sprintf("%s-%v", s.kind, s.sync)] = true
				if s.r.OK() {
					anyOK = true
					if s.sync && s.kind == "single" {
						okSync++
					}
				} else if s.r.Err == nil && (s.r.Code < 400 || s.r.Code >= 500) {
					c.Violate("answer", fmt.Sprintf("[%s] duplicate of %q answered %s", tag, ref, s.r), nil)
				}
			}
			c.Case(fmt.Sprintf("%s/%d-kinds/%d-sync-ok/eff%d/rej%d", tag, len(kinds), okSync, moved, len(rej)), len(ss) > 1)
			if moved > 1 {
				c.Violate("moved-twice", fmt.Sprintf("[%s] reference %q moved money %d times: %v %v", tag, ref, moved, eff[0].ID, eff[1].ID), nil)
			}
			if okSync > 1 {
				c.Violate("ok-twice", fmt.Sprintf("[%s] reference %q was acknowledged as posted %d times", tag, ref, okSync), nil)
			}
			if anyOK && moved+len(rej) == 0 {
				c.Violate("lost", fmt.Sprintf("[%s] reference %q was accepted and neither posted nor rejected: %s", tag, ref, subsText(ss[0].r)), nil)
			}
		}
		c.Add("references", int64(len(subs)))
		// a used reference is refused on every later path, by either process, and changes nothing
		before := w.R.Audit.Snapshot()
		k := 0
		for ref := range subs {
			if k++; k > 25 {
				break
			}
			if eff, _, _ := w.Outcome(&rig.Req{Ref: ref}); len(eff) == 0 {
				continue
			}
			q := &rig.Req{Ref: ref, Src: bs[0], Dst: bs[1], Cur: "USD", Amt: big.NewInt(3), Sync: true}
			r := w.S[k%2].Do("POST", "/transactions", q.Body())
			if r.OK() || r.Code >= 500 {
				c.Violate("late", fmt.Sprintf("[%s] reference %q, posted long ago, answered %s", tag, ref, r), nil)
			}
			q.Sync = false
			w.S[k%2].Do("POST", "/transactions", q.Body())
		}
		w.R.Drain(60*time.Second, false)
		if d := rig.Diff(before, w.R.Audit.Snapshot()); len(d) > 0 {
			c.Violate("late-moved", fmt.Sprintf("[%s] duplicates of posted references changed balances: %v", tag, d), nil)
		}
		w.R.Audit.Settle(tag, "reference", "fold")
		crashes(c, w, tag)
	}
	all(
		func() { run("default", nil, c.Seed+50, false) },
		func() { run("slow-db", rig.Cfg{"transaction": M{"batch_size": 6}}, c.Seed+51, true) },
		func() {
			run("no-batch-reference-check", rig.Cfg{"transaction": M{"disable_batch_reference_check": true}}, c.Seed+52, true)
		},
	)
}

func subsText(r *rig.Resp) string { return r.String() }

// jitter delays statements at random.
func jitter(w *rig.World, seed int64, oneIn, maxMs int) {
	rng := rand.New(rand.NewSource(seed))
	var mu sync.Mutex
	w.R.Eng.SetHook(func(i *stmt) *action {
		mu.Lock()
		defer mu.Unlock()
		if rng.Intn(oneIn) == 0 {
			return &action{Delay: time.Duration(rng.Intn(maxMs)) * time.Millisecond}
		}
		return nil
	})
}

// p11: rejections move nothing and say why.
func p11(c *rig.Check) {
	c.Rule = "queued transactions that must be refused (funds, limit, missing balance, currency) end as one REJECTED record with a reason and no effect, and cannot be committed, voided or refunded afterwards, directly or through their queued parent; distinct_nontrivial counts (cause, flags, follow-up, path) kinds"
	run := func(tag string, cfg rig.Cfg, seed int64) {
		w := boot(c, tag, cfg, 1, 1)
		if w == nil {
			return
		}
		defer w.R.Close()
		rng := rand.New(rand.NewSource(seed))
		if err := w.AddBalances("USD", 4, 1000); err != nil {
			c.Broken("%v", err)
			return
		}
		if err := w.AddBalances("EUR", 1, 1000); err != nil {
			c.Broken("%v", err)
			return
		}
		bs := w.Bals["USD"]
		base := w.R.Audit.Snapshot()
		type cs struct {
			q     *rig.Req
			cause string
		}
		var cases []cs
		for i := 0; i < c.Pick(40, 300); i++ {
			q := &rig.Req{Src: bs[i%4], Dst: bs[(i+1)%4], Cur: "USD", Amt: big.NewInt(1001 + rng.Int63n(1000)), Inflight: rng.Intn(3) == 0}
			cause := "funds"
			switch rng.Intn(4) {
			case 0:
				q.Perm, cause = rig.Perm{Allow: true, Limit: big.NewInt(100)}, "limit"
				q.Amt = big.NewInt(1101 + rng.Int63n(1000))
			case 1:
				q.Perm, cause = rig.Perm{Limit: big.NewInt(100)}, "limit-only"
				q.Amt = big.NewInt(1101 + rng.Int63n(1000))
			}
			if rng.Intn(5) == 0 {
				q.Dst = "@sink"
			}
			w.Post(rng, q)
			cases = append(cases, cs{q, cause})
		}
		if err := w.R.Drain(60*time.Second, false); err != nil {
			c.Broken("%s: %v", tag, err)
		}
		if d := rig.Diff(base, w.R.Audit.Snapshot()); len(d) > 0 {
			c.Violate("moved", fmt.Sprintf("[%s] transactions that had to be rejected changed balances: %v", tag, d), nil)
		}
		for _, k := range cases {
			eff, rej, queued := w.Outcome(k.q)
			d := fmt.Sprintf("[%s] %s %s of %s from 1000, limit %v: applied %d rejected %d", tag, k.cause, k.q.Ref, k.q.Amt, k.q.Perm.Limit, len(eff), len(rej))
			if len(eff) > 0 || len(rej) != 1 {
				c.Violate("outcome", d, nil)
				continue
			}
			why := ""
			for kk, v := range rej[0].Meta {
				if strings.Contains(strings.ToLower(kk), "reason") {
					why = fmt.Sprint(v)
				}
			}
			if !insufficient(why) {
				c.Violate("reason", fmt.Sprintf("%s; its recorded reason is %q", d, why), nil)
			}
			if rej[0].Amt.Cmp(k.q.Amt) != 0 || rej[0].Src != k.q.Src {
				c.Violate("record", fmt.Sprintf("%s; the record says %s from %s", d, rej[0].Amt, rej[0].Src), nil)
			}
			// nothing can be done with it afterwards
			ids := []string{rej[0].ID}
			if len(queued) > 0 {
				ids = append(ids, queued[0].ID)
			}
			for n, id := range ids {
				for _, f := range []struct {
					n string
					r *rig.Resp
				}{
					{"commit", w.S[0].Do("PUT", "/transactions/inflight/"+id, M{"status": "commit", "skip_queue": true})},
					{"void", w.S[0].Do("PUT", "/transactions/inflight/"+id, M{"status": "void", "skip_queue": true})},
					{"refund", w.S[0].Do("POST", "/refund-transaction/"+id, M{"skip_queue": true})},
				} {
					c.Case(fmt.Sprintf("%s/%s/inflight%v/%s/%v", tag, k.cause, k.q.Inflight, f.n, n == 0), true)
					if f.r.OK() {
						c.Violate("follow-up", fmt.Sprintf("%s; a %s of it (%s) answered %s", d, f.n, id, f.r), nil)
					}
				}
			}
		}
		// the queued (asynchronous) forms of the same
		for i, k := range cases {
			if i%5 != 0 {
				continue
			}
			_, rej, queued := w.Outcome(k.q)
			for _, t := range append(rej, queued...) {
				w.S[0].Do("PUT", "/transactions/inflight/"+t.ID, M{"status": "commit"})
				w.S[0].Do("PUT", "/transactions/inflight/"+t.ID, M{"status": "void"})
				w.S[0].Do("POST", "/refund-transaction/"+t.ID, nil)
			}
		}
		w.R.Drain(60*time.Second, false)
		// recovery must not revive them, even once there is money
		for _, b := range bs {
			w.FundBal(b, "USD", big.NewInt(100000))
		}
		after := w.R.Audit.Snapshot()
		stale(w)
		for i := 0; i < 3; i++ {
			w.S[0].Do("POST", "/transactions/recover?threshold=2m", nil)
		}
		w.R.Drain(60*time.Second, false)
		if d := rig.Diff(after, w.R.Audit.Snapshot()); len(d) > 0 {
			c.Violate("revived", fmt.Sprintf("[%s] follow-ups on rejected transactions, or their recovery, changed balances: %v", tag, d), nil)
		}
		w.R.Audit.Settle(tag, "fold", "inflight", "doubleentry", "overdraft")
		crashes(c, w, tag)
	}
	all(
		func() { run("default", nil, c.Seed+110) },
		func() {
			run("retries", rig.Cfg{"queue": M{"insufficient_fund_retries": true, "max_retry_attempts": 2}}, c.Seed+111)
		},
		func() {
			run("hot-lane", rig.Cfg{"queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1}}, c.Seed+112)
		},
	)
}
