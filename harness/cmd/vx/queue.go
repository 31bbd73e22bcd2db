package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P10"] = p10
	checks["P15"] = p15
}

// lotReq is one request of a lot queued while no worker runs.
type lotReq struct {
	q    *rig.Req
	body M
}

// lot queues requests that later run coalesced (or one by one) and remembers exactly what was asked.
func lot(c *rig.Check, w *rig.World, rng *rand.Rand, n int, pairs [][2]string, cur string, maxAmt int64, plain bool) []*lotReq {
	var out []*lotReq
	for i := 0; i < n; i++ {
		p := pairs[rng.Intn(len(pairs))]
		q := &rig.Req{Kind: "lot", Src: p[0], Dst: p[1], Cur: cur, Amt: big.NewInt(1 + rng.Int63n(maxAmt)), Ref: rig.Ref("lot")}
		meta := M{"n": i, "text": "x\"y"}
		b := M{}
		if !plain {
			switch rng.Intn(8) {
			case 0:
				q.Inflight = true
			case 1:
				q.Perm.Allow = true
			case 2:
				q.Perm.Allow, q.Perm.Limit = true, big.NewInt(100*(1+rng.Int63n(40)))
			case 3:
				q.Amt.Add(q.Amt, new(big.Int).Lsh(big.NewInt(1), 70)) // beyond what a float holds (and beyond the funds)
			case 4:
				b["effective_date"] = time.Date(2020+rng.Intn(4), 3, 1+rng.Intn(27), 10, 20, 30, 0, time.UTC).Format(time.RFC3339)
			case 5: // keys the service keeps for itself
				meta["inflight"] = true
			case 6:
				meta["allow_overdraft"] = true
			case 7:
				meta["atomic"] = true
			}
		}
		for k, v := range q.Body() {
			b[k] = v
		}
		b["meta_data"] = meta
		b["description"] = fmt.Sprintf("lot item %d", i)
		l := &lotReq{q: q, body: b}
		w.Permit(q.Ref, q.Perm)
		q.At = time.Now()
		q.Resp = w.S[0].Do("POST", "/transactions", b)
		q.ID = q.Resp.S("transaction_id")
		if !q.Resp.OK() {
			c.Violate("refused", fmt.Sprintf("queued transfer was refused: %s", q.Resp), nil)
			continue
		}
		w.Reqs = append(w.Reqs, q)
		out = append(out, l)
	}
	// every request of the lot is recorded before a worker starts
	if !rig.Eventually(20*time.Second, func() bool {
		for _, l := range out {
			if len(w.R.Audit.ByRef(l.q.Ref)) == 0 {
				return false
			}
		}
		return true
	}) {
		c.Broken("queued transfers were not recorded in 20 s")
	}
	return out
}

// fields compares a recorded outcome with its request.
func fields(c *rig.Check, tag string, l *lotReq, t *rig.Row) {
	q := l.q
	bad := func(k string, got, want any) {
		c.Violate("field-"+k, fmt.Sprintf("[%s] %s of %s (inflight=%v, %v) was recorded with %s=%v, asked for %v", tag, t.Status, q.Ref, q.Inflight, l.body["meta_data"], k, got, want), nil)
	}
	if t.Amt.Cmp(q.Amt) != 0 {
		bad("precise_amount", t.Amt, q.Amt)
	}
	if t.Src != q.Src && !strings.HasPrefix(q.Src, "@") {
		bad("source", t.Src, q.Src)
	}
	if t.Dst != q.Dst && !strings.HasPrefix(q.Dst, "@") {
		bad("destination", t.Dst, q.Dst)
	}
	if t.Cur != q.Cur {
		bad("currency", t.Cur, q.Cur)
	}
	if t.Desc != l.body["description"] {
		bad("description", t.Desc, l.body["description"])
	}
	if p := fmt.Sprint(t.Raw["precision"]); p != "100" {
		bad("precision", p, 100)
	}
	if t.Parent != q.ID {
		bad("parent_transaction", t.Parent, q.ID)
	}
	if m, ok := t.Meta["n"]; !ok || fmt.Sprint(m) != fmt.Sprint(l.body["meta_data"].(M)["n"]) {
		bad("meta_data.n", m, l.body["meta_data"].(M)["n"])
	}
	if t.Meta["text"] != "x\"y" {
		bad("meta_data.text", t.Meta["text"], "x\"y")
	}
	if e, ok := l.body["effective_date"].(string); ok {
		want, _ := time.Parse(time.RFC3339, e)
		got, isT := t.Raw["effective_date"].(time.Time)
		if !isT || !got.UTC().Equal(want) {
			bad("effective_date", t.Raw["effective_date"], e)
		}
	}
	if t.Status != "REJECTED" {
		want := "APPLIED"
		if q.Inflight {
			want = "INFLIGHT"
		}
		if t.Status != want {
			bad("status", t.Status, want)
		}
	}
}

// p15: what the batches of the workers leave behind is what single processing would have.
func p15(c *rig.Check) {
	c.Rule = "lots of transfers are queued while no worker runs, then processed by workers that coalesce by pair, source or destination, through the hot lane, by recovery, or singly; every commit is checked against the fold and the overdraft rules in recording order, every transfer must have exactly one outcome with every field as asked, every rejected transfer must not have been affordable in a lot without income, and a lot that fits must be applied whole; distinct_nontrivial counts (configuration, scope, flags, outcome) kinds"
	type conf struct {
		tag     string
		cfg     rig.Cfg
		workers int
	}
	confs := []conf{
		{"batch-3", rig.Cfg{"transaction": M{"batch_size": 3}}, 1},
		{"batch-50-two-workers", rig.Cfg{"transaction": M{"batch_size": 50, "disable_batch_reference_check": true}, "queue": M{"transaction_worker_concurrency": 6}}, 2},
		{"single", rig.Cfg{"transaction": M{"batch_size": 1}}, 1},
		{"hot-lane", rig.Cfg{"transaction": M{"batch_size": 8, "lock_wait_timeout": 1}, "queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1, "transaction_worker_concurrency": 8}}, 2},
		{"queued-checks", rig.Cfg{"transaction": M{"batch_size": 5, "enable_queued_checks": true}}, 1},
		{"recovery", rig.Cfg{"transaction": M{"batch_size": 6}}, 0},
	}
	var fs []func()
	for i, cf := range confs {
		fs = append(fs, func() {
			for k := 0; k < c.Pick(1, 6); k++ {
				p15run(c, cf.tag, cf.cfg, cf.workers, c.Seed+150+int64(i)+100*int64(k))
			}
		})
	}
	all(fs...)
}

func p15run(c *rig.Check, tag string, cfg rig.Cfg, workers int, seed int64) {
	w := boot(c, tag, cfg, 1, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	if err := w.AddBalances("USD", 14, 0); err != nil {
		c.Broken("%v", err)
		return
	}
	b := w.Bals["USD"]
	type set struct {
		kind  string
		reqs  []*lotReq
		fits  bool
		strip bool // without income and plain: a rejection must have been unaffordable at the end
		src   string
	}
	var sets []*set
	fund := func(id string, n int64) { w.FundBal(id, "USD", big.NewInt(n)) }
	n := c.Pick(14, 40)
	// one pair, one source, one destination, a web
	fund(b[0], 50000)
	fund(b[1], 10000000)
	fund(b[2], 10000000)
	fund(b[3], 10000000)
	fund(b[4], 10000000)
	fund(b[5], 3000)
	fund(b[6], 3000)
	pairs := map[string][][2]string{
		"pair":        {{b[1], b[7]}},
		"source":      {{b[2], b[7]}, {b[2], b[8]}, {b[2], b[9]}},
		"destination": {{b[1], b[10]}, {b[3], b[10]}, {b[4], b[10]}},
		"pair-mixed":  {{b[0], b[7]}},
		"web":         {{b[0], b[8]}, {b[8], b[0]}, {b[0], "@fees"}, {"@till", b[8]}},
		"tight-pair":  {{b[5], b[11]}},
		"tight-fan":   {{b[6], b[12]}, {b[6], b[13]}},
	}
	var names []string
	for k := range pairs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		s := &set{kind: k, src: pairs[k][0][0]}
		switch k {
		case "pair", "source", "destination":
			s.fits = true
			s.reqs = lot(c, w, rng, n, pairs[k], "USD", 900, true)
			// flags ride along in a lot that fits
			for _, p := range pairs[k][:1] {
				q := lotInflight(c, w, rng, p, n/3)
				s.reqs = append(s.reqs, q...)
			}
		case "tight-pair", "tight-fan":
			s.strip = true
			s.reqs = lot(c, w, rng, n, pairs[k], "USD", 700, true)
		default:
			s.reqs = lot(c, w, rng, n, pairs[k], "USD", 900, false)
		}
		sets = append(sets, s)
	}
	if workers == 0 {
		w.R.MR.FlushAll()
		stale(w)
		for i := 0; i < 12; i++ {
			r := w.S[0].Do("POST", "/transactions/recover?threshold=2m", nil)
			if !r.OK() {
				c.Violate("recover", "recovery answered "+r.String(), nil)
			}
			left := 0
			for _, s := range sets {
				for _, l := range s.reqs {
					if e, j, _ := w.Outcome(l.q); len(e)+len(j) == 0 {
						left++
					}
				}
			}
			if left == 0 {
				break
			}
			stale(w)
		}
	} else {
		if rng.Intn(2) == 0 {
			c.Add("redelivered", int64(dupTasks(w, func(q string) bool { return strings.Contains(q, "transaction") })))
		}
		jitter(w, seed, 12, 4)
		for i := 0; i < workers; i++ {
			if _, err := w.R.Start("workers", nil); err != nil {
				c.Broken("%v", err)
				return
			}
		}
	}
	if err := w.R.Drain(60*time.Second, false); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	w.R.Eng.SetHook(nil)
	batches := map[string]int{}
	w.R.Audit.With(func() {
		for _, t := range w.R.Audit.Ord {
			if t.Parent != "" {
				batches[fmt.Sprint(t.Seq)]++
			}
		}
	})
	big1, tot := 0, 0
	for _, k := range batches {
		if k > 1 {
			big1++
			tot += k
		}
	}
	c.Add("batches_of_several", int64(big1))
	c.Add("batched_postings", int64(tot))
	for _, s := range sets {
		for _, l := range s.reqs {
			eff, rej, _ := w.Outcome(l.q)
			m := l.body["meta_data"].(M)
			sp := ""
			for _, k := range []string{"inflight", "allow_overdraft", "atomic"} {
				if m[k] != nil {
					sp += k
				}
			}
			inBatch := false
			for _, t := range eff {
				inBatch = batches[fmt.Sprint(t.Seq)] > 1
			}
			c.Case(fmt.Sprintf("%s/%s/inflight%v/allow%v/limit%v/meta-%s/eff%d/rej%d/batched%v", tag, s.kind, l.q.Inflight, l.q.Perm.Allow, l.q.Perm.Limit != nil, sp, len(eff), len(rej), inBatch), true)
			if tag == "recovery" && len(eff)+len(rej) == 0 {
				c.Violate("lost", fmt.Sprintf("[%s] recovery left %s without outcome", tag, l.q.Ref), nil)
			}
			if !w.CheckReq(tag, l.q) {
				continue
			}
			for _, t := range append(eff, rej...) {
				fields(c, tag, l, t)
			}
			if s.fits && len(eff) != 1 {
				c.Violate("fitting-refused", fmt.Sprintf("[%s] %s of %s in a lot that fits its funds was not applied (%d rejections: %v)", tag, l.q.Ref, l.q.Amt, len(rej), rej), nil)
			}
			if s.strip && len(rej) > 0 && tag != "queued-checks" {
				left := avail(w, s.src)
				if left.Cmp(l.q.Amt) >= 0 {
					c.Violate("affordable-refused", fmt.Sprintf("[%s] %s of %s was rejected although its source, which had no income, still has %s", tag, l.q.Ref, l.q.Amt, left), nil)
				}
			}
			if l.q.Perm.Allow && l.q.Perm.Limit == nil && len(rej) > 0 {
				c.Violate("permitted-refused", fmt.Sprintf("[%s] %s may overdraw and was rejected: %v", tag, l.q.Ref, rej[0].Meta), nil)
			}
		}
	}
	w.R.Audit.Settle(tag, "fold", "doubleentry", "overdraft", "reference", "inflight")
	crashes(c, w, tag)
}

// lotInflight queues holds within the funds.
func lotInflight(c *rig.Check, w *rig.World, rng *rand.Rand, p [2]string, n int) []*lotReq {
	var out []*lotReq
	for i := 0; i < n; i++ {
		q := &rig.Req{Kind: "lot", Src: p[0], Dst: p[1], Cur: "USD", Amt: big.NewInt(1 + rng.Int63n(500)), Ref: rig.Ref("lot"), Inflight: rng.Intn(2) == 0}
		b := q.Body()
		b["meta_data"] = M{"n": i, "text": "x\"y"}
		b["description"] = fmt.Sprintf("held lot item %d", i)
		if rng.Intn(3) == 0 {
			b["effective_date"] = "2022-02-03T04:05:06Z"
		}
		w.Permit(q.Ref, q.Perm)
		q.Resp = w.S[0].Do("POST", "/transactions", b)
		q.ID = q.Resp.S("transaction_id")
		if !q.Resp.OK() {
			c.Violate("refused", fmt.Sprintf("queued transfer was refused: %s", q.Resp), nil)
			continue
		}
		w.Reqs = append(w.Reqs, q)
		out = append(out, &lotReq{q: q, body: b})
	}
	rig.Eventually(20*time.Second, func() bool {
		for _, l := range out {
			if len(w.R.Audit.ByRef(l.q.Ref)) == 0 {
				return false
			}
		}
		return true
	})
	return out
}

// p10: every acknowledged queued transfer ends with exactly one outcome, whatever is killed, repeated or lost.
func p10(c *rig.Check) {
	c.Rule = "queued transfers (plain, held, multi-leg, in bulk, unaffordable, with racing duplicates) run while workers are killed, tasks are delivered again, statements fail, the queue is lost and recovery runs alongside; at the end every acknowledged reference must have exactly one effect or exactly one rejection, with its amount; distinct_nontrivial counts (disturbance, kind, outcome) kinds"
	f := c.Pick(1, 8)
	all(
		func() { p10run(c, "worker-kills", c.Seed+100, f) },
		func() { p10run(c, "redelivery", c.Seed+101, f) },
		func() { p10run(c, "faults", c.Seed+102, f) },
		func() { p10run(c, "queue-lost", c.Seed+103, f) },
		func() { p10run(c, "recovery-races", c.Seed+104, f) },
		func() { p10run(c, "server-kills", c.Seed+105, f) },
		func() { p10run(c, "contention", c.Seed+106, f) },
		func() { p10run(c, "backlog", c.Seed+107, f) },
	)
}

func p10run(c *rig.Check, tag string, seed int64, f int) {
	cfg := rig.Cfg{"transaction": M{"batch_size": 4, "lock_wait_timeout": 2}, "queue": M{"max_retry_attempts": 6, "transaction_worker_concurrency": 4}}
	if tag == "contention" {
		cfg = rig.Cfg{"transaction": M{"batch_size": 3, "lock_wait_timeout": 1}, "queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1, "max_retry_attempts": 3, "insufficient_fund_retries": true, "transaction_worker_concurrency": 8}}
	}
	servers := 1
	if tag == "server-kills" {
		servers = 2
	}
	workers := 2
	if tag == "redelivery" || tag == "queue-lost" || tag == "backlog" {
		workers = 0
	}
	w := boot(c, tag, cfg, servers, workers)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 5, 200000); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	type job struct {
		q     *rig.Req
		legs  []string // references of the legs of a multi-leg transfer
		maybe bool     // the answer was lost: no outcome is fine as well
	}
	var mu sync.Mutex
	var jobs []*job
	var fmu sync.Mutex
	frng := rand.New(rand.NewSource(seed + 5))
	hook := func() {
		switch tag {
		case "faults":
			w.R.Eng.SetHook(func(i *stmt) *action {
				if !strings.HasPrefix(i.App, "workers") {
					return nil
				}
				fmu.Lock()
				defer fmu.Unlock()
				switch frng.Intn(40) {
				case 0:
					c.Add("faults", 1)
					return &action{Err: pgErr("40001", "could not serialize access")}
				case 1:
					c.Add("faults", 1)
					return &action{Cut: "before"}
				case 2:
					c.Add("faults", 1)
					return &action{Cut: "after"}
				}
				return nil
			})
		default:
			jitter(w, seed, 6, 6)
		}
	}
	hook()
	post := func(rr *rand.Rand, srv *rig.Proc) {
		i, j := rr.Intn(5), rr.Intn(4)
		if tag == "backlog" {
			i, j = rr.Intn(2), 2+rr.Intn(2)
		} else if j >= i {
			j++
		}
		q := &rig.Req{Kind: "plain", Src: bs[i], Dst: bs[j], Cur: "USD", Amt: big.NewInt(1 + rr.Int63n(900)), Ref: rig.Ref("ten")}
		jb := &job{q: q}
		switch rr.Intn(9) {
		case 0:
			q.Kind, q.Inflight = "held", true
		case 1:
			q.Kind, q.Amt = "unaffordable", big.NewInt(900000000+rr.Int63n(1000))
		case 2:
			q.Kind, q.Src, q.Perm.Allow = "overdrawn", "@bank", true
		case 3:
			q.Kind = "split"
		case 4:
			q.Kind = "twins"
		}
		b := q.Body()
		if q.Kind == "split" {
			delete(b, "destination")
			b["destinations"] = []M{{"identifier": bs[j], "distribution": "60%"}, {"identifier": "@fees", "distribution": "left"}}
			q.Amt = big.NewInt(1000 + rr.Int63n(1000))
			b["precise_amount"] = q.Amt
		}
		w.Permit(q.Ref, q.Perm)
		q.Resp = srv.Do("POST", "/transactions", b)
		if q.Kind == "twins" {
			for k := 0; k < 2; k++ {
				r2 := srv.Do("POST", "/transactions", b)
				if r2.OK() && !q.Resp.OK() {
					q.Resp = r2
				}
			}
		}
		q.ID = q.Resp.S("transaction_id")
		jb.maybe = !q.Resp.OK() || srv.Dead() || tag == "server-kills"
		c.Add("posted", 1)
		mu.Lock()
		jobs = append(jobs, jb)
		mu.Unlock()
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var hmu sync.Mutex
	switch tag {
	case "worker-kills":
		wg.Add(1)
		go func() {
			defer wg.Done()
			ks := append([]*rig.Proc{}, w.W...)
			for {
				select {
				case <-stop:
					for _, p := range ks {
						p.Kill()
					}
					c.Add("orphaned_tasks", int64(w.R.ReclaimOrphans()))
					for range ks {
						if _, err := w.R.Start("workers", nil); err != nil {
							c.Broken("%v", err)
						}
					}
					return
				case <-time.After(time.Duration(60+frng.Intn(200)) * time.Millisecond):
					i := frng.Intn(len(ks))
					ks[i].Kill()
					c.Add("kills", 1)
					p, err := w.R.Start("workers", nil)
					if err != nil {
						c.Broken("%v", err)
						return
					}
					ks[i] = p
				}
			}
		}()
	case "server-kills":
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < c.Pick(4, 20); k++ {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(100+frng.Intn(150)) * time.Millisecond):
				}
				i := k % 2
				w.S[i].Kill()
				c.Add("kills", 1)
				p, err := w.R.Start("start", nil)
				if err != nil {
					c.Broken("%v", err)
					return
				}
				hmu.Lock()
				w.S[i] = p
				hmu.Unlock()
			}
		}()
	case "recovery-races":
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(20 * time.Millisecond):
						stale(w)
						w.S[0].Do("POST", "/transactions/recover?threshold=2m", nil)
						c.Add("recoveries", 1)
					}
				}
			}()
		}
	}
	var pg sync.WaitGroup
	conc := 8
	for g := 0; g < conc; g++ {
		pg.Add(1)
		go func() {
			defer pg.Done()
			rr := rand.New(rand.NewSource(seed*31 + int64(g)))
			for i := 0; i < 18*f; i++ {
				hmu.Lock()
				srv := w.S[rr.Intn(len(w.S))]
				hmu.Unlock()
				post(rr, srv)
			}
		}()
	}
	pg.Wait()
	switch tag {
	case "redelivery":
		rig.Eventually(15*time.Second, func() bool { p, _, _, _, _ := w.R.Queues(); return p >= 18*f*conc })
		for k := 0; k < 2; k++ {
			c.Add("redelivered", int64(dupTasks(w, func(q string) bool { return true })))
		}
		for i := 0; i < 2; i++ {
			if _, err := w.R.Start("workers", nil); err != nil {
				c.Broken("%v", err)
				return
			}
		}
	case "queue-lost":
		rig.Eventually(15*time.Second, func() bool { p, _, _, _, _ := w.R.Queues(); return p >= 18*f*conc })
		w.R.MR.FlushAll()
		for i := 0; i < 2; i++ {
			if _, err := w.R.Start("workers", nil); err != nil {
				c.Broken("%v", err)
				return
			}
		}
	case "backlog": // few pairs, many waiting: the workers meet full batches
		rig.Eventually(15*time.Second, func() bool { p, _, _, _, _ := w.R.Queues(); return p >= 18*f*conc })
		for i := 0; i < 2; i++ {
			if _, err := w.R.Start("workers", nil); err != nil {
				c.Broken("%v", err)
				return
			}
		}
	case "faults":
		for i := 0; i < 25; i++ {
			w.R.RunRetries(false)
			time.Sleep(60 * time.Millisecond)
		}
	}
	close(stop)
	wg.Wait()
	w.R.Eng.SetHook(nil)
	if err := w.R.Drain(90*time.Second, false); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	if tag == "backlog" || tag == "redelivery" || tag == "contention" {
		// nothing was killed, failed or lost: the queue alone must have settled everything
		for _, j := range jobs {
			if j.q.Kind == "split" || j.maybe {
				continue
			}
			if eff, rej, que := w.Outcome(j.q); len(eff)+len(rej) == 0 {
				c.Violate("lost", fmt.Sprintf("[%s] %s transfer %s of %s (answer %s) has no outcome although every task was delivered and nothing failed (%d queued records)", tag, j.q.Kind, j.q.Ref, j.q.Amt, j.q.Resp, len(que)), nil)
			}
		}
	}
	srv := w.S[0]
	// whatever was recorded as queued and has no task any more is taken up by recovery
	for k := 0; k < 2*f+8; k++ {
		stale(w)
		srv.Do("POST", "/transactions/recover?threshold=2m", nil)
	}
	w.R.Drain(60*time.Second, false)
	for _, j := range jobs {
		refs := []string{""}
		if j.q.Kind == "split" {
			refs = []string{"_1", "_2"}
		}
		sum, effs, rejs, rec := new(big.Int), 0, 0, 0
		for _, x := range refs {
			q := *j.q
			q.Ref += x
			if j.q.Kind == "split" {
				rec += len(w.R.Audit.ByRef(q.Ref))
			}
			eff, rej, que := w.Outcome(&q)
			rec += len(que)
			d := fmt.Sprintf("[%s] %s transfer %s of %s (answer %s): %d effects, %d rejections, %d queued records", tag, j.q.Kind, q.Ref, q.Amt, j.q.Resp, len(eff), len(rej), len(que))
			c.Case(fmt.Sprintf("%s/%s/eff%d/rej%d", tag, j.q.Kind, len(eff), len(rej)), true)
			effs += len(eff)
			rejs += len(rej)
			for _, t := range eff {
				sum.Add(sum, t.Amt)
				want := "APPLIED"
				if q.Inflight {
					want = "INFLIGHT"
				}
				if t.Status != want {
					c.Violate("status", d+": recorded as "+t.Status, nil)
				}
			}
			var tr []string
			for _, t := range append(append(append([]*rig.Row{}, eff...), rej...), que...) {
				tr = append(tr, fmt.Sprintf("%s ref=%s status=%s amt=%s parent=%s by %s meta=%v", t.ID, t.Ref, t.Status, t.Amt, t.Parent, t.App, t.Meta))
			}
			switch {
			case len(eff) > 1:
				c.Violate("twice", d, tr)
			case len(rej) > 1:
				c.Violate("rejected-twice", d, tr)
			case len(eff) > 0 && len(rej) > 0:
				c.Violate("both", d, tr)
			case len(eff)+len(rej) == 0 && len(que) > 0:
				c.Violate("stuck", d, tr)
			case len(eff)+len(rej) == 0 && !j.maybe && j.q.Kind != "split":
				c.Violate("lost", d, tr)
			}
		}
		if j.q.Kind == "split" {
			d := fmt.Sprintf("[%s] split %s of %s (answer %s): %d legs posted, %d rejected, %d records", tag, j.q.Ref, j.q.Amt, j.q.Resp, effs, rejs, rec)
			if rejs == 0 && effs == 2 && sum.Cmp(j.q.Amt) != 0 {
				c.Violate("split-sum", d+": legs add up to "+sum.String(), nil)
			}
			if effs+rejs < 2 && !j.maybe {
				c.Violate("lost", d, nil)
			}
		} else if effs == 1 && sum.Cmp(j.q.Amt) != 0 {
			c.Violate("amount", fmt.Sprintf("[%s] %s of %s was posted with %s", tag, j.q.Ref, j.q.Amt, sum), nil)
		}
	}
	w.R.Audit.Settle(tag, "fold", "doubleentry", "reference", "overdraft")
	if tag != "server-kills" && tag != "worker-kills" {
		crashes(c, w, tag)
	}
}
