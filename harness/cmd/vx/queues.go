package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/alicebob/miniredis/v2/server"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/hibiken/asynq"
)

func init() {
	checks["P32"] = p32
}

// p32: a source's queued work stays in one queue, contended pairs use the hot lane, an overloaded queue refuses.
func p32(c *rig.Check) {
	c.Rule = "routing: for several numbers of queues, random sources (balances, indicators, splits, bulks, held, scheduled, with lane names smuggled into metadata) are queued at two servers that are killed and restarted, and every task found in the queues is judged: one source, one queue, one of those configured; workers then serve all of them. hot lane: pairs are contended for real (a transaction paused inside its commit while others time out on its locks), with fewer and more failures than the threshold, queued to, drained and left alone past the time to live, in random order; each new task's queue is judged by the pair's own contention and by what of it is still waiting. backlog: queued work is offered one by one and in bursts while the backlog or the memory in use is below, at and over the limit: it is taken below and refused over it, and what was refused left no row, balance or task. distinct_nontrivial counts (queues, shape), (contention, waiting, lane) and (limit, shape, taken)"
	c.Assume = append(c.Assume, "the number of queues does not change while work waits", "the backlog limit is judged when requests come one by one: it is looked at once per check interval (set to nothing here)")
	n := int64(1)
	if c.Thorough() {
		n = 10
	}
	for i := int64(0); i < n; i++ {
		s := c.Seed*100 + i*13
		all(
			func() { p32routing(c, s, []int{1, 3}[s%2]) },
			func() { p32routing(c, s+1, []int{2, 7, 20}[s%3]) },
			func() { p32hot(c, s+2) },
			func() { p32backlog(c, s+3) },
		)
	}
}

// task32 is a transaction waiting in a queue.
type task32 struct {
	queue, id, src, dst, ref string
}

func tasks32(w *rig.World) ([]task32, error) {
	var out []task32
	in := w.R.Inspector()
	qs, err := in.Queues()
	if err != nil {
		return nil, err
	}
	for _, q := range qs {
		add := func(l []*asynq.TaskInfo, err error) {
			for _, t := range l {
				var p struct {
					Source      string `json:"source"`
					Destination string `json:"destination"`
					Reference   string `json:"reference"`
				}
				if json.Unmarshal(t.Payload, &p) != nil || p.Source == "" || p.Reference == "" {
					continue
				}
				out = append(out, task32{q, t.ID, p.Source, p.Destination, p.Reference})
			}
		}
		add(in.ListPendingTasks(q, asynq.PageSize(5000)))
		add(in.ListScheduledTasks(q, asynq.PageSize(5000)))
		add(in.ListRetryTasks(q, asynq.PageSize(5000)))
	}
	return out, nil
}

// find32 waits for the tasks of references.
func find32(w *rig.World, refs ...string) []task32 {
	var out []task32
	rig.Eventually(15*time.Second, func() bool {
		out = out[:0]
		l, err := tasks32(w)
		if err != nil {
			return false
		}
		for _, r := range refs {
			for _, t := range l {
				if t.ref == r || t.ref == r+"_q" {
					out = append(out, t)
				}
			}
		}
		return len(out) >= len(refs)
	})
	return out
}

func p32routing(c *rig.Check, seed int64, queues int) {
	rng := rand.New(rand.NewSource(seed))
	cfg := rig.Cfg{"queue": M{"number_of_queues": queues, "max_retry_attempts": 6}}
	if rng.Intn(2) == 0 {
		cfg["queue"].(M)["enable_hot_lane"] = true
	}
	w := boot(c, fmt.Sprintf("routing%d", queues), cfg, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", c.Pick(14, 40), 0); err != nil {
		c.Broken("P32: %v", err)
		return
	}
	bs := w.Bals["USD"]
	var sources []string
	sources = append(sources, bs...)
	sources = append(sources, "@a32", "@world", "@Ünï 32")
	base, shape := map[string]bool{}, map[string]string{}
	rounds := c.Pick(3, 8)
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i := 0; i < 40; i++ {
			src := sources[rng.Intn(len(sources))]
			dst := bs[rng.Intn(len(bs))]
			for dst == src {
				dst = bs[rng.Intn(len(bs))]
			}
			ref := rig.Ref("q32")
			b := M{"reference": ref, "description": "d", "currency": "USD", "precision": 100, "precise_amount": 1 + rng.Intn(50), "source": src, "destination": dst, "allow_overdraft": true}
			kind, path, refs := "plain", "/transactions", []string{ref}
			switch rng.Intn(7) {
			case 0:
				b["inflight"], kind = true, "held"
			case 1:
				b["scheduled_for"], kind = time.Now().Add(time.Hour).UTC().Format(time.RFC3339), "scheduled"
			case 2:
				b["meta_data"], kind = M{"queue_lane": "hot", "queue_pair_key": "x"}, "lane in metadata"
			case 3:
				var l, m = []M{{"identifier": src, "distribution": "50%"}, {"identifier": pick(rng, bs), "distribution": "left"}}, 2
				if l[1]["identifier"] == dst || l[1]["identifier"] == src {
					m = 1
					l = []M{{"identifier": src, "distribution": "100%"}}
				}
				delete(b, "source")
				b["sources"], b["precise_amount"], kind, refs = l, 100, "split", nil
				for k := 1; k <= m; k++ {
					refs = append(refs, fmt.Sprintf("%s_%d", ref, k))
				}
			case 4:
				n := 2 + rng.Intn(3)
				var l []M
				refs = nil
				for k := 0; k < n; k++ {
					o := M{}
					for x, y := range b {
						o[x] = y
					}
					o["reference"] = fmt.Sprintf("%s.%d", ref, k)
					refs = append(refs, o["reference"].(string))
					l = append(l, o)
				}
				b, kind, path = M{"transactions": l, "atomic": rng.Intn(2) == 0, "run_async": rng.Intn(2) == 0}, "bulk", "/transactions/bulk"
			}
			s := w.Srv(rng)
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := s.Do("POST", path, b)
				if !x.OK() {
					c.Broken("P32: could not queue (%s): %s", kind, x)
					return
				}
				mu.Lock()
				for _, r := range refs {
					shape[r], base[r] = kind, true
				}
				mu.Unlock()
			}()
			if rng.Intn(6) == 0 {
				wg.Wait()
			}
		}
		wg.Wait()
		if c.Counter("broken") > 0 {
			return
		}
		var all []string
		for r := range base {
			all = append(all, r)
		}
		if got := find32(w, all...); len(got) < len(all) {
			c.Violate("not queued", fmt.Sprintf("%d of %d transactions taken are in no queue", len(all)-len(got), len(all)), nil)
			return
		}
		if round < rounds-1 {
			// what was accepted is in the queues: a new process continues
			i := rng.Intn(2)
			w.S[i].Kill()
			p, err := w.R.Start("start", nil)
			if err != nil {
				c.Broken("P32: %v", err)
				return
			}
			w.S[i] = p
		}
	}
	l, err := tasks32(w)
	if err != nil {
		c.Broken("P32: %v", err)
		return
	}
	ids := map[string]string{}
	w.R.Audit.With(func() {
		for id, b := range w.R.Audit.Bals {
			if ind := rig.Str(b.Raw["indicator"]); ind != "" {
				ids[ind] = id
			}
		}
	})
	in := map[string]map[string][]string{}
	used := map[string]bool{}
	for _, t := range l {
		src := t.src
		if x := ids[src]; x != "" {
			src = x
		}
		if in[src] == nil {
			in[src] = map[string][]string{}
		}
		in[src][t.queue] = append(in[src][t.queue], t.ref)
		used[t.queue] = true
		c.Add("tasks judged", 1)
		c.Case(fmt.Sprintf("routing/%d/%s", queues, shape[strings.TrimSuffix(t.ref, "_q")]), true)
	}
	for src, qs := range in {
		if len(qs) > 1 {
			c.Violate("routing/two queues", fmt.Sprintf("tasks of source %s are in %d queues (%d configured): %v", src, len(qs), queues, qs), nil)
		}
		c.Add("sources with tasks", 1)
	}
	if len(used) > queues {
		c.Violate("routing/too many queues", fmt.Sprintf("%d queues are used, %d are configured: %v", len(used), queues, used), nil)
	}
	c.State("queues used", fmt.Sprintf("%d of %d", len(used), queues))
	for i := 0; i < 2; i++ {
		if _, err := w.R.Start("workers", nil); err != nil {
			c.Broken("P32: %v", err)
			return
		}
	}
	if err := w.R.Drain(time.Minute, false); err != nil {
		c.Violate("routing/not served", fmt.Sprintf("the queues are not served: %v", err), nil)
		return
	}
	for r := range base {
		n := 0
		for _, ref := range []string{r, r + "_q"} {
			for _, t := range w.R.Audit.ByRef(ref) {
				if t.Effect != "none" {
					n++
				}
			}
		}
		want := 1
		if shape[r] == "scheduled" {
			want = 0
		}
		if n != want {
			c.Violate("routing/outcome", fmt.Sprintf("%s (%s) had %d effects after the queues were served, %d were due", r, shape[r], n, want), nil)
		}
	}
	crashes(c, w, "routing")
	w.R.Audit.Settle("routing", "doubleentry", "reference", "fold")
}

// pair32 is what is known of a pair of balances.
type pair32 struct {
	s, d      string
	failures  int       // since it was last seen in the normal lane with no contention remembered
	last      time.Time // of the last failure or promotion, by the clock of Redis
	lane      string    // of the last task
	promoting bool      // enough failures, but not yet seen in the hot lane
	cooling   bool      // queued to when its contention had ended
}

func p32hot(c *rig.Check, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	threshold := 1 + rng.Intn(4)
	const ttl = 90 * time.Second
	hotName := pick(rng, []string{"hot_transactions", "fast lane", "h1"})
	cfg := rig.Cfg{"transaction": M{"lock_wait_timeout": 1, "lock_duration": 30}, "queue": M{"number_of_queues": 5, "max_retry_attempts": 6, "enable_hot_lane": true, "hot_queue_name": hotName, "hot_pair_ttl": int(ttl / time.Second), "hot_pair_lock_contention_threshold": threshold}}
	w := boot(c, "hot", cfg, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 5, 1000000); err != nil {
		c.Broken("P32: %v", err)
		return
	}
	bs := w.Bals["USD"]
	// pairs share sources and destinations, and one is another the other way round
	pairs := []*pair32{{s: bs[0], d: bs[1]}, {s: bs[0], d: bs[2]}, {s: bs[1], d: bs[0]}, {s: bs[3], d: bs[2]}, {s: bs[3], d: bs[4]}}
	home := map[string]string{}
	var skew time.Duration
	now := func() time.Time { return time.Now().Add(skew) }
	var trace []string
	note := func(f string, x ...any) { trace = append(trace, fmt.Sprintf(f, x...)) }

	contend := func(k int) bool {
		// a transaction of the first pair is held inside its database transaction
		p := pairs[rng.Intn(len(pairs))]
		paused, resume := make(chan bool), make(chan bool)
		var once sync.Once
		app := w.S[0].Name
		w.R.Eng.SetHook(func(s *stmt) *action {
			if s.App != app || !s.InTx || (s.Table != "blnk.balances" && s.Table != "blnk.transactions") {
				return nil
			}
			first := false
			once.Do(func() { first = true })
			if !first {
				return nil
			}
			return &action{After: func() {
				close(paused)
				select {
				case <-resume:
				case <-time.After(12 * time.Second):
				}
			}}
		})
		defer w.R.Eng.SetHook(nil)
		post := func(s *rig.Proc, p *pair32) *rig.Resp {
			return s.Do("POST", "/transactions", M{"reference": rig.Ref("c32"), "description": "d", "currency": "USD", "precision": 100, "precise_amount": 1, "source": p.s, "destination": p.d, "skip_queue": true})
		}
		done := make(chan *rig.Resp, 1)
		go func() { done <- post(w.S[0], p) }()
		select {
		case <-paused:
		case <-time.After(10 * time.Second):
			c.Broken("P32: no transaction could be paused")
			return false
		}
		var wg sync.WaitGroup
		fails := make([]int, len(pairs))
		var mu sync.Mutex
		for i := 0; i < k; i++ {
			j := rng.Intn(len(pairs))
			q := pairs[j]
			if rng.Intn(2) == 0 {
				for x := range pairs {
					if pairs[x] == p {
						j, q = x, p
					}
				}
			}
			if q.s != p.s && q.s != p.d && q.d != p.s && q.d != p.d {
				continue
			}
			s := w.S[i%2]
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := post(s, q)
				if x.Code == 423 {
					mu.Lock()
					fails[j]++
					mu.Unlock()
				} else if x.OK() {
					c.Broken("P32: a transaction of a paused pair went through: %s", x)
				} else {
					c.Broken("P32: contention is answered %s", x)
				}
			}()
		}
		wg.Wait()
		close(resume)
		if x := <-done; !x.OK() {
			c.Broken("P32: the paused transaction failed: %s", x)
			return false
		}
		for j, n := range fails {
			if n == 0 {
				continue
			}
			q := pairs[j]
			if now().Sub(q.last) > ttl {
				q.failures = 0
			}
			q.failures += n
			q.last = now()
			if q.failures >= threshold && q.lane != "hot" {
				q.promoting = true
			}
			note("contend pair %d: %d more failures", j, n)
			c.Add("lock contentions caused", int64(n))
		}
		return true
	}

	waiting := func(p *pair32) (normal, hot int, ok bool) {
		l, err := tasks32(w)
		if err != nil {
			c.Broken("P32: %v", err)
			return 0, 0, false
		}
		for _, t := range l {
			if t.src == p.s && t.dst == p.d {
				if t.queue == hotName {
					hot++
				} else {
					normal++
				}
			}
		}
		return normal, hot, true
	}

	queue := func(j int) bool {
		p := pairs[j]
		normal, hot, ok := waiting(p)
		if !ok {
			return false
		}
		n := 1
		if rng.Intn(4) == 0 {
			n = 2 + rng.Intn(3)
		}
		var refs []string
		var l []M
		amt := 1 + rng.Intn(30)
		if rng.Intn(8) == 0 {
			amt = 900000000 // there is not enough for it: it will be rejected
		}
		for i := 0; i < n; i++ {
			refs = append(refs, rig.Ref("h32"))
			l = append(l, M{"reference": refs[i], "description": "d", "currency": "USD", "precision": 100, "precise_amount": amt, "source": p.s, "destination": p.d})
		}
		var x *rig.Resp
		asked := now()
		if n == 1 {
			l[0]["inflight"] = rng.Intn(5) == 0
			if rng.Intn(4) == 0 {
				l[0]["meta_data"] = M{"queue_lane": pick(rng, []string{"hot", "normal"})}
			}
			x = w.Srv(rng).Do("POST", "/transactions", l[0])
		} else {
			x = w.Srv(rng).Do("POST", "/transactions/bulk", M{"transactions": l})
		}
		if !x.OK() {
			c.Broken("P32: could not queue: %s", x)
			return false
		}
		got := find32(w, refs...)
		if len(got) < n {
			c.Violate("hot/not queued", fmt.Sprintf("%d of %d transactions taken are in no queue", n-len(got), n), M{"trace": trace})
			return false
		}
		lanes := map[string]bool{}
		for _, t := range got {
			if t.queue == hotName {
				lanes["hot"] = true
				continue
			}
			lanes["normal"] = true
			if h := home[p.s]; h == "" {
				home[p.s] = t.queue
			} else if h != t.queue {
				c.Violate("hot/two queues", fmt.Sprintf("source %s was served by queue %s and now has a task in %s", p.s, h, t.queue), M{"trace": trace})
			}
		}
		active := p.last.Add(ttl).After(asked)
		over := !p.last.IsZero() && p.last.Add(ttl+2*time.Second).Before(asked)
		note("queue pair %d: normal %d hot %d waiting, %d failures (active %v): %v", j, normal, hot, p.failures, active, lanes)
		bad := func(key, f string, a ...any) {
			c.Violate("hot/"+key, fmt.Sprintf(f, a...), M{"threshold": threshold, "trace": trace})
		}
		if len(lanes) > 1 {
			bad("bulk in two lanes", "the transactions of one pair in one bulk went to both lanes")
		}
		switch {
		case lanes["hot"] && normal > 0:
			bad("overtakes", "a task went to the hot lane while %d of the same pair wait in its queue", normal)
		case lanes["normal"] && hot > 0:
			bad("overtakes", "a task went to the source's queue while %d of the same pair wait in the hot lane", hot)
		}
		switch {
		case lanes["hot"] && p.lane != "hot" && p.failures < threshold:
			bad("uncontended", "a pair with %d contentions (threshold %d) went to the hot lane", p.failures, threshold)
		case lanes["hot"] && p.lane == "hot" && hot == 0 && over:
			bad("not returned", "a pair not contended any more and with nothing waiting stayed in the hot lane")
		case lanes["normal"] && normal == 0 && active && p.failures >= threshold && !p.cooling:
			bad("not promoted", "a pair with %d contentions (threshold %d) and nothing waiting was not given the hot lane", p.failures, threshold)
		}
		lane := "normal"
		if lanes["hot"] {
			lane = "hot"
		}
		c.Case(fmt.Sprintf("hot/contended %v/active %v/waiting %v %v/was %s/%s", p.failures >= threshold, active, normal > 0, hot > 0, p.lane, lane), true)
		c.Add("lane decisions judged", int64(n))
		if lane == "hot" {
			if p.lane != "hot" {
				p.last = now()
			} else if over {
				p.cooling = true
			}
			p.promoting = false
		} else if p.lane == "hot" {
			p.failures, p.cooling, p.last = 0, false, time.Time{}
		}
		p.lane = lane
		return true
	}
	drain := func() bool {
		wk, err := w.R.Start("workers", nil)
		if err != nil {
			c.Broken("P32: %v", err)
			return false
		}
		err = w.R.Drain(40*time.Second, false)
		wk.Stop(8 * time.Second)
		if err != nil {
			c.Violate("hot/not served", fmt.Sprintf("the queues are not served: %v", err), M{"trace": trace})
			return false
		}
		note("drained")
		return true
	}
	rounds := c.Pick(4, 10)
	for round := 0; round < rounds; round++ {
		for i := 0; i < 2; i++ {
			if (round > 0 || i > 0) && rng.Intn(5) > 0 {
				if !contend(1 + rng.Intn(2*threshold+2)) {
					return
				}
			}
			for _, j := range rng.Perm(len(pairs))[:2+rng.Intn(3)] {
				if !queue(j) {
					return
				}
			}
		}
		if !drain() {
			return
		}
		for _, j := range rng.Perm(len(pairs)) {
			if !queue(j) {
				return
			}
		}
		if rng.Intn(2) == 0 {
			// the contention of the pairs already in the hot lane ends; what is only about to
			// be promoted remembers longer, and is not judged
			skew += ttl + 5*time.Second
			w.R.MR.FastForward(ttl + 5*time.Second)
			for _, p := range pairs {
				if p.lane != "hot" && !p.promoting {
					p.failures, p.last = 0, time.Time{}
				}
			}
			note("time passes")
			for _, j := range rng.Perm(len(pairs))[:2] {
				if !queue(j) {
					return
				}
			}
			if !drain() {
				return
			}
			for _, j := range rng.Perm(len(pairs)) {
				if !queue(j) {
					return
				}
			}
		}
	}
	if !drain() {
		return
	}
	crashes(c, w, "hot")
	w.R.Audit.Settle("hot", "doubleentry", "reference", "fold")
	for _, q := range [][]string{{"QUEUED"}} {
		n := 0
		w.R.Audit.With(func() {
			for _, t := range w.R.Audit.Ord {
				if t.Status == q[0] {
					kids := 0
					for _, k := range w.R.Audit.Ord {
						if k.Parent == t.ID {
							kids++
						}
					}
					if kids != 1 {
						n++
					}
				}
			}
		})
		if n > 0 {
			c.Violate("hot/outcome", fmt.Sprintf("%d queued transactions have not exactly one outcome", n), M{"trace": trace})
		}
	}
}

func p32backlog(c *rig.Check, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	limit := []int{1, 4, 9}[rng.Intn(3)]
	percent := []int{40, 85}[rng.Intn(2)]
	cfg := rig.Cfg{"queue": M{"number_of_queues": 4, "max_retry_attempts": 6, "enable_hot_lane": rng.Intn(2) == 0, "enable_backpressure": true, "backpressure_max_pending_tasks": limit, "backpressure_memory_percent": percent, "backpressure_check_interval": 1}}
	w := boot(c, "backlog", cfg, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	var mu sync.Mutex
	used, top := 10, 1000
	w.R.MR.Server().SetPreHook(func(p *server.Peer, cmd string, args ...string) bool {
		if strings.ToUpper(cmd) != "INFO" {
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		p.WriteBulk(fmt.Sprintf("# Memory\r\nused_memory:%d\r\nused_memory_human:1K\r\nmaxmemory:%d\r\nmaxmemory_policy:noeviction\r\n", used, top))
		return true
	})
	memory := func(u, t int) {
		mu.Lock()
		used, top = u, t
		mu.Unlock()
	}
	if err := w.AddBalances("USD", 5, 1000000); err != nil {
		c.Broken("P32: %v", err)
		return
	}
	bs := w.Bals["USD"]
	type offer struct {
		refs  []string
		shape string
		x     *rig.Resp
		ind   string
	}
	var taken, refused []*offer
	make1 := func(r *rand.Rand) (string, M, *offer) {
		o := &offer{shape: "plain"}
		ref := rig.Ref("b32")
		o.refs = []string{ref}
		b := M{"reference": ref, "description": "d", "currency": "USD", "precision": 100, "precise_amount": 1 + r.Intn(50), "source": bs[r.Intn(3)], "destination": bs[3+r.Intn(2)]}
		path := "/transactions"
		switch r.Intn(7) {
		case 0:
			b["inflight"], o.shape = true, "held"
		case 1:
			b["inflight"], b["inflight_expiry_date"], o.shape = true, time.Now().Add(time.Hour).UTC().Format(time.RFC3339), "expiring"
		case 2:
			o.ind = "@" + rig.Ref("new")
			b["destination"], o.shape = o.ind, "new indicator"
		case 3:
			delete(b, "destination")
			b["precise_amount"] = 100
			b["destinations"], o.shape = []M{{"identifier": bs[3], "distribution": "50%"}, {"identifier": bs[4], "distribution": "left"}}, "split"
			o.refs = []string{ref + "_1", ref + "_2"}
		case 4:
			b, path, o.shape = M{"transactions": []M{b}, "atomic": r.Intn(2) == 0}, "/transactions/bulk", "bulk"
		}
		return path, b, o
	}
	gone := func(o *offer, why string) {
		rows, bals := 0, 0
		w.R.Audit.With(func() {
			for _, t := range w.R.Audit.Ord {
				for _, r := range append([]string{strings.TrimSuffix(o.refs[0], "_1")}, o.refs...) {
					if t.Ref == r || t.Ref == r+"_q" {
						rows++
					}
				}
			}
			for _, b := range w.R.Audit.Bals {
				if o.ind != "" && rig.Str(b.Raw["indicator"]) == o.ind {
					bals++
				}
			}
		})
		if rows+bals > 0 {
			c.Violate("backlog/refused but recorded", fmt.Sprintf("a %s transaction refused %s left %d rows and %d balances (%s)", o.shape, why, rows, bals, o.x), nil)
		}
	}
	count := func() int {
		l, err := tasks32(w)
		if err != nil {
			c.Broken("P32: %v", err)
		}
		return len(l)
	}
	overload := func(x *rig.Resp) bool { return x.Code == 503 || x.Code == 429 }
	one := func(what string, want string) bool {
		n := count()
		if want == "" {
			want = "taken"
			if n >= limit {
				want = "refused"
			}
		}
		path, b, o := make1(rng)
		o.x = w.Srv(rng).Do("POST", path, b)
		c.Case(fmt.Sprintf("backlog/%d/%s/%s/%s", limit, what, o.shape, want), true)
		c.Add("offers judged", 1)
		switch {
		case o.x.OK():
			if want == "refused" {
				c.Violate("backlog/taken", fmt.Sprintf("%s: a %s transaction was taken (%d) with %d waiting and a limit of %d", what, o.shape, o.x.Code, n, limit), nil)
			}
			taken = append(taken, o)
			if got := find32(w, o.refs...); len(got) < len(o.refs) {
				c.Violate("backlog/taken but not queued", fmt.Sprintf("%s: a %s transaction was taken (%d) with %d waiting and a limit of %d, and is in no queue", what, o.shape, o.x.Code, n, limit), nil)
				return false
			}
		case overload(o.x):
			if want == "taken" {
				c.Violate("backlog/refused", fmt.Sprintf("%s: a %s transaction was refused (%s) with %d waiting and a limit of %d", what, o.shape, o.x, n, limit), nil)
			}
			refused = append(refused, o)
		default:
			c.Violate("backlog/answer", fmt.Sprintf("%s: a %s transaction was answered %s with %d waiting and a limit of %d", what, o.shape, o.x, n, limit), nil)
			return false
		}
		return true
	}
	drain := func() bool {
		wk, err := w.R.Start("workers", nil)
		if err != nil {
			c.Broken("P32: %v", err)
			return false
		}
		err = w.R.Drain(40*time.Second, false)
		wk.Stop(8 * time.Second)
		if err != nil {
			c.Violate("backlog/not served", fmt.Sprintf("the queues are not served: %v", err), nil)
		}
		return err == nil
	}
	for round := 0; round < c.Pick(2, 8); round++ {
		for i := 0; i < limit+8; i++ {
			if !one("backlog", "") {
				return
			}
			if i%3 == 0 {
				// work that does not wait is not refused
				x := w.Srv(rng).Do("POST", "/transactions", M{"reference": rig.Ref("s32"), "description": "d", "currency": "USD", "precision": 100, "precise_amount": 1, "source": bs[0], "destination": bs[4], "skip_queue": true})
				if !x.OK() {
					c.Violate("backlog/direct", fmt.Sprintf("a transaction that skips the queue was refused: %s", x), nil)
				}
			}
		}
		if !drain() {
			return
		}
		// memory
		for _, m := range []struct {
			u, t int
			want string
		}{{percent*10 - 1, 1000, "taken"}, {percent * 10, 1000, "refused"}, {1000, 1000, "refused"}, {5000, 0, "taken"}, {percent*10 + 1, 1000, "refused"}, {0, 1000, "taken"}} {
			memory(m.u, m.t)
			if m.want == "taken" && count() >= limit {
				if !drain() {
					return
				}
			}
			if !one(fmt.Sprintf("memory %d of %d at %d%%", m.u, m.t, percent), m.want) {
				return
			}
		}
		memory(10, 1000)
		// a burst
		var wg sync.WaitGroup
		for i := 0; i < 30; i++ {
			r := rand.New(rand.NewSource(seed*31 + int64(round*100+i)))
			path, b, o := make1(r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
				o.x = w.Srv(r).Do("POST", path, b)
				mu.Lock()
				defer mu.Unlock()
				if o.x.OK() {
					taken = append(taken, o)
				} else if overload(o.x) {
					refused = append(refused, o)
				} else {
					c.Violate("backlog/answer", fmt.Sprintf("burst: a %s transaction was answered %s", o.shape, o.x), nil)
				}
			}()
		}
		wg.Wait()
		c.Add("burst requests", 30)
		if !drain() {
			return
		}
		if !one("after", "") {
			return
		}
		if !drain() {
			return
		}
	}
	for _, o := range refused {
		gone(o, "for overload")
	}
	c.Add("requests refused", int64(len(refused)))
	c.Add("requests taken", int64(len(taken)))
	for _, o := range taken {
		for _, r := range o.refs {
			n := 0
			for _, ref := range []string{r, r + "_q"} {
				for _, t := range w.R.Audit.ByRef(ref) {
					if t.Effect != "none" || t.Status == "REJECTED" {
						n++
					}
				}
			}
			if n != 1 {
				c.Violate("backlog/outcome", fmt.Sprintf("a %s transaction taken (%s) has %d outcomes after the queues were served", o.shape, r, n), nil)
			}
		}
	}
	if len(refused) == 0 || len(taken) == 0 {
		c.Broken("P32: %d taken, %d refused", len(taken), len(refused))
	}
	crashes(c, w, "backlog")
	w.R.Audit.Settle("backlog", "doubleentry", "reference", "fold")
}
