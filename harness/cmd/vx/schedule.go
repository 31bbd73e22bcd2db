package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/hibiken/asynq"
)

func init() {
	checks["P38"] = p38
}

// due38 is one request with work that is due later.
type due38 struct {
	ref, kind, path, prior string
	legs                   []string // references of its parts as recorded
	amt                    *big.Int
	sched, expiry, commit  time.Time
	held, refuse, lost     bool
	resp                   *rig.Resp
	asked, answered        time.Time
	actFrom, actTo         time.Time
	acted                  *rig.Resp
	parts                  int
	actAmt                 *big.Int
	id                     string
}

// p38: scheduled transactions, expiries and commit dates take effect once, and not before they are due.
func p38(c *rig.Check) {
	c.Rule = "transfers scheduled for a time (plain, held, split, in bulks, queued and direct) and holds that expire or commit at a time are given to two servers and two workers, with dues in several zones, in the past and with fractions of a second, and with settlements of the holds before that; every recorded row is noted with the wall clock time its database commit happened. No effect comes before its due time; when the due times have passed and the queue is drained each scheduled transfer has one outcome, and what was left of each hold was voided (committed) once. Worlds: all servers and workers up; all of them killed before the due times and started again after; workers killed while working at the due times; no worker running until the due times have passed; a server killed between recording a scheduled transfer and queueing it. distinct_nontrivial counts (world, kind, path, prior settlement, outcome)"
	c.Assume = append(c.Assume, "a due time is given by the request; a due time in the past means at once", "Redis keeps what it acknowledged")
	n := int64(1)
	if c.Thorough() {
		n = 12
	}
	for i := int64(0); i < n; i++ {
		s := c.Seed*1000 + i*17
		all(
			func() { p38run(c, "up", s+1) },
			func() { p38run(c, "restarted", s+2) },
			func() { p38run(c, "killed", s+3) },
			func() { p38run(c, "late", s+4) },
			func() { p38run(c, "lost", s+5) },
		)
	}
}

func p38run(c *rig.Check, tag string, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	cfg := rig.Cfg{"transaction": M{"batch_size": 4, "lock_wait_timeout": 2}, "queue": M{"max_retry_attempts": 8, "transaction_worker_concurrency": 6, "number_of_queues": 3}}
	if rng.Intn(2) == 0 {
		cfg["queue"].(M)["enable_hot_lane"] = true
		cfg["queue"].(M)["hot_pair_lock_contention_threshold"] = 1
	}
	workers := 2
	if tag == "late" {
		workers = 0
	}
	w := boot(c, tag, cfg, 2, workers)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 6, 400000); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	var tmu sync.Mutex
	at := map[string]time.Time{}
	w.R.Audit.With(func() {
		w.R.Audit.Watch = func(cm *pgfake.Commit) {
			now := time.Now()
			tmu.Lock()
			defer tmu.Unlock()
			for _, ch := range cm.Changes {
				if ch.Table == "blnk.transactions" && ch.Before == nil && ch.After != nil {
					at[rig.Str(ch.After["transaction_id"])] = now
				}
			}
		}
	})
	jitter(w, seed, 8, 6)
	var mu sync.Mutex
	var jobs []*due38
	zones := []*time.Location{time.UTC, time.FixedZone("", 5*3600+1800), time.FixedZone("", -8*3600), time.FixedZone("", 14*3600)}
	base := time.Now().Add(3500 * time.Millisecond)
	if tag == "restarted" || tag == "lost" {
		base = base.Add(1500 * time.Millisecond)
	}
	when := func(r *rand.Rand) time.Time {
		switch r.Intn(8) {
		case 0:
			return time.Now().Add(-time.Hour).Truncate(time.Second)
		case 1, 2, 3, 4:
			return base.Add(time.Duration(500+r.Intn(3000)) * time.Millisecond).Truncate(time.Millisecond)
		}
		return base.Add(time.Duration(500+r.Intn(3500)) * time.Millisecond).Truncate(time.Second)
	}
	text := func(r *rand.Rand, t time.Time) string {
		return t.In(zones[r.Intn(len(zones))]).Format("2006-01-02T15:04:05.999Z07:00")
	}
	make1 := func(r *rand.Rand) (*due38, M) {
		i, j := r.Intn(6), r.Intn(5)
		if j >= i {
			j++
		}
		d := &due38{ref: rig.Ref("due"), amt: big.NewInt(200 + r.Int63n(1500)), path: pick(r, []string{"queued", "queued", "direct"}), prior: "none", parts: 1}
		b := M{"reference": d.ref, "description": "due later", "currency": "USD", "precision": 100, "precise_amount": d.amt, "source": bs[i], "destination": bs[j], "skip_queue": d.path == "direct"}
		switch r.Intn(9) {
		case 0, 1, 2:
			d.kind, d.sched = "scheduled", when(r)
		case 3:
			d.kind, d.sched, d.held = "scheduled hold", when(r), true
		case 4, 5:
			d.kind, d.held, d.expiry = "expiring", true, when(r)
		case 6:
			d.kind, d.held, d.commit = "committing", true, when(r)
		case 7:
			d.kind, d.held = "expiring and committing", true
			d.expiry = base.Add(time.Duration(500+r.Intn(1500)) * time.Millisecond).Truncate(time.Second)
			d.commit = d.expiry.Add(12 * time.Second)
			if r.Intn(2) == 0 {
				d.expiry, d.commit = d.commit, d.expiry
			}
		case 8:
			d.kind, d.held = "scheduled and expiring", true
			d.sched = base.Add(time.Duration(500+r.Intn(1500)) * time.Millisecond).Truncate(time.Second)
			d.expiry = d.sched.Add(time.Duration(r.Intn(6)-2) * time.Second)
		}
		if d.kind == "scheduled" && r.Intn(6) == 0 {
			d.refuse, d.kind = true, "scheduled, unaffordable"
			b["precise_amount"] = big.NewInt(900000000 + r.Int63n(1000))
		}
		if d.held {
			b["inflight"] = true
		}
		for k, t := range map[string]time.Time{"scheduled_for": d.sched, "inflight_expiry_date": d.expiry, "inflight_commit_date": d.commit} {
			if !t.IsZero() {
				b[k] = text(r, t)
			}
		}
		d.legs = []string{d.ref}
		if !d.refuse && r.Intn(4) == 0 {
			d.kind += ", split"
			delete(b, "destination")
			b["destinations"] = []M{{"identifier": bs[j], "distribution": "40%"}, {"identifier": "@fees", "distribution": "left"}}
			d.legs = []string{d.ref + "_1", d.ref + "_2", d.ref + "-1", d.ref + "-2"}
			d.parts = 2
		}
		return d, b
	}
	post := func(r *rand.Rand, srv *rig.Proc) {
		d, b := make1(r)
		d.asked = time.Now()
		if r.Intn(6) == 0 {
			// as members of a bulk
			e, b2 := make1(r)
			for k, x := range []*due38{d, e} {
				delete([]M{b, b2}[k], "skip_queue")
				x.path = d.path
			}
			if d.refuse || e.refuse || d.held != e.held {
				return
			}
			e.asked = d.asked
			resp := srv.Do("POST", "/transactions/bulk", M{"transactions": []M{b, b2}, "skip_queue": d.path == "direct", "inflight": d.held})
			for _, x := range []*due38{d, e} {
				x.resp, x.answered, x.path = resp, time.Now(), x.path+" bulk"
				mu.Lock()
				jobs = append(jobs, x)
				mu.Unlock()
			}
			return
		}
		d.resp = srv.Do("POST", "/transactions", b)
		d.answered = time.Now()
		d.id = d.resp.S("transaction_id")
		mu.Lock()
		jobs = append(jobs, d)
		mu.Unlock()
		if !d.resp.OK() {
			return
		}
		if !d.sched.IsZero() && d.sched.After(d.answered) && d.resp.S("status") != "SCHEDULED" && !strings.Contains(d.kind, "split") {
			c.Violate("status", fmt.Sprintf("[%s] %s (%s) was answered with status %q", tag, d.kind, d.path, d.resp.S("status")), d.resp.String())
		}
		if d.held && d.sched.IsZero() && tag != "late" && r.Intn(2) == 0 && !strings.Contains(d.kind, "split") {
			// settled, wholly or partly, by the caller before it is due
			lim := base.Add(-200 * time.Millisecond)
			rig.Eventually(time.Until(lim), func() bool { return len(p38holds(w, d)) == 1 })
			if len(p38holds(w, d)) != 1 || time.Now().After(lim) {
				return
			}
			d.prior = pick(r, []string{"part", "commit", "void"})
			body := M{"status": "commit", "skip_queue": true}
			d.actAmt = d.amt
			switch d.prior {
			case "part":
				d.actAmt = big.NewInt(1 + r.Int63n(d.amt.Int64()-1))
				body["precise_amount"] = d.actAmt
			case "void":
				body["status"] = "void"
			}
			d.actFrom = time.Now()
			for k := 0; k < 5; k++ {
				d.acted = srv.Do("PUT", "/transactions/inflight/"+d.id, body)
				if d.acted.Code != 423 {
					break
				}
			}
			d.actTo = time.Now()
			if !d.acted.OK() {
				// refused as its own due time had come
				d.prior += " refused"
				d.actAmt = nil
			}
		}
	}
	var wg sync.WaitGroup
	conc, each := 6, c.Pick(10, 14)
	if tag == "lost" {
		conc, each = 1, 4
	}
	for i := 0; i < conc; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*31 + int64(i)))
			for k := 0; k < each && time.Now().Before(base.Add(-600*time.Millisecond)); k++ {
				post(r, w.Srv(r))
				time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			}
		}(i)
	}
	wg.Wait()
	restart := func(servers int) bool {
		for i := 0; i < 2; i++ {
			if _, err := w.R.Start("workers", nil); err != nil {
				c.Broken("%s: %v", tag, err)
				return false
			}
		}
		for i := 0; i < servers; i++ {
			p, err := w.R.Start("start", nil)
			if err != nil {
				c.Broken("%s: %v", tag, err)
				return false
			}
			w.S = append(w.S, p)
		}
		return true
	}
	last := base
	for _, d := range jobs {
		for _, t := range []time.Time{d.sched, d.expiry, d.commit} {
			if t.After(last) && t.Before(base.Add(8*time.Second)) {
				last = t
			}
		}
	}
	if tag == "lost" {
		// the server dies when it has recorded a scheduled transfer, and not queued it yet
		w.R.Eng.SetHook(nil)
		for k := 0; k < c.Pick(2, 3) && len(w.S) > 0; k++ {
			srv := w.S[0]
			var once sync.Once
			gone := make(chan bool)
			d := &due38{ref: rig.Ref("due"), kind: "scheduled", path: "queued", prior: "none", amt: big.NewInt(777), sched: base.Add(time.Second).Truncate(time.Second), lost: true, parts: 1}
			if k == 1 {
				d.kind, d.held = "scheduled hold", true
			}
			d.legs = []string{d.ref}
			w.R.Eng.SetHook(func(i *stmt) *action {
				if i.App != srv.Name || i.Table != "blnk.transactions" || !strings.EqualFold(i.Kind, "insert") {
					return nil
				}
				return &action{After: func() {
					once.Do(func() {
						time.Sleep(150 * time.Millisecond) // the answer has left
						srv.Kill()
						close(gone)
					})
				}}
			})
			d.asked = time.Now()
			d.resp = srv.Do("POST", "/transactions", M{"reference": d.ref, "description": "due later", "currency": "USD", "precision": 100, "precise_amount": d.amt, "source": bs[k], "destination": bs[k+1], "inflight": d.held, "scheduled_for": text(rng, d.sched)})
			d.answered = time.Now()
			d.id = d.resp.S("transaction_id")
			select {
			case <-gone:
				c.Add("servers killed between recording and queueing", 1)
			case <-time.After(10 * time.Second):
				c.Broken("lost: the kill was not reached")
				return
			}
			w.R.Eng.SetHook(nil)
			w.S = w.S[1:]
			if d.resp.OK() {
				jobs = append(jobs, d)
			}
			if len(w.S) == 0 {
				p, err := w.R.Start("start", nil)
				if err != nil {
					c.Broken("%v", err)
					return
				}
				w.S = append(w.S, p)
			}
		}
		// not before they are due, however often recovery looks
		w.R.Eng.Do(true, "UPDATE blnk.transactions SET created_at = created_at - interval '5 hours' WHERE status IN ('QUEUED', 'SCHEDULED')")
		w.S[0].Do("POST", "/transactions/recover?threshold=2m", nil)
	}
	sleepTill := func(t time.Time) { time.Sleep(time.Until(t)) }
	switch tag {
	case "restarted":
		w.R.Eng.SetHook(nil)
		rig.Eventually(time.Until(base.Add(-300*time.Millisecond)), func() bool { p, a, _, _, _ := w.R.Queues(); return p+a == 0 && w.R.Eng.Idle() })
		for _, p := range append(append([]*rig.Proc{}, w.S...), w.W...) {
			p.Kill()
		}
		w.S = nil
		c.Add("processes killed before the due times", 4)
		sleepTill(last.Add(time.Second))
		w.R.ReclaimOrphans()
		if !restart(1) {
			return
		}
	case "killed":
		w.R.Eng.SetHook(nil)
		jitter(w, seed, 3, 25)
		for k := 0; k < 3; k++ {
			sleepTill(base.Add(time.Duration(1000+k*1700+rng.Intn(900)) * time.Millisecond))
			for _, p := range w.W {
				p.Kill()
			}
			c.Add("workers killed at the due times", 2)
			w.R.ReclaimOrphans()
			w.W = nil
			for i := 0; i < 2; i++ {
				p, err := w.R.Start("workers", nil)
				if err != nil {
					c.Broken("%s: %v", tag, err)
					return
				}
				w.W = append(w.W, p)
			}
		}
		w.R.Eng.SetHook(nil)
	case "late":
		sleepTill(last.Add(time.Second))
		if rng.Intn(2) == 0 {
			p38forward(w) // due, and found to be so by workers that did no more than that
		}
		if !restart(0) {
			return
		}
	}
	sleepTill(last.Add(6500 * time.Millisecond)) // due tasks are looked for every five seconds
	rig.Eventually(60*time.Second, func() bool { p, a, _, _, _ := w.R.Queues(); return p+a == 0 && w.R.Eng.Idle() })
	w.R.Eng.SetHook(nil)
	if tag == "up" || tag == "restarted" {
		// nothing was lost or failed: what was due is done without anyone's help
		time.Sleep(300 * time.Millisecond)
		c.Add("due work done unprompted", int64(p38count(w, jobs)))
	}
	for _, d := range jobs { // the second due times of those that have two
		for _, t := range []time.Time{d.expiry, d.commit} {
			if t.After(last) {
				sleepTill(t)
			}
		}
	}
	if err := w.R.Drain(90*time.Second, true); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	if tag == "lost" || tag == "killed" {
		for k := 0; k < 4; k++ {
			w.R.Eng.Do(true, "UPDATE blnk.transactions SET created_at = created_at - interval '5 hours', scheduled_for = scheduled_for - interval '5 hours' WHERE status IN ('QUEUED', 'SCHEDULED')")
			w.S[0].Do("POST", "/transactions/recover?threshold=2m", nil)
		}
		if err := w.R.Drain(60*time.Second, true); err != nil {
			c.Broken("%s: %v", tag, err)
			return
		}
	}
	tmu.Lock()
	defer tmu.Unlock()
	for _, d := range jobs {
		p38judge(c, w, tag, d, at)
	}
	c.Sample(M{"world": tag, "requests": len(jobs), "rows": len(at)})
	crashes(c, w, tag)
}

// p38forward moves the tasks whose time has come to where workers pick them up.
func p38forward(w *rig.World) {
	in := w.R.Inspector()
	qs, _ := in.Queues()
	for _, q := range qs {
		ts, err := in.ListScheduledTasks(q, asynq.PageSize(500))
		if err != nil {
			continue
		}
		for _, t := range ts {
			if !t.NextProcessAt.After(time.Now()) {
				in.RunTask(q, t.ID)
			}
		}
	}
}

// p38rows are the rows that stand for a request's parts, with their effects.
func p38rows(w *rig.World, d *due38) (eff, rej []*rig.Row) {
	for _, l := range d.legs {
		for _, s := range []string{"", "_q"} {
			for _, t := range w.R.Audit.ByRef(l + s) {
				switch t.Status {
				case "QUEUED", "SCHEDULED":
				case "REJECTED":
					rej = append(rej, t)
				default:
					eff = append(eff, t)
				}
			}
		}
	}
	return
}

func p38holds(w *rig.World, d *due38) []*rig.Row { e, _ := p38rows(w, d); return e }

func p38count(w *rig.World, jobs []*due38) (n int) {
	for _, d := range jobs {
		for _, t := range p38holds(w, d) {
			n++
			for _, k := range w.R.Audit.Children(t.ID) {
				if k.Effect == "void" || k.Effect == "commit" {
					n++
				}
			}
		}
	}
	return
}

func p38judge(c *rig.Check, w *rig.World, tag string, d *due38, at map[string]time.Time) {
	var log []string
	say := func(t *rig.Row) {
		log = append(log, fmt.Sprintf("%s %s %s %s by %s", at[t.ID].UTC().Format("15:04:05.000"), t.Ref, t.Status, t.Amt, t.App))
	}
	stamp := func(t time.Time) string {
		if t.IsZero() {
			return "-"
		}
		return t.UTC().Format("15:04:05.000")
	}
	head := func() string {
		sort.Strings(log)
		return fmt.Sprintf("[%s] %s %s of %s (%s; scheduled %s, expires %s, commits %s; asked %s, answered %s at %s; settled before: %s): ", tag, d.kind, d.ref, d.amt, d.path, stamp(d.sched), stamp(d.expiry), stamp(d.commit), stamp(d.asked), cut(d.resp.String(), 120), stamp(d.answered), d.prior)
	}
	eff, rej := p38rows(w, d)
	for _, t := range append(append([]*rig.Row{}, eff...), rej...) {
		say(t)
		for _, k := range w.R.Audit.Children(t.ID) {
			say(k)
		}
	}
	kind := strings.ReplaceAll(d.kind, ", split", "")
	where := d.kind + "/" + d.path
	if !d.resp.OK() {
		if len(eff) > 0 && d.resp.Err == nil && d.resp.Code < 500 {
			c.Violate("refused "+where, head()+"was refused and has an effect", log)
		}
		c.Case(tag+"/"+where+"/refused", true)
		return
	}
	if strings.HasPrefix(d.kind, "scheduled") {
		for _, t := range append(append([]*rig.Row{}, eff...), rej...) {
			if x, ok := at[t.ID]; ok && x.Before(d.sched) {
				c.Violate("scheduled early "+where, head()+fmt.Sprintf("%s is recorded %s before it is due", t.Status, d.sched.Sub(x)), log)
			}
		}
	}
	want := d.parts
	if d.refuse {
		if len(eff) != 0 || len(rej) != 1 {
			c.Violate("scheduled outcome "+where, head()+fmt.Sprintf("%d effects and %d rejections", len(eff), len(rej)), log)
		}
		c.Case(tag+"/"+where+"/rejected", true)
		return
	}
	if len(eff) != want || len(rej) != 0 {
		c.Violate("scheduled outcome "+where, head()+fmt.Sprintf("%d effects and %d rejections instead of %d effects", len(eff), len(rej), want), log)
		return
	}
	sum := new(big.Int)
	for _, t := range eff {
		sum.Add(sum, t.Amt)
		if wantEff := map[bool]string{true: "hold", false: "post"}[d.held]; t.Effect != wantEff {
			c.Violate("effect "+where, head()+"has the effect "+t.Effect, log)
		}
	}
	if sum.Cmp(d.amt) != 0 {
		c.Violate("amount "+where, head()+"moves "+sum.String(), log)
	}
	if !d.held || (d.expiry.IsZero() && d.commit.IsZero()) {
		c.Case(tag+"/"+where+"/done", true)
		return
	}
	// settlements: the caller's, then what was left when due
	first, how := d.expiry, "void"
	if d.expiry.IsZero() || (!d.commit.IsZero() && d.commit.Before(d.expiry)) {
		first, how = d.commit, "commit"
	}
	for _, t := range eff {
		left := new(big.Int).Set(t.Amt)
		var auto []*rig.Row
		for _, k := range w.R.Audit.Children(t.ID) {
			if k.Effect != "void" && k.Effect != "commit" {
				continue
			}
			left.Sub(left, k.Amt)
			if x := at[k.ID]; d.acted != nil && !x.Before(d.actFrom) && !x.After(d.actTo) && (d.acted.S("transaction_id") == k.ID || d.actAmt != nil && k.Amt.Cmp(d.actAmt) == 0) {
				continue
			}
			auto = append(auto, k)
			x := at[k.ID]
			if x.Before(first) {
				c.Violate("settled early "+where, head()+fmt.Sprintf("a %s of %s is recorded %s before it is due", k.Effect, k.Amt, first.Sub(x)), log)
			}
			// the later of two due times can be the one that is served when both have passed
			if k.Effect != how && (d.expiry.IsZero() || d.commit.IsZero() || x.Before(d.expiry) || x.Before(d.commit)) {
				c.Violate("settled otherwise "+where, head()+"is settled by a "+k.Effect, log)
			}
		}
		switch {
		case left.Sign() > 0:
			c.Violate("not settled "+where, head()+fmt.Sprintf("%s of %s is still held", left, t.Amt), log)
		case left.Sign() < 0:
			c.Violate("settled twice "+where, head()+fmt.Sprintf("%s more than the hold is settled", new(big.Int).Neg(left)), log)
		case len(auto) > 1:
			c.Violate("settled twice "+where, head()+fmt.Sprintf("%d settlements when due", len(auto)), log)
		}
		c.Case(fmt.Sprintf("%s/%s/%s/%d due", tag, where, d.prior, len(auto)), true)
	}
	_ = kind
}
