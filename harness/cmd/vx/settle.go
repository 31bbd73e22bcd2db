package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/hibiken/asynq"
)

func init() {
	checks["P07"] = p07
	checks["P08"] = p08
	checks["P09"] = p09
}

// four totals of a balance: credit, debit, inflight credit, inflight debit.
type four [4]*big.Int

type book map[string]*four

func (b book) at(id string) *four {
	if b[id] == nil {
		b[id] = &four{new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
	}
	return b[id]
}

func (b book) move(src, dst string, amt *big.Int) {
	b.at(src)[1].Add(b.at(src)[1], amt)
	b.at(dst)[0].Add(b.at(dst)[0], amt)
}

func (b book) hold(src, dst string, amt *big.Int) {
	b.at(src)[3].Add(b.at(src)[3], amt)
	b.at(dst)[2].Add(b.at(dst)[2], amt)
}

func (b book) release(src, dst string, amt *big.Int) {
	b.at(src)[3].Sub(b.at(src)[3], amt)
	b.at(dst)[2].Sub(b.at(dst)[2], amt)
}

// diff compares the book with what the database stores.
func (b book) diff(w *rig.World) string {
	var out []string
	for id, f := range b {
		c, d, ic, ind := w.R.Audit.Stored(id)
		got := four{c, d, ic, ind}
		for i, n := range []string{"credit", "debit", "inflight credit", "inflight debit"} {
			if got[i].Cmp(f[i]) != 0 {
				out = append(out, fmt.Sprintf("%s %s is %s, should be %s", id, n, got[i], f[i]))
			}
		}
	}
	return strings.Join(out, "; ")
}

func (b book) load(w *rig.World, ids ...string) {
	for _, id := range ids {
		c, d, ic, ind := w.R.Audit.Stored(id)
		b[id] = &four{c, d, ic, ind}
	}
}

type hleg struct {
	src, dst  string
	amt, done *big.Int
	void      bool
}

func (l *hleg) left() *big.Int {
	if l.void {
		return new(big.Int)
	}
	return new(big.Int).Sub(l.amt, l.done)
}

type hold7 struct {
	kind string
	id   string
	prec int64
	legs []*hleg
	ops  int
}

func p07(c *rig.Check) {
	c.Rule = "sequential phases: every commit, partial commit and void of a hold (single, split, bulk and queued holds, several precisions and sizes) is compared with an exact model of what remains, including one unit over and after the end, and the four totals of every balance with the model; pausing phase: one settlement is stopped after each of its statements in turn while another one runs to its end; racing phases: commits and voids of the same hold race over two processes with queued ones, and per hold the settled amounts are compared with the held one at every commit; distinct_nontrivial counts (hold kind, step, action, amount kind, path, outcome) kinds"
	all(
		func() { p07seq(c, "sequential", nil, c.Seed) },
		func() { p07seq(c, "small-batches", rig.Cfg{"transaction": M{"batch_size": 2}}, c.Seed+1) },
		func() { p07race(c, "race", nil, c.Seed+2, false) },
		func() {
			p07race(c, "race-faults", rig.Cfg{"transaction": M{"lock_wait_timeout": 2}}, c.Seed+3, true)
		},
		func() { p07pause(c) },
	)
}

func p07seq(c *rig.Check, tag string, cfg rig.Cfg, seed int64) {
	w := boot(c, tag, cfg, 1, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	if err := w.AddBalances("USD", 5, 0); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	for _, b := range bs {
		w.FundBal(b, "USD", big2("1000000000000000000000000000000000000000"))
	}
	bk := book{}
	bk.load(w, bs...)
	check := func(what string) bool {
		if d := bk.diff(w); d != "" {
			c.Violate("totals", fmt.Sprintf("[%s] after %s: %s", tag, what, d), nil)
			bk.load(w, bs...)
			return false
		}
		return true
	}
	randAmt := func() *big.Int {
		switch rng.Intn(5) {
		case 0:
			return big.NewInt(1 + rng.Int63n(3))
		case 1:
			return big.NewInt(1 + rng.Int63n(1<<53))
		case 2:
			return new(big.Int).Add(big2("9223372036854775807"), big.NewInt(rng.Int63n(9)))
		case 3:
			return new(big.Int).Add(big2("123456789012345678901234567890"), big.NewInt(rng.Int63n(1000)))
		}
		return big.NewInt(100 + rng.Int63n(1000000))
	}
	var holds []*hold7
	mk := func() *hold7 {
		s := bs[rng.Intn(5)]
		d := bs[rng.Intn(5)]
		for d == s {
			d = bs[rng.Intn(5)]
		}
		h := &hold7{prec: []int64{1, 100, 100, 1000, 1000000, 100000000}[rng.Intn(6)]}
		base := M{"currency": "USD", "precision": h.prec, "description": "h", "inflight": true}
		switch k := rng.Intn(8); {
		case k < 4: // plain
			h.kind = "plain"
			a := randAmt()
			b := merge1(base, M{"reference": rig.Ref("h"), "source": s, "destination": d, "precise_amount": a, "skip_queue": true})
			r := w.S[0].Do("POST", "/transactions", b)
			if !r.OK() || r.S("status") != "INFLIGHT" {
				c.Broken("[%s] hold refused: %s", tag, r)
				return nil
			}
			h.id, h.legs = r.S("transaction_id"), []*hleg{{s, d, a, new(big.Int), false}}
		case k == 4: // queued
			h.kind = "queued"
			a := randAmt()
			b := merge1(base, M{"reference": rig.Ref("h"), "source": s, "destination": d, "precise_amount": a})
			r := w.S[0].Do("POST", "/transactions", b)
			if !r.OK() {
				c.Broken("[%s] queued hold refused: %s", tag, r)
				return nil
			}
			h.id, h.legs = r.S("transaction_id"), []*hleg{{s, d, a, new(big.Int), false}}
			w.R.Drain(30*time.Second, false)
			if rng.Intn(2) == 0 { // settle by the hold's own id
				if ch := w.R.Audit.Children(h.id); len(ch) == 1 {
					h.id, h.kind = ch[0].ID, "queued-child"
				}
			}
		case k < 7: // split over two destinations
			h.kind = "split"
			h.prec = 100
			ref := rig.Ref("h")
			d2 := bs[rng.Intn(5)]
			for d2 == s || d2 == d {
				d2 = bs[rng.Intn(5)]
			}
			a := big.NewInt(10 + rng.Int63n(100000))
			b := merge1(base, M{"precision": 100, "reference": ref, "source": s, "precise_amount": a, "skip_queue": true,
				"destinations": []M{{"identifier": d, "distribution": "50%"}, {"identifier": d2, "distribution": "left"}}})
			r := w.S[0].Do("POST", "/transactions", b)
			if !r.OK() {
				c.Broken("[%s] split hold refused: %s", tag, r)
				return nil
			}
			h.id = r.S("transaction_id")
			for _, k := range w.R.Audit.Children(h.id) {
				h.legs = append(h.legs, &hleg{k.Src, k.Dst, k.Amt, new(big.Int), false})
			}
			if len(h.legs) != 2 {
				c.Violate("split-legs", fmt.Sprintf("[%s] the split hold %s has %d legs", tag, h.id, len(h.legs)), nil)
				return nil
			}
		default: // bulk
			h.kind = "bulk"
			h.prec = 100
			var txs []M
			for i := 0; i < 2+rng.Intn(3); i++ {
				x, y := bs[rng.Intn(5)], bs[rng.Intn(5)]
				for y == x {
					y = bs[rng.Intn(5)]
				}
				a := randAmt()
				txs = append(txs, M{"currency": "USD", "precision": 100, "description": "h", "reference": rig.Ref("h"), "source": x, "destination": y, "precise_amount": a})
				h.legs = append(h.legs, &hleg{x, y, a, new(big.Int), false})
			}
			r := w.S[0].Do("POST", "/transactions/bulk", M{"transactions": txs, "inflight": true, "atomic": rng.Intn(2) == 0, "skip_queue": true})
			if !r.OK() {
				c.Broken("[%s] bulk hold refused: %s", tag, r)
				return nil
			}
			h.id = r.S("batch_id")
		}
		for _, l := range h.legs {
			bk.hold(l.src, l.dst, l.amt)
		}
		check("placing a " + h.kind + " hold")
		return h
	}
	n := c.Pick(150, 3000)
	for i := 0; i < n; i++ {
		var h *hold7
		if len(holds) == 0 || rng.Intn(4) == 0 {
			if h = mk(); h == nil {
				return
			}
			holds = append(holds, h)
			if len(holds) > 12 {
				holds = holds[1:]
			}
			continue
		}
		h = holds[rng.Intn(len(holds))]
		h.ops++
		left, tot := new(big.Int), new(big.Int)
		anyLeft := false
		for _, l := range h.legs {
			left.Add(left, l.left())
			tot.Add(tot, l.amt)
			if l.left().Sign() > 0 {
				anyLeft = true
			}
		}
		action, body, amtKind := "commit", M{"status": "commit"}, "all"
		var amt *big.Int // nil: everything
		if rng.Intn(4) == 0 {
			action, body = "void", M{"status": "void"}
		} else if len(h.legs) == 1 && rng.Intn(4) > 0 {
			switch rng.Intn(6) {
			case 0:
				amt, amtKind = new(big.Int).Add(left, big.NewInt(1)), "over"
			case 1:
				amt, amtKind = new(big.Int).Set(tot), "whole"
			case 2:
				amt, amtKind = new(big.Int).Set(left), "exact"
			default:
				amt, amtKind = new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(rng, new(big.Int).Add(new(big.Int).Rsh(left, 1), big.NewInt(1)))), "part"
			}
			if amt.Sign() == 0 {
				amt, amtKind = big.NewInt(1), "over"
			}
			if amt.BitLen() < 50 && rng.Intn(2) == 0 {
				f, _ := new(big.Rat).SetFrac(amt, big.NewInt(h.prec)).Float64()
				body["amount"] = f
				amtKind += "-decimal"
			} else {
				body["precise_amount"] = amt
			}
		}
		sync := rng.Intn(4) > 0
		if sync {
			body["skip_queue"] = true
		}
		if rng.Intn(12) == 0 && len(h.legs) == 1 && anyLeft { // hostile amounts change nothing
			for _, x := range []M{{"precise_amount": -1}, {"precise_amount": 0}, {"amount": -0.01}, {"amount": -5}} {
				r := w.S[0].Do("PUT", "/transactions/inflight/"+h.id, merge1(M{"status": "commit", "skip_queue": sync}, x))
				if r.OK() {
					c.Violate("hostile", fmt.Sprintf("[%s] a commit with %v answered %s", tag, x, r), nil)
				}
			}
			w.R.Drain(30*time.Second, false)
			check("commits with a non-positive amount")
		}
		r := w.S[0].Do("PUT", "/transactions/inflight/"+h.id, body)
		if !sync {
			if err := w.R.Drain(30*time.Second, false); err != nil {
				c.Broken("%s: %v", tag, err)
				return
			}
		}
		want := anyLeft
		if amt != nil && amt.Cmp(left) > 0 {
			want = false
		}
		what := fmt.Sprintf("[%s] %s of %v (%s, sync %v) on a %s hold of %s with %s left (step %d)", tag, action, amt, amtKind, sync, h.kind, tot, left, h.ops)
		c.Case(fmt.Sprintf("%s/%s/%s/sync%v/step%d/want%v", h.kind, action, amtKind, sync, min(h.ops, 3), want), true)
		if r.Err != nil {
			c.Broken("%s: %v", what, r.Err)
			return
		}
		if r.OK() != want {
			if want {
				c.Violate("refused", what+" was refused: "+r.String(), nil)
			} else {
				c.Violate("allowed", what+" was accepted: "+r.String(), nil)
			}
		}
		if !want && !r.OK() && (r.Code < 400 || r.Code >= 500) {
			c.Violate("answer", what+" answered "+r.String(), nil)
		}
		if want {
			for _, l := range h.legs {
				x := l.left()
				if x.Sign() == 0 {
					continue
				}
				if action == "commit" {
					if amt != nil {
						x = amt
					}
					bk.move(l.src, l.dst, x)
					l.done = new(big.Int).Add(l.done, x)
				} else {
					l.void = true
				}
				bk.release(l.src, l.dst, x)
			}
			if r.OK() && sync && len(h.legs) == 1 {
				x := amt
				if x == nil {
					x = left
				}
				if num(r.J["precise_amount"]).Cmp(x) != 0 {
					c.Violate("reported", what+fmt.Sprintf(": the answer reports %v", r.J["precise_amount"]), nil)
				}
			}
		}
		check(what)
	}
	w.R.Audit.Settle(tag, "inflight", "fold", "doubleentry")
	crashes(c, w, tag)
}

func merge1(a, b M) M {
	o := M{}
	for k, v := range a {
		o[k] = v
	}
	for k, v := range b {
		o[k] = v
	}
	return o
}

// holdAcct compares what happened to a hold with what was acknowledged.
type action7 struct {
	void bool
	amt  *big.Int
	sync bool
	r    *rig.Resp
}

func p07race(c *rig.Check, tag string, cfg rig.Cfg, seed int64, faults bool) {
	w := boot(c, tag, cfg, 2, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	if err := w.AddBalances("USD", 4, 100000000); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	start := w.R.Audit.Snapshot()
	_ = start
	type hs struct {
		id  string
		amt *big.Int
		as  []*action7
	}
	var hh []*hs
	var mu sync.Mutex
	rounds := c.Pick(40, 700)
	if faults {
		var n int64
		frng := rand.New(rand.NewSource(seed + 7))
		w.R.Eng.SetHook(func(i *stmt) *action {
			mu.Lock()
			defer mu.Unlock()
			n++
			switch frng.Intn(60) {
			case 0:
				return &action{Err: pgErr("57014", "canceling statement due to user request")}
			case 1:
				return &action{Cut: "before"}
			case 2:
				return &action{Cut: "after"}
			case 3, 4, 5, 6:
				return &action{Delay: time.Duration(frng.Intn(12)) * time.Millisecond}
			}
			return nil
		})
		w.Faulty = true
	} else {
		jitter(w, seed, 8, 8)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for k := 0; k < rounds; k++ {
		s := bs[rng.Intn(4)]
		d := bs[(rng.Intn(3)+1+indexOf(bs, s))%4]
		s1 := rng.Int63()
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			rr := rand.New(rand.NewSource(s1))
			h := &hs{amt: big.NewInt(2 + rr.Int63n(500))}
			ref := rig.Ref("rh")
			for try := 0; try < 12 && h.id == ""; try++ {
				r := w.S[rr.Intn(2)].Do("POST", "/transactions", M{"currency": "USD", "precision": 100, "description": "h", "reference": ref, "source": s, "destination": d, "precise_amount": h.amt, "inflight": true, "skip_queue": true})
				if r.OK() {
					h.id = r.S("transaction_id")
				} else if rows := w.R.Audit.ByRef(ref); len(rows) == 1 {
					h.id = rows[0].ID
				}
			}
			if h.id == "" {
				return
			}
			n := 2 + rr.Intn(5)
			var in sync.WaitGroup
			for i := 0; i < n; i++ {
				a := &action7{void: rr.Intn(3) == 0, sync: rr.Intn(4) > 0}
				if !a.void && rr.Intn(3) > 0 {
					a.amt = big.NewInt(1 + rr.Int63n(h.amt.Int64()))
				}
				b := M{"status": "commit"}
				if a.void {
					b["status"] = "void"
				}
				if a.amt != nil {
					b["precise_amount"] = a.amt
				}
				if a.sync {
					b["skip_queue"] = true
				}
				srv := w.S[rr.Intn(2)]
				h.as = append(h.as, a)
				in.Add(1)
				go func() { defer in.Done(); a.r = srv.Do("PUT", "/transactions/inflight/"+h.id, b) }()
			}
			in.Wait()
			mu.Lock()
			hh = append(hh, h)
			mu.Unlock()
		}()
	}
	wg.Wait()
	w.R.Eng.SetHook(nil)
	if err := w.R.Drain(90*time.Second, false); err != nil {
		c.Broken("%s: %v", tag, err)
	}
	for _, h := range hh {
		kids := w.R.Audit.Children(h.id)
		done, voids := new(big.Int), 0
		released := new(big.Int)
		byAmt := map[string]int{}
		for _, k := range kids {
			switch k.Status {
			case "APPLIED":
				done.Add(done, k.Amt)
				byAmt[k.Amt.String()]++
			case "VOID":
				voids++
				released.Add(released, k.Amt)
			}
		}
		d := fmt.Sprintf("[%s] hold %s of %s: committed %s in %d parts, voided %d times (%s)", tag, h.id, h.amt, done, len(byAmt), voids, released)
		if new(big.Int).Add(done, released).Cmp(h.amt) > 0 {
			c.Violate("over", d, nil)
		}
		if voids > 1 || (voids == 1 && new(big.Int).Add(done, released).Cmp(h.amt) != 0) {
			c.Violate("void", d, nil)
		}
		need := map[string]int{}
		okSync, oks := 0, 0
		for _, a := range h.as {
			if a.r.OK() {
				oks++
				if a.sync {
					okSync++
					if a.void {
						need["void"]++
					} else if a.amt != nil {
						need[a.amt.String()]++
					}
				}
			}
		}
		for k, n := range need {
			have := byAmt[k]
			if k == "void" {
				have = voids
			}
			if have < n {
				c.Violate("acknowledged", fmt.Sprintf("%s, but %d synchronous actions (%s) were acknowledged", d, n, k), nil)
			}
		}
		if okSync > len(kids) {
			c.Violate("acknowledged", fmt.Sprintf("%s, but %d synchronous actions were acknowledged", d, okSync), nil)
		}
		c.Case(fmt.Sprintf("%s/%d-actions/%d-ok/%d-parts/void%d", tag, len(h.as), oks, min(len(byAmt), 3), voids), len(h.as) > 1)
		c.State("settlements", fmt.Sprint(done.Cmp(h.amt), voids, len(kids)))
		// settle what is left, twice: the second must be refused
		left := new(big.Int).Sub(new(big.Int).Sub(h.amt, done), released)
		r := w.S[0].Do("PUT", "/transactions/inflight/"+h.id, M{"status": "void", "skip_queue": true})
		if r.OK() != (left.Sign() > 0) {
			c.Violate("end", fmt.Sprintf("%s: a final void answered %s", d, r), nil)
		}
		for _, st := range []string{"commit", "void"} {
			if r := w.S[1].Do("PUT", "/transactions/inflight/"+h.id, M{"status": st, "skip_queue": true}); r.OK() {
				c.Violate("end", fmt.Sprintf("%s: a %s after everything was settled answered %s", d, st, r), nil)
			}
		}
	}
	for _, b := range bs {
		_, _, ic, ind := w.R.Audit.Stored(b)
		if ic.Sign() != 0 || ind.Sign() != 0 {
			c.Violate("pending", fmt.Sprintf("[%s] every hold is settled but %s has pending credit %s and pending debit %s", tag, b, ic, ind), nil)
		}
	}
	c.Add("holds_raced", int64(len(hh)))
	if len(hh) == 0 {
		c.Broken("no holds were placed")
	}
	w.R.Audit.Settle(tag, "inflight", "fold", "doubleentry")
	crashes(c, w, tag)
}

func indexOf(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}
	return 0
}

// dupTasks re-delivers tasks of the given queues: copies under new identifiers, as an at-least-once queue may.
func dupTasks(w *rig.World, match func(q string) bool) int {
	cl := asynq.NewClient(asynq.RedisClientOpt{Addr: w.R.MR.Addr()})
	defer cl.Close()
	n := 0
	qs, _ := w.R.Inspector().Queues()
	for _, q := range qs {
		if !match(q) {
			continue
		}
		var ts []*asynq.TaskInfo
		for _, f := range []func(string, ...asynq.ListOption) ([]*asynq.TaskInfo, error){w.R.Inspector().ListPendingTasks, w.R.Inspector().ListRetryTasks, w.R.Inspector().ListActiveTasks} {
			l, err := f(q, asynq.PageSize(200))
			if err == nil {
				ts = append(ts, l...)
			}
		}
		for _, t := range ts {
			if strings.HasPrefix(t.ID, "dup") {
				continue
			}
			if _, err := cl.Enqueue(asynq.NewTask(t.Type, t.Payload), asynq.Queue(q), asynq.TaskID(rig.Ref("dup"))); err == nil {
				n++
			}
		}
	}
	return n
}

// p08: queued inflight actions take effect exactly once.
func p08(c *rig.Check) {
	c.Rule = "holds are settled through the queue, singly and in bulk, with duplicate requests, re-delivered tasks, failing statements, cut connections and killed workers; after the queues drained every accepted action has exactly one effect of its amount and no refused one has any; distinct_nontrivial counts (action, amount kind, endpoint, disturbance, number of duplicates, outcome) kinds"
	all(
		func() { p08run(c, "duplicates", nil, c.Seed+80, false, false) },
		func() { p08run(c, "db-faults", nil, c.Seed+81, true, false) },
		func() { p08run(c, "worker-kills", nil, c.Seed+82, false, true) },
	)
}

func p08run(c *rig.Check, tag string, cfg rig.Cfg, seed int64, faults, kills bool) {
	w := boot(c, tag, cfg, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	if err := w.AddBalances("USD", 4, 100000000); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	type act struct {
		void bool
		amt  *big.Int
		r    *rig.Resp
		ok   bool
		how  string
	}
	type hs struct {
		id   string
		legs []*rig.Row
		acts []*act
		kind string
	}
	for round := 0; round < c.Pick(3, 30); round++ {
		var hh []*hs
		for i := 0; i < c.Pick(24, 40); i++ {
			s := bs[rng.Intn(4)]
			d := bs[(rng.Intn(3)+1+indexOf(bs, s))%4]
			h := &hs{kind: "plain"}
			b := M{"currency": "USD", "precision": 100, "description": "h", "reference": rig.Ref("qh"), "source": s, "precise_amount": 2 + rng.Int63n(500), "inflight": true, "skip_queue": true}
			if rng.Intn(4) == 0 {
				h.kind = "split"
				b["destinations"] = []M{{"identifier": d, "distribution": "40%"}, {"identifier": "@fees", "distribution": "left"}}
			} else {
				b["destination"] = d
			}
			r := w.S[0].Do("POST", "/transactions", b)
			if !r.OK() {
				c.Broken("[%s] hold refused: %s", tag, r)
				return
			}
			h.id = r.S("transaction_id")
			if h.kind == "split" {
				h.legs = w.R.Audit.Children(h.id)
			} else {
				h.legs = []*rig.Row{w.R.Audit.Txn(h.id)}
			}
			hh = append(hh, h)
		}
		// accepted while no worker runs: a second action on the same hold has to be refused
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		bulk := map[bool][]*hs{}
		for _, h := range hh {
			if rng.Intn(3) == 0 {
				v := rng.Intn(2) == 0
				bulk[v] = append(bulk[v], h)
				continue
			}
			n := 1 + rng.Intn(4)
			for k := 0; k < n; k++ {
				a := &act{void: rng.Intn(3) == 0, how: "single"}
				if !a.void && h.kind == "plain" && rng.Intn(2) == 0 {
					a.amt = big.NewInt(1 + rng.Int63n(h.legs[0].Amt.Int64()))
				}
				h.acts = append(h.acts, a)
				b := M{"status": "commit"}
				if a.void {
					b["status"] = "void"
				}
				if a.amt != nil {
					if rng.Intn(2) == 0 {
						b["amount"] = float64(a.amt.Int64()) / 100
					} else {
						b["precise_amount"] = a.amt
					}
				}
				srv := w.S[k%2]
				wg.Add(1)
				sem <- true
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					a.r = srv.Do("PUT", "/transactions/inflight/"+h.id, b)
					a.ok = a.r.OK()
				}()
			}
		}
		wg.Wait()
		for void, hl := range bulk {
			var items []M
			var ids []string
			var as []*act
			for _, h := range hl {
				if len(h.acts) > 0 {
					continue
				}
				a := &act{void: void, how: "bulk"}
				it := M{"transaction_id": h.id}
				if !void && h.kind == "plain" && rng.Intn(2) == 0 {
					a.amt = big.NewInt(1 + rng.Int63n(h.legs[0].Amt.Int64()))
					it["precise_amount"] = a.amt
				}
				h.acts = append(h.acts, a)
				items, ids, as = append(items, it), append(ids, h.id), append(as, a)
			}
			if len(items) == 0 {
				continue
			}
			for k := 0; k < 2; k++ { // the whole batch twice
				var r *rig.Resp
				if void {
					r = w.S[k].Do("POST", "/transactions/inflight/bulk/void", M{"transaction_ids": ids})
				} else {
					r = w.S[k].Do("POST", "/transactions/inflight/bulk/commit", M{"transactions": items})
				}
				if k == 0 {
					ok := okItems(r)
					for i, a := range as {
						a.r, a.ok = r, ok[ids[i]]
						if !a.ok {
							c.Violate("bulk-refused", fmt.Sprintf("[%s] bulk void=%v of a held transaction was refused: %s", tag, void, r), nil)
						}
					}
				} else if ok := okItems(r); len(ok) > 0 {
					for id := range ok {
						if ok[id] {
							c.Violate("second-accepted", fmt.Sprintf("[%s] a second bulk action on %s was accepted while one is queued: %s", tag, id, r), nil)
							break
						}
					}
				}
			}
		}
		for _, h := range hh {
			oks := 0
			for _, a := range h.acts {
				if a.ok {
					oks++
				}
			}
			if oks != 1 && len(h.acts) > 0 {
				k := "second-accepted"
				if oks == 0 {
					k = "none-accepted"
				}
				var rs []string
				for _, a := range h.acts {
					rs = append(rs, a.r.String())
				}
				c.Violate(k, fmt.Sprintf("[%s] %d of %d queued actions on hold %s were accepted while none ran: %v", tag, oks, len(h.acts), h.id, rs), nil)
			}
		}
		dups := 0
		dup := func() {
			n := dupTasks(w, func(q string) bool { return strings.Contains(q, "inflight") })
			dups += n
			c.Add("redelivered", int64(n))
		}
		dup()
		var fmu sync.Mutex
		if faults {
			frng := rand.New(rand.NewSource(seed + int64(round)))
			w.R.Eng.SetHook(func(i *stmt) *action {
				if !strings.HasPrefix(i.App, "workers") {
					return nil
				}
				fmu.Lock()
				defer fmu.Unlock()
				switch frng.Intn(25) {
				case 0:
					c.Add("faults", 1)
					return &action{Err: pgErr("57014", "canceling statement due to user request")}
				case 1:
					c.Add("faults", 1)
					return &action{Cut: "before"}
				case 2:
					c.Add("faults", 1)
					return &action{Cut: "after"}
				}
				return nil
			})
		} else if kills {
			jitter(w, seed+int64(round), 3, 10)
		}
		nw := 2
		var ws []*rig.Proc
		for i := 0; i < nw; i++ {
			p, err := w.R.Start("workers", nil)
			if err != nil {
				if faults { // start-up statements can be hit as well
					continue
				}
				c.Broken("%v", err)
				return
			}
			ws = append(ws, p)
		}
		if kills {
			for k := 0; k < c.Pick(2, 4); k++ {
				time.Sleep(time.Duration(10+rng.Intn(120)) * time.Millisecond)
				ws[k%len(ws)].Kill()
				c.Add("kills", 1)
				p, err := w.R.Start("workers", nil)
				if err != nil {
					c.Broken("%v", err)
					return
				}
				ws[k%len(ws)] = p
			}
		}
		if faults {
			end := time.Now().Add(time.Duration(c.Pick(1200, 2500)) * time.Millisecond)
			for time.Now().Before(end) {
				w.R.RunRetries(false)
				time.Sleep(60 * time.Millisecond)
			}
		}
		w.R.Eng.SetHook(nil)
		if len(ws) == 0 {
			p, err := w.R.Start("workers", nil)
			if err != nil {
				c.Broken("%v", err)
				return
			}
			ws = append(ws, p)
		}
		if kills {
			for _, p := range ws {
				p.Kill()
			}
			c.Add("orphaned_tasks", int64(w.R.ReclaimOrphans()))
			for i := range ws {
				p, err := w.R.Start("workers", nil)
				if err != nil {
					c.Broken("%v", err)
					return
				}
				ws[i] = p
			}
		}
		if err := w.R.Drain(60*time.Second, false); err != nil {
			c.Broken("%s: %v", tag, err)
			return
		}
		for _, h := range hh {
			for _, a := range h.acts {
				if !a.ok {
					continue
				}
				for _, l := range h.legs {
					var ap, vo []*rig.Row
					for _, k := range w.R.Audit.Children(l.ID) {
						switch k.Status {
						case "APPLIED":
							ap = append(ap, k)
						case "VOID":
							vo = append(vo, k)
						}
					}
					want := l.Amt
					if a.amt != nil {
						want = a.amt
					}
					got := fmt.Sprintf("[%s] queued %s (void=%v amount=%v) of hold %s leg %s of %s: %d commits, %d voids", tag, a.how, a.void, a.amt, h.id, l.ID, l.Amt, len(ap), len(vo))
					c.Case(fmt.Sprintf("%s/%s/%s/void%v/part%v/%d-requests/dups%v", tag, h.kind, a.how, a.void, a.amt != nil, len(h.acts), dups > 0), true)
					switch {
					case a.void && (len(ap) != 0 || len(vo) != 1):
						c.Violate("effect", got, nil)
					case !a.void && (len(vo) != 0 || len(ap) != 1):
						c.Violate("effect", got, nil)
					case !a.void && ap[0].Amt.Cmp(want) != 0:
						c.Violate("amount", fmt.Sprintf("%s: committed %s", got, ap[0].Amt), nil)
					case a.void && vo[0].Amt.Cmp(want) != 0:
						c.Violate("amount", fmt.Sprintf("%s: voided %s", got, vo[0].Amt), nil)
					}
				}
			}
		}
		for _, p := range ws {
			p.Stop(5 * time.Second)
		}
	}
	w.R.Audit.Settle(tag, "inflight", "fold", "doubleentry")
	for _, p := range w.R.Procs {
		if i := strings.Index(p.LogText(), "\npanic: "); i >= 0 {
			c.Violate("crash", "["+tag+"] "+p.LogText()[i:min(len(p.LogText()), i+1200)], nil)
		}
	}
}

// okItems reads which items of a bulk settlement were accepted.
func okItems(r *rig.Resp) map[string]bool {
	out := map[string]bool{}
	for _, k := range []string{"succeeded", "results", "successful"} {
		l, _ := r.J[k].([]any)
		for _, x := range l {
			switch v := x.(type) {
			case string:
				out[v] = true
			case map[string]any:
				st := strings.ToLower(fmt.Sprint(v["status"], v["success"]))
				id := fmt.Sprint(v["transaction_id"])
				if v["code"] == "ALREADY_QUEUED" { // an answer about an earlier request
					continue
				}
				out[id] = !strings.Contains(st, "fail") && !strings.Contains(st, "false") && v["error"] == nil
			}
		}
	}
	return out
}

// p09: a refund reverses exactly once.
func p09(c *rig.Check) {
	c.Rule = "every applied transfer (direct, queued, committed hold, overdrawing, split leg, refund itself) is asked to be refunded many times, at once and later, by its own and its queued identifier, synchronously and queued; the money must come back exactly once, and held, queued or rejected transfers must be refused; distinct_nontrivial counts (kind, identifier, path, number of requests, outcome) kinds"
	all(
		func() { p09run(c, "default", nil, c.Seed+90, false) },
		func() { p09run(c, "faults", nil, c.Seed+91, true) },
	)
}

func p09run(c *rig.Check, tag string, cfg rig.Cfg, seed int64, faults bool) {
	w := boot(c, tag, cfg, 2, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	if err := w.AddBalances("USD", 6, 1000000); err != nil {
		c.Broken("%v", err)
		return
	}
	bs := w.Bals["USD"]
	type one struct {
		kind string
		id   string   // identifier used for the refund
		orig *rig.Row // what may be reversed (nil: nothing)
		rs   []*rig.Resp
		sync []bool
	}
	var os []*one
	post := func(m M) *rig.Resp {
		m["currency"], m["precision"], m["description"] = "USD", 100, "r"
		if m["reference"] == nil {
			m["reference"] = rig.Ref("rf")
		}
		return w.S[rng.Intn(2)].Do("POST", "/transactions", m)
	}
	pick := func() (string, string) {
		i, j := rng.Intn(6), rng.Intn(5)
		if j >= i {
			j++
		}
		return bs[i], bs[j]
	}
	for i := 0; i < c.Pick(70, 900); i++ {
		s, d := pick()
		a := big.NewInt(1 + rng.Int63n(3000))
		o := &one{}
		switch rng.Intn(10) {
		case 0, 1, 2:
			o.kind = "direct"
			r := post(M{"source": s, "destination": d, "precise_amount": a, "skip_queue": true})
			o.id = r.S("transaction_id")
			o.orig = w.R.Audit.Txn(o.id)
		case 3, 4:
			o.kind = "queued"
			r := post(M{"source": s, "destination": d, "precise_amount": a})
			o.id = r.S("transaction_id")
		case 5:
			o.kind = "committed"
			r := post(M{"source": s, "destination": d, "precise_amount": a, "inflight": true, "skip_queue": true})
			x := w.S[0].Do("PUT", "/transactions/inflight/"+r.S("transaction_id"), M{"status": "commit", "skip_queue": true, "precise_amount": big.NewInt(1 + rng.Int63n(a.Int64()))})
			o.id = x.S("transaction_id")
			if k := w.R.Audit.Children(r.S("transaction_id")); len(k) == 1 {
				o.orig, o.id = k[0], k[0].ID
			}
		case 6:
			o.kind = "overdrawn"
			r := post(M{"source": "@pool", "destination": d, "precise_amount": a, "allow_overdraft": true, "skip_queue": true})
			o.id = r.S("transaction_id")
			o.orig = w.R.Audit.Txn(o.id)
		case 7:
			o.kind = "held"
			r := post(M{"source": s, "destination": d, "precise_amount": a, "inflight": true, "skip_queue": true})
			o.id = r.S("transaction_id")
		case 8:
			o.kind = "rejected"
			ref := rig.Ref("rj")
			post(M{"source": s, "destination": d, "precise_amount": big2("99999999999999"), "reference": ref})
			o.id = "?" + ref
		case 9:
			o.kind = "unspent" // the destination has spent the money since
			r := post(M{"source": s, "destination": "@spent", "precise_amount": a, "skip_queue": true})
			post(M{"source": "@spent", "destination": bs[0], "precise_amount": a, "skip_queue": true})
			o.id = r.S("transaction_id")
			o.orig = w.R.Audit.Txn(o.id)
		}
		if o.id != "" {
			os = append(os, o)
		}
	}
	if err := w.R.Drain(60*time.Second, false); err != nil {
		c.Broken("%v", err)
	}
	for _, o := range os {
		switch o.kind {
		case "queued":
			if k := w.R.Audit.Children(o.id); len(k) == 1 && k[0].Status == "APPLIED" {
				o.orig = k[0]
				if rng.Intn(2) == 0 {
					o.id, o.kind = k[0].ID, "queued-child"
				}
			}
		case "rejected":
			for _, t := range w.R.Audit.ByRef(o.id[1:] + "_q") {
				o.id = t.ID
			}
		}
	}
	var mu sync.Mutex
	if faults {
		frng := rand.New(rand.NewSource(seed + 7))
		w.R.Eng.SetHook(func(i *stmt) *action {
			mu.Lock()
			defer mu.Unlock()
			switch frng.Intn(50) {
			case 0:
				return &action{Err: pgErr("57014", "canceling statement due to user request")}
			case 1:
				return &action{Cut: "before"}
			case 2:
				return &action{Cut: "after"}
			}
			return nil
		})
	} else {
		jitter(w, seed, 6, 8)
	}
	ask := func(o *one, n int, conc bool, rr *rand.Rand) {
		var in sync.WaitGroup
		for k := 0; k < n; k++ {
			sy := rr.Intn(2) == 0
			b := M{"skip_queue": sy}
			if rr.Intn(3) == 0 {
				b["description"] = "refund"
				b["meta_data"] = M{"why": "test"}
			}
			srv := w.S[rr.Intn(2)]
			in.Add(1)
			f := func() {
				defer in.Done()
				r := srv.Do("POST", "/refund-transaction/"+o.id, b)
				mu.Lock()
				o.rs, o.sync = append(o.rs, r), append(o.sync, sy)
				mu.Unlock()
			}
			if conc {
				go f()
			} else {
				f()
			}
		}
		in.Wait()
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, o := range os {
		s1 := rng.Int63()
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			rr := rand.New(rand.NewSource(s1))
			ask(o, 1+rr.Intn(4), true, rr)
		}()
	}
	wg.Wait()
	w.R.Eng.SetHook(nil)
	if err := w.R.Drain(60*time.Second, false); err != nil {
		c.Broken("%v", err)
	}
	if faults { // a request whose record was kept but whose answer or task was lost is taken up by recovery
		stale(w)
		for i := 0; i < 3; i++ {
			w.S[0].Do("POST", "/transactions/recover?threshold=2m", nil)
		}
		w.R.Drain(60*time.Second, false)
	}
	rejected := func(id string) bool { // the queue gave up on the refund: that is an outcome
		for _, ref := range []string{id + "_refund", id + "_refund_q"} {
			for _, t := range w.R.Audit.ByRef(ref) {
				if t.Status == "REJECTED" {
					return true
				}
			}
		}
		return false
	}
	judge := func(when string) {
		for _, o := range os {
			var back []*rig.Row
			if o.orig != nil {
				back = reversals(w, o.orig)
			} else if t := w.R.Audit.Txn(o.id); t != nil {
				back = reversals(w, t)
			}
			okSync, ok := 0, 0
			for i, r := range o.rs {
				if r.OK() {
					ok++
					if o.sync[i] {
						okSync++
					}
				}
			}
			d := fmt.Sprintf("[%s, %s] %s transfer %s: %d of %d refund requests accepted (%d synchronous), %d reversals", tag, when, o.kind, o.id, ok, len(o.rs), okSync, len(back))
			c.Case(fmt.Sprintf("%s/%s/%d-requests/%d-ok/%d-back", o.kind, when, len(o.rs), ok, len(back)), true)
			if o.orig == nil {
				if len(back) > 0 {
					c.Violate("reversed-nothing", d, nil)
				}
				if ok > 0 {
					c.Violate("accepted", d+": "+o.rs[0].String(), nil)
				}
				continue
			}
			if len(back) > 1 {
				c.Violate("twice", d, nil)
			}
			if ok > 0 && len(back) == 0 && !(faults && rejected(o.orig.ID)) {
				var tr []string
				for _, k := range w.R.Audit.Children(o.orig.ID) {
					tr = append(tr, fmt.Sprint(*k))
					for _, k2 := range w.R.Audit.Children(k.ID) {
						tr = append(tr, fmt.Sprint(*k2))
					}
				}
				c.Violate("lost", d, tr)
			}
			if okSync > 1 && !faults { // queued requests that raced may each be acknowledged; the effect counts
				c.Violate("accepted-twice", d, nil)
			}
			if ok == 0 && !faults && len(o.rs) > 0 {
				c.Violate("refused", d+": "+o.rs[0].String(), nil)
			}
			for _, b := range back {
				if b.Amt.Cmp(o.orig.Amt) != 0 || b.Cur != o.orig.Cur || b.Effect != "post" {
					c.Violate("amount", fmt.Sprintf("%s: the reversal of %s %s is %s %s (%s)", d, o.orig.Amt, o.orig.Cur, b.Amt, b.Cur, b.Effect), nil)
				}
				for _, b2 := range reversals(w, b) {
					c.Violate("refund-of-refund", fmt.Sprintf("%s: asking again reversed the reversal (%s)", d, b2.ID), nil)
				}
			}
		}
	}
	judge("at once")
	if faults { // what failed for the fault may be asked for again
		for _, o := range os {
			if o.orig != nil && len(reversals(w, o.orig)) == 0 {
				o.rs, o.sync = nil, nil
				ask(o, 1, false, rng)
			}
		}
		w.R.Drain(60*time.Second, false)
		judge("asked again after faults")
	}
	// later requests are refused and change nothing
	before := w.R.Audit.Snapshot()
	for _, o := range os {
		n := len(o.rs)
		ask(o, 1+rng.Intn(2), false, rng)
		for _, r := range o.rs[n:] {
			if r.OK() {
				c.Violate("late", fmt.Sprintf("[%s] a later refund request of %s transfer %s was accepted: %s", tag, o.kind, o.id, r), nil)
			} else if r.Code >= 500 {
				c.Violate("late-answer", fmt.Sprintf("[%s] a later refund request of %s transfer %s answered %s", tag, o.kind, o.id, r), nil)
			}
		}
		if o.orig != nil && o.orig.ID != o.id {
			if r := w.S[0].Do("POST", "/refund-transaction/"+o.orig.ID, M{"skip_queue": true}); r.OK() {
				c.Violate("late", fmt.Sprintf("[%s] %s transfer %s was refunded again by its own identifier %s", tag, o.kind, o.id, o.orig.ID), nil)
			}
		}
	}
	w.R.Drain(60*time.Second, false)
	if d := rig.Diff(before, w.R.Audit.Snapshot()); len(d) > 0 {
		c.Violate("late-moved", fmt.Sprintf("[%s] refund requests of refunded or unrefundable transfers changed balances: %v", tag, d), nil)
	}
	w.R.Audit.Settle(tag, "fold", "doubleentry", "inflight")
	crashes(c, w, tag)
}

// reversals lists the recorded postings that move a transaction's money back.
func reversals(w *rig.World, t *rig.Row) []*rig.Row {
	var out []*rig.Row
	seen := map[string]bool{}
	var walk func(id string, depth int)
	walk = func(id string, depth int) {
		for _, k := range w.R.Audit.Children(id) {
			if seen[k.ID] {
				continue
			}
			seen[k.ID] = true
			if k.Src == t.Dst && k.Dst == t.Src {
				if k.Status == "QUEUED" {
					walk(k.ID, depth+1)
					continue
				}
				if k.Effect != "none" {
					out = append(out, k)
				}
			}
		}
	}
	walk(t.ID, 0)
	return out
}

// pauseAt runs a with its i-th statement (on the given process) pausing after it ran, or right before it, until b is done.
// It reports whether the pause was reached.
func pauseAt(w *rig.World, app string, i int64, before bool, a, b func()) bool {
	return pauseSlow(w, app, i, before, 0, a, b)
}

// pauseSlow is pauseAt with a delay in the first statement, so that a worker finds a whole lot waiting.
func pauseSlow(w *rig.World, app string, i int64, before bool, pauseFirst time.Duration, a, b func()) bool {
	var n atomic.Int64
	paused, resume := make(chan bool), make(chan bool)
	wait := func() {
		close(paused)
		select {
		case <-resume:
		case <-time.After(1300 * time.Millisecond):
		}
	}
	w.R.Eng.SetHook(func(s *stmt) *action {
		if s.App != app || s.Kind == "begin" || s.Kind == "other" || strings.Contains(s.Table, "outbox") && !s.InTx {
			return nil
		}
		k := n.Add(1)
		if k == 1 && i > 1 && pauseFirst > 0 {
			return &action{Delay: pauseFirst}
		}
		if k != i {
			return nil
		}
		if before {
			wait()
			return nil
		}
		return &action{After: wait}
	})
	done := make(chan bool)
	go func() { defer close(done); a() }()
	hit := false
	select {
	case <-paused:
		hit = true
	case <-done:
	}
	b()
	close(resume)
	<-done
	w.R.Eng.SetHook(nil)
	return hit
}

// p07pause stops one settlement after its i-th statement, for every i, and lets another settle the same hold meanwhile.
func p07pause(c *rig.Check) {
	w := boot(c, "pause", rig.Cfg{"transaction": M{"lock_wait_timeout": 1}}, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	if err := w.AddBalances("USD", 2, 100000000); err != nil {
		c.Broken("%v", err)
		return
	}
	b := w.Bals["USD"]
	act := func(kind string) M {
		switch kind {
		case "part":
			return M{"status": "commit", "precise_amount": 700, "skip_queue": true}
		case "all":
			return M{"status": "commit", "skip_queue": true}
		}
		return M{"status": "void", "skip_queue": true}
	}
	for _, k := range [][2]string{{"part", "part"}, {"part", "void"}, {"void", "part"}, {"all", "void"}, {"void", "all"}, {"void", "void"}} {
		for i := int64(1); i < 60; i++ {
			hold := func(n int64) string {
				q := &rig.Req{Kind: "hold", Src: b[0], Dst: b[1], Cur: "USD", Amt: big.NewInt(n), Inflight: true, Sync: true}
				w.Post(nil, q)
				return q.ID
			}
			id := hold(1000)
			hold(3000) // the balances hold more than this one
			var ra, rb *rig.Resp
			hit := pauseAt(w, w.S[1].Name, i, false,
				func() { ra = w.S[1].Do("PUT", "/transactions/inflight/"+id, act(k[0])) },
				func() { rb = w.S[0].Do("PUT", "/transactions/inflight/"+id, act(k[1])) })
			if !hit {
				break
			}
			c.Add("pauses", 1)
			c.Case(fmt.Sprintf("pause/%s-%s/%d/%v-%v", k[0], k[1], i, ra.OK(), rb.OK()), true)
			done, rel, voids := new(big.Int), new(big.Int), 0
			for _, t := range w.R.Audit.Children(id) {
				switch t.Status {
				case "APPLIED":
					done.Add(done, t.Amt)
				case "VOID":
					voids++
					rel.Add(rel, t.Amt)
				}
			}
			d := fmt.Sprintf("hold %s of 1000, %s paused after its statement %d (answer %s), %s meanwhile (answer %s): committed %s, voided %d times (%s)", id, k[0], i, ra, k[1], rb, done, voids, rel)
			if new(big.Int).Add(done, rel).Cmp(big.NewInt(1000)) > 0 || voids > 1 {
				c.Violate("over", d, nil)
			}
			n := 0
			for _, r := range []*rig.Resp{ra, rb} {
				if r.OK() {
					n++
				}
			}
			if n != len(w.R.Audit.Children(id)) {
				c.Violate("acknowledged", d, nil)
			}
		}
	}
	w.R.Audit.Settle("pause", "inflight", "fold", "doubleentry")
}
