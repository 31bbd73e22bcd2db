package rig

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"
)

// World drives a mixed workload through the HTTP API and remembers every request.
type World struct {
	Quiet func() // ends what goes on beside the run
	R      *Rig
	S      []*Proc // servers
	W      []*Proc // workers
	Ledger string
	Cur    []string
	Bals   map[string][]string
	Perm   map[string]Perm
	mu     sync.Mutex
	Reqs   []*Req
	Holds  []*Req
	Posts  []*Req
	Faulty bool // faults are injected: a request may fail for reasons the workload does not know
}

// Perm is what a reference was allowed to do.
type Perm struct {
	Allow bool
	Limit *big.Int
}

// Req is one submitted request.
type Req struct {
	Kind     string
	Ref      string
	Src, Dst string
	Cur      string
	Amt      *big.Int
	Inflight bool
	Sync     bool
	Perm     Perm
	Legs     int
	ID       string
	Resp     *Resp
	Fund     bool
	At       time.Time
}

// Boot makes a rig with servers and workers and a world over it.
func Boot(c *Check, cfg Cfg, servers, workers int) (*World, error) {
	r, err := New(c, cfg)
	if err != nil {
		return nil, err
	}
	w := &World{R: r, Bals: map[string][]string{}, Perm: map[string]Perm{}}
	type res struct {
		p   *Proc
		err error
	}
	for i := 0; i < servers; i++ {
		p, err := r.Start("start", nil)
		if err != nil {
			r.Close()
			return nil, err
		}
		w.S = append(w.S, p)
	}
	for i := 0; i < workers; i++ {
		p, err := r.Start("workers", nil)
		if err != nil {
			r.Close()
			return nil, err
		}
		w.W = append(w.W, p)
	}
	if servers > 0 {
		w.Ledger = w.S[0].Ledger("l")
		if w.Ledger == "" {
			r.Close()
			return nil, fmt.Errorf("could not make a ledger")
		}
	}
	r.Audit.Overdraft = func(t *Row) (bool, *big.Int) {
		p, ok := w.permOf(t)
		if !ok {
			return true, nil
		}
		return p.Allow && (p.Limit == nil || p.Limit.Sign() == 0), p.Limit
	}
	return w, nil
}

// BaseRef strips the suffixes the service adds to a caller's reference.
func BaseRef(ref string) string { return strings.TrimSuffix(ref, "_q") }

func (w *World) permOf(t *Row) (Perm, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	p, ok := w.Perm[BaseRef(t.Ref)]
	return p, ok
}

// Permit records what a reference may do to its source.
func (w *World) Permit(ref string, p Perm) {
	w.mu.Lock()
	w.Perm[ref] = p
	w.mu.Unlock()
}

// Srv picks a server.
func (w *World) Srv(rng *rand.Rand) *Proc {
	if rng == nil || len(w.S) == 1 {
		return w.S[0]
	}
	return w.S[rng.Intn(len(w.S))]
}

// AddBalances makes n balances in a currency, each funded with amt from @world (0: none).
func (w *World) AddBalances(cur string, n int, amt int64) error {
	w.Cur = append(w.Cur, cur)
	for i := 0; i < n; i++ {
		b := w.S[0].Balance(w.Ledger, cur)
		if b == "" {
			return fmt.Errorf("could not make a balance")
		}
		w.Bals[cur] = append(w.Bals[cur], b)
		if amt > 0 {
			if err := w.FundBal(b, cur, big.NewInt(amt)); err != nil {
				return err
			}
		}
	}
	return nil
}

// FundBal funds a balance from @world, synchronously.
func (w *World) FundBal(bal, cur string, amt *big.Int) error {
	q := &Req{Kind: "fund", Src: "@world", Dst: bal, Cur: cur, Amt: amt, Sync: true, Perm: Perm{Allow: true}, Fund: true}
	w.Post(nil, q)
	if !q.Resp.OK() {
		return fmt.Errorf("funding failed: %s", q.Resp)
	}
	return nil
}

// Body builds the request body.
func (q *Req) Body() M {
	b := M{"precise_amount": q.Amt, "precision": 100, "currency": q.Cur, "description": "w", "reference": q.Ref, "source": q.Src, "destination": q.Dst}
	if q.Sync {
		b["skip_queue"] = true
	}
	if q.Inflight {
		b["inflight"] = true
	}
	if q.Perm.Allow {
		b["allow_overdraft"] = true
	}
	if q.Perm.Limit != nil && q.Perm.Limit.Sign() > 0 {
		f, _ := new(big.Rat).SetFrac(q.Perm.Limit, big.NewInt(100)).Float64()
		b["overdraft_limit"] = f
	}
	return b
}

// Post submits one transaction.
func (w *World) Post(rng *rand.Rand, q *Req) {
	if q.Ref == "" {
		q.Ref = Ref("t")
	}
	w.Permit(q.Ref, q.Perm)
	q.At = time.Now()
	w.mu.Lock()
	w.Reqs = append(w.Reqs, q)
	w.mu.Unlock()
	q.Resp = w.Srv(rng).Do("POST", "/transactions", q.Body())
	q.ID = q.Resp.S("transaction_id")
	if q.Resp.OK() {
		w.mu.Lock()
		if q.Inflight {
			w.Holds = append(w.Holds, q)
		} else if !q.Fund {
			w.Posts = append(w.Posts, q)
		}
		w.mu.Unlock()
	}
}

// RandReq draws a plain transfer.
func (w *World) RandReq(rng *rand.Rand) *Req {
	cur := w.Cur[rng.Intn(len(w.Cur))]
	bs := w.Bals[cur]
	s := bs[rng.Intn(len(bs))]
	d := bs[rng.Intn(len(bs))]
	for d == s {
		d = bs[rng.Intn(len(bs))]
	}
	q := &Req{Kind: "post", Src: s, Dst: d, Cur: cur, Amt: big.NewInt(1 + rng.Int63n(400))}
	switch rng.Intn(12) {
	case 0:
		q.Src, q.Perm.Allow = "@world", true
	case 1:
		q.Dst = "@fees"
	case 2:
		q.Perm.Allow = true
	case 3:
		q.Perm.Allow, q.Perm.Limit = true, big.NewInt(100+rng.Int63n(400))
	case 4:
		q.Amt = big.NewInt(100000 + rng.Int63n(900000)) // often refused
	}
	return q
}

// Mix weights.
type Mix struct {
	Sync, Queued, HoldSync, HoldQueued, Settle, SettleQueued, Refund, Bulk, Split int
	N, Conc                                                                      int
}

// Run runs the mix.
func (w *World) Run(m Mix, seed int64) {
	var wg sync.WaitGroup
	kinds := []struct {
		n string
		k int
	}{{"sync", m.Sync}, {"queued", m.Queued}, {"holdsync", m.HoldSync}, {"holdqueued", m.HoldQueued}, {"settle", m.Settle}, {"settlequeued", m.SettleQueued}, {"refund", m.Refund}, {"bulk", m.Bulk}, {"split", m.Split}}
	tot := 0
	for _, k := range kinds {
		tot += k.k
	}
	per := m.N / m.Conc
	for g := 0; g < m.Conc; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed*7919 + int64(g)))
			for i := 0; i < per; i++ {
				x := rng.Intn(tot)
				for _, k := range kinds {
					if x < k.k {
						w.one(rng, k.n)
						break
					}
					x -= k.k
				}
			}
		}(g)
	}
	wg.Wait()
}

func (w *World) one(rng *rand.Rand, kind string) {
	w.R.C.Add("op_"+kind, 1)
	switch kind {
	case "sync", "queued", "holdsync", "holdqueued":
		q := w.RandReq(rng)
		q.Kind = kind
		q.Sync = strings.HasSuffix(kind, "sync")
		q.Inflight = strings.HasPrefix(kind, "hold")
		w.Post(rng, q)
	case "settle", "settlequeued":
		w.mu.Lock()
		var h *Req
		if len(w.Holds) > 0 {
			h = w.Holds[rng.Intn(len(w.Holds))]
		}
		w.mu.Unlock()
		if h == nil {
			q := w.RandReq(rng)
			q.Sync, q.Inflight, q.Kind = true, true, "holdsync"
			w.Post(rng, q)
			return
		}
		w.Settle(rng, h, kind == "settle", rng.Intn(3) == 0, rng)
	case "refund":
		w.mu.Lock()
		var h *Req
		if len(w.Posts) > 0 {
			h = w.Posts[rng.Intn(len(w.Posts))]
		}
		w.mu.Unlock()
		if h == nil {
			return
		}
		w.Refund(rng, h.ID, rng.Intn(2) == 0)
	case "bulk":
		w.Bulk(rng, 2+rng.Intn(4), rng.Intn(2) == 0, rng.Intn(3) == 0, rng.Intn(4) != 0)
	case "split":
		w.Split(rng)
	}
}

// Target is the transaction a hold's settlement addresses.
func (w *World) Target(h *Req) string {
	return h.ID
}

// Settle commits (part of) or voids a hold.
func (w *World) Settle(rng *rand.Rand, h *Req, sync, void bool, _ *rand.Rand) *Resp {
	b := M{"status": "commit"}
	if void {
		b["status"] = "void"
	} else if rng != nil && rng.Intn(3) > 0 {
		b["precise_amount"] = new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(rng, h.Amt))
	}
	if sync {
		b["skip_queue"] = true
	}
	return w.Srv(rng).Do("PUT", "/transactions/inflight/"+w.Target(h), b)
}

// Refund asks for a refund.
func (w *World) Refund(rng *rand.Rand, id string, sync bool) *Resp {
	return w.Srv(rng).Do("POST", "/refund-transaction/"+id, M{"skip_queue": sync})
}

// Bulk submits a bulk of n transfers.
func (w *World) Bulk(rng *rand.Rand, n int, atomic, inflight, sync bool) ([]*Req, *Resp) {
	var qs []*Req
	var txs []M
	for i := 0; i < n; i++ {
		q := w.RandReq(rng)
		q.Kind, q.Sync, q.Inflight, q.Ref = "bulk", sync, inflight, Ref("b")
		w.Permit(q.Ref, q.Perm)
		qs = append(qs, q)
		txs = append(txs, q.Body())
	}
	r := w.Srv(rng).Do("POST", "/transactions/bulk", M{"transactions": txs, "atomic": atomic, "inflight": inflight, "skip_queue": sync})
	return qs, r
}

// Split submits a transfer to several destinations.
func (w *World) Split(rng *rand.Rand) (*Req, *Resp) {
	cur := w.Cur[rng.Intn(len(w.Cur))]
	bs := append([]string{}, w.Bals[cur]...)
	rng.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	if len(bs) < 3 {
		return nil, nil
	}
	q := &Req{Kind: "split", Ref: Ref("s"), Src: bs[0], Cur: cur, Amt: big.NewInt(3 + rng.Int63n(300)), Sync: rng.Intn(2) == 0}
	w.Permit(q.Ref, Perm{})
	for i := 0; i <= 3; i++ {
		w.Permit(fmt.Sprintf("%s_%d", q.Ref, i), Perm{})
	}
	b := q.Body()
	delete(b, "destination")
	b["destinations"] = []M{{"identifier": bs[1], "distribution": fmt.Sprintf("%d%%", 1+rng.Intn(98))}, {"identifier": bs[2], "distribution": "left"}}
	r := w.Srv(rng).Do("POST", "/transactions", b)
	return q, r
}

// CheckReqs compares every remembered transfer's response with what was recorded. Call after Drain.
func (w *World) CheckReqs(class string) {
	c := w.R.C
	w.mu.Lock()
	reqs := append([]*Req{}, w.Reqs...)
	w.mu.Unlock()
	for _, q := range reqs {
		w.CheckReq(class, q)
	}
	_ = c
}

// Outcome of a request as recorded: rows that moved or held money and rows that rejected.
func (w *World) Outcome(q *Req) (eff, rej, queued []*Row) {
	for _, ref := range []string{q.Ref, q.Ref + "_q"} {
		for _, t := range w.R.Audit.ByRef(ref) {
			switch t.Status {
			case "QUEUED", "SCHEDULED":
				queued = append(queued, t)
			case "REJECTED":
				rej = append(rej, t)
			default:
				eff = append(eff, t)
			}
		}
	}
	return
}

// CheckReq checks one request.
func (w *World) CheckReq(class string, q *Req) bool {
	c := w.R.C
	eff, rej, _ := w.Outcome(q)
	d := fmt.Sprintf("%s ref=%s %s %s->%s inflight=%v sync=%v allow=%v limit=%v answer=%s", q.Kind, q.Ref, q.Amt, short(q.Src), short(q.Dst), q.Inflight, q.Sync, q.Perm.Allow, q.Perm.Limit, q.Resp)
	bad := func(key, f string, x ...any) bool {
		c.Violate(class+"/"+key, fmt.Sprintf(f, x...)+": "+d, nil)
		return false
	}
	if len(eff) > 1 {
		return bad("twice", "recorded %d effects", len(eff))
	}
	if len(eff) > 0 && len(rej) > 0 {
		return bad("both", "both applied and rejected")
	}
	if len(rej) > 1 {
		return bad("rejected-twice", "rejected %d times", len(rej))
	}
	if len(eff) == 1 {
		t := eff[0]
		want := "APPLIED"
		if q.Inflight {
			want = "INFLIGHT"
		}
		if t.Status != want || t.Amt.Cmp(q.Amt) != 0 || t.Cur != q.Cur || (!strings.HasPrefix(q.Src, "@") && t.Src != q.Src) || (!strings.HasPrefix(q.Dst, "@") && t.Dst != q.Dst) {
			return bad("other", "recorded as %s %s %s %s->%s", t.Status, t.Amt, t.Cur, short(t.Src), short(t.Dst))
		}
	}
	if q.Resp.OK() {
		if q.Sync && len(eff) != 1 {
			return bad("lost", "acknowledged but %d effects recorded", len(eff))
		}
		if !q.Sync && len(eff)+len(rej) != 1 {
			return bad("lost", "acknowledged as queued but has %d effects and %d rejections", len(eff), len(rej))
		}
	} else if q.Resp.Err == nil && q.Sync && !w.Faulty {
		if len(eff) != 0 {
			return bad("refused-but-applied", "refused but recorded")
		}
	}
	return true
}
