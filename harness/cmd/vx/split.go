package main

import (
	"context"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/blnkfinance/blnk/model"
)

func init() {
	checks["P13"] = p13
}

// share13 is one configured share.
type share13 struct {
	id      string
	dist    string
	precise string
	// what it means, worked out exactly
	bad   bool     // cannot be read as a share
	left  bool     // takes what is left
	exact *big.Rat // in smallest units
	fixed bool
}

// split13 is one configuration and what must become of it.
type split13 struct {
	amt    *big.Int
	prec   int64
	shares []share13
	kind   string
	// verdict: "accept", "refuse" or "either"
	verdict, why string
	want         map[string]*big.Rat
	ids          []string
	dup          bool
}

func (s *split13) String() string {
	var b []string
	for _, x := range s.shares {
		b = append(b, fmt.Sprintf("%s:%q/%q", x.id, x.dist, x.precise))
	}
	return fmt.Sprintf("amount %s at precision %d over %s", s.amt, s.prec, strings.Join(b, " "))
}

var one = big.NewRat(1, 1)

// judge works out, exactly, whether the shares cover the amount and what each identifier is due.
func (s *split13) judge() {
	tot := new(big.Rat).SetInt(s.amt)
	sum := new(big.Rat)
	lefts, bad, fraction, grey := 0, false, false, false
	s.want = map[string]*big.Rat{}
	add := func(id string, v *big.Rat) {
		if s.want[id] == nil {
			s.want[id] = new(big.Rat)
			s.ids = append(s.ids, id)
		} else {
			s.dup = true
		}
		s.want[id].Add(s.want[id], v)
	}
	leftID := ""
	fixed, pct := new(big.Rat), new(big.Rat)
	for i := range s.shares {
		x := &s.shares[i]
		switch {
		case x.bad:
			bad = true
			continue
		case x.left:
			lefts++
			leftID = x.id
			add(x.id, new(big.Rat))
			continue
		}
		sum.Add(sum, x.exact)
		add(x.id, x.exact)
		if x.fixed {
			fixed.Add(fixed, x.exact)
			if !x.exact.IsInt() {
				fraction = true
			}
			if x.precise != "" && !x.exact.Num().IsInt64() {
				grey = true
			}
		} else {
			pct.Add(pct, x.exact)
		}
	}
	free := new(big.Rat).Sub(tot, sum)
	if lefts > 0 {
		s.want[leftID].Add(s.want[leftID], free)
	}
	switch {
	case bad:
		s.verdict, s.why = "refuse", "unreadable"
	case lefts > 1:
		s.verdict, s.why = "refuse", "two remainders"
	case free.Cmp(new(big.Rat).Neg(one)) <= 0:
		s.verdict, s.why = "refuse", "over"
	case lefts == 0 && free.Cmp(one) >= 0:
		s.verdict, s.why = "refuse", "under"
	case grey || fraction || s.dup || free.Sign() < 0 || (lefts == 0 && free.Sign() != 0):
		s.verdict, s.why = "either", "within a unit"
	default:
		s.verdict, s.why = "accept", "covered"
	}
}

func decimalText(rng *rand.Rand, units *big.Int, prec int64) string {
	// units/prec as a decimal, exact when prec is a power of ten
	n := len(fmt.Sprint(prec)) - 1
	q, r := new(big.Int).QuoRem(units, big.NewInt(prec), new(big.Int))
	if n == 0 || (r.Sign() == 0 && rng.Intn(2) == 0) {
		return q.String()
	}
	f := fmt.Sprintf("%0*d", n, r)
	if rng.Intn(2) == 0 {
		f = strings.TrimRight(f, "0")
	}
	if f == "" {
		return q.String()
	}
	return q.String() + "." + f
}

func rat(s string) *big.Rat { r, _ := new(big.Rat).SetString(s); return r }

// gen13 makes a configuration over the given identifiers.
func gen13(rng *rand.Rand, ids []string, maxBits int) *split13 {
	s := &split13{}
	precs := []int64{1, 1, 10, 100, 100, 100, 1000, 1000000, 100000000, 1000000000000000000}
	s.prec = precs[rng.Intn(len(precs))]
	switch rng.Intn(6) {
	case 0:
		s.amt = big.NewInt(1 + rng.Int63n(9))
	case 1:
		s.amt = big.NewInt(1 + rng.Int63n(300))
	case 2:
		s.amt = new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(maxBits)))
	default:
		s.amt = big.NewInt(1 + rng.Int63n(10_000_000))
	}
	if s.amt.Sign() == 0 {
		s.amt.SetInt64(1)
	}
	n := 1 + rng.Intn(6)
	if rng.Intn(20) == 0 {
		n = 10 + rng.Intn(30)
	}
	if n > len(ids) {
		n = len(ids)
	}
	perm := rng.Perm(len(ids))
	id := func(i int) string { return ids[perm[i]] }
	tot := new(big.Rat).SetInt(s.amt)
	pctShare := func(i int, text string) share13 {
		v := rat(text)
		v.Mul(v, tot).Quo(v, big.NewRat(100, 1))
		return share13{id: id(i), dist: text + "%", exact: v}
	}
	fixShare := func(i int, u *big.Int) share13 {
		x := share13{id: id(i), fixed: true, exact: new(big.Rat).SetInt(u)}
		if rng.Intn(2) == 0 {
			x.precise = u.String()
			if rng.Intn(6) == 0 {
				x.dist = "left" // the precise one wins unless it says left as well
				x.dist = ""
			}
		} else {
			x.dist = decimalText(rng, u, s.prec)
		}
		return x
	}
	left := func(i int) share13 {
		x := share13{id: id(i), left: true}
		if rng.Intn(3) == 0 {
			x.precise = "left"
		} else {
			x.dist = "left"
		}
		return x
	}
	part := func(max *big.Int) *big.Int {
		if max.Sign() <= 0 {
			return new(big.Int)
		}
		return new(big.Int).Rand(rng, new(big.Int).Add(max, big.NewInt(1)))
	}
	// percentages adding up to 100 in n parts with d decimals
	whole := func(n, d int) []string {
		scale := int64(100)
		for i := 0; i < d; i++ {
			scale *= 10
		}
		var out []string
		for i := 0; i < n; i++ {
			v := scale / int64(n-i)
			if i == n-1 {
				v = scale
			} else if v > 0 {
				v = rng.Int63n(v*2 + 1)
				if v > scale {
					v = scale
				}
			}
			scale -= v
			t := fmt.Sprint(v)
			for len(t) <= d {
				t = "0" + t
			}
			if d > 0 {
				t = t[:len(t)-d] + "." + t[len(t)-d:]
			}
			out = append(out, t)
		}
		rng.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out
	}
	switch rng.Intn(10) {
	case 0:
		s.kind = "percentages"
		for i, p := range whole(n, rng.Intn(7)) {
			s.shares = append(s.shares, pctShare(i, p))
		}
	case 1:
		s.kind = "equal percentages and left"
		for i := 0; i < n-1; i++ {
			s.shares = append(s.shares, pctShare(i, fmt.Sprint(100/n)))
		}
		s.shares = append(s.shares, left(n-1))
	case 2, 3:
		s.kind = "fixed, percentages and left"
		rest := new(big.Int).Set(s.amt)
		nf := rng.Intn(n)
		for i := 0; i < nf; i++ {
			u := part(new(big.Int).Quo(rest, big.NewInt(2)))
			rest.Sub(rest, u)
			s.shares = append(s.shares, fixShare(i, u))
		}
		// what is free, in percent of the whole, rounded down
		pc, _ := new(big.Rat).SetFrac(new(big.Int).Mul(rest, big.NewInt(100)), s.amt).Float64()
		for i := nf; i < n-1; i++ {
			v := float64(int(rng.Float64()*pc/2*1000)) / 1000
			pc -= v
			s.shares = append(s.shares, pctShare(i, fmt.Sprintf("%.3f", v)))
		}
		s.shares = append(s.shares, left(n-1))
	case 4:
		s.kind = "fixed covering exactly"
		rest := new(big.Int).Set(s.amt)
		for i := 0; i < n; i++ {
			u := part(rest)
			if i == n-1 {
				u = new(big.Int).Set(rest)
			}
			rest.Sub(rest, u)
			s.shares = append(s.shares, fixShare(i, u))
		}
	case 5:
		s.kind = "fixed off by something"
		rest := new(big.Int).Set(s.amt)
		for i := 0; i < n; i++ {
			u := part(rest)
			if i == n-1 {
				u = new(big.Int).Set(rest)
				d := big.NewInt(1 + rng.Int63n(3))
				if rng.Intn(2) == 0 && u.Cmp(d) > 0 {
					u.Sub(u, d)
				} else {
					u.Add(u, d)
				}
			}
			rest.Sub(rest, u)
			s.shares = append(s.shares, fixShare(i, u))
		}
	case 6:
		s.kind = "percentages off by something"
		ps := whole(n, 2)
		k := rng.Intn(n)
		d := []string{"0.01", "1", "10", "40", "-0.01", "-1", "-10", "-40"}[rng.Intn(8)]
		v := new(big.Rat).Add(rat(ps[k]), rat(d))
		if v.Sign() >= 0 {
			ps[k] = v.FloatString(2)
		}
		for i, p := range ps {
			s.shares = append(s.shares, pctShare(i, p))
		}
	case 7:
		s.kind = "fixed over what the percentages leave"
		s.shares = append(s.shares, pctShare(0, fmt.Sprint(30+rng.Intn(71))))
		if n > 1 {
			s.shares = append(s.shares, fixShare(1, part(s.amt)))
		}
		if n > 2 && rng.Intn(2) == 0 {
			s.shares = append(s.shares, left(2))
		}
	case 8:
		s.kind = "several remainders"
		if n == 1 {
			s.shares = append(s.shares, left(0))
			break
		}
		for i := 0; i < n-2; i++ {
			s.shares = append(s.shares, pctShare(i, fmt.Sprint(1+rng.Intn(100/n))))
		}
		s.shares = append(s.shares, left(n-2), left(n-1))
	default:
		s.kind = "odd text"
		bad := []string{"abc", "abc%", "%", "-5", "-10%", "NaN", "NaN%", "Inf", "Inf%", "-Inf%", "1e400", "1,5", "12x", "5%%", "ten%"}
		x := share13{id: id(0), dist: bad[rng.Intn(len(bad))], bad: true}
		if rng.Intn(4) == 0 {
			x = share13{id: id(0), precise: []string{"-5", "1.5", "x", "NaN"}[rng.Intn(4)], bad: true}
		}
		s.shares = append(s.shares, x)
		if n > 1 {
			s.shares = append(s.shares, left(1))
		}
	}
	if rng.Intn(12) == 0 && len(s.shares) > 1 {
		s.kind += ", an identifier twice"
		s.shares[len(s.shares)-1].id = s.shares[0].id
	}
	if rng.Intn(2) == 0 {
		rng.Shuffle(len(s.shares), func(i, j int) { s.shares[i], s.shares[j] = s.shares[j], s.shares[i] })
	}
	s.judge()
	return s
}

func (s *split13) dists() []model.Distribution {
	var out []model.Distribution
	for _, x := range s.shares {
		out = append(out, model.Distribution{Identifier: x.id, Distribution: x.dist, PreciseDistribution: x.precise})
	}
	return out
}

// legs checks the amounts the legs carry; it returns what is wrong with them.
func (s *split13) legs(got map[string]*big.Int) string {
	sum := new(big.Int)
	slack := big.NewRat(int64(len(s.shares))+1, 1)
	for id, v := range got {
		sum.Add(sum, v)
		if v.Sign() < 0 {
			return fmt.Sprintf("a leg of %s for %s", v, id)
		}
		want := s.want[id]
		if want == nil {
			return fmt.Sprintf("a leg of %s for %s, which is not among the identifiers", v, id)
		}
		d := new(big.Rat).Sub(want, new(big.Rat).SetInt(v))
		if d.Abs(d).Cmp(slack) > 0 {
			return fmt.Sprintf("the leg for %s carries %s, its share is %s", id, v, want.FloatString(3))
		}
	}
	if sum.Cmp(s.amt) != 0 {
		return fmt.Sprintf("the legs add up to %s, not %s", sum, s.amt)
	}
	for id, want := range s.want {
		if got[id] == nil && want.Cmp(slack) > 0 {
			return fmt.Sprintf("no leg for %s, whose share is %s", id, want.FloatString(3))
		}
	}
	return ""
}

func p13(c *rig.Check) {
	c.Rule = "generated splits (fixed, percentage and remainder shares covering the amount exactly, over it, under it, with several remainders, unreadable shares, identifiers given twice) are worked out in exact rationals and compared with the legs the real splitter makes, in process and posted through the API; distinct_nontrivial counts (kind, verdict, path) combinations"
	c.Assume = []string{"rounding may move at most one smallest unit per leg (the pinned tests let the residue go to the largest leg); a cover that is off by less than one unit may be accepted or refused; so may an identifier given twice and sub-unit fixed shares"}
	all(
		func() { p13model(c, c.Seed) },
		func() { p13api(c, "sync", c.Seed+1, true) },
		func() { p13api(c, "queued", c.Seed+2, false) },
	)
}

func p13model(c *rig.Check, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	var ids []string
	for i := 0; i < 40; i++ {
		ids = append(ids, fmt.Sprintf("b%02d", i))
	}
	n := c.Pick(250000, 8000000)
	for it := 0; it < n && c.Elapsed() < time.Duration(c.Pick(25, 2000))*time.Second; it++ {
		s := gen13(rng, ids, 200)
		c.Case(s.kind+"/"+s.verdict+"/model", true)
		t := &model.Transaction{TransactionID: "txn_p13", Reference: "r13", Source: "src", Destination: "dst", Currency: "USD", Precision: float64(s.prec), PreciseAmount: new(big.Int).Set(s.amt)}
		sources := rng.Intn(2) == 0
		if sources {
			t.Sources, t.Source = s.dists(), ""
		} else {
			t.Destinations, t.Destination = s.dists(), ""
		}
		var legs []*model.Transaction
		var err error
		panicked := func() (p any) {
			defer func() { p = recover() }()
			legs, err = t.SplitTransactionPrecise(context.Background())
			return nil
		}()
		if panicked != nil {
			c.Violate("panic", fmt.Sprintf("the splitter panicked (%v): %s", panicked, s), nil)
			continue
		}
		if err != nil {
			c.Add("refused_in_process", 1)
			if s.verdict == "accept" {
				c.Violate("refused", fmt.Sprintf("a split that covers its amount was refused (%v): %s", err, s), nil)
			}
			continue
		}
		c.Add("split_in_process", 1)
		if s.verdict == "refuse" {
			c.Violate("accepted-"+s.why, fmt.Sprintf("a split that must be refused (%s) was accepted: %s", s.why, s), legText(legs))
			continue
		}
		got, refs, by := map[string]*big.Int{}, map[string]bool{}, map[string]string{}
		for _, l := range legs {
			id := l.Destination
			if sources {
				id = l.Source
			}
			if got[id] != nil || refs[l.Reference] || l.ParentTransaction != t.TransactionID || l.TransactionID == t.TransactionID || by[l.TransactionID] != "" {
				c.Violate("leg-identity", fmt.Sprintf("legs share an identifier, reference or id, or miss their parent: %s", s), legText(legs))
			}
			got[id], refs[l.Reference] = l.PreciseAmount, true
			by[l.TransactionID] = id
		}
		if why := s.legs(got); why != "" {
			c.Violate("amounts", why+": "+s.String(), legText(legs))
		}
		ds := t.Destinations
		if sources {
			ds = t.Sources
		}
		for _, d := range ds {
			if d.TransactionID != "" && by[d.TransactionID] != d.Identifier {
				c.Violate("attribution", fmt.Sprintf("the split says %s went into leg %s, which is the leg of %s: %s", d.Identifier, d.TransactionID, by[d.TransactionID], s), legText(legs))
			}
			if d.TransactionID == "" && got[d.Identifier] != nil {
				c.Violate("attribution", fmt.Sprintf("the split names no leg for %s: %s", d.Identifier, s), legText(legs))
			}
		}
	}
}

func legText(legs []*model.Transaction) []string {
	var out []string
	for _, l := range legs {
		out = append(out, fmt.Sprintf("%s %s->%s %s", l.Reference, l.Source, l.Destination, l.PreciseAmount))
	}
	return out
}

// put13 is one split posted through the API.
type put13 struct {
	s        *split13
	ref      string
	sources  bool
	inflight bool
	peer     string
	r        *rig.Resp
	id       string
	void     bool
	settled  bool
}

func p13api(c *rig.Check, tag string, seed int64, sync bool) {
	w := boot(c, tag, nil, 1, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 9, 1); err != nil {
		c.Broken("%v", err)
		return
	}
	rng := rand.New(rand.NewSource(seed))
	n := c.Pick(900, 12000)
	var later []*put13
	for it := 0; it < n && c.Elapsed() < time.Duration(c.Pick(30, 3000))*time.Second; it++ {
		bs := append([]string{}, w.Bals["USD"]...)
		rng.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
		peer := bs[0]
		p := &put13{s: gen13(rng, bs[1:], 120), ref: rig.Ref("sp"), sources: rng.Intn(2) == 0, inflight: rng.Intn(3) == 0, peer: peer, void: rng.Intn(2) == 0}
		for i := 0; i <= len(p.s.shares)+1; i++ {
			for _, sep := range []string{"-", "_"} {
				w.Permit(fmt.Sprintf("%s%s%d", p.ref, sep, i), rig.Perm{Allow: true})
			}
		}
		b := M{"precise_amount": jnum(p.s.amt.String()), "precision": p.s.prec, "currency": "USD", "description": "p13", "reference": p.ref, "allow_overdraft": true, "inflight": p.inflight}
		if sync {
			b["skip_queue"] = true
		}
		var ds []M
		for _, x := range p.s.shares {
			m := M{"identifier": x.id, "distribution": x.dist}
			if x.precise != "" {
				m["precise_distribution"] = x.precise
			}
			ds = append(ds, m)
		}
		if p.sources {
			b["sources"], b["destination"] = ds, peer
		} else {
			b["source"], b["destinations"] = peer, ds
		}
		before := w.R.Audit.Snapshot()
		if sync && rng.Intn(5) == 0 {
			// as a member of a batch
			b["meta_data"] = M{"member": true}
			bulk := M{"transactions": []M{b}, "skip_queue": true, "atomic": rng.Intn(2) == 0, "inflight": p.inflight}
			p.r = w.S[0].Do("POST", "/transactions/bulk", bulk)
			p.void = true
		} else {
			p.r = w.S[0].Do("POST", "/transactions", b)
		}
		c.Case(p.s.kind+"/"+p.s.verdict+"/"+tag, true)
		if p.r.Err != nil {
			c.Broken("%s", p.r)
			return
		}
		if !p.r.OK() {
			c.Add("refused_by_api", 1)
			if p.s.verdict == "accept" {
				c.Violate("api-refused", fmt.Sprintf("[%s] a split that covers its amount was refused: %s: %s", tag, p.s, p.r), nil)
			}
			if sync {
				if d := rig.Diff(before, w.R.Audit.Snapshot()); len(d) > 0 {
					c.Violate("refused-moved", fmt.Sprintf("[%s] a refused split moved money: %s: %s: %v", tag, p.s, p.r, d), nil)
				}
			} else {
				later = append(later, p)
			}
			continue
		}
		c.Add("accepted_by_api", 1)
		if p.s.verdict == "refuse" {
			c.Violate("api-accepted-"+p.s.why, fmt.Sprintf("[%s] a split that must be refused (%s) was accepted: %s: %s", tag, p.s.why, p.s, p.r), nil)
			continue
		}
		if sync {
			p13posted(c, w, tag, p)
		} else {
			later = append(later, p)
		}
	}
	if !sync {
		if err := w.R.Drain(60*time.Second, false); err != nil {
			c.Broken("%v", err)
		}
		for _, p := range later {
			p13posted(c, w, tag, p)
		}
	}
	w.R.Audit.Settle(tag, "fold", "doubleentry")
	crashes(c, w, tag)
}

// p13posted compares the recorded legs with the configuration.
func p13posted(c *rig.Check, w *rig.World, tag string, p *put13) {
	var eff, rej []*rig.Row
	ids := map[string]*rig.Row{}
	w.R.Audit.With(func() {
		for _, t := range w.R.Audit.Ord {
			if !strings.HasPrefix(t.Ref, p.ref) || len(t.Ref) > len(p.ref) && t.Ref[len(p.ref)] != '-' && t.Ref[len(p.ref)] != '_' {
				continue
			}
			ids[t.ID] = t
			switch {
			case t.Status == "REJECTED":
				rej = append(rej, t)
			case t.Effect == "hold" || t.Effect == "post":
				eff = append(eff, t)
			}
		}
	})
	tr := func() []string {
		var out []string
		for _, t := range append(eff, rej...) {
			out = append(out, fmt.Sprintf("%s %s %s->%s %s", t.Ref, t.Status, t.Src, t.Dst, t.Amt))
		}
		return out
	}
	d := fmt.Sprintf("%s inflight=%v sources=%v peer=%s: %s", p.s, p.inflight, p.sources, p.peer, p.r)
	if !p.r.OK() {
		if len(eff) > 0 {
			c.Violate("refused-moved", fmt.Sprintf("[%s] a refused split posted %d legs: %s", tag, len(eff), d), tr())
		}
		return
	}
	if len(rej) > 0 {
		c.Violate("leg-rejected", fmt.Sprintf("[%s] %d legs of an accepted split were rejected: %s", tag, len(rej), d), tr())
	}
	got := map[string]*big.Int{}
	for _, t := range eff {
		id, peer := t.Dst, t.Src
		if p.sources {
			id, peer = t.Src, t.Dst
		}
		if got[id] == nil {
			got[id] = new(big.Int)
		}
		got[id].Add(got[id], t.Amt)
		want := "post"
		if p.inflight {
			want = "hold"
		}
		if peer != p.peer || t.Cur != "USD" || t.Effect != want {
			c.Violate("leg-fields", fmt.Sprintf("[%s] leg %s is %s %s %s->%s: %s", tag, t.Ref, t.Status, t.Cur, t.Src, t.Dst, d), tr())
		}
	}
	if why := p.s.legs(got); why != "" {
		c.Violate("posted", fmt.Sprintf("[%s] %s: %s", tag, why, d), tr())
		return
	}
	c.Add("splits_posted", 1)
	c.Add("legs_posted", int64(len(eff)))
	side := "destinations"
	if p.sources {
		side = "sources"
	}
	if l, ok := p.r.J[side].([]any); ok {
		for _, x := range l {
			m, _ := x.(map[string]any)
			tid, _ := m["transaction_id"].(string)
			if tid == "" {
				continue
			}
			t := ids[tid]
			who := fmt.Sprint(m["identifier"])
			if t == nil {
				if got[who] != nil {
					c.Violate("answer-leg", fmt.Sprintf("[%s] the answer names leg %s for %s, which was never recorded: %s", tag, tid, who, d), tr())
				}
				continue
			}
			id := t.Dst
			if p.sources {
				id = t.Src
			}
			if id != who {
				c.Violate("answer-leg", fmt.Sprintf("[%s] the answer names leg %s for %s but that is the leg of %s: %s", tag, tid, who, id, d), tr())
			}
			c.Add("answer_legs_checked", 1)
		}
	}
	if !p.inflight || len(eff) == 0 {
		return
	}
	// settle through the split as a whole: all of it must settle
	target := eff[0].Parent
	if p.r.S("transaction_id") != "" {
		target = p.r.S("transaction_id")
	}
	st := "commit"
	if p.void {
		st = "void"
	}
	before := w.R.Audit.Snapshot()
	r := w.S[0].Do("PUT", "/transactions/inflight/"+target, M{"status": st, "skip_queue": true})
	if !r.OK() {
		c.Add("settle_refused", 1)
		return
	}
	c.Add("splits_settled", 1)
	done := new(big.Int)
	w.R.Audit.With(func() {
		for _, l := range eff {
			for _, k := range w.R.Audit.Kids[l.ID] {
				if k.Effect == "commit" || k.Effect == "void" {
					done.Add(done, k.Amt)
				}
			}
		}
	})
	if done.Cmp(p.s.amt) != 0 {
		c.Violate("settled", fmt.Sprintf("[%s] %s of the split settled %s of %s: %s: %s %v", tag, st, done, p.s.amt, d, r, rig.Diff(before, w.R.Audit.Snapshot())), tr())
	}
}
