package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/blnkfinance/blnk/model"
)

func init() {
	checks["P14"] = p14
}

// p14: amounts are exact.
func p14(c *rig.Check) {
	c.Rule = "generated amounts (decimals of up to 15 digits, whole numbers of up to 400 bits, precisions of every kind) are followed, in exact rationals, through the model's functions and through every route of the API (sync, queued, bulk, hold and partial settlements, refunds, with a master and an API key); every stored row, every balance and every number in an answer, list, filter or webhook is compared digit by digit; distinct_nontrivial counts (route, size, precision) kinds"
	c.Assume = []string{"a decimal amount on a tie may round either way, once"}
	all(
		func() { p14model(c, c.Seed) },
		func() {
			p14api(c, "secure", rig.Cfg{"server": M{"secure": true, "secret_key": "master-secret-14"}}, c.Seed+1)
		},
		func() { p14api(c, "open", rig.Cfg{"transaction": M{"enable_queued_checks": true}}, c.Seed+2) },
	)
}

// units is amount*precision rounded to a whole number; tie tells the other acceptable one.
func units(amount string, prec *big.Int) (n, tie *big.Int) {
	v := new(big.Rat).Mul(rat(amount), new(big.Rat).SetInt(prec))
	num2 := new(big.Int).Mul(v.Num(), big.NewInt(2))
	den2 := new(big.Int).Mul(v.Denom(), big.NewInt(2))
	n = new(big.Int).Div(new(big.Int).Add(num2, v.Denom()), den2) // floor(v+1/2)
	if v.IsInt() || v.Denom().Cmp(big.NewInt(2)) != 0 {
		return n, nil
	}
	return n, new(big.Int).Sub(n, big.NewInt(1))
}

func matches(got *big.Int, amount string, prec *big.Int) bool {
	n, tie := units(amount, prec)
	return got.Cmp(n) == 0 || (tie != nil && got.Cmp(tie) == 0)
}

func randPrec(rng *rand.Rand) *big.Int {
	switch rng.Intn(8) {
	case 0:
		return big.NewInt([]int64{2, 3, 5, 7, 12, 20, 60, 144, 240, 1024, 86400, 999}[rng.Intn(12)])
	case 1:
		return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(15+rng.Intn(5))), nil)
	default:
		return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rng.Intn(13))), nil)
	}
}

// randAmount is a decimal literal of up to 15 significant digits.
func randAmount(rng *rand.Rand) string {
	d := 1 + rng.Intn(15)
	b := make([]byte, d)
	for i := range b {
		b[i] = byte('0' + rng.Intn(10))
	}
	if rng.Intn(3) == 0 {
		for i := d / 2; i < d; i++ {
			b[i] = "59"[rng.Intn(2)]
		}
	}
	if b[0] == '0' {
		b[0] = '1'
	}
	s := string(b)
	switch rng.Intn(4) {
	case 0:
		return s
	case 1:
		return "0." + strings.Repeat("0", rng.Intn(6)) + s
	default:
		k := 1 + rng.Intn(d)
		if k == d {
			return s
		}
		return s[:k] + "." + s[k:]
	}
}

func randPrecise(rng *rand.Rand, bits int) *big.Int {
	var n *big.Int
	switch rng.Intn(4) {
	case 0: // around the edges of machine integers and floats
		e := []uint{24, 31, 32, 53, 62, 63, 64, 65, 127, 128, 256}[rng.Intn(11)]
		n = new(big.Int).Lsh(big.NewInt(1), e)
		n.Add(n, big.NewInt(rng.Int63n(7)-3))
	case 1: // around powers of ten
		n = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+rng.Intn(80))), nil)
		n.Add(n, big.NewInt(rng.Int63n(7)-3))
	default:
		n = new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(1+rng.Intn(bits))))
	}
	if n.Sign() <= 0 {
		n.SetInt64(1 + rng.Int63n(9))
	}
	return n
}

func bitsOf(n *big.Int) string {
	switch b := n.BitLen(); {
	case b <= 31:
		return "<=31"
	case b <= 53:
		return "<=53"
	case b <= 63:
		return "<=63"
	case b <= 128:
		return "<=128"
	}
	return ">128"
}

func floatOf(s string) float64 { f, _ := json.Number(s).Float64(); return f }

// p14model drives the model's own functions.
func p14model(c *rig.Check, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	n := c.Pick(150000, 8000000)
	for it := 0; it < n && c.Elapsed() < time.Duration(c.Pick(25, 2000))*time.Second; it++ {
		prec := randPrec(rng)
		pf, _ := new(big.Float).SetInt(prec).Float64()
		t := &model.Transaction{Precision: pf, Currency: "USD", Reference: "r", Source: "s", Destination: "d", AllowOverdraft: true, Inflight: rng.Intn(3) == 0}
		want := ""
		ok := func(v *big.Int) bool { return v != nil && v.String() == want }
		if rng.Intn(2) == 0 {
			a := randAmount(rng)
			t.Amount = floatOf(a)
			got := model.ApplyPrecision(t)
			c.Case("model/amount/"+bitsOf(got)+"/"+prec.String(), true)
			if got == nil || !matches(got, a, prec) {
				x, _ := units(a, prec)
				c.Violate("scaled", fmt.Sprintf("amount %s at precision %s became %v smallest units, not %s", a, prec, got, x), nil)
				continue
			}
			want = got.String()
		} else {
			p := randPrecise(rng, 400)
			t.PreciseAmount = new(big.Int).Set(p)
			want = p.String()
			c.Case("model/precise/"+bitsOf(p)+"/"+prec.String(), true)
			if got := model.ApplyPrecision(t); !ok(got) {
				c.Violate("precise", fmt.Sprintf("precise amount %s at precision %s became %v", want, prec, got), nil)
				continue
			}
		}
		if want == "0" {
			continue
		}
		// once more, as the posting path does, then through JSON as the queue does
		if got := model.ApplyPrecision(t); !ok(got) {
			c.Violate("again", fmt.Sprintf("applying the precision a second time turned %s into %v", want, got), nil)
		}
		j, err := t.ToJSON()
		var u model.Transaction
		if err != nil || json.Unmarshal(j, &u) != nil || !ok(u.PreciseAmount) {
			c.Violate("json", fmt.Sprintf("precise amount %s came back from JSON as %v (%v)", want, u.PreciseAmount, err), nil)
			continue
		}
		if got := model.ApplyPrecision(&u); !ok(got) {
			c.Violate("json-again", fmt.Sprintf("precise amount %s became %v after a round through JSON", want, got), nil)
		}
		// sums
		side := func() *model.Balance {
			b := &model.Balance{}
			b.InitializeBalanceFields()
			b.CreditBalance, b.DebitBalance = randPrecise(rng, 400), randPrecise(rng, 400)
			b.InflightCreditBalance, b.InflightDebitBalance = randPrecise(rng, 400), randPrecise(rng, 400)
			b.Balance = new(big.Int).Sub(b.CreditBalance, b.DebitBalance)
			b.InflightBalance = new(big.Int).Sub(b.InflightCreditBalance, b.InflightDebitBalance)
			return b
		}
		s, d := side(), side()
		s0, d0 := s.Clone(), d.Clone()
		if err := model.UpdateBalances(&u, s, d); err != nil {
			c.Violate("update", fmt.Sprintf("posting %s failed: %v", want, err), nil)
			continue
		}
		w := big2(want)
		if u.Inflight {
			s0.InflightDebitBalance.Add(s0.InflightDebitBalance, w)
			d0.InflightCreditBalance.Add(d0.InflightCreditBalance, w)
		} else {
			s0.DebitBalance.Add(s0.DebitBalance, w)
			d0.CreditBalance.Add(d0.CreditBalance, w)
		}
		for k, p := range [][2]*model.Balance{{s0, s}, {d0, d}} {
			e, g := p[0], p[1]
			e.Balance = new(big.Int).Sub(e.CreditBalance, e.DebitBalance)
			e.InflightBalance = new(big.Int).Sub(e.InflightCreditBalance, e.InflightDebitBalance)
			if e.Balance.Cmp(g.Balance) != 0 || e.InflightBalance.Cmp(g.InflightBalance) != 0 || e.CreditBalance.Cmp(g.CreditBalance) != 0 || e.DebitBalance.Cmp(g.DebitBalance) != 0 || e.InflightCreditBalance.Cmp(g.InflightCreditBalance) != 0 || e.InflightDebitBalance.Cmp(g.InflightDebitBalance) != 0 {
				c.Violate("sum", fmt.Sprintf("posting %s (inflight %v) left side %d of the balances wrong: %s/%s/%s/%s", want, u.Inflight, k, g.CreditBalance, g.DebitBalance, g.InflightCreditBalance, g.InflightDebitBalance), nil)
			}
			bj, _ := json.Marshal(g)
			var back model.Balance
			if json.Unmarshal(bj, &back) != nil || back.Balance.Cmp(g.Balance) != 0 || back.CreditBalance.Cmp(g.CreditBalance) != 0 || back.InflightDebitBalance.Cmp(g.InflightDebitBalance) != 0 {
				c.Violate("balance-json", fmt.Sprintf("a balance of %s came back from JSON as %v", g.Balance, back.Balance), nil)
			}
		}
	}
}

// sent14 is one amount sent and what must be recorded for it.
type sent14 struct {
	ref    string
	amount string // decimal literal, or empty
	prec   *big.Int
	want   *big.Int // exact precise amount given, or nil
	route  string
	resp   *rig.Resp
	id     string
	infl   bool
	legs   int
}

func (s *sent14) good(v *big.Int) bool {
	if s.want != nil {
		return v.Cmp(s.want) == 0
	}
	return matches(v, s.amount, s.prec)
}

func (s *sent14) say() string {
	if s.want != nil {
		return fmt.Sprintf("%s precise amount %s at precision %s (%s)", s.route, s.want, s.prec, s.ref)
	}
	return fmt.Sprintf("%s amount %s at precision %s (%s)", s.route, s.amount, s.prec, s.ref)
}

func p14api(c *rig.Check, tag string, cfg rig.Cfg, seed int64) {
	w := boot(c, tag, cfg, 1, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	if err := w.AddBalances("USD", 8, 100); err != nil {
		c.Broken("%v", err)
		return
	}
	p := w.S[0]
	keys := []string{""}
	if p.Key != "" {
		r := p.Do("POST", "/api-keys", M{"name": "k", "owner": "o", "scopes": []string{"*:*"}, "expires_at": time.Now().Add(24 * time.Hour).Format(time.RFC3339)})
		k := r.S("key")
		if k == "" {
			c.Broken("no api key: %s", r)
			return
		}
		keys = []string{p.Key, k}
	}
	n := c.Pick(360, 12000)
	var mu sync.Mutex
	var sent []*sent14
	one := func(rng *rand.Rand) *sent14 {
		s := &sent14{ref: rig.Ref("x"), prec: randPrec(rng)}
		if rng.Intn(2) == 0 {
			s.amount = randAmount(rng)
		} else {
			s.want = randPrecise(rng, 300)
		}
		w.Permit(s.ref, rig.Perm{Allow: true})
		return s
	}
	body := func(s *sent14, a, b string, sync bool) M {
		m := M{"reference": s.ref, "source": a, "destination": b, "currency": "USD", "description": "p14", "precision": jnum(s.prec.String()), "allow_overdraft": true, "skip_queue": sync, "inflight": s.infl}
		if s.want != nil {
			m["precise_amount"] = jnum(s.want.String())
		} else {
			m["amount"] = jnum(s.amount)
		}
		return m
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed*131 + int64(g)))
			for it := 0; it < n/4 && c.Elapsed() < time.Duration(c.Pick(25, 3000))*time.Second; it++ {
				bs := w.Bals["USD"]
				i, j := rng.Intn(len(bs)), rng.Intn(len(bs)-1)
				if j >= i {
					j++
				}
				key := keys[rng.Intn(len(keys))]
				hdr := []string{}
				kt := ""
				if key != "" {
					hdr = append(hdr, "X-Blnk-Key", key)
					if key != p.Key {
						kt = "apikey-"
					}
				}
				s := one(rng)
				s.infl = rng.Intn(4) == 0
				switch k := rng.Intn(10); {
				case k < 4:
					s.route = kt + "sync"
					s.resp = p.Do("POST", "/transactions", body(s, bs[i], bs[j], true), hdr...)
				case k < 7:
					s.route = kt + "queued"
					s.resp = p.Do("POST", "/transactions", body(s, bs[i], bs[j], false), hdr...)
				default:
					t := one(rng)
					t.infl = s.infl
					sync := rng.Intn(3) > 0
					s.route = kt + "bulk"
					if !sync {
						s.route = kt + "bulk-queued"
					}
					t.route = s.route
					r := p.Do("POST", "/transactions/bulk", M{"transactions": []M{body(s, bs[i], bs[j], sync), body(t, bs[j], bs[i], sync)}, "inflight": s.infl, "skip_queue": sync}, hdr...)
					s.resp, t.resp = r, r
					mu.Lock()
					sent = append(sent, t)
					mu.Unlock()
				}
				c.Case(s.route+"/"+s.prec.String()+"/"+fmt.Sprint(s.want != nil), true)
				mu.Lock()
				sent = append(sent, s)
				mu.Unlock()
				if s.resp.OK() && (strings.HasSuffix(s.route, "sync")) {
					s.id = s.resp.S("transaction_id")
					if v := num(s.resp.J["precise_amount"]); v == nil || !s.good(v) {
						c.Violate("answer", fmt.Sprintf("[%s] answered with precise_amount %v: %s", tag, s.resp.J["precise_amount"], s.say()), nil)
					}
				}
			}
		}()
	}
	wg.Wait()
	if err := w.R.Drain(60*time.Second, false); err != nil {
		c.Broken("%v", err)
	}
	rng := rand.New(rand.NewSource(seed * 7))
	find := func(s *sent14) *rig.Row {
		q := &rig.Req{Ref: s.ref}
		eff, _, _ := w.Outcome(q)
		for _, t := range eff {
			if t.Effect == "hold" || t.Effect == "post" {
				return t
			}
		}
		return nil
	}
	rows := func(refs ...string) (out []*rig.Row) {
		for _, r := range refs {
			out = append(out, w.R.Audit.ByRef(r)...)
		}
		return
	}
	small := func(s *sent14) bool {
		if s.want != nil {
			return false
		}
		u, tie := units(s.amount, s.prec)
		return u.Sign() <= 0 || (tie != nil && tie.Sign() <= 0)
	}
	for _, s := range sent {
		for _, t := range rows(s.ref, s.ref+"_q") {
			c.Add("rows_compared", 1)
			if !s.good(t.Amt) {
				c.Violate("stored", fmt.Sprintf("[%s] recorded (%s) with %s smallest units: %s", tag, t.Status, t.Amt, s.say()), nil)
			}
			// an amount beyond what the column of the row can tell apart is derived; the row must still agree with itself
			p14row(c, tag, t, s.say())
		}
		if s.resp.OK() && find(s) == nil && !small(s) {
			c.Violate("lost", fmt.Sprintf("[%s] acknowledged but not recorded as posted: %s: %s", tag, s.say(), s.resp), nil)
		}
		if s.prec.BitLen() > 63 && s.resp.Code == 400 {
			c.Add("unstorable_precision_refused", 1)
			continue
		}
		if !s.resp.OK() && s.want != nil && !strings.Contains(s.route, "bulk") {
			c.Violate("refused", fmt.Sprintf("[%s] refused: %s: %s", tag, s.say(), s.resp), nil)
		}
	}
	// settle the holds in parts
	deadline := time.Duration(c.Pick(40, 4000)) * time.Second
	for _, s := range sent {
		t := find(s)
		if t == nil || c.Elapsed() > deadline {
			continue
		}
		if t.Effect == "hold" {
			left := new(big.Int).Set(t.Amt)
			for k := 0; k < 3 && left.Sign() > 0; k++ {
				b := M{"status": "commit", "skip_queue": rng.Intn(3) > 0}
				var want *big.Int
				switch {
				case k == 2 || rng.Intn(4) == 0:
					want = new(big.Int).Set(left)
					if rng.Intn(3) == 0 {
						b["status"] = "void"
					}
				case rng.Intn(2) == 0:
					want = new(big.Int).Add(new(big.Int).Rand(rng, left), big.NewInt(1))
					b["precise_amount"] = jnum(want.String())
				default:
					a := randAmount(rng)
					u, tie := units(a, s.prec)
					if u.Sign() <= 0 || u.Cmp(left) > 0 || tie != nil {
						continue
					}
					want = u
					b["amount"] = jnum(a)
				}
				had := len(w.R.Audit.Children(t.ID))
				r := p.Do("PUT", "/transactions/inflight/"+t.ID, b)
				for z := 0; z < 50 && (r.Code == 423 || r.Code == 409); z++ { // the settlement before this one is still letting go
					time.Sleep(40 * time.Millisecond)
					r = p.Do("PUT", "/transactions/inflight/"+t.ID, b)
				}
				if !r.OK() {
					c.Violate("settle-refused", fmt.Sprintf("[%s] settling %s of %s: %v: %s: %s", tag, want, left, b, r, s.say()), nil)
					break
				}
				if !rig.Eventually(20*time.Second, func() bool { return len(w.R.Audit.Children(t.ID)) > had }) {
					c.Broken("settlement of %s never appeared", t.ID)
					break
				}
				kids := w.R.Audit.Children(t.ID)
				kid := kids[len(kids)-1]
				if kid.Amt.Cmp(want) != 0 {
					c.Violate("settled", fmt.Sprintf("[%s] settling %s (%v) recorded %s (%s): %s", tag, want, b, kid.Amt, kid.Status, s.say()), nil)
				}
				p14row(c, tag, kid, "settlement of "+s.say())
				c.Add("settlements_compared", 1)
				c.Case("settle/"+fmt.Sprint(b["status"])+"/"+fmt.Sprint(b["amount"] != nil, b["precise_amount"] != nil), true)
				left.Sub(left, want)
				if b["status"] == "void" {
					break
				}
			}
		} else if rng.Intn(4) == 0 {
			r := p.Do("POST", "/refund-transaction/"+t.ID, M{"skip_queue": true})
			if !r.OK() {
				c.Violate("refund-refused", fmt.Sprintf("[%s] %s: %s", tag, r, s.say()), nil)
				continue
			}
			for _, k := range reversals(w, t) {
				if k.Amt.Cmp(t.Amt) != 0 {
					c.Violate("refunded", fmt.Sprintf("[%s] refund of %s recorded %s: %s", tag, t.Amt, k.Amt, s.say()), nil)
				}
				p14row(c, tag, k, "refund of "+s.say())
				c.Add("refunds_compared", 1)
			}
		}
		// what is read back
		if rng.Intn(3) == 0 {
			for _, path := range []string{"/transactions/" + t.ID, "/transactions/reference/" + t.Ref} {
				r := p.Do("GET", path, nil)
				if v := num(r.J["precise_amount"]); !r.OK() || v == nil || v.Cmp(t.Amt) != 0 {
					c.Violate("read", fmt.Sprintf("[%s] GET %s reports %v, stored %s", tag, path, r.J["precise_amount"], t.Amt), nil)
				}
				c.Add("reads_compared", 1)
			}
		}
	}
	if err := w.R.Drain(60*time.Second, false); err != nil {
		c.Broken("%v", err)
	}
	w.R.Audit.Settle(tag, "fold", "doubleentry", "inflight")
	// lists, filters and balances
	seen := 0
	for _, m := range listAll(p, "/transactions") {
		if t := w.R.Audit.Txn(fmt.Sprint(m["transaction_id"])); t != nil {
			seen++
			if v := num(m["precise_amount"]); v == nil || v.Cmp(t.Amt) != 0 {
				c.Violate("list", fmt.Sprintf("[%s] the list reports %v for a transaction of %s", tag, m["precise_amount"], t.Amt), nil)
			}
		}
	}
	c.Add("listed_compared", int64(seen))
	apiFold(c, w, tag)
	for _, s := range sent {
		if rng.Intn(12) > 0 {
			continue
		}
		t := find(s)
		if t == nil {
			continue
		}
		r := p.Do("POST", "/transactions/filter", M{"filters": []M{{"field": "reference", "operator": "eq", "value": t.Ref}}})
		l := r.L
		if l == nil {
			l, _ = r.J["data"].([]any)
		}
		if !r.OK() || len(l) != 1 {
			c.Violate("filter", fmt.Sprintf("[%s] filtering for the precise amount %s found %d transactions: %s", tag, t.Amt, len(l), r), nil)
		} else if m, _ := l[0].(map[string]any); num(m["precise_amount"]) == nil || num(m["precise_amount"]).Cmp(t.Amt) != 0 {
			c.Violate("filter", fmt.Sprintf("[%s] the filter reports %v for %s", tag, m["precise_amount"], t.Amt), nil)
		}
		c.Add("filters_compared", 1)
	}
	// webhooks
	for _, h := range w.R.Hooks.All() {
		d := json.NewDecoder(bytes.NewReader(h.Body))
		d.UseNumber()
		var m M
		if d.Decode(&m) != nil {
			continue
		}
		x, _ := m["data"].(map[string]any)
		if t := w.R.Audit.Txn(fmt.Sprint(x["transaction_id"])); t != nil {
			if v := num(x["precise_amount"]); v == nil || v.Cmp(t.Amt) != 0 {
				c.Violate("webhook", fmt.Sprintf("[%s] webhook %v reports %v for a transaction of %s", tag, m["event"], x["precise_amount"], t.Amt), nil)
			}
			c.Add("webhooks_compared", 1)
		}
	}
	crashes(c, w, tag)
}

// p14row checks that a stored row's amount, precision and precise amount agree: rounding amount*precision once gives the precise amount.
func p14row(c *rig.Check, tag string, t *rig.Row, what string) {
	a, p := rig.Str(t.Raw["amount"]), rig.Str(t.Raw["precision"])
	pr := rat(p)
	if pr == nil || !pr.IsInt() || rat(a) == nil {
		c.Violate("row", fmt.Sprintf("[%s] row %s (%s) is stored with amount %q precision %q: %s", tag, t.Ref, t.Status, a, p, what), nil)
		return
	}
	if !matches(t.Amt, a, pr.Num()) {
		c.Violate("row", fmt.Sprintf("[%s] row %s (%s) is stored with amount %s at precision %s but precise amount %s: %s", tag, t.Ref, t.Status, a, p, t.Amt, what), nil)
	}
}
