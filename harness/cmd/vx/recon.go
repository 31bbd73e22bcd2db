package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() { checks["P30"] = p30 }

// rrec is one side of a comparison: a record, or a group of records put together.
type rrec struct {
	id        string
	amount    float64
	date      time.Time
	refs, des []string
	curs      map[string]bool
}

type rcrit struct {
	field, op string
	drift     float64
}

func rone(id string, amount float64, date time.Time, ref, des, cur string) rrec {
	return rrec{id, amount, date, []string{ref}, []string{des}, map[string]bool{cur: true}}
}

func group(rs []rrec) rrec {
	g := rrec{curs: map[string]bool{}}
	for i, r := range rs {
		g.amount += r.amount
		if i == 0 || r.date.Before(g.date) {
			g.date = r.date
		}
		g.refs, g.des = append(g.refs, r.refs...), append(g.des, r.des...)
		for c := range r.curs {
			g.curs[c] = true
		}
	}
	return g
}

// rjudge says whether rules may, and whether they must, pair a single record e with i
// (a record or a group). They differ where the rules' meaning leaves room.
func rjudge(e, i rrec, rules [][]rcrit, flip bool) (may, must bool) {
	for _, rule := range rules {
		a, b := true, true
		for _, c := range rule {
			x, y := rcritJudge(e, i, c, flip)
			a, b = a && x, b && y
		}
		may, must = may || a, must || b
	}
	return
}

func rcritJudge(e, i rrec, c rcrit, flip bool) (may, must bool) {
	const eps = 1e-6
	switch c.field {
	case "amount":
		d := e.amount - i.amount
		switch c.op {
		case "equals":
			lo, hi := math.Min(math.Abs(e.amount), math.Abs(i.amount))*c.drift, math.Max(math.Abs(e.amount), math.Abs(i.amount))*c.drift
			return math.Abs(d) <= hi+eps, math.Abs(d) < eps/2 || math.Abs(d) <= lo-eps
		case "greater_than":
			return d > -eps || flip && d < eps, d > eps && !flip
		case "less_than":
			return d < eps || flip && d > -eps, d < -eps && !flip
		}
	case "date":
		d := e.date.Sub(i.date).Seconds()
		switch c.op {
		case "equals":
			return math.Abs(d) <= c.drift+0.01, math.Abs(d) <= c.drift-0.01
		case "greater_than":
			return d > -0.01 || flip && d < 0.01, d > 0.01 && !flip
		case "less_than":
			return d < 0.01 || flip && d > -0.01, d < -0.01 && !flip
		}
	case "currency":
		if len(i.curs) > 1 {
			return true, false // mixed groups match any currency
		}
		return rtext(keysOf(e.curs)[0], keysOf(i.curs), c)
	case "reference":
		return rtext(e.refs[0], i.refs, c)
	case "description":
		return rtext(e.des[0], i.des, c)
	}
	return false, false
}

func rtext(e string, parts []string, c rcrit) (may, must bool) {
	e = strings.ToLower(e)
	for _, p := range parts {
		p = strings.ToLower(p)
		switch c.op {
		case "equals":
			must = must || e == p
		case "contains":
			must = must || strings.Contains(e, p) || strings.Contains(p, e)
		}
	}
	return must || c.op == "contains" && c.drift > 0, must
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func randRule(rng *rand.Rand) []rcrit {
	var out []rcrit
	fields := []string{"amount", "amount", "date", "description", "reference", "currency"}
	rng.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	seen := map[string]bool{}
	for _, f := range fields[:1+rng.Intn(3)] {
		if seen[f] {
			continue
		}
		seen[f] = true
		c := rcrit{field: f, op: "equals"}
		switch f {
		case "amount":
			c.drift = pick(rng, []float64{0, 0, 0.01, 0.1, 0.5, 1})
			if rng.Intn(8) == 0 {
				c.op = pick(rng, []string{"greater_than", "less_than"})
			}
		case "date":
			c.drift = pick(rng, []float64{0.5, 1, 3, 60, 7200, 86400})
			if rng.Intn(8) == 0 {
				c.op = pick(rng, []string{"greater_than", "less_than"})
			}
		case "description", "reference":
			c.op = pick(rng, []string{"equals", "contains"})
			if c.op == "contains" && rng.Intn(6) == 0 {
				c.drift = 40
			}
		}
		out = append(out, c)
	}
	return out
}

// p30: reconciliation accounts for every record and follows the rules.
func p30(c *rig.Check) {
	c.Rule = "internal transactions are posted, external records derived from them (exact, drifted, unrelated) reconciled under random rules with all three strategies, dry or not, several runs at once, with pages of 3 to 1000 rows; when a run has completed its stored matches and unmatched records are compared with the rules evaluated independently; distinct_nontrivial counts (strategy, grouping, page size, outcome) combinations"
	var jobs []func()
	for i, bs := range []int{3, 7, 1000, 20}[:c.Pick(3, 4)] {
		i, bs := i, bs
		jobs = append(jobs, func() { p30world(c, fmt.Sprintf("pages%d", bs), bs, []int{1, 10, 4, 2}[i], c.Seed*100+int64(i)) })
	}
	all(jobs...)
	rng := rand.New(rand.NewSource(c.Seed*100 + 77))
	if w := boot(c, "ties", rig.Cfg{"transaction": M{"batch_size": 4}}, 1, 0); w != nil {
		defer w.R.Close()
		p30ties(c, w, "ties", 4, rng)
	}
}

type rrun struct {
	id, strategy, grouping string
	dry                    bool
	ext                    []rrec
	extRaw                 []M
	rules                  [][]rcrit
}

func p30world(c *rig.Check, tag string, bs, workers int, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	w := boot(c, tag, rig.Cfg{"transaction": M{"batch_size": bs, "max_workers": workers, "max_queue_size": pick(rng, []int{1, 5, 100})}}, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	for _, cur := range []string{"USD", "EUR"} {
		if err := w.AddBalances(cur, 3, 1000000); err != nil {
			c.Broken("%s: %v", tag, err)
			return
		}
	}
	end := time.Now().Add(time.Duration(c.Pick(25, 400)) * time.Second)
	for round := 0; round < c.Pick(14, 120) && time.Now().Before(end); round++ {
		for k := 0; k < 4+rng.Intn(8); k++ {
			cur := pick(rng, []string{"USD", "USD", "EUR"})
			b := w.Bals[cur]
			r := w.Srv(rng).Txn(M{"amount": float64((1+rng.Intn(60))*pick(rng, []int{100, 50, 1})) / 100, "precision": 100, "currency": cur, "reference": rig.Ref(pick(rng, []string{"inv", "ord"})), "description": pick(rng, []string{"rent", "salary May", "fees", "Rent for flat"}), "source": b[rng.Intn(2)], "destination": b[2], "allow_overdraft": true, "skip_queue": true})
			if !r.OK() {
				c.Broken("%s: post: %v", tag, r)
				return
			}
		}
		// settle: reconciliation's metadata updates of the previous round
		time.Sleep(200 * time.Millisecond)
		ints, rows := p30ints(w)
		if rng.Intn(2) == 0 {
			jitter(w, seed+int64(round), 4, 4)
		}
		var runs []*rrun
		for k := 0; k < 3; k++ {
			if q := p30start(c, w, rng, tag, ints); q != nil {
				runs = append(runs, q)
			}
		}
		for _, q := range runs {
			p30check(c, w, tag, bs, q, ints, rows)
		}
		w.R.Eng.SetHook(nil)
	}
	p30strategy(c, w, tag, rng)
	crashes(c, w, tag)
}

// p30ints reads the internal transactions and their stored columns.
func p30ints(w *rig.World) ([]rrec, map[string]map[string]any) {
	var ints []rrec
	rows := map[string]map[string]any{}
	for _, r := range w.R.Eng.Rows("blnk.transactions") {
		id := rig.Str(r["transaction_id"])
		at, _ := asTime(r["created_at"])
		var amt float64
		fmt.Sscan(fmt.Sprint(r["amount"]), &amt)
		ints = append(ints, rone(id, amt, at, rig.Str(r["reference"]), rig.Str(r["description"]), rig.Str(r["currency"])))
		rows[id] = r
	}
	return ints, rows
}

func p30start(c *rig.Check, w *rig.World, rng *rand.Rand, tag string, ints []rrec) *rrun {
	q := &rrun{strategy: pick(rng, []string{"one_to_one", "one_to_one", "one_to_many", "many_to_one"}), dry: rng.Intn(4) == 0}
	switch q.strategy {
	case "one_to_many":
		q.grouping = pick(rng, []string{"transaction_id", "parent_transaction", "source", "reference", "currency", "destination", "status", "created_at"})
	case "many_to_one":
		q.grouping = pick(rng, []string{"id", "amount", "reference", "currency", "description", "source"})
	}
	var ids []string
	for k := 0; k < 1+rng.Intn(3); k++ {
		rule := randRule(rng)
		q.rules = append(q.rules, rule)
		var cr []M
		for _, x := range rule {
			cr = append(cr, M{"field": x.field, "operator": x.op, "allowable_drift": x.drift})
		}
		p := w.Srv(rng)
		r := p.Do("POST", "/reconciliation/matching-rules", M{"name": "r", "criteria": cr})
		if !r.OK() {
			c.Broken("%s: rule: %v", tag, r)
			return nil
		}
		ids = append(ids, r.S("rule_id"))
	}
	for k := 0; k < 4+rng.Intn(16); k++ {
		base := ints[rng.Intn(len(ints))]
		amt := base.amount * pick(rng, []float64{1, 1, 1.005, 1.05, 0.93, 1.4, 3})
		amt = math.Round(amt*100) / 100
		if q.strategy == "many_to_one" && rng.Intn(2) == 0 {
			amt = math.Round(base.amount*50) / 100
		}
		at := base.date.Add(time.Duration(pick(rng, []float64{0, 0, 0.2, -0.7, 2, -50, 4000}) * float64(time.Second))).Add(time.Duration(k*13) * time.Microsecond).Truncate(time.Microsecond)
		ref := pick(rng, []string{base.refs[0], base.refs[0], strings.ToUpper(base.refs[0]), "x" + base.refs[0] + "y", rig.Ref("none")})
		des := pick(rng, []string{base.des[0], strings.ToUpper(base.des[0]), "rent", "other"})
		cur := pick(rng, []string{keysOf(base.curs)[0], keysOf(base.curs)[0], keysOf(base.curs)[0], "EUR", "GBP"})
		id := rig.Ref("ext")
		q.ext = append(q.ext, rone(id, amt, at, ref, des, cur))
		q.extRaw = append(q.extRaw, M{"id": id, "amount": amt, "reference": ref, "currency": cur, "description": des, "date": at.Format(time.RFC3339Nano), "source": pick(rng, []string{"bank", "psp"})})
	}
	r := w.Srv(rng).Do("POST", "/reconciliation/start-instant", M{"external_transactions": q.extRaw, "strategy": q.strategy, "grouping_criteria": q.grouping, "matching_rule_ids": ids, "dry_run": q.dry})
	q.id = r.S("reconciliation_id")
	if !r.OK() || q.id == "" {
		c.Broken("%s: start: %v", tag, r)
		return nil
	}
	return q
}

func p30rows(w *rig.World, table, id string) (out []map[string]any) {
	for _, r := range w.R.Eng.Rows(table) {
		if rig.Str(r["reconciliation_id"]) == id {
			out = append(out, r)
		}
	}
	return
}

func p30check(c *rig.Check, w *rig.World, tag string, bs int, q *rrun, ints []rrec, rows map[string]map[string]any) {
	var st *rig.Resp
	if !rig.Eventually(30*time.Second, func() bool {
		st = w.S[0].Do("GET", "/reconciliation/"+q.id, nil)
		return st.S("status") == "completed" || st.S("status") == "failed"
	}) {
		c.Violate("never ends "+q.strategy, fmt.Sprintf("[%s] a %s run of %d records by %q under %v neither completed nor failed in 30 s: %v", tag, q.strategy, len(q.ext), q.grouping, q.rules, st), q.extRaw)
		return
	}
	bad := func(key, f string, a ...any) {
		c.Violate(q.strategy+": "+key, fmt.Sprintf("[%s] %s by %q, %d records, %d transactions, rules %v, dry %v: ", tag, q.strategy, q.grouping, len(q.ext), len(ints), q.rules, q.dry)+fmt.Sprintf(f, a...), q.extRaw)
	}
	if st.S("status") == "failed" {
		bad("failed", "the run failed: %v", st)
		return
	}
	c.Add("runs_"+q.strategy, 1)
	nm, nu := num(st.J["matched_transactions"]).Int64(), num(st.J["unmatched_transactions"]).Int64()
	ms, us := p30rows(w, "blnk.matches", q.id), p30rows(w, "blnk.unmatched", q.id)
	if q.dry {
		if len(ms)+len(us) > 0 {
			bad("dry run records", "%d matches and %d unmatched were recorded", len(ms), len(us))
		}
	} else if nm != int64(len(ms)) || nu != int64(len(us)) {
		bad("totals", "totals are %d matched and %d unmatched; %d and %d are recorded", nm, nu, len(ms), len(us))
	}
	byID := map[string]rrec{}
	for _, r := range ints {
		byID[r.id] = r
	}
	for _, r := range q.ext {
		byID[r.id] = r
	}
	pairs := map[string][]string{} // single record -> what it is matched with
	for _, m := range ms {
		e, i := rig.Str(m["external_transaction_id"]), rig.Str(m["internal_transaction_id"])
		if q.strategy == "many_to_one" {
			e, i = i, e
		}
		pairs[e] = append(pairs[e], i)
	}
	un := map[string]int{}
	for _, u := range us {
		un[rig.Str(u["external_transaction_id"])]++
	}
	singles, others := q.ext, ints
	if q.strategy == "many_to_one" {
		singles, others = ints, q.ext
	}
	isSingle := map[string]bool{}
	for _, s := range singles {
		isSingle[s.id] = true
	}
	for id := range pairs {
		if !isSingle[id] {
			bad("foreign record", "%s is matched, which is not a record of this run", id)
		}
	}
	for id := range un {
		if !isSingle[id] {
			bad("foreign record", "%s is unmatched, which is not a record of this run", id)
		}
	}
	// candidate groups
	groups := map[string][]rrec{}
	for _, o := range others {
		key := o.id
		switch q.strategy {
		case "one_to_many":
			v := rows[o.id][q.grouping]
			if v == nil || fmt.Sprint(v) == "" {
				continue
			}
			key = fmt.Sprint(v)
		case "many_to_one":
			for _, x := range q.extRaw {
				if x["id"] == o.id {
					key = fmt.Sprint(x[q.grouping])
				}
			}
		}
		groups[key] = append(groups[key], o)
	}
	flip := q.strategy == "many_to_one"
	var mayN, mustN int64
	for _, s := range singles {
		var must string
		may := false
		for k, g := range groups {
			i := group(g)
			a, b := rjudge(s, i, q.rules, flip)
			if q.strategy == "one_to_one" {
				b = b && same1(s.curs, i.curs)
			}
			may = may || a
			if b {
				must = k
			}
		}
		if may {
			mayN++
		}
		if must != "" {
			mustN++
		}
		out := "unmatched"
		if may {
			out = "matched"
		}
		c.Case(fmt.Sprintf("%s %s %d %s dry%v", q.strategy, q.grouping, bs, out, q.dry), may)
		c.Add("records_judged", 1)
		if q.dry {
			continue
		}
		mine := pairs[s.id]
		switch {
		case len(mine) == 0 && un[s.id] == 0:
			bad("neither", "%s is neither matched nor unmatched", s.id)
		case len(mine) > 0 && un[s.id] > 0:
			bad("both", "%s is matched with %v and unmatched", s.id, mine)
		case un[s.id] > 1:
			bad("counted twice", "%s is counted unmatched %d times", s.id, un[s.id])
		case un[s.id] == 1 && must != "":
			bad("missed", "%v is unmatched, though %v satisfies the rules", s, groups[must])
		case len(mine) > 0:
			sort.Strings(mine)
			ok := false
			var k string
			for key, g := range groups {
				var gid []string
				for _, r := range g {
					gid = append(gid, r.id)
				}
				sort.Strings(gid)
				if strings.Join(gid, " ") == strings.Join(mine, " ") {
					ok, k = true, key
				}
			}
			if !ok {
				if q.strategy == "one_to_one" && len(mine) > 1 {
					bad("counted twice", "%v is matched %d times: %v", s, len(mine), mine)
				} else {
					bad("not a group", "%s is matched with %v, which is not one of the groups by %s", s.id, mine, q.grouping)
				}
				continue
			}
			if a, _ := rjudge(s, group(groups[k]), q.rules, flip); !a {
				bad("rules not met", "%v is matched with %v, which satisfies no rule", s, groups[k])
			}
		}
	}
	if q.dry {
		if q.strategy == "one_to_one" && (nm+nu != int64(len(q.ext)) || nm < mustN || nm > mayN) {
			bad("dry totals", "totals are %d matched and %d unmatched; between %d and %d satisfy the rules", nm, nu, mustN, mayN)
		}
		if nu < int64(len(singles))-mayN || nu > int64(len(singles))-mustN {
			bad("dry totals", "%d are unmatched; between %d and %d of %d satisfy the rules", nu, mustN, mayN, len(singles))
		}
		for _, r := range w.R.Eng.Rows("blnk.transactions") {
			if b, _ := json.Marshal(r["meta_data"]); strings.Contains(string(b), q.id) {
				bad("dry run records", "transaction %v carries the run's id", r["transaction_id"])
			}
		}
	}
	if q.strategy == "many_to_one" && !q.dry {
		ext := map[string]bool{}
		for _, l := range pairs {
			for _, e := range l {
				ext[e] = true
			}
		}
		for _, e := range q.ext {
			if !ext[e.id] && un[e.id] == 0 {
				c.Violate("many_to_one: external record in neither count", fmt.Sprintf("[%s] %v matches no transaction and is not counted unmatched either", tag, e), q.extRaw)
				break
			}
		}
	}
}

func same1(a, b map[string]bool) bool { return strings.Join(keysOf(a), " ") == strings.Join(keysOf(b), " ") }

// p30strategy: an unknown strategy does not complete; unknown rules fail the run.
func p30strategy(c *rig.Check, w *rig.World, tag string, rng *rand.Rand) {
	rule := w.S[0].Do("POST", "/reconciliation/matching-rules", M{"name": "r", "criteria": []M{{"field": "amount", "operator": "equals"}}}).S("rule_id")
	for _, x := range []M{{"strategy": "one_to_none", "rule": rule}, {"strategy": "one_to_one", "rule": "rule_none"}} {
		r := w.Srv(rng).Do("POST", "/reconciliation/start-instant", M{"external_transactions": []M{{"id": rig.Ref("ext"), "amount": 1, "reference": "r", "currency": "USD", "description": "d", "date": "2026-01-01T00:00:00Z", "source": "s"}}, "strategy": x["strategy"], "matching_rule_ids": []any{x["rule"]}})
		if !r.OK() {
			c.Case(fmt.Sprintf("refused %v", x["strategy"]), true)
			continue
		}
		var st *rig.Resp
		rig.Eventually(15*time.Second, func() bool {
			st = w.S[0].Do("GET", "/reconciliation/"+r.S("reconciliation_id"), nil)
			return st.S("status") == "completed" || st.S("status") == "failed"
		})
		c.Case(fmt.Sprintf("%v %s", x["strategy"], st.S("status")), true)
		if st.S("status") == "completed" {
			c.Violate("completes without reconciling", fmt.Sprintf("[%s] a run with %v completed with %v matched and %v unmatched of one record", tag, x, st.J["matched_transactions"], st.J["unmatched_transactions"]), nil)
		}
	}
}

// p30ties: records of the same date, read by pages from a database that orders equal
// dates as it likes.
func p30ties(c *rig.Check, w *rig.World, tag string, bs int, rng *rand.Rand) {
	pgfake.ShuffleTies(1 + rng.Int63())
	defer pgfake.ShuffleTies(0)
	rule := w.S[0].Do("POST", "/reconciliation/matching-rules", M{"name": "r", "criteria": []M{{"field": "reference", "operator": "equals"}}}).S("rule_id")
	var ext []M
	for i := 0; i < 12; i++ {
		ext = append(ext, M{"id": rig.Ref("tie"), "amount": 1, "reference": rig.Ref("r"), "currency": "USD", "description": "d", "date": "2026-01-01T00:00:00Z", "source": "s"})
	}
	r := w.Srv(rng).Do("POST", "/reconciliation/start-instant", M{"external_transactions": ext, "strategy": "one_to_one", "matching_rule_ids": []string{rule}})
	id := r.S("reconciliation_id")
	var st *rig.Resp
	rig.Eventually(20*time.Second, func() bool {
		st = w.S[0].Do("GET", "/reconciliation/"+id, nil)
		return st.S("status") == "completed" || st.S("status") == "failed"
	})
	seen := map[string]int{}
	for _, u := range p30rows(w, "blnk.unmatched", id) {
		seen[rig.Str(u["external_transaction_id"])]++
	}
	c.Case(fmt.Sprintf("ties %d", bs), bs < 12)
	for _, e := range ext {
		if seen[rig.Str(e["id"])] != 1 {
			c.Violate("records of equal dates over several pages", fmt.Sprintf("[%s] 12 records of one date, pages of %d: %v is counted %d times (%v)", tag, bs, e["id"], seen[rig.Str(e["id"])], st), ext)
			return
		}
	}
}
