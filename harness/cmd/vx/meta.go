package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() { checks["P31"] = p31 }

var metaTables = map[string]string{"blnk.ledgers": "ledger_id", "blnk.balances": "balance_id", "blnk.identity": "identity_id", "blnk.transactions": "transaction_id", "blnk.accounts": "account_id"}

// metaRow is a stored record: its metadata, by key, and everything else.
type metaRow struct {
	table, id, parent string
	meta              map[string]string
	rest              string
	row               map[string]any
}

func metaOf(v any) map[string]string {
	out := map[string]string{}
	var b []byte
	switch x := v.(type) {
	case nil:
		return out
	case string:
		b = []byte(x)
	case []byte:
		b = x
	default:
		b, _ = json.Marshal(x)
	}
	e, _ := exact(b)
	if s, ok := e.(string); ok {
		e, _ = exact([]byte(s))
	}
	m, _ := e.(map[string]any)
	for k, v := range m {
		out[k] = exactText(v)
	}
	return out
}

func metaRows(r *rig.Rig) map[string]*metaRow {
	out := map[string]*metaRow{}
	for t, col := range metaTables {
		for _, row := range r.Eng.Rows(t) {
			m := &metaRow{table: t, id: rig.Str(row[col]), meta: metaOf(row["meta_data"]), row: row}
			if row["parent_transaction"] != nil {
				m.parent = rig.Str(row["parent_transaction"])
			}
			ks := make([]string, 0, len(row))
			for k := range row {
				if k != "meta_data" {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				m.rest += fmt.Sprintf("%s=%v|", k, row[k])
			}
			out[t+" "+m.id] = m
		}
	}
	return out
}

func metaText(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q: %s, ", k, m[k])
	}
	return b.String()
}

func metaVal(r *rand.Rand, depth int) any {
	switch n := r.Intn(13); {
	case n == 0:
		return nil
	case n == 1:
		return r.Intn(2) == 0
	case n == 2:
		return r.Int63n(1 << 53)
	case n == 3:
		return -0.125
	case n == 4:
		return 0.1
	case n == 5:
		return "it's \"x\" \\ $1 %s é 🙂 <&>"
	case n == 6:
		return ""
	case n == 7:
		return strings.Repeat("long ", r.Intn(300))
	case n < 11 && depth > 0:
		m := map[string]any{}
		for i := r.Intn(4); i >= 0; i-- {
			m[pick(r, metaKeys)] = metaVal(r, depth-1)
		}
		return m
	case depth > 0:
		l := []any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, metaVal(r, depth-1))
		}
		return l
	}
	return fmt.Sprint("v", r.Intn(1000))
}

var metaKeys = []string{"a", "b", "c", "d", "", "é", "a.b", "a'b", "a\"b", "$1", "{}", "status", "amount", "reference", "0", "A", "meta_data", strings.Repeat("k", 200)}

// p31: a metadata update changes the keys given of the entity addressed, and nothing else.
func p31(c *rig.Check) {
	c.Rule = "ledgers, balances, identities, single, queued, held, settled, refunded, split and bulk transactions are updated through several servers with hostile keys and values; after each update every stored record is compared with the one before it, column by column and key by key; then many clients update the same entities at once with keys of their own while postings and other updates go on, and every acknowledged key must be there; distinct_nontrivial counts (kind of entity, what it held, keys replaced or new, records related) kinds"
	all(
		func() { p31run(c, "one", 1) },
		func() { p31run(c, "two", 2) },
	)
}

func p31run(c *rig.Check, tag string, seed int64) {
	w := boot(c, tag, nil, 2, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(c.Seed*1000 + seed))
	if err := w.AddBalances("USD", 5, 100000); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	ids := []string{w.Ledger}
	for i := 0; i < 3; i++ {
		l := w.Srv(rng).Do("POST", "/ledgers", M{"name": fmt.Sprint("l", i), "meta_data": M{"own": i, "a": M{"b": 1}}})
		b := w.Srv(rng).Do("POST", "/balances", M{"ledger_id": l.S("ledger_id"), "currency": "USD", "meta_data": M{"own": i, "n": nil}})
		d := M{"identity_type": "individual", "first_name": fmt.Sprint("f", i), "dob": "1990-05-17T00:00:00Z"}
		if i > 0 {
			d["meta_data"] = M{"own": i, "l": []any{1, "x"}}
		}
		n := w.Srv(rng).Do("POST", "/identities", d)
		if !l.OK() || !b.OK() || !n.OK() {
			c.Broken("%s: %v %v %v", tag, l, b, n)
			return
		}
		ids = append(ids, l.S("ledger_id"), b.S("balance_id"), n.S("identity_id"))
	}
	ids = append(ids, w.Bals["USD"]...)
	// transactions of every kind; some carry metadata of their own
	for i := 0; i < 6; i++ {
		w.Srv(rng).Txn(M{"amount": 1 + i, "precision": 100, "currency": "USD", "reference": rig.Ref("m"), "description": "d", "source": w.Bals["USD"][0], "destination": w.Bals["USD"][1], "skip_queue": i%2 == 0, "inflight": i > 2, "meta_data": M{"own": i, "a": []any{1, 2}}})
	}
	m := fullMix
	m.N, m.Conc = c.Pick(50, 150), 4
	w.Run(m, c.Seed+seed)
	var bulks []string
	for i := 0; i < 2; i++ {
		w.Bulk(rng, 3, i == 0, i == 1, true)
	}
	w.R.Drain(20*time.Second, false)
	w.R.Audit.Settle(tag, "doubleentry")
	parents := map[string]bool{}
	txs := []string{}
	w.R.Audit.With(func() {
		for _, r := range w.R.Audit.Ord {
			txs = append(txs, r.ID)
			if r.Parent != "" {
				parents[r.Parent] = true
			}
		}
	})
	for p := range parents {
		if strings.HasPrefix(p, "bulk_") {
			bulks = append(bulks, p)
		}
	}
	sort.Strings(bulks)
	quiet := func() map[string]*metaRow {
		a := metaRows(w.R)
		for i := 0; i < 20; i++ {
			time.Sleep(100 * time.Millisecond)
			b := metaRows(w.R)
			if len(a) == len(b) {
				return b
			}
			a = b
		}
		return a
	}
	before := quiet()
	for i := 0; i < c.Pick(140, 900) && c.Violations() < 5; i++ {
		var id string
		switch n := rng.Intn(10); {
		case n < 4:
			id = pick(rng, ids)
		case n < 9 || len(bulks) == 0:
			id = pick(rng, txs)
		default:
			id = pick(rng, bulks)
		}
		up := M{}
		for k := rng.Intn(4); k >= 0; k-- {
			up[pick(rng, metaKeys)] = metaVal(rng, 2)
		}
		kind := "update"
		var body any = M{"meta_data": up}
		switch rng.Intn(14) {
		case 0:
			kind, id = "unknown", id[:strings.Index(id, "_")+1]+"00000000-0000-4000-8000-000000000000"
			if strings.HasPrefix(id, "general") {
				id = "ldg_00000000-0000-4000-8000-000000000000"
			}
		case 1:
			kind, id = "no kind", pick(rng, []string{"xyz_1", "acc_00000000-0000-4000-8000-000000000000", "00000000-0000-4000-8000-000000000000", "txn"})
		case 2:
			kind, body = "malformed", pick(rng, []any{M{}, M{"meta_data": nil}, M{"meta_data": "x"}, M{"meta_data": []any{1}}, M{"meta": up}, []any{1}})
		case 3:
			kind, body, up = "nothing", M{"meta_data": M{}}, M{}
		}
		p := w.Srv(rng)
		r := p.Do("POST", "/"+id+"/metadata", body)
		after := metaRows(w.R)
		metaJudge(c, tag, kind, id, up, r, before, after)
		before = after
		if kind == "update" && r.OK() {
			p31read(c, w, rng, tag, id, up)
		}
	}
	p31storm(c, w, rng, tag, ids, txs, bulks, seed)
	crashes(c, w, tag)
}

func p31storm(c *rig.Check, w *rig.World, rng *rand.Rand, tag string, ids, txs, bulks []string, seed int64) {
	targets := append([]string{}, w.Bals["USD"][:2]...)
	targets = append(targets, ids[1:4]...)
	for i := 0; i < 3; i++ {
		targets = append(targets, pick(rng, txs))
	}
	targets = append(targets, bulks...)
	related := metaRows(w.R)
	var mu sync.Mutex
	last := map[string]map[string][]string{} // id → key → values it may have
	var wg sync.WaitGroup
	n := c.Pick(8, 10)
	wg.Add(1)
	go func() {
		defer wg.Done()
		w.Run(rig.Mix{Sync: 4, Queued: 2, HoldSync: 2, Settle: 2, N: c.Pick(40, 120), Conc: 3}, c.Seed+seed+77)
	}()
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int, rng *rand.Rand) {
			defer wg.Done()
			for i := 0; i < c.Pick(14, 50); i++ {
				id := pick(rng, targets)
				k := fmt.Sprintf("client %d key %d", g, rng.Intn(3))
				v := fmt.Sprint("v", g, "-", i)
				r := w.Srv(rng).Do("POST", "/"+id+"/metadata", M{"meta_data": M{k: v}})
				mu.Lock()
				if last[id] == nil {
					last[id] = map[string][]string{}
				}
				if r.OK() {
					last[id][k] = []string{fmt.Sprintf("%q", v)}
					c.Add("concurrent_updates", 1)
				} else {
					if last[id][k] == nil {
						last[id][k] = []string{""}
					}
					last[id][k] = append(last[id][k], fmt.Sprintf("%q", v))
					c.Add("concurrent_refused", 1)
				}
				mu.Unlock()
			}
		}(g, rand.New(rand.NewSource(rng.Int63())))
	}
	wg.Wait()
	w.R.Drain(20*time.Second, false)
	now := metaRows(w.R)
	byID := map[string][]*metaRow{}
	for _, m := range now {
		byID[m.id] = append(byID[m.id], m)
		if _, was := related[m.table+" "+m.id]; was && m.parent != "" && m.parent != m.id {
			byID[m.parent] = append(byID[m.parent], m)
		}
	}
	overlap := func(m *metaRow) bool { // addressed by its own id and by its parent's
		return m.parent != "" && last[m.id] != nil && last[m.parent] != nil
	}
	for id, ks := range last {
		for _, m := range byID[id] {
			if overlap(m) {
				continue
			}
			for k, vs := range ks {
				ok := false
				for _, v := range vs {
					ok = ok || m.meta[k] == v
				}
				if !ok {
					c.Violate("lost", fmt.Sprintf("[%s] %s %s has %q: %s after %v was acknowledged last (updates of %s by several clients at once)", tag, m.table, m.id, k, m.meta[k], vs, id), nil)
				}
				c.Add("keys_compared", 1)
			}
			for k, v := range related[m.table+" "+m.id].meta {
				if _, mine := ks[k]; !mine && m.meta[k] != v {
					c.Violate("others", fmt.Sprintf("[%s] %s %s: %q became %s from %s though no update named it", tag, m.table, m.id, k, m.meta[k], v), nil)
				}
			}
		}
	}
}

// metaJudge compares every record with what an update should have made of it.
func metaJudge(c *rig.Check, tag, kind, id string, up M, r *rig.Resp, before, after map[string]*metaRow) {
	say := func(key, f string, a ...any) {
		b, _ := json.Marshal(up)
		c.Violate(key, fmt.Sprintf("[%s] %s of %s with %.400s (answer %.300s): %s", tag, kind, id, b, r.String(), cut(fmt.Sprintf(f, a...), 700)), nil)
	}
	switch kind {
	case "unknown":
		if r.Code != 404 {
			say("unknown", "an unknown entity is answered with %d", r.Code)
		}
	case "no kind", "malformed":
		if r.Code < 400 || r.Code >= 500 {
			say("refuse", "the request is answered with %d", r.Code)
		}
	default:
		if !r.OK() {
			say("refused", "the update of an entity that exists is refused")
			return
		}
	}
	must, may := map[string]bool{}, map[string]bool{}
	if r.OK() {
		for k, m := range before {
			if m.id == id || m.table == "blnk.transactions" && m.parent == id {
				if m.table != "blnk.accounts" {
					must[k] = true
				}
			}
		}
		tree := map[string]bool{id: true}
		for n := -1; n != len(tree); {
			n = len(tree)
			for k, m := range before {
				if m.table == "blnk.transactions" && (tree[m.parent] || tree[m.id]) && !may[k] {
					may[k], tree[m.id] = true, true
				}
			}
		}
		if len(must) == 0 {
			say("unknown", "nothing has that id, and the update is confirmed")
		}
	}
	want := metaOf(map[string]any(up))
	shape, changed := "", 0
	for k, m := range before {
		n := after[k]
		if n == nil {
			say("gone", "%s is gone", k)
			continue
		}
		if n.rest != m.rest {
			say("columns", "%s is changed beside its metadata: %s", k, lineDiff(strings.ReplaceAll(m.rest, "|", "\n"), strings.ReplaceAll(n.rest, "|", "\n")))
		}
		exp := map[string]string{}
		for a, b := range m.meta {
			exp[a] = b
		}
		for a, b := range want {
			exp[a] = b
		}
		same := metaText(n.meta) == metaText(m.meta)
		switch {
		case must[k]:
			if metaText(n.meta) != metaText(exp) {
				say("merge", "%s had %s and has %s, expected %s", k, metaText(m.meta), metaText(n.meta), metaText(exp))
			}
			changed++
			old, repl := len(m.meta) > 0, len(exp) < len(m.meta)+len(want)
			if s := fmt.Sprintf("%s had %v replaces %v", m.table, old, repl); s > shape {
				shape = s
			}
		case may[k]:
			if !same && metaText(n.meta) != metaText(exp) {
				say("merge", "%s (a later record of it) had %s and has %s", k, metaText(m.meta), metaText(n.meta))
			}
		case !same:
			say("others", "%s is not addressed and its metadata became %s from %s", k, metaText(n.meta), metaText(m.meta))
		}
	}
	if len(after) != len(before) {
		say("gone", "%d records became %d", len(before), len(after))
	}
	if changed > 4 {
		changed = 4
	}
	c.Case(fmt.Sprintf("%s %s related %d", kind, shape, changed), kind == "update")
	c.Add(strings.ReplaceAll(kind, " ", "_")+"_requests", 1)
	c.Add("records_compared", int64(len(before)))
}

// p31read: what was acknowledged is what the API reads.
func p31read(c *rig.Check, w *rig.World, rng *rand.Rand, tag, id string, up M) {
	path := map[string]string{"ldg_": "/ledgers/", "bln_": "/balances/", "idt_": "/identities/", "gene": "/ledgers/"}[id[:4]]
	if path == "" {
		return
	}
	g := w.Srv(rng).Do("GET", path+id, nil)
	e, _ := exact(g.Raw)
	m, _ := e.(map[string]any)
	got := metaOf(m["meta_data"])
	for k, v := range metaOf(map[string]any(up)) {
		if got[k] != v {
			c.Violate("read", fmt.Sprintf("[%s] %s reads %q: %s after it was set to %s: %s", tag, id, k, got[k], v, g), nil)
		}
	}
	c.Add("reads_compared", 1)
}
