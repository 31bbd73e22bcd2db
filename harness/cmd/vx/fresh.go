package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() { checks["P37"] = p37 }

// cell is an entity one writer keeps changing: its n-th write sets it to value n.
type cell struct {
	kind   *ckind
	id     string
	k      int
	acked  atomic.Int64
	begun  atomic.Int64
	prefix string
}

func (e *cell) val(n int64) string { return fmt.Sprintf("%s-%d-%d", e.prefix, e.k, n) }

// read is one way of reading a kind's cells: one of them, or all there are.
type cread struct {
	name string
	all  bool
	path func(e *cell) (method, path string, body any)
}

type ckind struct {
	name, idkey string
	cells       []*cell
	write       func(p *rig.Proc, e *cell, n int64) *rig.Resp
	// value finds n in what was read; whose says which cell the value belongs to (-1: does not tell).
	value func(e *cell, o map[string]any, floor int64) (n int64, whose int, ok bool)
	reads []cread
}

func tagged(s string) (k int, n int64, ok bool) {
	p := strings.Split(s, "-")
	if len(p) < 3 {
		return 0, 0, false
	}
	a, err := strconv.Atoi(p[len(p)-2])
	b, err2 := strconv.ParseInt(p[len(p)-1], 10, 64)
	return a, b, err == nil && err2 == nil
}

func textOf(key string) func(*cell, map[string]any, int64) (int64, int, bool) {
	return func(e *cell, o map[string]any, _ int64) (int64, int, bool) {
		s, _ := o[key].(string)
		k, n, ok := tagged(s)
		return n, k, ok && strings.HasPrefix(s, e.prefix+"-")
	}
}

func metaTag(e *cell, o map[string]any, floor int64) (int64, int, bool) {
	m, _ := o["meta_data"].(map[string]any)
	if m == nil {
		return 0, 0, false
	}
	return textOf("fresh")(e, m, floor)
}

func setMeta(p *rig.Proc, e *cell, n int64) *rig.Resp {
	return p.Do("POST", "/"+e.id+"/metadata", M{"meta_data": M{"fresh": e.val(n)}})
}

func byID(route string, q ...string) cread {
	x := ""
	if len(q) > 0 {
		x = "?" + q[0]
	}
	return cread{"GET " + route + "/:id" + x, false, func(e *cell) (string, string, any) { return "GET", route + "/" + e.id + x, nil }}
}

func listed(route string) cread {
	return cread{"GET " + route, true, func(e *cell) (string, string, any) { return "GET", route + "?limit=5000", nil }}
}

func filtered(route, field string) cread {
	return cread{"POST " + route + "/filter", false, func(e *cell) (string, string, any) {
		return "POST", route + "/filter", M{"filters": []M{{"field": field, "operator": "eq", "value": e.id}}}
	}}
}

func objects(r *rig.Resp) []map[string]any {
	var l []any
	switch {
	case r.L != nil:
		l = r.L
	case r.J != nil:
		if d, ok := r.J["data"].([]any); ok {
			l = d
		} else {
			l = []any{map[string]any(r.J)}
		}
	}
	var out []map[string]any
	for _, x := range l {
		if m, ok := x.(map[string]any); ok {
			out = append(out, m)
		}
	}
	return out
}

// p37: reads after a write see it.
func p37(c *rig.Check) {
	c.Rule = "every kind of record and setting has one writer numbering its changes over several servers and many readers, on other servers, of every route that shows it; a read begun after change n was acknowledged must show n or later, nothing not begun, and nothing of another record; records are looked for before they exist and after they are deleted; a changed matching rule must govern the next run and a run over one upload must see that upload's records; distinct_nontrivial counts (kind, route, same server or another, changes since) kinds"
	all(
		func() { p37run(c, "three servers", 1) },
		func() { p37rules(c, "rules", 2) },
	)
}

type p37w struct {
	*rig.World
	c     *rig.Check
	tag   string
	end   time.Time
	kinds []*ckind
}

func (w *p37w) over() bool { return time.Now().After(w.end) || w.c.Violations() > 0 }

func p37run(c *rig.Check, tag string, seed int64) {
	base := boot(c, tag, rig.Cfg{"server": M{"secure": true, "secret_key": "fresh-master"}}, 3, 0)
	if base == nil {
		return
	}
	defer base.R.Close()
	w := &p37w{World: base, c: c, tag: tag}
	if err := w.AddBalances("USD", 1, 0); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	if !w.build(seed) {
		return
	}
	jitter(base, c.Seed*1000+seed, 12, 12)
	w.end = time.Now().Add(time.Duration(c.Pick(22, 1200)) * time.Second)
	var wg sync.WaitGroup
	spawn := func(s int64, f func(*rand.Rand)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(c.Seed*100000 + seed*1000 + s))
			for !w.over() {
				f(rng)
			}
		}()
	}
	s := int64(0)
	for _, k := range w.kinds {
		for _, e := range k.cells {
			s++
			e := e
			spawn(s, func(r *rand.Rand) { w.write(e, r) })
		}
	}
	for i := int64(0); i < 10; i++ {
		spawn(500+i, func(r *rand.Rand) { w.read(r) })
	}
	for i := int64(0); i < 2; i++ {
		spawn(600+i, func(r *rand.Rand) { w.refs(r, i) })
		spawn(610+i, w.gone)
	}
	wg.Wait()
	base.R.Eng.SetHook(nil)
	var writes int64
	for _, k := range w.kinds {
		for _, e := range k.cells {
			writes += e.acked.Load()
		}
	}
	c.Add("writes_acknowledged", writes)
	if writes < 200 {
		c.Broken("%s: only %d writes", tag, writes)
	}
	crashes(c, base, tag)
}

func (w *p37w) build(seed int64) bool {
	p := w.S[0]
	var failed *rig.Resp
	get := func(r *rig.Resp, key string) string {
		if !r.OK() || r.S(key) == "" {
			failed = r
		}
		return r.S(key)
	}
	ledger := func() string { return get(p.Do("POST", "/ledgers", M{"name": rig.Ref("l")}), "ledger_id") }
	ident := func() string {
		return get(p.Do("POST", "/identities", M{"identity_type": "individual", "first_name": "none", "last_name": "l", "email_address": "a@b.co", "gender": "f", "nationality": "x", "category": "c"}), "identity_id")
	}
	led := ledger()
	bal := func() string {
		return get(p.Do("POST", "/balances", M{"ledger_id": led, "currency": "USD"}), "balance_id")
	}
	posted := map[string]string{}
	txn := func() string {
		ref := rig.Ref("t")
		id := get(p.Txn(M{"amount": 1, "precision": 100, "reference": ref, "currency": "USD", "description": "d", "source": "@world", "destination": w.Bals["USD"][0], "allow_overdraft": true, "skip_queue": true}), "transaction_id")
		posted[id] = ref
		return id
	}
	add := func(k *ckind, n int, make func() string) {
		for i := 0; i < n; i++ {
			e := &cell{kind: k, id: make(), k: i, prefix: strings.ReplaceAll(k.name, " ", "_")}
			k.cells = append(k.cells, e)
		}
		w.kinds = append(w.kinds, k)
	}
	add(&ckind{name: "ledger name", idkey: "ledger_id", value: textOf("name"),
		write: func(p *rig.Proc, e *cell, n int64) *rig.Resp {
			return p.Do("PUT", "/ledgers/"+e.id, M{"name": e.val(n)})
		},
		reads: []cread{byID("/ledgers"), listed("/ledgers"), filtered("/ledgers", "ledger_id")}}, 3, ledger)
	add(&ckind{name: "ledger metadata", idkey: "ledger_id", value: metaTag, write: setMeta,
		reads: []cread{byID("/ledgers"), listed("/ledgers"), filtered("/ledgers", "ledger_id")}}, 2, ledger)
	idk := &ckind{name: "identity name", idkey: "identity_id", value: textOf("first_name"),
		write: func(p *rig.Proc, e *cell, n int64) *rig.Resp {
			return p.Do("PUT", "/identities/"+e.id, M{"identity_type": "individual", "first_name": e.val(n), "last_name": "l", "email_address": "a@b.co", "gender": "f", "nationality": "x", "category": "c"})
		},
		reads: []cread{byID("/identities"), listed("/identities"), filtered("/identities", "identity_id")}}
	add(idk, 3, ident)
	add(&ckind{name: "identity metadata", idkey: "identity_id", value: metaTag, write: setMeta,
		reads: []cread{byID("/identities"), listed("/identities"), filtered("/identities", "identity_id")}}, 2, ident)
	credit := func(e *cell, o map[string]any, _ int64) (int64, int, bool) {
		v, ok := o["credit_balance"]
		return num(v).Int64(), -1, ok
	}
	at := cread{"GET /balances/:id/at", false, func(e *cell) (string, string, any) {
		return "GET", "/balances/" + e.id + "/at?timestamp=" + url.QueryEscape(time.Now().Add(time.Minute).UTC().Format(time.RFC3339)), nil
	}}
	atSrc := cread{"GET /balances/:id/at from source", false, func(e *cell) (string, string, any) {
		return "GET", "/balances/" + e.id + "/at?from_source=true&timestamp=" + url.QueryEscape(time.Now().Add(time.Minute).UTC().Format(time.RFC3339)), nil
	}}
	add(&ckind{name: "balance", idkey: "balance_id", value: func(e *cell, o map[string]any, f int64) (int64, int, bool) {
		if b, ok := o["balance"].(map[string]any); ok {
			o = b
		}
		return credit(e, o, f)
	},
		write: func(p *rig.Proc, e *cell, n int64) *rig.Resp {
			return p.Txn(M{"precise_amount": 1, "precision": 1, "reference": rig.Ref("post"), "currency": "USD", "description": "d", "source": fmt.Sprintf("@fresh%d", e.k), "destination": e.id, "allow_overdraft": true, "skip_queue": true})
		},
		reads: []cread{byID("/balances"), byID("/balances", "with_queued=true"), byID("/balances", "include=ledger&include=identity"), listed("/balances"), filtered("/balances", "balance_id"), at, atSrc}}, 4, bal)
	add(&ckind{name: "balance metadata", idkey: "balance_id", value: metaTag, write: setMeta,
		reads: []cread{byID("/balances"), listed("/balances"), filtered("/balances", "balance_id")}}, 2, bal)
	owners := map[string]int64{}
	var ids []string
	for i := 0; i < 25; i++ {
		id := ident()
		owners[id] = int64(i)
		ids = append(ids, id)
	}
	add(&ckind{name: "balance owner", idkey: "balance_id",
		value: func(e *cell, o map[string]any, floor int64) (int64, int, bool) {
			s, _ := o["identity_id"].(string)
			if s == "" {
				return 0, -1, true
			}
			i, ok := owners[s]
			d := (i - floor) % 25
			if d < 0 {
				d += 25
			}
			return floor + d, -1, ok
		},
		write: func(p *rig.Proc, e *cell, n int64) *rig.Resp {
			return p.Do("PUT", "/balances/"+e.id+"/identity", M{"identity_id": ids[n%25]})
		},
		reads: []cread{byID("/balances"), listed("/balances"), filtered("/balances", "balance_id")}}, 2, bal)
	// a balance whose reader asks for its owner along with it: the owner's name is what changes
	owned := map[string]string{}
	for _, e := range idk.cells {
		b := get(p.Do("POST", "/balances", M{"ledger_id": led, "currency": "USD", "identity_id": e.id}), "balance_id")
		owned[e.id] = b
	}
	idk.reads = append(idk.reads, cread{"GET /balances/:id?include=identity", false, func(e *cell) (string, string, any) {
		return "GET", "/balances/" + owned[e.id] + "?include=identity", nil
	}})
	add(&ckind{name: "transaction metadata", idkey: "transaction_id", value: metaTag, write: setMeta,
		reads: []cread{byID("/transactions"), filtered("/transactions", "transaction_id"),
			{"GET /transactions/reference/:ref", false, func(e *cell) (string, string, any) {
				return "GET", "/transactions/reference/" + posted[e.id], nil
			}}}}, 3, txn)
	mbal := bal()
	add(&ckind{name: "monitor", idkey: "monitor_id",
		value: func(e *cell, o map[string]any, _ int64) (int64, int, bool) {
			m, _ := o["condition"].(map[string]any)
			v, ok := m["value"]
			n := num(v).Int64()
			return n / 10, int(n % 10), ok
		},
		write: func(p *rig.Proc, e *cell, n int64) *rig.Resp {
			return p.Do("PUT", "/balance-monitors/"+e.id, M{"balance_id": mbal, "condition": M{"field": "balance", "operator": ">", "value": n*10 + int64(e.k), "precision": 1}})
		},
		reads: []cread{byID("/balance-monitors"), listed("/balance-monitors"),
			{"GET /balance-monitors/balances/:id", true, func(*cell) (string, string, any) {
				return "GET", "/balance-monitors/balances/" + mbal, nil
			}}}}, 3, func() string {
		i := 0
		for _, k := range w.kinds {
			if k.name == "monitor" {
				i = len(k.cells)
			}
		}
		return get(p.Do("POST", "/balance-monitors", M{"balance_id": mbal, "condition": M{"field": "balance", "operator": ">", "value": i + 5, "precision": 1}}), "monitor_id")
	})
	hook := func(name string) M {
		return M{"name": name, "url": w.R.Hooks.Base("/fresh"), "type": "POST_TRANSACTION", "active": false}
	}
	add(&ckind{name: "hook", idkey: "id", value: textOf("name"),
		write: func(p *rig.Proc, e *cell, n int64) *rig.Resp {
			return p.Do("PUT", "/hooks/"+e.id, hook(e.val(n)))
		},
		reads: []cread{byID("/hooks"), listed("/hooks")}}, 2, func() string { return get(p.Do("POST", "/hooks", hook("none")), "id") })
	if failed != nil {
		w.c.Broken("%s: %v", w.tag, failed)
		return false
	}
	for _, k := range w.kinds {
		for i, e := range k.cells {
			e.k = i
			if k.name == "balance" {
				continue
			}
			// the first value, so that every read has something of its own to show
			e.begun.Store(1)
			if r := k.write(p, e, 1); !r.OK() {
				w.c.Broken("%s: %s: %v", w.tag, k.name, r)
				return false
			}
			e.acked.Store(1)
		}
	}
	return true
}

func (w *p37w) write(e *cell, r *rand.Rand) {
	time.Sleep(time.Duration(r.Intn(120)) * time.Millisecond)
	n := e.acked.Load() + 1
	e.begun.Store(n)
	for try := 0; ; try++ {
		x := e.kind.write(w.Srv(r), e, n)
		if x.OK() {
			e.acked.Store(n)
			return
		}
		if e.kind.name == "balance" && x.Code != 423 && x.Code != 409 && x.Code < 500 || try > 20 {
			w.c.Broken("%s: writing %s fails: %v", w.tag, e.kind.name, x)
			return
		}
	}
}

func (w *p37w) read(r *rand.Rand) {
	k := pick(r, w.kinds)
	e := pick(r, k.cells)
	rd := k.reads[r.Intn(len(k.reads))]
	floor := make([]int64, len(k.cells))
	for i, x := range k.cells {
		floor[i] = x.acked.Load()
	}
	m, path, body := rd.path(e)
	p := w.Srv(r)
	res := p.Do(m, path, body)
	if w.over() && !res.OK() {
		return
	}
	bad := func(key, f string, a ...any) {
		w.c.Violate(k.name+" by "+rd.name+": "+key, fmt.Sprintf("[%s] %s %s on %s: ", w.tag, m, path, p.Name)+fmt.Sprintf(f, a...), []string{res.String()})
	}
	if res.Code != 200 && res.Code != 201 {
		bad("unreadable", "a record there is cannot be read: %v", res)
		return
	}
	found := map[string]map[string]any{}
	objs := objects(res)
	for _, o := range objs {
		id, _ := o[k.idkey].(string)
		if b, ok := o["balance"].(map[string]any); ok && id == "" {
			id, _ = b["balance_id"].(string)
		}
		if i, ok := o["identity"].(map[string]any); ok && k.idkey == "identity_id" {
			o, id = i, rig.Str(i["identity_id"])
		}
		if found[id] != nil {
			bad("twice", "%s is shown twice", id)
			return
		}
		found[id] = o
	}
	for i, x := range k.cells {
		if !rd.all && x != e {
			continue
		}
		o := found[x.id]
		if o == nil {
			bad("missing", "%s, created before, is not in the answer (%d records)", x.id, len(objs))
			return
		}
		n, whose, ok := k.value(x, o, floor[i])
		switch begun := x.begun.Load(); {
		case !ok:
			bad("no value", "%s shows no value of its own: %v", x.id, cut(jtext(o), 600))
			return
		case whose >= 0 && whose != x.k:
			bad("another's", "%s shows a value of another record: %v", x.id, cut(jtext(o), 600))
			return
		case n < floor[i]:
			bad("stale", "change %d of %s was acknowledged before the read, which shows change %d", floor[i], x.id, n)
			return
		case n > begun:
			bad("ahead", "%s shows change %d; only %d were begun", x.id, n, begun)
			return
		default:
			w.c.Case(fmt.Sprintf("%s/%s/%d/%d", k.name, rd.name, p.Port%3, min(n-floor[i], 2)), n > 1)
			w.c.Add("values_read", 1)
		}
	}
	if !rd.all && len(found) != 1 {
		bad("others", "the answer for %s has %d records", e.id, len(found))
	}
}

var p37n atomic.Int64

// refs looks for transactions, and balances by indicator, before they exist and at once after.
func (w *p37w) refs(r *rand.Rand, i int64) {
	n := p37n.Add(1)
	if n > 1500 { // the list of balances is read in one piece
		time.Sleep(50 * time.Millisecond)
		return
	}
	ref, ind := fmt.Sprintf("ref-%d-%d", w.c.Seed, n), fmt.Sprintf("@ind%d_%d", w.c.Seed, n)
	for k := r.Intn(3); k > 0; k-- {
		if x := w.Srv(r).Do("GET", "/transactions/reference/"+ref, nil); x.OK() {
			w.c.Violate("reference: ahead", fmt.Sprintf("[%s] a reference never used is found: %v", w.tag, x), nil)
			return
		}
	}
	id := ""
	hold := r.Intn(2) == 0
	x := w.Srv(r).Txn(M{"precise_amount": 5, "precision": 1, "reference": ref, "currency": "USD", "description": "d", "source": "@fresh_refs", "destination": ind, "allow_overdraft": true, "skip_queue": true, "inflight": hold})
	if !x.OK() {
		return
	}
	id = x.S("transaction_id")
	for k := 0; k < 3; k++ {
		p := w.Srv(r)
		for _, q := range []string{"/transactions/reference/" + ref, "/transactions/" + id} {
			g := p.Do("GET", q, nil)
			if g.S("reference") != ref || g.S("transaction_id") != id {
				w.c.Violate("new transaction", fmt.Sprintf("[%s] GET %s on %s after the transaction was acknowledged: %v", w.tag, q, p.Name, g), nil)
				return
			}
		}
		g := p.Do("GET", "/balances/indicator/"+url.PathEscape(ind)+"/currency/USD", nil)
		key := "credit_balance"
		if hold {
			key = "inflight_credit_balance"
		}
		if g.S("indicator") != ind || num(g.J[key]).Int64() != 5 {
			w.c.Violate("new balance by indicator", fmt.Sprintf("[%s] %s on %s after 5 were credited: %v", w.tag, ind, p.Name, g), nil)
			return
		}
		w.c.Case(fmt.Sprintf("created/%d/%v", k, hold), true)
	}
	w.c.Add("looked_up_when_created", 1)
	if hold {
		status := pick(r, []string{"commit", "void"})
		if x := w.Srv(r).Do("PUT", "/transactions/inflight/"+id, M{"status": status, "skip_queue": true}); x.OK() {
			g := w.Srv(r).Do("GET", "/balances/indicator/"+url.PathEscape(ind)+"/currency/USD", nil)
			want := int64(0)
			if status == "commit" {
				want = 5
			}
			if num(g.J["inflight_credit_balance"]).Sign() != 0 || num(g.J["credit_balance"]).Int64() != want {
				w.c.Violate("settled balance", fmt.Sprintf("[%s] %s after the %s of 5 was acknowledged: %v", w.tag, ind, status, g), nil)
				return
			}
			y := w.Srv(r).Do("GET", "/transactions/"+x.S("transaction_id"), nil)
			if y.S("transaction_id") != x.S("transaction_id") || y.S("status") != x.S("status") {
				w.c.Violate("settling transaction", fmt.Sprintf("[%s] the %s answered %v and reads %v", w.tag, status, x, y), nil)
				return
			}
			w.c.Case("settled/"+status, true)
		}
	}
}

// gone creates a record, reads it everywhere, deletes it, and must not find it anywhere.
func (w *p37w) gone(r *rand.Rand) {
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	var route, key, list string
	var x *rig.Resp
	switch r.Intn(3) {
	case 0:
		route, key = "/identities", "identity_id"
		x = w.Srv(r).Do("POST", route, M{"identity_type": "individual", "first_name": "gone", "last_name": "l", "email_address": "a@b.co", "gender": "f", "nationality": "x", "category": "c"})
	case 1:
		route, key = "/balance-monitors", "monitor_id"
		b := w.Bals["USD"][0]
		list = "/balance-monitors/balances/" + b
		x = w.Srv(r).Do("POST", route, M{"balance_id": b, "condition": M{"field": "balance", "operator": ">", "value": 1e12, "precision": 1}})
	default:
		route, key = "/hooks", "id"
		x = w.Srv(r).Do("POST", route, M{"name": "gone", "url": w.R.Hooks.Base("/gone"), "type": "PRE_TRANSACTION", "active": false})
	}
	id := x.S(key)
	if id == "" {
		w.c.Broken("%s: %s: %v", w.tag, route, x)
		return
	}
	in := func(p *rig.Proc, q string) bool {
		for _, o := range objects(p.Do("GET", q, nil)) {
			if o[key] == id {
				return true
			}
		}
		return false
	}
	lists := []string{route + "?limit=5000"}
	if list != "" {
		lists = append(lists, list)
	}
	for _, p := range w.S {
		if !in(p, route+"/"+id) {
			w.c.Violate(route+": created", fmt.Sprintf("[%s] %s, just created, is not found on %s", w.tag, id, p.Name), nil)
			return
		}
		for _, q := range lists {
			if !in(p, q) {
				w.c.Violate(route+": created, listed", fmt.Sprintf("[%s] %s, just created, is not in %s on %s", w.tag, id, q, p.Name), nil)
				return
			}
		}
	}
	if d := w.Srv(r).Do("DELETE", route+"/"+id, nil); !d.OK() {
		w.c.Violate(route+": delete", fmt.Sprintf("[%s] deleting %s: %v", w.tag, id, d), nil)
		return
	}
	for _, p := range w.S {
		if g := p.Do("GET", route+"/"+id, nil); g.Code != 404 {
			w.c.Violate(route+": deleted", fmt.Sprintf("[%s] %s, deleted, reads %v on %s", w.tag, id, g, p.Name), nil)
			return
		}
		for _, q := range lists {
			if in(p, q) {
				w.c.Violate(route+": deleted, listed", fmt.Sprintf("[%s] %s, deleted, is in %s on %s", w.tag, id, q, p.Name), nil)
				return
			}
		}
		w.c.Case("deleted"+route, true)
	}
	w.c.Add("deleted", 1)
}

// p37rules: a changed rule governs the next run; a run over an upload sees that upload.
func p37rules(c *rig.Check, tag string, seed int64) {
	w := boot(c, tag, rig.Cfg{"transaction": M{"batch_size": 3}}, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	rng := rand.New(rand.NewSource(c.Seed*1000 + seed))
	if err := w.AddBalances("USD", 2, 1000000); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	at := time.Now().UTC()
	ref := rig.Ref("rule")
	if r := w.S[0].Txn(M{"amount": 777, "precision": 100, "currency": "USD", "reference": ref, "description": "d", "source": w.Bals["USD"][0], "destination": w.Bals["USD"][1], "skip_queue": true, "allow_overdraft": true}); !r.OK() {
		c.Broken("%s: %v", tag, r)
		return
	}
	crit := func(n int) []M {
		if n%2 == 0 {
			return []M{{"field": "amount", "operator": "equals", "allowable_drift": 0}}
		}
		return []M{{"field": "reference", "operator": "equals"}}
	}
	rule := w.S[0].Do("POST", "/reconciliation/matching-rules", M{"name": "r", "criteria": crit(0)}).S("rule_id")
	// x0 matches by amount only, x1 by reference only
	ext := []M{
		{"id": "x0", "amount": 777, "reference": rig.Ref("none"), "currency": "USD", "description": "d", "date": at.Format(time.RFC3339Nano), "source": "s"},
		{"id": "x1", "amount": 1.5, "reference": ref, "currency": "USD", "description": "d", "date": at.Add(time.Second).Format(time.RFC3339Nano), "source": "s"},
	}
	await := func(id string) *rig.Resp {
		var g *rig.Resp
		rig.Eventually(30*time.Second, func() bool {
			g = w.Srv(rng).Do("GET", "/reconciliation/"+id, nil)
			return g.S("status") == "completed" || g.S("status") == "failed"
		})
		return g
	}
	for n := 0; n < c.Pick(24, 400) && c.Violations() == 0; n++ {
		if n > 0 {
			if r := w.Srv(rng).Do("PUT", "/reconciliation/matching-rules/"+rule, M{"name": "r", "criteria": crit(n)}); !r.OK() {
				c.Violate("rule update", fmt.Sprintf("[%s] updating a rule: %v", tag, r), nil)
				return
			}
		}
		for k := 0; k < 2; k++ {
			body := []M{}
			for _, e := range ext {
				x := M{}
				for f, v := range e {
					x[f] = v
				}
				x["id"] = rig.Ref("x")
				body = append(body, x)
			}
			r := w.Srv(rng).Do("POST", "/reconciliation/start-instant", M{"external_transactions": body[n%2 : n%2+1], "strategy": "one_to_one", "matching_rule_ids": []string{rule}, "dry_run": true})
			if g := await(r.S("reconciliation_id")); g.S("status") != "completed" || num(g.J["matched_transactions"]).Int64() != 1 {
				c.Violate("old rule", fmt.Sprintf("[%s] after the rule was changed to %v a run over a record it matches ends %v (started: %v)", tag, crit(n), g, r), nil)
				return
			}
			r = w.Srv(rng).Do("POST", "/reconciliation/start-instant", M{"external_transactions": body[1-n%2 : 2-n%2], "strategy": "one_to_one", "matching_rule_ids": []string{rule}, "dry_run": true})
			if g := await(r.S("reconciliation_id")); g.S("status") != "completed" || num(g.J["matched_transactions"]).Int64() != 0 {
				c.Violate("old rule", fmt.Sprintf("[%s] after the rule was changed to %v a run over a record it does not match ends %v (started: %v)", tag, crit(n), g, r), nil)
				return
			}
			c.Case(fmt.Sprintf("rule/%d/%d", n%2, k), true)
		}
		c.Add("rules_changed", 1)
	}
	if r := w.Srv(rng).Do("DELETE", "/reconciliation/matching-rules/"+rule, nil); !r.OK() {
		c.Violate("rule delete", fmt.Sprintf("[%s] deleting a rule: %v", tag, r), nil)
		return
	}
	for k := 0; k < 3; k++ {
		r := w.Srv(rng).Do("POST", "/reconciliation/start-instant", M{"external_transactions": ext[:1], "strategy": "one_to_one", "matching_rule_ids": []string{rule}, "dry_run": true})
		if !r.OK() {
			c.Case("rule/deleted/refused", true)
			continue
		}
		if g := await(r.S("reconciliation_id")); g.S("status") == "completed" && num(g.J["matched_transactions"]).Int64() != 0 {
			c.Violate("deleted rule", fmt.Sprintf("[%s] a run under a deleted rule matches: %v", tag, g), nil)
			return
		}
		c.Case("rule/deleted/run", true)
	}
	// uploads of different sizes, run over again and again
	by := w.S[0].Do("POST", "/reconciliation/matching-rules", M{"name": "r", "criteria": []M{{"field": "reference", "operator": "equals"}}}).S("rule_id")
	type upload struct {
		id       string
		size, ok int64
	}
	var ups []*upload
	for u := 0; u < 3; u++ {
		var b strings.Builder
		b.WriteString("id,amount,reference,currency,description,date,source\n")
		x := &upload{size: int64(2 + rng.Intn(4) + 5*u)}
		for i := int64(0); i < x.size; i++ {
			rf := rig.Ref("u")
			if i == 0 && u != 1 {
				rf = ref
				x.ok++
			}
			fmt.Fprintf(&b, "%s,%d,%s,USD,d,%s,s\n", rig.Ref("e"), 5+i, rf, at.Add(time.Duration(i)*time.Second).Format(time.RFC3339))
		}
		r := uploadFile(w.Srv(rng), "bank", "f.csv", b.String())
		x.id = r.S("upload_id")
		if x.id == "" {
			c.Broken("%s: upload: %v", tag, r)
			return
		}
		ups = append(ups, x)
	}
	for n := 0; n < c.Pick(12, 200) && c.Violations() == 0; n++ {
		x := pick(rng, ups)
		r := w.Srv(rng).Do("POST", "/reconciliation/start", M{"upload_id": x.id, "strategy": "one_to_one", "matching_rule_ids": []string{by}, "dry_run": true})
		g := await(r.S("reconciliation_id"))
		if m, u := num(g.J["matched_transactions"]).Int64(), num(g.J["unmatched_transactions"]).Int64(); g.S("status") != "completed" || m != x.ok || u != x.size-x.ok {
			c.Violate("another upload", fmt.Sprintf("[%s] run %d over an upload of %d records, %d with a match, ends %v (started: %v)", tag, n, x.size, x.ok, g, r), nil)
			return
		}
		c.Case(fmt.Sprintf("upload/%d", x.size), true)
		c.Add("upload_runs", 1)
	}
	crashes(c, w, tag)
}
