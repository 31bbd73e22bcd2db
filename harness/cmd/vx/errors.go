package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/api"
	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() { checks["P33"] = p33 }

const marker33 = "zqx_internal_detail"

// inside finds what only the service should know in what it tells a caller.
var inside = regexp.MustCompile(`(?i)` + marker33 + `|\bpq: |\bsql: |\bselect\b.{1,400}\bfrom\b|\binsert into\b|\bdelete from\b|\bupdate blnk\.|\bblnk\.[a-z_]+\b|goroutine \d|\.go:\d+|runtime error|nil pointer|SQLSTATE|dial tcp|postgres://|redis://|"(Constraint|Severity|SchemaName|InternalQuery|Routine)":`)

// foreign are the routes that need services that are not there (search, storage, backup tools).
func foreign(pattern string) bool {
	return strings.Contains(pattern, "search") || strings.HasPrefix(pattern, "/backup") || pattern == "/mocked-account"
}

// background are the routes that answer before they do what they are asked.
func background(pattern string) bool {
	return pattern == "/balances-snapshots" || strings.HasPrefix(pattern, "/reconciliation/start")
}

type p33w struct {
	*authWorld
	c      *rig.Check
	rng    *rand.Rand
	tag    string
	routes []route
	codes  map[string]bool
	mu     sync.Mutex
	told   map[string]bool
	delta  map[string]int // rows changed, by table, by the server under test
}

// p33: failures are reported as what they are.
func p33(c *rig.Check) {
	c.Rule = "every route of the running tree is called (a) with bodies that are not JSON, whose every field in turn has every wrong kind of value, hostile strings, huge sizes, and with hostile path and query parameters: the answer must be no 5xx, and a body that is no JSON must not be accepted; (b) with each of its database statements in turn failing, refused or cut, and with Redis refusing everything: the answer must be 5xx, or a success that did and says what it does without the fault; no answer may show anything of the inside, every failure carries a code of the catalog, and the service must go on; distinct_nontrivial counts (route, kind of input or fault, answer) kinds"
	all(
		func() { p33run(c, "faults", 1, (*p33w).faults) },
		func() { p33run(c, "inputs", 2, (*p33w).inputs) },
	)
}

func p33run(c *rig.Check, tag string, seed int64, f func(*p33w)) {
	cfg := rig.Cfg{"server": M{"secure": true, "secret_key": "errors-master"}, "tokenization_secret": "0123456789abcdef0123456789abcdef"}
	base := boot(c, tag, cfg, 1, 0)
	if base == nil {
		return
	}
	defer base.R.Close()
	base.Faulty = true
	if err := base.AddBalances("USD", 2, 1000000); err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	w := &p33w{authWorld: &authWorld{c: c, w: base, p: base.S[0], fix: map[string]string{}, keys: map[string]string{}, keyIDs: map[string]string{}}, c: c, tag: tag, rng: rand.New(rand.NewSource(c.Seed*1000 + seed)), delta: map[string]int{}, told: map[string]bool{}}
	w.p.Key = "errors-master"
	if !w.fixtures() {
		return
	}
	b, _, err := p33api(c, base, cfg)
	if err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	for _, i := range b {
		if i.pattern != "/" && i.pattern != "/health" && i.pattern != "/metrics" {
			w.routes = append(w.routes, i)
		}
	}
	sort.Slice(w.routes, func(i, j int) bool {
		a, b := w.routes[i], w.routes[j]
		if (a.method == "DELETE") != (b.method == "DELETE") {
			return b.method == "DELETE" // what others use goes last
		}
		return a.pattern+a.method < b.pattern+b.method
	})
	base.R.Audit.With(func() {
		base.R.Audit.Watch = func(k *pgfake.Commit) {
			w.mu.Lock()
			for _, ch := range k.Changes {
				w.delta[ch.Table]++
			}
			w.mu.Unlock()
		}
	})
	f(w)
	base.R.Audit.With(func() { base.R.Audit.Watch = nil })
	crashes(c, base, tag)
}

var p33mu sync.Mutex
var p33routes []route

// p33api enumerates the routes once: the router is made in this process.
func p33api(c *rig.Check, w *rig.World, cfg rig.Cfg) ([]route, any, error) {
	p33mu.Lock()
	defer p33mu.Unlock()
	if p33routes == nil {
		b, _, err := inProcess(c, w.R, cfg)
		if err != nil {
			return nil, nil, err
		}
		for _, i := range api.NewAPI(b).Router().Routes() {
			p33routes = append(p33routes, route{method: i.Method, pattern: i.Path, res: resourceOf(i.Path), act: actionOf(i.Method)})
		}
	}
	return append([]route{}, p33routes...), nil, nil
}

// fresh makes what a call of the route uses up.
func (w *p33w) fresh(r route) route {
	p, b := w.p, w.fix["balances"]
	txn := func(hold bool) string {
		return p.Txn(M{"source": "@world", "destination": b, "amount": 5, "precision": 100, "currency": "USD", "reference": rig.Ref("f"), "description": "d", "skip_queue": true, "inflight": hold, "allow_overdraft": true}).S("transaction_id")
	}
	switch {
	case strings.Contains(r.pattern, "inflight"):
		w.fix["inflight"] = txn(true)
	case strings.HasPrefix(r.pattern, "/refund"):
		w.fix["transactions"] = txn(false)
	case strings.Contains(r.pattern, "tokenize"):
		w.fix["identities"] = p.Do("POST", "/identities", M{"identity_type": "individual", "first_name": "Fresh", "last_name": "B", "email_address": "a@b.co", "phone_number": "+15555555555", "category": "c"}).S("identity_id")
		if strings.Contains(r.pattern, "/detokenize") {
			p.Do("POST", "/identities/"+w.fix["identities"]+"/tokenize", M{"fields": []string{"FirstName"}})
		}
	case r.method == "DELETE":
		switch r.res {
		case "identities":
			w.fix[r.res] = p.Do("POST", "/identities", M{"identity_type": "individual", "first_name": "Fresh", "last_name": "B", "email_address": "a@b.co", "phone_number": "+15555555555", "category": "c"}).S("identity_id")
		case "balance-monitors":
			w.fix[r.res] = p.Do("POST", "/balance-monitors", M{"balance_id": b, "condition": M{"field": "balance", "operator": ">", "value": 1, "precision": 100}}).S("monitor_id")
		case "hooks":
			w.fix[r.res] = p.Do("POST", "/hooks", M{"name": "h", "url": "http://127.0.0.1:1/x", "type": "PRE_TRANSACTION", "active": false, "timeout": 1}).S("id")
		case "api-keys":
			w.fix[r.res] = p.Do("POST", "/api-keys", M{"name": "e", "owner": "own", "scopes": []string{"ledgers:read"}, "expires_at": time.Now().Add(time.Hour)}).S("api_key_id")
		case "reconciliation":
			w.fix["matching-rules"] = p.Do("POST", "/reconciliation/matching-rules", M{"name": "m", "criteria": []M{{"field": "amount", "operator": "equals", "allowable_drift": 0}}}).S("rule_id")
		}
	case r.pattern == "/reconciliation/:id":
		if w.fix["reconciliation"] == "rec_none" {
			w.fix["reconciliation"] = p.Do("POST", "/reconciliation/start-instant", w.body(route{method: "POST", pattern: "/reconciliation/start-instant"})).S("reconciliation_id")
			time.Sleep(500 * time.Millisecond)
		}
	}
	r.path = w.concrete(r.pattern)
	switch {
	case r.pattern == "/balances/:id/at":
		r.path += "?timestamp=" + time.Now().Add(time.Hour).UTC().Format(time.RFC3339)
	case r.res == "api-keys" && r.method != "POST":
		r.path += "?owner=own"
	case r.pattern == "/balances/:id":
		r.path += "?with_queued=true&include=ledger&include=identity"
	}
	return r
}

// tell reports a violation, once for each key.
func (w *p33w) tell(key, detail string) {
	w.mu.Lock()
	seen := w.told[key]
	w.told[key] = true
	w.mu.Unlock()
	if !seen {
		w.c.Violate(key, detail, nil)
	}
}

// said checks what every answer must be like; it tells whether that is so.
func (w *p33w) said(r route, x *rig.Resp, how string) bool {
	bad := func(key, f string, a ...any) bool {
		w.tell(r.method+" "+r.pattern+": "+key, fmt.Sprintf("[%s] %s %s, %s: ", w.tag, r.method, cut(r.path, 200), cut(how, 400))+fmt.Sprintf(f, a...)+": "+cut(x.String(), 500))
		return false
	}
	if x.Err != nil {
		return bad("no answer", "no answer")
	}
	if m := inside.FindString(string(x.Raw)); m != "" && (x.Code >= 400 || num33(x.J["failed"]) > 0) {
		return bad("leak", "the answer shows %q", m)
	}
	if x.Code >= 400 && x.ErrCode() == "" && !strings.HasPrefix(string(x.Raw), "404 page not found") {
		return bad("no code", "a failure without a code")
	}
	return true
}

func (w *p33w) faults() {
	kinds := []string{"error", "cut before", "cut after", "error 53300", "error 57014"}
	if !w.c.Thorough() {
		kinds = kinds[:2]
	}
	end := time.Now().Add(time.Duration(w.c.Pick(100, 3000)) * time.Second)
	for _, r0 := range w.routes {
		if foreign(r0.pattern) || strings.HasSuffix(r0.pattern, "/upload") || strings.HasSuffix(r0.pattern, "recover") {
			continue
		}
		want, wantBody, ok := w.plain(r0)
		if !ok {
			continue
		}
		w.redis(r0, want)
		for _, kind := range kinds {
			for k := 1; k < 60; k++ {
				if w.c.Violations() > 20 || time.Now().After(end) {
					return
				}
				if !w.fault(r0, kind, k, want, wantBody) {
					break
				}
			}
		}
		w.c.Add("routes_faulted", 1)
	}
}

func (w *p33w) take() map[string]int {
	w.mu.Lock()
	defer w.mu.Unlock()
	d := map[string]int{}
	for t, n := range w.delta {
		if t != "blnk.lineage_outbox" && !strings.Contains(t, "chain") && t != "blnk.api_keys" {
			d[t] = n
		}
	}
	w.delta = map[string]int{}
	return d
}

// plain calls the route without faults: what it changes and says.
func (w *p33w) plain(r0 route) (map[string]int, string, bool) {
	r := w.fresh(r0)
	w.quiet()
	w.take()
	x := w.send33(r)
	w.quiet()
	if !x.OK() {
		w.c.Add("routes_without_success", 1)
		w.c.Sample(fmt.Sprintf("%s %s: %v", r.method, r.path, cut(x.String(), 200)))
		return nil, "", false
	}
	return w.take(), w.shape(r, x), true
}

func (w *p33w) quiet() { time.Sleep(15 * time.Millisecond) }

func (w *p33w) send33(r route) *rig.Resp { return w.p.Do(r.method, r.path, w.body(r)) }

// shape is what a read says that does not depend on when it is asked.
func (w *p33w) shape(r route, x *rig.Resp) string {
	if r.method != "GET" && !strings.HasSuffix(r.pattern, "/filter") {
		return ""
	}
	return fmt.Sprint(len(objects(x)), len(x.L), x.Code)
}

// fault calls the route with its k-th statement failing; false when it has no k-th.
func (w *p33w) fault(r0 route, kind string, k int, want map[string]int, wantBody string) bool {
	r := w.fresh(r0)
	wantBody = w.shape(r0, w.refetch(r))
	w.quiet()
	w.take()
	var mu sync.Mutex
	n, hit, on := 0, "", true
	w.w.R.Eng.SetHook(func(i *stmt) *action {
		mu.Lock()
		defer mu.Unlock()
		if !on {
			return nil
		}
		if n++; n != k {
			return nil
		}
		hit = i.Kind + " " + i.Table
		switch kind {
		case "cut before":
			return &action{Cut: "before"}
		case "cut after":
			return &action{Cut: "after"}
		}
		code := "XX000"
		if f := strings.Fields(kind); len(f) > 1 {
			code = f[1]
		}
		return &action{Err: pgErr(code, marker33+" failure in relation blnk."+marker33)}
	})
	x := w.send33(r)
	mu.Lock()
	on = false
	h := hit
	mu.Unlock()
	w.w.R.Eng.SetHook(nil)
	w.quiet()
	got := w.take()
	if h == "" {
		return false
	}
	w.c.Case(fmt.Sprintf("%s %s/%s/%s/%d", r.method, r.pattern, kind, h, x.Code), true)
	w.c.Add("faults", 1)
	how := fmt.Sprintf("statement %d (%s): %s", k, h, kind)
	if !w.said(r, x, how) {
		return true
	}
	bad := func(key, f string, a ...any) {
		w.tell(r.method+" "+r.pattern+": "+key+" at "+h, fmt.Sprintf("[%s] %s %s, %s: ", w.tag, r.method, r.path, how)+fmt.Sprintf(f, a...)+": "+cut(x.String(), 500))
	}
	switch {
	case x.Code >= 500:
		w.c.Add("reported", 1)
	case x.Code >= 400:
		bad("blamed on the caller", "a failure of the database is reported as the caller's")
	case num33(x.J["failed"]) > 0:
		w.c.Add("reported", 1)
	case r.method == "GET" || strings.HasSuffix(r.pattern, "/filter"):
		if s := w.shape(r, x); s != wantBody {
			bad("hidden", "the answer is %s instead of %s", s, wantBody)
		}
	default:
		w.c.Add("survived", 1)
		for t, n := range want {
			if got[t] < n && !background(r.pattern) {
				bad("not done", "success, but %s changed %d times instead of %d", t, got[t], n)
				return true
			}
		}
	}
	return true
}

// redis calls the route while Redis refuses everything.
func (w *p33w) redis(r0 route, want map[string]int) {
	r := w.fresh(r0)
	w.quiet()
	w.take()
	w.w.R.MR.SetError("ERR " + marker33 + " is not available")
	x := w.send33(r)
	w.quiet()
	w.w.R.MR.SetError("")
	got := w.take()
	w.c.Case(fmt.Sprintf("%s %s/redis/%d", r.method, r.pattern, x.Code), true)
	w.c.Add("redis_faults", 1)
	if !w.said(r, x, "Redis refuses") {
		return
	}
	switch {
	case x.Code >= 500:
		w.c.Add("reported", 1)
	case x.Code >= 400:
		w.tell(r.method+" "+r.pattern+": blamed on the caller for Redis", fmt.Sprintf("[%s] %s %s while Redis refuses everything: %s", w.tag, r.method, r.path, cut(x.String(), 500)))
	case num33(x.J["failed"]) > 0:
		w.c.Add("reported", 1)
	default:
		w.c.Add("survived", 1)
		for t, n := range want {
			if got[t] < n && !background(r.pattern) {
				w.tell(r.method+" "+r.pattern+": not done without Redis", fmt.Sprintf("[%s] %s %s while Redis refuses everything: success, but %s changed %d times instead of %d: %s", w.tag, r.method, r.path, t, got[t], n, cut(x.String(), 500)))
				return
			}
		}
	}
}

func (w *p33w) refetch(r route) *rig.Resp {
	if r.method != "GET" && !strings.HasSuffix(r.pattern, "/filter") {
		return &rig.Resp{}
	}
	return w.send33(r)
}

var wrongs = []struct {
	name string
	raw  string
}{
	{"null", `null`}, {"string", `"x"`}, {"number", `7`}, {"negative", `-7`}, {"fraction", `0.1`}, {"huge", `1e400`}, {"big", `123456789012345678901234567890123456789012345678901234567890`},
	{"bool", `true`}, {"list", `[1,"x",null,{}]`}, {"object", `{"a":{"b":[]}}`}, {"empty", `""`}, {"nul", `"a\u0000b"`}, {"long", ``}, {"quote", `"'; DROP TABLE x; --"`},
	{"percent", `"%s%n%%$1"`}, {"surrogate", `"\ud800"`}, {"date", `"9999999-99-99T99:99:99Z"`}, {"deep", ``}, {"unicode", `"é🙂\u202e"`}, {"space", `"   "`}, {"empty list", `[]`}, {"empty object", `{}`}, {"max", `9223372036854775808`}, {"min", `-9223372036854775809`},
}

func init() {
	for i := range wrongs {
		switch wrongs[i].name {
		case "long":
			wrongs[i].raw = `"` + strings.Repeat("long ", 20000) + `"`
		case "deep":
			wrongs[i].raw = strings.Repeat(`{"a":[`, 60) + `1` + strings.Repeat(`]}`, 60)
		}
	}
}

// spots lists the paths of the values in a body.
func spots(v any, at []any, out *[][]any) {
	*out = append(*out, append([]any{}, at...))
	switch x := v.(type) {
	case map[string]any:
		for _, k := range keysSorted(x) {
			spots(x[k], append(at, k), out)
		}
	case []any:
		for i := range x {
			spots(x[i], append(at, i), out)
		}
	}
}

func keysSorted(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func replaced(v any, at []any, raw json.RawMessage) any {
	if len(at) == 0 {
		return raw
	}
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, y := range x {
			m[k] = y
		}
		m[at[0].(string)] = replaced(x[at[0].(string)], at[1:], raw)
		return m
	case []any:
		l := append([]any{}, x...)
		l[at[0].(int)] = replaced(x[at[0].(int)], at[1:], raw)
		return l
	}
	return raw
}

// wide fills in the optional fields of a route's body, so that each is attacked.
func (w *p33w) wide(r route, b any) any {
	j, _ := json.Marshal(b)
	var v any
	json.Unmarshal(j, &v)
	m, _ := v.(map[string]any)
	if m == nil {
		return v
	}
	put := func(k string, x any) {
		if m[k] == nil {
			j, _ := json.Marshal(x)
			var y any
			json.Unmarshal(j, &y)
			m[k] = y
		}
	}
	switch r.method + " " + r.pattern {
	case "POST /transactions":
		put("meta_data", M{"k": "v"})
		put("overdraft_limit", 5)
		put("inflight", false)
		put("rate", 1)
		put("scheduled_for", time.Now().Add(time.Hour))
		put("inflight_expiry_date", time.Now().Add(time.Hour))
		put("effective_date", time.Now())
		put("sources", nil)
		put("destinations", nil)
		put("dry_run", false)
		put("atomic", false)
	case "POST /transactions/bulk":
		put("atomic", true)
		put("inflight", false)
		put("run_async", false)
		put("dry_run", false)
	case "PUT /transactions/inflight/:txID":
		put("amount", 1)
		put("dry_run", false)
	case "POST /balances":
		put("identity_id", w.fix["identities"])
		put("meta_data", M{"k": "v"})
		put("track_fund_lineage", false)
		put("allocation_strategy", "FIFO")
	case "POST /identities", "PUT /identities/:id":
		put("meta_data", M{"k": "v"})
		put("dob", time.Now())
		put("gender", "f")
		put("nationality", "x")
		put("organization_name", "o")
		put("street", "s")
		put("city", "c")
		put("post_code", "p")
	case "POST /ledgers":
		put("meta_data", M{"k": "v"})
	case "POST /reconciliation/start":
		put("upload_id", "u")
		put("strategy", "one_to_one")
		put("matching_rule_ids", []string{w.fix["matching-rules"]})
		put("grouping_criteria", "reference")
	case "POST /transactions/recover", "POST /balances-snapshots":
	case "POST /accounts":
		put("identity_id", w.fix["identities"])
		put("ledger_id", w.fix["ledgers"])
		put("currency", "USD")
		put("meta_data", M{"k": "v"})
	}
	if strings.HasSuffix(r.pattern, "/filter") {
		m["filters"] = []any{map[string]any{"field": "created_at", "operator": "gte", "value": "2020-01-01T00:00:00Z"}, map[string]any{"field": "currency", "operator": "in", "values": []any{"USD"}}}
		put("sort_by", "created_at")
		put("sort_order", "desc")
		put("limit", 5)
		put("offset", 0)
		put("include_count", true)
	}
	return m
}

var hostileIDs = []string{"none", "%00", "a%00b", "'%20OR%201=1--", "%ff%fe", "..%2f..%2fetc", "%25s", "bln_none", "txn_none", "ldg_none", "idt_none", "acc_none", strings.Repeat("x", 3000), "%20", "%F0%9F%99%82", "null", "0", "-1"}
var hostileQueries = []string{"limit=x", "limit=-1", "limit=99999999999999999999", "limit=0", "offset=-5", "offset=99999999999999999999", "timestamp=yesterday", "timestamp=9999999-01-01T00:00:00Z", "timestamp=", "timestamp=0001-01-01T00:00:00Z", "include=%00&include=nothing", "from_source=maybe", "with_queued=maybe", "created_at_gte=x", "currency_eq=%00", "currency_in=", "nothing_eq=1", "currency_like=%25%27", "balance_gt=abc", "amount_gt=1e999", "meta_data.k_eq=%00", "sort_by=nothing;drop", "sort_order=x", "owner=", "owner=%00", "type=x", "type=%00", "batch_size=x", "batch_size=-5", "threshold=x", "threshold=-5h", "balance_between=1", "created_at_between=2020|x", "status_in=%00,APPLIED"}

func (w *p33w) inputs() {
	end := time.Now().Add(time.Duration(w.c.Pick(100, 3000)) * time.Second)
	for _, r0 := range w.routes {
		if foreign(r0.pattern) {
			continue
		}
		r := w.fresh(r0)
		if r.method != "GET" && r.method != "DELETE" && !strings.HasSuffix(r.pattern, "/upload") {
			for _, s := range []string{"", "{", "nonsense", "{\"a\":}", "[]", "null", "\"x\"", "1", "\x00", "{\"a\":\"\xff\xfe\"}", strings.Repeat("[", 20000), "{\"name\": \"x\"", "<xml/>"} {
				x := w.p.Do(r.method, r.path, s)
				w.judge(r, x, "body "+cut(fmt.Sprintf("%q", s), 60), "body", cut(s, 20))
				if !json.Valid([]byte(s)) && s != "" && x.OK() && w.reads(r) {
					w.tell(r.method+" "+r.pattern+": accepted", fmt.Sprintf("[%s] the body %s is accepted: %v", w.tag, cut(fmt.Sprintf("%q", s), 60), x))
				}
			}
			base := w.wide(r, w.body(r))
			var at [][]any
			spots(base, nil, &at)
			for _, s := range at {
				for _, v := range wrongs {
					if w.c.Violations() > 20 || time.Now().After(end) {
						return
					}
					if len(s) == 0 {
						continue
					}
					if strings.HasPrefix(r.pattern, "/hooks") {
						time.Sleep(time.Millisecond)
					}
					b := w.wide(r, w.body(r)) // references are new each time
					j, err := json.Marshal(replaced(b, s, json.RawMessage(v.raw)))
					if err != nil {
						w.c.Broken("%v", err)
						return
					}
					x := w.p.Do(r.method, r.path, j)
					w.judge(r, x, fmt.Sprintf("%v as %s (%s)", s, v.name, cut(v.raw, 60)), spotText(s), v.name)
				}
			}
		}
		parts := strings.Split(r.path, "?")
		for i, s := range strings.Split(r.pattern, "/") {
			if !strings.HasPrefix(s, ":") {
				continue
			}
			for _, id := range hostileIDs {
				ps := strings.Split(parts[0], "/")
				ps[i] = id
				q := r
				q.path = strings.Join(ps, "/")
				if len(parts) > 1 {
					q.path += "?" + parts[1]
				}
				x := w.p.Do(r.method, q.path, w.body(r))
				w.judge(q, x, "path", "id", cut(id, 30))
			}
		}
		for _, s := range hostileQueries {
			if r.method == "DELETE" {
				continue
			}
			q := r
			q.path = parts[0] + "?" + s
			w.judge(q, w.p.Do(q.method, q.path, w.body(q)), "query", s)
		}
		w.c.Add("routes_attacked", 1)
	}
}

// reads tells whether the route takes a body at all.
func (w *p33w) reads(r route) bool {
	switch r.pattern {
	case "/refund-transaction/:id", "/balances-snapshots", "/transactions/recover":
		return false
	}
	return true
}

func (w *p33w) judge(r route, x *rig.Resp, how string, kind ...string) {
	w.c.Add("hostile_calls", 1)
	w.c.Case(fmt.Sprintf("%s %s/%s/%d", r.method, r.pattern, strings.Fields(how)[0], x.Code), true)
	if !w.said(r, x, how) {
		return
	}
	if x.Code >= 500 {
		w.tell(r.method+" "+r.pattern+": blamed on the service: "+strings.Join(kind, " "), fmt.Sprintf("[%s] %s %s, %s: %s", w.tag, r.method, cut(r.path, 200), cut(how, 200), cut(x.String(), 500)))
	}
}

func spotText(at []any) string {
	var s []string
	for _, x := range at {
		s = append(s, fmt.Sprint(x))
	}
	return strings.Join(s, ".")
}

func num33(v any) int {
	n, _ := v.(json.Number)
	i, _ := n.Int64()
	return int(i)
}
