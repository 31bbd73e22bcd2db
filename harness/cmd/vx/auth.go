package main

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/api"
	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P23"] = p23
}

const master23 = "master-secret-23"

// resourceOf says which resource a route belongs to: the specification of the scope table.
func resourceOf(path string) string {
	switch {
	case strings.HasSuffix(path, "/metadata") && strings.Count(path, "/") == 2:
		return "metadata"
	case strings.HasPrefix(path, "/balances-snapshots"):
		return "balances"
	case strings.HasPrefix(path, "/refund-transaction"):
		return "transactions"
	case strings.HasPrefix(path, "/mocked-account"):
		return "accounts"
	case strings.HasPrefix(path, "/multi-search"):
		return "search"
	case strings.HasPrefix(path, "/backup"):
		return "backup"
	}
	return strings.Split(strings.TrimPrefix(path, "/"), "/")[0]
}

func actionOf(method string) string {
	switch method {
	case "GET", "HEAD":
		return "read"
	case "DELETE":
		return "delete"
	}
	return "write"
}

type route struct{ method, pattern, path, res, act string }

type authWorld struct {
	c       *rig.Check
	w       *rig.World
	p       *rig.Proc
	fix     map[string]string
	mu      sync.Mutex
	keys    map[string]string
	keyIDs  map[string]string
	commits atomic.Int64
	last    atomic.Value
}

// key makes (or finds) a key with exactly these scopes.
func (a *authWorld) key(scopes ...string) string {
	k := strings.Join(scopes, ",")
	a.mu.Lock()
	defer a.mu.Unlock()
	if v := a.keys[k]; v != "" {
		return v
	}
	if scopes == nil {
		scopes = []string{}
	}
	r := a.p.Do("POST", "/api-keys", M{"name": k + "!", "owner": "own", "scopes": scopes, "expires_at": time.Now().Add(24 * time.Hour)})
	a.keys[k], a.keyIDs[k] = r.S("key"), r.S("api_key_id")
	if a.keys[k] == "" {
		a.c.Broken("no key for %q: %s", k, r)
	}
	return a.keys[k]
}

func (a *authWorld) fixtures() bool {
	p, w := a.p, a.w
	f := a.fix
	f["ledgers"] = w.Ledger
	f["balances"] = w.Bals["USD"][0]
	f["identities"] = p.Do("POST", "/identities", M{"identity_type": "individual", "first_name": "Secretname", "last_name": "B", "email_address": "a@b.co", "phone_number": "+15555555555", "category": "c"}).S("identity_id")
	f["transactions"] = p.Txn(M{"source": "@world", "destination": f["balances"], "amount": 5, "precision": 100, "currency": "USD", "reference": rig.Ref("a"), "description": "d", "skip_queue": true, "allow_overdraft": true}).S("transaction_id")
	f["inflight"] = p.Txn(M{"source": "@world", "destination": f["balances"], "amount": 5, "precision": 100, "currency": "USD", "reference": rig.Ref("a"), "description": "d", "skip_queue": true, "inflight": true, "allow_overdraft": true}).S("transaction_id")
	idb := p.Do("POST", "/balances", M{"ledger_id": f["ledgers"], "identity_id": f["identities"], "currency": "USD"}).S("balance_id")
	f["accounts"] = p.Do("POST", "/accounts", M{"bank_name": "b", "number": "1", "name": "n", "balance_id": idb}).S("account_id")
	f["balance-monitors"] = p.Do("POST", "/balance-monitors", M{"balance_id": f["balances"], "condition": M{"field": "balance", "operator": ">", "value": 1, "precision": 100}}).S("monitor_id")
	f["hooks"] = p.Do("POST", "/hooks", M{"name": "h", "url": "http://127.0.0.1:1/x", "type": "PRE_TRANSACTION", "active": false, "timeout": 1, "retry_count": 0}).S("id")
	f["matching-rules"] = p.Do("POST", "/reconciliation/matching-rules", M{"name": "m", "criteria": []M{{"field": "amount", "operator": "equals", "allowable_drift": 0}}}).S("rule_id")
	f["reconciliation"] = "rec_none"
	a.key("api-keys:*")
	f["api-keys"] = a.keyIDs["api-keys:*"]
	for k, v := range f {
		if v == "" {
			a.c.Broken("no fixture for %s", k)
			return false
		}
	}
	return true
}

// concrete fills a pattern's parameters with records that exist.
func (a *authWorld) concrete(pattern string) string {
	parts := strings.Split(pattern, "/")
	for i, s := range parts {
		if !strings.HasPrefix(s, ":") && !strings.HasPrefix(s, "*") {
			continue
		}
		switch {
		case s == ":entity-id":
			parts[i] = a.fix["ledgers"]
		case s == ":txID":
			parts[i] = a.fix["inflight"]
		case s == ":field":
			parts[i] = "FirstName"
		case s == ":currency":
			parts[i] = "USD"
		case s == ":indicator":
			parts[i] = "@world"
		case s == ":collection":
			parts[i] = "ledgers"
		case s == ":balance_id":
			parts[i] = a.fix["balances"]
		case strings.Contains(pattern, "matching-rules"):
			parts[i] = a.fix["matching-rules"]
		case a.fix[resourceOf(pattern)] != "":
			parts[i] = a.fix[resourceOf(pattern)]
		default:
			parts[i] = "x1"
		}
	}
	return strings.Join(parts, "/")
}

func (a *authWorld) body(r route) any {
	b := a.fix["balances"]
	txn := func() M {
		return M{"source": "@world", "destination": b, "amount": 7, "precision": 100, "currency": "USD", "reference": rig.Ref("x"), "description": "d", "skip_queue": true, "allow_overdraft": true}
	}
	switch r.method + " " + r.pattern {
	case "POST /ledgers", "PUT /ledgers/:id":
		return M{"name": rig.Ref("l")}
	case "POST /balances":
		return M{"ledger_id": a.fix["ledgers"], "currency": "USD"}
	case "PUT /balances/:id/identity":
		return M{"identity_id": a.fix["identities"]}
	case "POST /balance-monitors", "PUT /balance-monitors/:id":
		return M{"balance_id": b, "condition": M{"field": "balance", "operator": ">", "value": 2, "precision": 100}}
	case "POST /transactions":
		return txn()
	case "POST /transactions/bulk":
		return M{"transactions": []M{txn(), txn()}, "skip_queue": true}
	case "PUT /transactions/inflight/:txID":
		return M{"status": "void", "skip_queue": true}
	case "POST /transactions/inflight/bulk/void":
		return M{"transaction_ids": []string{a.fix["inflight"]}, "skip_queue": true}
	case "POST /transactions/inflight/bulk/commit":
		return M{"transactions": []M{{"transaction_id": a.fix["inflight"]}}, "skip_queue": true}
	case "POST /refund-transaction/:id":
		return M{"skip_queue": true}
	case "POST /identities", "PUT /identities/:id":
		return M{"identity_type": "individual", "first_name": "F", "last_name": "B", "email_address": "a@b.co", "phone_number": "+15555555555", "category": "c"}
	case "POST /identities/:id/tokenize", "POST /identities/:id/detokenize":
		return M{"fields": []string{"FirstName"}}
	case "POST /accounts":
		return M{"bank_name": "b", "number": "1", "name": "n", "balance_id": a.fix["balances"]}
	case "POST /reconciliation/matching-rules", "PUT /reconciliation/matching-rules/:id":
		return M{"name": "m", "criteria": []M{{"field": "amount", "operator": "equals"}}}
	case "POST /reconciliation/start-instant":
		return M{"external_transactions": []M{{"id": rig.Ref("e"), "amount": 5, "reference": "r", "currency": "USD", "description": "d", "date": time.Now(), "source": "s"}}, "strategy": "one_to_one", "matching_rule_ids": []string{a.fix["matching-rules"]}}
	case "POST /:entity-id/metadata":
		return M{"meta_data": M{"k": rig.Ref("v")}}
	case "POST /hooks", "PUT /hooks/:id":
		return M{"name": "h", "url": "http://127.0.0.1:1/x", "type": "PRE_TRANSACTION", "active": false, "timeout": 1}
	case "POST /api-keys":
		return M{"name": "n", "owner": "own", "scopes": []string{"api-keys:write"}, "expires_at": time.Now().Add(time.Hour)}
	}
	if strings.HasSuffix(r.pattern, "/filter") {
		return M{"filters": []M{}}
	}
	if r.method == "GET" {
		return nil
	}
	return M{}
}

type cred struct {
	kind string
	hdr  []string
	want int
}

func (a *authWorld) send(r route, cr cred) *rig.Resp {
	return a.p.Do(r.method, r.path, a.body(r), append([]string{"X-Blnk-Key", ""}, cr.hdr...)...)
}

func (a *authWorld) dump() string {
	var out []string
	for _, k := range a.w.R.MR.Keys() {
		if strings.HasPrefix(k, "asynq") || strings.Contains(k, "api_key") {
			continue
		}
		v := ""
		switch a.w.R.MR.Type(k) {
		case "string":
			v, _ = a.w.R.MR.Get(k)
		case "hash":
			ks, _ := a.w.R.MR.HKeys(k)
			for _, f := range ks {
				v += f + "=" + a.w.R.MR.HGet(k, f) + ";"
			}
		case "set":
			m, _ := a.w.R.MR.SMembers(k)
			v = strings.Join(m, ";")
		}
		out = append(out, k+": "+v)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func p23(c *rig.Check) {
	c.Rule = "every registered route of the running tree, enumerated from its router, is called with every kind of bad credential and insufficient scope while commits and Redis are watched, then with sufficient ones; distinct_nontrivial counts (method, resource, credential) kinds"
	w := boot(c, "auth", rig.Cfg{"server": M{"secure": true, "secret_key": master23}, "tokenization_secret": "0123456789abcdef0123456789abcdef"}, 1, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.AddBalances("USD", 2, 1000)
	a := &authWorld{c: c, w: w, p: w.S[0], fix: map[string]string{}, keys: map[string]string{}, keyIDs: map[string]string{}}
	if !a.fixtures() {
		return
	}
	b, _, err := inProcess(c, w.R, rig.Cfg{"server": M{"secure": true, "secret_key": master23}})
	if err != nil {
		c.Broken("%v", err)
		return
	}
	var routes []route
	res := map[string]bool{}
	for _, i := range api.NewAPI(b).Router().Routes() {
		if i.Path == "/" || i.Path == "/health" || i.Path == "/metrics" {
			continue
		}
		r := route{method: i.Method, pattern: i.Path, res: resourceOf(i.Path), act: actionOf(i.Method)}
		r.path = a.concrete(i.Path)
		routes = append(routes, r)
		res[r.res] = true
	}
	sort.Slice(routes, func(i, j int) bool { return routes[i].pattern+routes[i].method < routes[j].pattern+routes[j].method })
	c.Add("routes", int64(len(routes)))
	if len(routes) < 40 {
		c.Broken("only %d routes", len(routes))
		return
	}
	var resources []string
	for r := range res {
		resources = append(resources, r)
	}
	sort.Strings(resources)
	w.R.Eng.Observe(func(k *pgfake.Commit) {
		if k.App == a.p.Name {
			a.commits.Add(1)
			a.last.Store(fmt.Sprintf("%s %v", k.Changes[0].Table, k.Changes[0].After))
		}
	})
	a.denied(routes, resources)
	a.tricks(routes)
	a.granted(routes)
	c.Add("credentials", int64(len(a.keys)))
	crashes(c, w, "auth")
}

func (a *authWorld) denied(routes []route, resources []string) {
	c := a.c
	real := a.key("*:*")
	var bcrypt string
	for _, x := range a.p.Do("GET", "/api-keys?owner=own", nil).L {
		if m, _ := x.(map[string]any); rig.Str(m["api_key_id"]) == a.keyIDs["*:*"] {
			bcrypt = rig.Str(m["key"])
		}
	}
	revoked := a.key("*:*", "ledgers:*")
	if r := a.p.Do("GET", "/ledgers", nil, "X-Blnk-Key", revoked); r.Code != 200 {
		c.Violate("refused", fmt.Sprintf("a fresh key of every scope cannot list ledgers: %s", r), nil)
		return
	}
	if r := a.p.Do("DELETE", "/api-keys/"+a.keyIDs["*:*,ledgers:*"]+"?owner=own", nil); r.Code != 204 {
		c.Broken("revoke: %s", r)
		return
	}
	exp := a.p.Do("POST", "/api-keys", M{"name": "e", "owner": "own", "scopes": []string{"*:*"}, "expires_at": time.Now().Add(-time.Second)}).S("key")
	if exp == "" {
		exp = "wrong-expired"
	}
	nobody := []cred{
		{"none", nil, 401},
		{"wrong", []string{"X-Blnk-Key", "wrong"}, 401},
		{"master-cut", []string{"X-Blnk-Key", master23[:len(master23)-1]}, 401},
		{"master-long", []string{"X-Blnk-Key", master23 + "x"}, 401},
		{"master-case", []string{"X-Blnk-Key", strings.ToUpper(master23)}, 401},
		{"master-as-bearer", []string{"Authorization", "Bearer " + master23}, 401},
		{"master-as-x-api-key", []string{"X-Api-Key", master23}, 401},
		{"key-altered", []string{"X-Blnk-Key", real[:len(real)-2] + map[bool]string{true: "E=", false: "A="}[real[len(real)-2] == 'A']}, 401},
		{"key-prefix", []string{"X-Blnk-Key", real[:16]}, 401},
		{"key-long", []string{"X-Blnk-Key", real + "A"}, 401},
		{"key-hash", []string{"X-Blnk-Key", bcrypt}, 401},
		{"revoked", []string{"X-Blnk-Key", revoked}, 401},
		{"expired", []string{"X-Blnk-Key", exp}, 401},
	}
	for _, r := range routes {
		creds := append([]cred{}, nobody...)
		scope := func(kind string, s ...string) {
			creds = append(creds, cred{kind, []string{"X-Blnk-Key", a.key(s...)}, 403})
		}
		scope("no-scope")
		var others []string
		for _, x := range resources {
			if x != r.res {
				others = append(others, x+":*")
			}
		}
		scope("other-resources", others...)
		var acts, anyres []string
		for _, x := range []string{"read", "write", "delete"} {
			if x != r.act {
				acts = append(acts, r.res+":"+x)
				anyres = append(anyres, "*:"+x)
			}
		}
		scope("other-actions", acts...)
		scope("other-actions-anywhere", anyres...)
		scope("malformed", r.res, r.res+":", ":"+r.act, "*", ":", "", r.res+":"+r.act+":x", "x:"+r.res+":"+r.act)
		scope("part-names", r.res[:len(r.res)-1]+":*", r.res+"s:*", r.res+":"+r.act+"s", r.res+":"+r.act[:3])
		was, keys := a.commits.Load(), a.dump()
		var wg sync.WaitGroup
		for _, cr := range creds {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := a.send(r, cr)
				c.Case(fmt.Sprintf("%s/%s/%s", r.method, r.res, cr.kind), true)
				if x.Err != nil {
					c.Broken("%s %s: %v", r.method, r.path, x.Err)
					return
				}
				if x.Code != cr.want {
					key := "passed/" + cr.kind
					if x.Code == 401 || x.Code == 403 {
						key = "status/" + cr.kind
					}
					c.Violate(key, fmt.Sprintf("%s %s with credential %s: %d was due, answered %s", r.method, r.path, cr.kind, cr.want, x), nil)
				}
				for k, v := range a.fix {
					if x.Code >= 400 && k != "reconciliation" && bytes.Contains(x.Raw, []byte(v)) && !strings.Contains(r.path, v) {
						c.Violate("leak", fmt.Sprintf("%s %s with credential %s was refused and tells %s", r.method, r.path, cr.kind, v), nil)
					}
				}
			}()
		}
		wg.Wait()
		if n := a.commits.Load() - was; n > 0 {
			// which of them
			c.Violate("effect", fmt.Sprintf("%s %s, refused with every credential tried, wrote to the store %d times, last %v", r.method, r.path, n, a.last.Load()), nil)
		}
		if now := a.dump(); now != keys {
			c.Violate("effect-redis", fmt.Sprintf("%s %s, refused with every credential tried, changed Redis: %s", r.method, r.path, lineDiff(keys, now)), nil)
		}
		c.Add("denied_calls", int64(len(creds)))
	}
}

func lineDiff(a, b string) string {
	had := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		had[l] = true
	}
	var out []string
	for _, l := range strings.Split(b, "\n") {
		if !had[l] {
			out = append(out, l)
		}
	}
	return strings.Join(out, "; ")
}

// rawly sends a request line as it is.
func (a *authWorld) rawly(method, target string, hdr ...string) (int, string) {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", a.p.Port), 5*time.Second)
	if err != nil {
		return 0, err.Error()
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(10 * time.Second))
	s := method + " " + target + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n"
	for i := 0; i+1 < len(hdr); i += 2 {
		s += hdr[i] + ": " + hdr[i+1] + "\r\n"
	}
	if method == "POST" || method == "PUT" {
		s += "Content-Type: application/json\r\nContent-Length: 2\r\n\r\n{}"
	} else {
		s += "\r\n"
	}
	if _, err := conn.Write([]byte(s)); err != nil {
		return 0, err.Error()
	}
	r, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	var b bytes.Buffer
	_, _ = b.ReadFrom(r.Body)
	return r.StatusCode, b.String()
}

// tricks spells the routes in odd ways: whatever is served must have been authorised as what it is.
func (a *authWorld) tricks(routes []route) {
	c := a.c
	other := a.key("mocked:read")
	for _, r := range routes {
		if strings.HasPrefix(r.pattern, "/backup") {
			continue
		}
		was := a.commits.Load()
		p := r.path
		for i, t := range []string{
			"/" + p, p + "/", p + "?key=" + master23, p + "?X-Blnk-Key=" + master23, "/health/.." + p, "/metrics/.." + p, "/." + p, "/%2e" + p, "/health;" + p,
			"/health?x=" + p, strings.ToUpper(p), p + "%00", p + "#/health", "/%2f" + p[1:], "/health%2f.." + p, "http://x/health" + p, "http://x" + p, p + "/health", p + "/../../health", "//health/.." + p,
		} {
			ms := []string{r.method}
			if i < 4 || c.Thorough() {
				ms = append(ms, "HEAD", strings.ToLower(r.method))
			}
			for _, m := range ms {
				for j, h := range [][]string{nil, {"X-Blnk-Key", other}, {"X-Original-URL", "/health", "X-Rewrite-URL", "/health"}, {"X-HTTP-Method-Override", "GET", "X-Forwarded-For", "127.0.0.1"}} {
					if j > 0 && (m != r.method || i%4 != j) {
						continue
					}
					code, body := a.rawly(m, t, h...)
					c.Add("odd_requests", 1)
					if code >= 200 && code < 300 && !strings.HasPrefix(t, "/health?") {
						c.Violate("odd-path", fmt.Sprintf("%s %s without credentials was answered %d %s", m, t, code, body[:min(200, len(body))]), nil)
					}
				}
			}
		}
		if n := a.commits.Load() - was; n > 0 {
			c.Violate("effect", fmt.Sprintf("%s %s, spelled oddly and without credentials, wrote to the store: %v", r.method, r.path, a.last.Load()), nil)
		}
		c.Case("odd/"+r.res+"/"+r.method, true)
	}
}

func (a *authWorld) granted(routes []route) {
	c := a.c
	// what deletes comes last
	sort.SliceStable(routes, func(i, j int) bool { return routes[i].method != "DELETE" && routes[j].method == "DELETE" })
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, r := range routes {
		creds := []cred{
			{"master", []string{"X-Blnk-Key", master23}, 0},
			{"exact", []string{"X-Blnk-Key", a.key(r.res + ":" + r.act)}, 0},
			{"resource", []string{"X-Blnk-Key", a.key("x:y", r.res+":*")}, 0},
			{"action", []string{"X-Blnk-Key", a.key("*:" + r.act)}, 0},
			{"all", []string{"X-Blnk-Key", a.key("*:*")}, 0},
		}
		run := func(cr cred) {
			x := a.send(r, cr)
			c.Case(fmt.Sprintf("%s/%s/granted-%s", r.method, r.res, cr.kind), true)
			c.Add("granted_calls", 1)
			if x.Err != nil {
				c.Broken("%s %s: %v", r.method, r.path, x.Err)
				return
			}
			hooksOnly := r.res == "hooks" && cr.kind != "master"
			switch {
			case hooksOnly && x.Code != 403:
				c.Violate("hooks-by-key", fmt.Sprintf("%s %s with an API key: hooks are for the master key alone, answered %s", r.method, r.path, x), nil)
			case !hooksOnly && (x.Code == 401 || x.Code == 403):
				c.Violate("refused/"+r.pattern, fmt.Sprintf("%s %s with credential %s, whose scopes grant %s:%s, was refused: %s", r.method, r.path, cr.kind, r.res, r.act, x), nil)
			}
			if x.Code < 300 {
				c.Add("served", 1)
			}
		}
		if r.method == "DELETE" {
			wg.Wait()
			for _, cr := range creds {
				run(cr)
			}
			continue
		}
		for _, cr := range creds {
			wg.Add(1)
			sem <- true
			go func() { defer wg.Done(); defer func() { <-sem }(); run(cr) }()
		}
	}
	wg.Wait()
}
