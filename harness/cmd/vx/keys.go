package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P24"] = p24
}

const master24 = "master-secret-24"

type akey struct {
	id, secret, owner string
	scopes            []string
	expires           time.Time
	revoked           bool
}

func (k *akey) valid(at time.Time) bool { return !k.revoked && at.Before(k.expires) }

var p24resources = []string{"ledgers", "balances", "accounts", "identities", "transactions", "balance-monitors", "hooks", "api-keys", "search", "reconciliation", "metadata", "backup"}

// power is what a set of scopes allows: pairs of resource and action.
func power(scopes []string) map[string]bool {
	out := map[string]bool{}
	for _, s := range scopes {
		p := strings.Split(s, ":")
		if len(p) != 2 {
			continue
		}
		for _, r := range p24resources {
			for _, a := range []string{"read", "write", "delete"} {
				if (p[0] == "*" || p[0] == r) && (p[1] == "*" || p[1] == a) {
					out[r+":"+a] = true
				}
			}
		}
	}
	return out
}

// within reports whether the scopes asked for allow no more than those held, and whether each one asked for is implied by a single one held.
func within(asked, held []string) (subset, each bool) {
	h := power(held)
	subset, each = true, true
	for k := range power(asked) {
		subset = subset && h[k]
	}
	for _, s := range asked {
		ok := false
		p := strings.Split(s, ":")
		for _, t := range held {
			q := strings.Split(t, ":")
			if len(p) == 2 && len(q) == 2 && (q[0] == "*" || q[0] == p[0]) && (q[1] == "*" || q[1] == p[1]) {
				ok = true
			}
		}
		each = each && ok
	}
	return
}

type keyWorld struct {
	c    *rig.Check
	w    *rig.World
	keys []*akey
	said []string // every answer but those of a creation
	mu   sync.Mutex
}

func (a *keyWorld) do(p *rig.Proc, key, method, path string, body any) *rig.Resp {
	r := p.Do(method, path, body, "X-Blnk-Key", key)
	if !(method == "POST" && path == "/api-keys" && r.Code == 201) {
		a.mu.Lock()
		a.said = append(a.said, string(r.Raw))
		a.mu.Unlock()
	}
	return r
}

func (a *keyWorld) create(rng *rand.Rand, caller *akey) {
	c := a.c
	p := a.w.Srv(rng)
	owners := []string{"o1", "o2", "o3"}
	owner := owners[rng.Intn(3)]
	if caller != nil && rng.Intn(3) > 0 {
		owner = caller.owner
	}
	acts := []string{"read", "write", "delete", "*"}
	var scopes []string
	for n := 1 + rng.Intn(3); n > 0; n-- {
		r := append([]string{"*", "api-keys", "api-keys", "ledgers"}, p24resources...)[rng.Intn(4+len(p24resources))]
		s := r + ":" + acts[rng.Intn(4)]
		switch rng.Intn(25) {
		case 0:
			s = r
		case 1:
			s = "*:*"
		case 2:
			s = r + ":" + strings.ToUpper(acts[rng.Intn(4)])
		case 3:
			s = r + ":*:*"
		case 4:
			s = " " + s
		}
		scopes = append(scopes, s)
	}
	if caller != nil && rng.Intn(2) == 0 { // ask for what it has, or for a part of it
		scopes = append([]string{}, caller.scopes[:1+rng.Intn(len(caller.scopes))]...)
		if rng.Intn(2) == 0 {
			s := strings.Split(scopes[0], ":")
			if len(s) == 2 && s[1] == "*" {
				scopes[0] = s[0] + ":read"
			}
		}
		if rng.Intn(4) == 0 {
			scopes = append(scopes, p24resources[rng.Intn(len(p24resources))]+":write")
		}
	}
	life := time.Duration(200+rng.Intn(1500)) * time.Millisecond
	if rng.Intn(3) > 0 {
		life = time.Hour + time.Duration(rng.Intn(1000))*time.Minute
	}
	if rng.Intn(10) == 0 {
		life = -life
	}
	zone := time.FixedZone("", []int{0, 0, 3600 * 9, -3600 * 8, 3600*5 + 1800}[rng.Intn(5)])
	k := &akey{owner: owner, scopes: scopes, expires: time.Now().Add(life).In(zone)}
	by := master24
	allowed, due := true, true
	if caller != nil {
		by = caller.secret
		subset, each := within(scopes, caller.scopes)
		ok := caller.valid(time.Now()) && power(caller.scopes)["api-keys:write"]
		allowed = ok && owner == caller.owner && subset
		due = ok && owner == caller.owner && each && time.Until(caller.expires) > 5*time.Second
	}
	r := a.do(p, by, "POST", "/api-keys", M{"name": "n", "owner": owner, "scopes": scopes, "expires_at": k.expires})
	kind := "master"
	if caller != nil {
		kind = fmt.Sprintf("key/allowed%v", allowed)
	}
	c.Case(fmt.Sprintf("create/%s/%d", kind, r.Code), true)
	switch {
	case r.Code == 201 && !allowed && caller.valid(time.Now()):
		sub, _ := within(scopes, caller.scopes)
		key := "created-beyond"
		if owner != caller.owner {
			key = "created-for-other"
		} else if sub {
			key = "created-unauthorised"
		}
		c.Violate(key, fmt.Sprintf("a key of %s with scopes %q made a key for %s with scopes %q", caller.owner, caller.scopes, owner, scopes), nil)
	case r.Code == 201 && !allowed:
		// judged where the caller's validity is
		if !caller.valid(time.Now().Add(-300 * time.Millisecond)) {
			c.Violate("dead-key-used", fmt.Sprintf("a key that was revoked (%v) or expired at %s made another key", caller.revoked, caller.expires), nil)
		}
	case r.Code != 201 && due:
		c.Violate("create-refused", fmt.Sprintf("a key of %v was refused a key for %s with scopes %q: %s", caller, owner, scopes, r), nil)
	}
	if r.Code != 201 {
		if r.Code >= 500 {
			c.Violate("create-failed", fmt.Sprintf("creating a key for %s with scopes %q: %s", owner, scopes, r), nil)
		}
		return
	}
	k.id, k.secret = r.S("api_key_id"), r.S("key")
	if k.secret == "" || r.S("owner_id") != owner {
		c.Violate("creation-answer", fmt.Sprintf("creating a key for %s: %s", owner, r), nil)
		return
	}
	for _, o := range a.keys {
		if o.secret == k.secret || o.id == k.id {
			c.Violate("not-unique", fmt.Sprintf("two keys share %s or their secret", k.id), nil)
		}
	}
	a.keys = append(a.keys, k)
}

// scopeRoutes are read routes by which a key's scopes show.
var scopeRoutes = []struct{ method, path, pair string }{
	{"GET", "/ledgers", "ledgers:read"}, {"GET", "/balances", "balances:read"}, {"GET", "/transactions", "transactions:read"},
	{"GET", "/identities", "identities:read"}, {"GET", "/accounts", "accounts:read"}, {"GET", "/balance-monitors", "balance-monitors:read"},
	{"POST", "/ledgers/filter", "ledgers:write"}, {"DELETE", "/reconciliation/matching-rules/none", "reconciliation:delete"},
	{"DELETE", "/balance-monitors/none", "balance-monitors:delete"},
}

func (a *keyWorld) use(rng *rand.Rand, k *akey) {
	c := a.c
	t := scopeRoutes[rng.Intn(len(scopeRoutes))]
	p := a.w.Srv(rng)
	before := k.valid(time.Now())
	r := a.do(p, k.secret, t.method, t.path, nil)
	after := k.valid(time.Now())
	has := power(k.scopes)[t.pair]
	c.Case(fmt.Sprintf("use/valid%v/revoked%v/scope%v/%d", before, k.revoked, has, r.Code), true)
	switch {
	case r.Code != 401 && !before:
		key := "expired-accepted"
		if k.revoked {
			key = "revoked-accepted"
		}
		c.Violate(key, fmt.Sprintf("%s %s at %s with a key that expired at %s (revoked %v): %s", t.method, t.path, p.Name, k.expires, k.revoked, r), nil)
	case r.Code == 401 && after:
		c.Violate("valid-refused", fmt.Sprintf("%s %s at %s with a valid key (expires %s): %s", t.method, t.path, p.Name, k.expires, r), nil)
	case before && after && has && r.Code == 403:
		c.Violate("scope-refused", fmt.Sprintf("%s %s with scopes %q: %s", t.method, t.path, k.scopes, r), nil)
	case before && after && !has && r.Code != 403:
		c.Violate("scope-exceeded", fmt.Sprintf("%s %s with scopes %q: %s", t.method, t.path, k.scopes, r), nil)
	}
}

func (a *keyWorld) list(rng *rand.Rand, caller *akey) {
	c := a.c
	owner := []string{"o1", "o2", "o3", "nobody", "", "%25", "o1' OR '1'='1"}[rng.Intn(7)]
	by, path := master24, "/api-keys"
	if owner != "" {
		path += "?owner=" + strings.ReplaceAll(strings.ReplaceAll(owner, " ", "%20"), "'", "%27")
	}
	see := owner
	if caller != nil {
		by = caller.secret
		see = caller.owner
	}
	r := a.do(a.w.Srv(rng), by, "GET", path, nil)
	c.Case(fmt.Sprintf("list/master%v/own%v/%d", caller == nil, see == owner || owner == "", r.Code), true)
	if r.Code != 200 {
		if caller == nil && owner != "" || caller != nil && (owner == "" || owner == caller.owner) && caller.valid(time.Now()) && power(caller.scopes)["api-keys:read"] {
			c.Violate("list-refused", fmt.Sprintf("listing the keys of %q: %s", owner, r), nil)
		}
		return
	}
	if caller != nil && !caller.valid(time.Now().Add(-time.Second)) {
		return // judged by use
	}
	want := map[string]bool{}
	for _, k := range a.keys {
		if k.owner == see {
			want[k.id] = true
		}
	}
	for _, x := range r.L {
		m, _ := x.(map[string]any)
		id := rig.Str(m["api_key_id"])
		if rig.Str(m["owner_id"]) != see && caller != nil {
			c.Violate("listed-other", fmt.Sprintf("a key of %s, asking for %q, lists %s of %s", see, owner, id, rig.Str(m["owner_id"])), nil)
		}
		if caller == nil && rig.Str(m["owner_id"]) != owner {
			c.Violate("listed-other", fmt.Sprintf("asking for %q lists %s of %s", owner, id, rig.Str(m["owner_id"])), nil)
		}
		for _, k := range a.keys {
			if k.id == id && (m["is_revoked"] == true) != k.revoked {
				c.Violate("listed-state", fmt.Sprintf("key %s revoked %v is listed as %v", id, k.revoked, m), nil)
			}
		}
		delete(want, id)
	}
	if len(want) > 0 {
		c.Violate("not-listed", fmt.Sprintf("%d keys of %s are missing from its list", len(want), see), nil)
	}
}

func (a *keyWorld) revoke(rng *rand.Rand, caller *akey) {
	c := a.c
	k := a.keys[rng.Intn(len(a.keys))]
	id := k.id
	if rng.Intn(8) == 0 {
		id = "api_key_none"
	}
	own := []string{k.owner, k.owner, "o1", "", "nobody"}[rng.Intn(5)]
	by := master24
	due := own == k.owner
	may := due
	if caller != nil {
		by = caller.secret
		ok := caller.valid(time.Now()) && power(caller.scopes)["api-keys:delete"]
		may = ok && caller.owner == k.owner
		due = may && (own == "" || own == caller.owner) && time.Until(caller.expires) > 5*time.Second
	}
	path := "/api-keys/" + id
	if own != "" {
		path += "?owner=" + own
	}
	r := a.do(a.w.Srv(rng), by, "DELETE", path, nil)
	c.Case(fmt.Sprintf("revoke/master%v/may%v/%d", caller == nil, may, r.Code), true)
	if id != k.id {
		if r.Code < 300 {
			c.Violate("revoke-unknown", fmt.Sprintf("revoking a key that does not exist: %s", r), nil)
		}
		return
	}
	switch {
	case r.Code < 300 && !may && (caller == nil || caller.valid(time.Now().Add(-300*time.Millisecond))):
		c.Violate("revoked-other", fmt.Sprintf("a caller (%v) revoked key %s of %s, naming %q as its owner", caller, k.id, k.owner, own), nil)
	case r.Code >= 300 && due:
		c.Violate("revoke-refused", fmt.Sprintf("revoking key %s of %s: %s", k.id, k.owner, r), nil)
	}
	if r.Code < 300 {
		k.revoked = true
		for i := 0; i < 3; i++ {
			a.use(rng, k)
		}
	}
}

// stored looks for secrets where they must not be.
func (a *keyWorld) stored() {
	c := a.c
	var places []string
	res := a.w.R.Eng.Rows("blnk.api_keys")
	for _, row := range res {
		places = append(places, fmt.Sprint(row))
	}
	for _, k := range a.w.R.MR.Keys() {
		if a.w.R.MR.Type(k) == "string" {
			v, _ := a.w.R.MR.Get(k)
			places = append(places, k+"="+v)
		}
	}
	places = append(places, a.said...)
	for _, p := range a.w.S {
		places = append(places, p.LogText())
	}
	all := strings.Join(places, "\n")
	for _, k := range a.keys {
		if i := strings.Index(all, k.secret); i >= 0 {
			c.Violate("secret-kept", fmt.Sprintf("the secret of key %s is found outside its creation's answer: %s", k.id, all[max(0, i-120):min(len(all), i+60)]), nil)
			return
		}
		// enough of it to guess the rest
		if i := strings.Index(all, k.secret[:30]); i >= 0 {
			c.Violate("secret-kept", fmt.Sprintf("most of the secret of key %s is found: %s", k.id, all[max(0, i-120):min(len(all), i+60)]), nil)
			return
		}
	}
	c.Add("places_searched", int64(len(places)))
}

// raceRevoke revokes a key while both servers serve it, the load of its row being slow.
func (a *keyWorld) raceRevoke(rng *rand.Rand, n int) {
	c := a.c
	for i := 0; i < n && c.Violations() < 5; i++ {
		r := a.do(a.w.S[0], master24, "POST", "/api-keys", M{"name": "r", "owner": "o9", "scopes": []string{"*:*"}, "expires_at": time.Now().Add(time.Hour)})
		k := &akey{id: r.S("api_key_id"), secret: r.S("key"), owner: "o9", scopes: []string{"*:*"}, expires: time.Now().Add(time.Hour)}
		a.keys = append(a.keys, k)
		if i%2 == 0 {
			a.use(rng, k) // in the cache already
		}
		var slow atomic.Int64
		lim := int64(1 + rng.Intn(3))
		d := time.Duration(rng.Intn(250)) * time.Millisecond
		a.w.R.Eng.SetHook(func(s *stmt) *action {
			if s.Table == "blnk.api_keys" && s.Kind == "select" && slow.Add(1) <= lim {
				return &action{After: func() { time.Sleep(d) }}
			}
			return nil
		})
		var done atomic.Bool
		var served atomic.Int64
		var wg sync.WaitGroup
		var revokedAt atomic.Int64
		for g := 0; g < 4; g++ {
			wg.Add(1)
			p := a.w.S[g%len(a.w.S)]
			go func() {
				defer wg.Done()
				for !done.Load() {
					at := time.Now().UnixNano()
					x := p.Do("GET", "/ledgers", nil, "X-Blnk-Key", k.secret)
					rv := revokedAt.Load()
					if rv > 0 && at > rv && x.Code != 401 {
						c.Violate("revoked-accepted", fmt.Sprintf("%s served a request begun %s after the revocation of its key was answered: %s", p.Name, time.Duration(at-rv), x.String()[:60]), nil)
						done.Store(true)
						return
					}
					if x.Code == 200 {
						served.Add(1)
					}
				}
			}()
		}
		time.Sleep(time.Duration(rng.Intn(200)) * time.Millisecond)
		x := a.w.S[rng.Intn(len(a.w.S))].Do("DELETE", "/api-keys/"+k.id+"?owner=o9", nil, "X-Blnk-Key", master24)
		revokedAt.Store(time.Now().UnixNano())
		k.revoked = x.Code == 204
		if !k.revoked {
			c.Broken("revoke: %s", x)
		}
		time.Sleep(d + 120*time.Millisecond)
		done.Store(true)
		wg.Wait()
		a.w.R.Eng.SetHook(nil)
		c.Case(fmt.Sprintf("race/cached%v/served%v", i%2 == 0, served.Load() > 0), true)
		c.Add("served_before_revocation", served.Load())
		c.Add("races", 1)
	}
}

func p24(c *rig.Check) {
	c.Rule = "generated sequences of create, use, list and revoke by the master and by keys of several owners, at two servers, compared with a model of owners, scopes and lifetimes; every answer, row, cache entry and log searched for secrets; distinct_nontrivial counts (operation, authority, answer) kinds"
	w := boot(c, "keys", rig.Cfg{"server": M{"secure": true, "secret_key": master24}}, 2, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	a := &keyWorld{c: c, w: w}
	rng := c.Rng
	for i := 0; i < 8; i++ {
		a.create(rng, nil)
	}
	for i := 0; i < c.Pick(260, 8000) && c.Violations() < 8; i++ {
		var caller *akey
		if rng.Intn(4) > 0 && len(a.keys) > 0 {
			caller = a.keys[rng.Intn(len(a.keys))]
			if rng.Intn(3) > 0 { // rather one that is good for something
				ks := append([]*akey{}, a.keys...)
				sort.SliceStable(ks, func(i, j int) bool {
					f := func(k *akey) bool { return k.valid(time.Now()) && power(k.scopes)["api-keys:write"] }
					return f(ks[i]) && !f(ks[j])
				})
				caller = ks[rng.Intn(min(len(ks), 8))]
			}
		}
		switch n := rng.Intn(20); {
		case n < 4:
			a.create(rng, caller)
		case n < 13:
			if caller == nil {
				caller = a.keys[rng.Intn(len(a.keys))]
			}
			a.use(rng, caller)
		case n < 16:
			a.list(rng, caller)
		default:
			if n == 19 || len(a.keys) > 12 {
				a.revoke(rng, caller)
			}
		}
		if i%60 == 59 { // some lives end
			a.create(rng, nil)
		}
	}
	a.raceRevoke(rng, c.Pick(6, 100))
	for _, k := range a.keys {
		if c.Violations() < 8 {
			a.use(rng, k)
		}
	}
	a.stored()
	c.Add("keys", int64(len(a.keys)))
	crashes(c, w, "keys")
}
