package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/monitoringexporter"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/sirupsen/logrus"
)

func init() {
	checks["P34"] = p34
}

// collector is what records are exported to.
type collector struct {
	mu     sync.Mutex
	bodies map[string][][]byte
}

func (k *collector) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	if r.Header.Get("Content-Encoding") == "gzip" {
		if z, err := gzip.NewReader(bytes.NewReader(b)); err == nil {
			b, _ = io.ReadAll(z)
		}
	}
	k.mu.Lock()
	p := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
	k.bodies[p] = append(k.bodies[p], b)
	k.mu.Unlock()
	w.Write([]byte("{}"))
}

func (k *collector) take(path string) [][]byte {
	k.mu.Lock()
	defer k.mu.Unlock()
	out := k.bodies[path]
	k.bodies[path] = nil
	return out
}

type (
	named34 map[string]any
	key34   string
	inner34 struct {
		Region   string `json:"region"`
		Password string `json:"password"`
		ApiKey   string
		Count    int `json:"count"`
	}
	outer34 struct {
		inner34
		Name        string            `json:"name"`
		AccessToken *string           `json:"accessToken,omitempty"`
		Auth        *inner34          `json:"auth"`
		Extra       any               `json:"extra"`
		Labels      map[string]string `json:"labels"`
		SecretKey   string
		skipped     string
	}
	text34  struct{ s string }
	fault34 struct{ s string }
)

func (t text34) String() string  { return t.s }
func (t *fault34) Error() string { return t.s }

// leaf34 is a value that has to arrive as it was.
type leaf34 struct {
	path []string
	want any
}

type gen34 struct {
	rng    *rand.Rand
	n      int
	leaves []leaf34
	kinds  map[string]bool
	plain  int // inside a struct, which is exported as it is encoded: only what JSON can tell
}

// secret is a value that must not leave; every one contains "SEC7".
func (g *gen34) secret() string {
	g.n++
	return fmt.Sprintf("SEC7x%dq%s", g.n, pick(g.rng, []string{"", "Zz", "=", "/y", "+k"}))
}

func (g *gen34) safe() string {
	g.n++
	return fmt.Sprintf("%s%d", pick(g.rng, []string{"applied ", "txn_", "bln_", "12:30 ", "total=", "50% of ", "ünïcode ", "line\nbreak ", "<a> ", "keyboard "}), g.n)
}

func (g *gen34) safeKey() string {
	g.n++
	return pick(g.rng, []string{"status", "amount", "Reference", "pair_key", "key", "customer", "transaction_id", "monkey", "passage", "author", "cred", "count", "Content-Type", "X-Request-Id", "nested", "payload"}) + fmt.Sprint(g.n)
}

func (g *gen34) secretKey() string {
	k := pick(g.rng, []string{"password", "db_password", "secret", "client_secret", "secret_key", "token", "access_token", "refreshToken", "authorization", "Proxy-Authorization", "api_key", "apiKey", "X-Api-Key", "X-Blnk-Key", "credential", "credentials", "dsn", "tokenization_secret", "private_key", "access_key", "encryption-key", "passwd"})
	switch g.rng.Intn(5) {
	case 0:
		k = strings.ToUpper(k)
	case 1:
		k = strings.ToLower(k)
	case 2:
		k = strings.ReplaceAll(k, "_", "-")
	case 3:
		b := []byte(k)
		for i := range b {
			if g.rng.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		k = string(b)
	}
	g.n++
	return k
}

func (g *gen34) keep(path []string, want any) {
	g.leaves = append(g.leaves, leaf34{append([]string{}, path...), want})
}

// carrier is a text with secrets in it in a form that tells they are, and with a safe beginning and end.
func (g *gen34) carrier() (text, kind string, safe []string) {
	s := g.secret()
	a, b := fmt.Sprintf("before%d", g.n), fmt.Sprintf("after%d", g.n)
	kind = pick(g.rng, []string{"bearer", "http userinfo", "http user", "http query", "database url", "redis url", "basic header", "key header", "dsn words", "json body", "query", "fragment"})
	q := url.QueryEscape(s)
	switch kind {
	case "bearer":
		text = a + " " + pick(g.rng, []string{"Bearer ", "bearer ", "BEARER  "}) + strings.ReplaceAll(s, "ü", "") + " " + b
	case "http userinfo":
		text = a + " dial https://user:" + q + "@hooks.example.com/x " + b
	case "http user":
		text = a + " https://" + q + "@hooks.example.com/x " + b
	case "http query":
		text = a + ` Get "HTTPS://hooks.example.com/cb?id=1&access_token=` + q + `": EOF ` + b
		if g.rng.Intn(2) == 0 {
			text = strings.ReplaceAll(text, "HTTPS", "https")
		}
	case "fragment":
		text = a + " https://hooks.example.com/cb#access_token=" + q + " " + b
	case "query":
		text = a + " GET /transactions?token=" + q + "&limit=3 " + b
	case "database url":
		text = a + " failed to connect to " + pick(g.rng, []string{"postgres", "postgresql", "POSTGRES"}) + "://blnk:" + q + "@db:5432/blnk?sslmode=disable " + b
	case "redis url":
		text = a + " " + pick(g.rng, []string{"redis://:", "rediss://default:"}) + q + "@cache:6379/0 refused " + b
	case "basic header":
		text = a + " " + pick(g.rng, []string{"Authorization: Basic ", "authorization: basic "}) + s + "\n" + b
	case "key header":
		text = a + " " + pick(g.rng, []string{"X-Blnk-Key: ", "x-blnk-key: ", "X-API-Key: "}) + s + "\n" + b
	case "dsn words":
		text = a + " host=db user=blnk password=" + s + " dbname=blnk " + b
	case "json body":
		text = a + ` request {"` + pick(g.rng, []string{"password", "client_secret", "accessToken", "API_KEY"}) + `":"` + s + `","amount":5} ` + b
	}
	return text, kind, []string{a, b}
}

// value makes a structure; what has to arrive of it is added to the leaves.
func (g *gen34) value(path []string, depth int, secret bool) any {
	kind := g.rng.Intn(22)
	if depth <= 0 {
		kind = g.rng.Intn(7)
	}
	if g.plain > 0 && (kind == 3 || kind == 4 || kind == 21) {
		kind = 0
	}
	keep := func(p []string, v any) {
		if !secret {
			g.keep(p, v)
		}
	}
	str := func() string {
		if secret {
			return g.secret()
		}
		return g.safe()
	}
	at := func(x ...string) []string { return append(append([]string{}, path...), x...) }
	mark := func(s string) { g.kinds[fmt.Sprintf("%s/secret %v/depth %d", s, secret, len(path))] = true }
	switch kind {
	case 0, 1:
		s := str()
		keep(path, s)
		mark("string")
		return s
	case 2:
		if secret {
			return g.secret()
		}
		v := pick(g.rng, []any{1, -5, 2.5, true, false, int64(9007199254740993), nil, uint8(7)})
		keep(path, v)
		mark("scalar")
		return v
	case 3:
		s := str()
		keep(path, s)
		mark("error")
		switch g.rng.Intn(3) {
		case 0:
			return &fault34{s}
		case 1:
			return fmt.Errorf("%w", errors.New(s))
		}
		return errors.New(s)
	case 4:
		if secret {
			return text34{g.secret()}
		}
		s := g.safe()
		keep(path, s)
		mark("stringer")
		return text34{s}
	case 5:
		if !secret {
			n := big.NewInt(g.rng.Int63())
			keep(path, n)
			return n
		}
		return g.secret()
	case 6:
		mark("nothing")
		return pick(g.rng, []any{(*fault34)(nil), (*text34)(nil), (map[string]any)(nil), ([]string)(nil), (*outer34)(nil), (*big.Int)(nil)})
	case 7, 8, 9, 10, 11:
		m := map[string]any{}
		for i := 1 + g.rng.Intn(4); i > 0; i-- {
			if g.rng.Intn(3) == 0 {
				k := g.secretKey()
				if _, dup := m[k]; !dup {
					m[k] = g.value(at(k), depth-1, true)
				}
				continue
			}
			k := g.safeKey()
			m[k] = g.value(at(k), depth-1, secret)
		}
		switch kind {
		case 7:
			mark("map")
			return m
		case 8:
			mark("named map")
			return named34(m)
		case 9:
			mark("fields")
			return logrus.Fields(m)
		case 10:
			mark("map of named keys")
			o := map[key34]any{}
			for k, v := range m {
				o[key34(k)] = v
			}
			return o
		}
		mark("pointer to map")
		return &m
	case 12:
		m := map[string]string{}
		for i := 0; i < 3; i++ {
			k := g.safeKey()
			m[k] = str()
			keep(at(k), m[k])
			m[g.secretKey()] = g.secret()
		}
		mark("map of strings")
		return m
	case 13:
		h := http.Header{}
		for i := 0; i < 2; i++ {
			k := g.safeKey()
			h[k] = []string{str(), str()}
			keep(at(k, "0"), h[k][0])
			keep(at(k, "1"), h[k][1])
			h[g.secretKey()] = []string{g.secret(), g.secret()}
		}
		mark("header")
		if g.rng.Intn(2) == 0 {
			return url.Values(h)
		}
		return h
	case 14:
		var l []any
		for i := 0; i < 1+g.rng.Intn(3); i++ {
			l = append(l, g.value(at(fmt.Sprint(i)), depth-1, secret))
		}
		mark("list")
		return l
	case 15:
		l := []string{str(), str()}
		keep(at("0"), l[0])
		keep(at("1"), l[1])
		mark("strings")
		return l
	case 16:
		k := g.safeKey()
		l := []map[string]any{{k: g.value(at("0", k), depth-1, secret), g.secretKey(): g.secret()}}
		mark("list of maps")
		return l
	case 17:
		mark("array")
		return [2]any{g.value(at("0"), depth-1, secret), g.value(at("1"), depth-1, secret)}
	case 18, 19:
		tok := g.secret()
		o := outer34{inner34: inner34{Region: str(), Password: g.secret(), ApiKey: g.secret(), Count: 4}, Name: str(), AccessToken: &tok, Auth: nil, SecretKey: g.secret(), skipped: g.secret()}
		keep(at("region"), o.Region)
		keep(at("name"), o.Name)
		keep(at("count"), 4)
		o.Auth = nil
		if g.rng.Intn(2) == 0 {
			o.Auth = &inner34{Region: str(), Password: g.secret(), ApiKey: g.secret(), Count: 9}
		}
		g.plain++
		o.Extra = g.value(at("extra"), depth-1, secret)
		g.plain--
		k := g.safeKey()
		o.Labels = map[string]string{k: str(), g.secretKey(): g.secret()}
		keep(at("labels", k), o.Labels[k])
		mark("struct")
		if kind == 18 {
			return o
		}
		return &o
	case 20:
		k := g.safeKey()
		v := str()
		keep(at(k), v)
		b, _ := json.Marshal(map[string]any{k: v, g.secretKey(): g.secret()})
		mark("raw json")
		return json.RawMessage(b)
	}
	k := g.safeKey()
	mark("map of any keys")
	return map[any]any{k: g.value(at(k), depth-1, secret), g.secretKey(): g.secret()}
}

// p34: secrets do not leave in exported records, and the rest does as it was.
func p34(c *rig.Check) {
	c.Rule = "generated log records (fields nested in every kind of container: maps, named maps, headers, lists, arrays, structs, pointers, raw JSON, errors, stringers; sensitive keys in many spellings at every depth; messages with secrets in URLs, headers, connection strings and JSON) are logged through the exporter's real hook and received by a collector: no value of a sensitive key may be in any byte received, and every value that is not must have arrived at its place as it was. Then real servers and workers export to a TLS collector while their requests, database, webhooks and Redis fail: none of the secrets of the configuration or of the API keys issued is in what they export, send in error notifications or print. distinct_nontrivial counts (container, sensitive, depth), carriers and leaves kept"
	c.Assume = append(c.Assume, "sensitive keys: passwords, secrets, tokens, API, access, private and encryption keys, authorisation headers, credentials, connection strings", "keys the exporter also withholds (URLs, endpoints, callbacks, metadata, webhooks) are not judged; texts beyond 512 bytes may be cut")
	all(func() { p34records(c) }, func() { p34process(c) })
}

func p34records(c *rig.Check) {
	k := &collector{bodies: map[string][][]byte{}}
	srv := httptest.NewServer(k)
	defer srv.Close()
	h := monitoringexporter.NewLogHook(monitoringexporter.Config{Endpoint: srv.URL, Timeout: 5 * time.Second, PublicKey: "pk"})
	rng := rand.New(rand.NewSource(c.Seed * 77))
	log := logrus.New()
	log.SetOutput(io.Discard)
	log.AddHook(h)
	total := c.Pick(6000, 300000)
	for done := 0; done < total; {
		type rec struct {
			g    *gen34
			msg  string
			kind string
			safe []string
			in   string
			err  bool
		}
		batch := map[string]*rec{}
		for i := 0; i < 300; i++ {
			done++
			g := &gen34{rng: rng, n: rng.Intn(1000) * 1000, kinds: map[string]bool{}}
			r := &rec{g: g}
			id := fmt.Sprintf("r%d", done)
			f := logrus.Fields{"n": id}
			for j := 1 + rng.Intn(3); j > 0; j-- {
				if rng.Intn(3) == 0 {
					key := g.secretKey()
					if _, dup := f[key]; !dup {
						f[key] = g.value([]string{key}, 3, true)
					}
					continue
				}
				key := g.safeKey()
				f[key] = g.value([]string{key}, 4, false)
			}
			r.msg = g.safe()
			switch rng.Intn(3) {
			case 0:
				r.msg, r.kind, r.safe = g.carrier()
			case 1:
				// carriers as field values, as text or as an error
				var t string
				t, r.kind, r.safe = g.carrier()
				if rng.Intn(2) == 0 {
					f["reason"] = t
				} else {
					f["error"] = errors.New(t)
				}
			}
			if rng.Intn(40) == 0 {
				cfg := config.Configuration{}
				cfg.Server.SecretKey, cfg.TokenizationSecret, cfg.ProjectName = g.secret(), g.secret(), "project"
				cfg.DataSource.Dns = "postgres://u:" + url.QueryEscape(g.secret()) + "@db/blnk"
				cfg.Redis.Dns = "redis://:" + url.QueryEscape(g.secret()) + "@cache:6379"
				f["config"] = pick(rng, []any{cfg, &cfg})
				r.kind = strings.TrimPrefix(r.kind+"+configuration", "+")
			}
			r.in = cut(fmt.Sprintf("%q %s", r.msg, p34text(f)), 1500)
			batch[id] = r
			func() {
				defer func() {
					if p := recover(); p != nil {
						c.Violate("panic", fmt.Sprintf("logging %s panics: %v", r.in, p), nil)
						r.err = true
					}
				}()
				log.WithFields(f).Log(pick(rng, []logrus.Level{logrus.InfoLevel, logrus.ErrorLevel, logrus.WarnLevel}), r.msg)
			}()
		}
		var got [][]byte
		rig.Eventually(3*time.Second, func() bool { got = append(got, k.take("logs")...); return len(got) >= len(batch) })
		for _, b := range got {
			var o struct {
				Message string         `json:"message"`
				Fields  map[string]any `json:"fields"`
			}
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			if err := d.Decode(&o); err != nil {
				c.Broken("P34: exported record is no JSON: %v", err)
				return
			}
			r := batch[rig.Str(o.Fields["n"])]
			if r == nil {
				c.Broken("P34: unknown record %v", o.Fields["n"])
				return
			}
			delete(batch, rig.Str(o.Fields["n"]))
			c.Add("records received", 1)
			if i := bytes.Index(b, []byte("SEC7")); i >= 0 {
				lo, hi := i-60, i+40
				if lo < 0 {
					lo = 0
				}
				if hi > len(b) {
					hi = len(b)
				}
				key := "leak"
				if strings.Contains(o.Message, "SEC7") || (r.kind != "" && strings.Contains(fmt.Sprint(o.Fields["reason"], o.Fields["error"]), "SEC7")) {
					key = "leak in text: " + strings.Split(r.kind, "+")[0]
				}
				c.Violate(key, fmt.Sprintf("a secret was exported: …%s…", b[lo:hi]), M{"record": r.in, "exported": cut(string(b), 1500)})
			} else if bytes.Contains(b, []byte("83,69,67,55")) {
				c.Violate("leak", "a secret was exported as a list of its bytes", M{"record": r.in, "exported": cut(string(b), 1500)})
			}
			if r.kind != "" {
				c.Case("text/"+r.kind, true)
				s := o.Message + fmt.Sprint(o.Fields["reason"], o.Fields["error"])
				for _, x := range r.safe {
					if !strings.Contains(s, x) {
						c.Violate("text lost: "+r.kind, fmt.Sprintf("%q is gone from the text exported", x), M{"record": r.in, "exported": cut(string(b), 1500)})
					}
				}
			} else if o.Message != r.msg {
				c.Violate("message changed", fmt.Sprintf("message %q was exported as %q", r.msg, o.Message), nil)
			}
			for s := range r.g.kinds {
				c.Case(s, true)
			}
			for _, l := range r.g.leaves {
				var v any = o.Fields
				for _, p := range l.path {
					v = step34(v, p)
				}
				w, _ := json.Marshal(l.want)
				x, _ := json.Marshal(v)
				if !bytes.Equal(w, x) && fmt.Sprint(l.want) != fmt.Sprint(v) {
					c.Violate("value changed", fmt.Sprintf("%s was %s and is exported as %s", strings.Join(l.path, "."), w, x), M{"record": r.in, "exported": cut(string(b), 1500)})
				}
				c.Add("values compared", 1)
			}
		}
		for _, r := range batch {
			if !r.err {
				c.Violate("record lost", "a record was not exported: "+r.in, nil)
			}
		}
		if c.Violations() > 40 {
			break
		}
	}
}

// p34text shows fields without running their own methods on nil receivers.
func p34text(f logrus.Fields) string {
	var out []string
	for k, v := range f {
		t := fmt.Sprintf("%T", v)
		if rv := reflect.ValueOf(v); v == nil || (rv.Kind() == reflect.Ptr && rv.IsNil()) {
			out = append(out, k+"="+t+"(nil)")
			continue
		}
		out = append(out, fmt.Sprintf("%s=%s %+v", k, t, v))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func step34(v any, p string) any {
	switch x := v.(type) {
	case map[string]any:
		return x[p]
	case []any:
		i := 0
		fmt.Sscan(p, &i)
		if i < len(x) {
			return x[i]
		}
	}
	return "(gone)"
}

// p34process: what real processes export, notify and print under faults.
func p34process(c *rig.Check) {
	k := &collector{bodies: map[string][][]byte{}}
	tls := httptest.NewTLSServer(k)
	defer tls.Close()
	dir, err := os.MkdirTemp("", "p34")
	if err != nil {
		c.Broken("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	ca := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: tls.Certificate().Raw}), 0o600); err != nil {
		c.Broken("%v", err)
		return
	}
	secrets := map[string]string{"the master key": "MASTERsec81x", "the tokenisation secret": "TOKsecret81xTOKsecret81xTOKsec81", "a webhook header": "HDRsecret81x", "the exporter's write key": "WKEYsecret81x"}
	cfg := rig.Cfg{
		"server":               M{"secure": true, "secret_key": secrets["the master key"]},
		"tokenization_secret":  secrets["the tokenisation secret"],
		"notification":         M{"webhook": M{"headers": M{"Authorization": "Bearer " + secrets["a webhook header"]}}},
		"monitoring_dsn":       "https://" + secrets["the exporter's write key"] + "@" + strings.TrimPrefix(tls.URL, "https://") + "/proj",
		"enable_observability": true,
	}
	r, err := rig.New(c, cfg)
	if err != nil {
		c.Broken("P34: %v", err)
		return
	}
	defer r.Close()
	r.Env = []string{"SSL_CERT_FILE=" + ca, "SSL_CERT_DIR=" + dir}
	s, err := r.Start("start", nil)
	if err != nil {
		c.Broken("P34: %v", err)
		return
	}
	wk, err := r.Start("workers", nil)
	if err != nil {
		c.Broken("P34: %v", err)
		return
	}
	rng := rand.New(rand.NewSource(c.Seed * 31))
	secrets["the database password"] = "u:p@"
	var mu sync.Mutex
	work := func() {
		for i := 0; i < 3; i++ {
			x := s.Do("POST", "/api-keys", M{"name": "k", "owner": "o", "scopes": []string{"ledgers:read"}, "expires_at": time.Now().Add(time.Hour).Format(time.RFC3339)})
			if key := x.S("key"); len(key) > 8 {
				mu.Lock()
				secrets[fmt.Sprintf("API key %d", len(secrets))] = key
				mu.Unlock()
				s.Do("GET", "/ledgers", nil, "X-Blnk-Key", key)
				s.Do("POST", "/ledgers", M{"name": "x"}, "X-Blnk-Key", key)
			}
		}
		led := s.Ledger("l")
		a, b := s.Balance(led, "USD"), s.Balance(led, "USD")
		for i := 0; i < 6; i++ {
			s.Txn(M{"source": "@w", "destination": a, "allow_overdraft": true, "amount": 5, "currency": "USD", "precision": 100, "reference": rig.Ref("r34"), "description": "d", "skip_queue": i%2 == 0})
			s.Txn(M{"source": b, "destination": a, "amount": 5, "currency": "USD", "precision": 100, "reference": rig.Ref("r34"), "description": "d", "skip_queue": i%2 == 0})
		}
		id := s.Do("POST", "/identities", M{"identity_type": "individual", "first_name": "PIIsecret81x", "email_address": "a@b.c"}).S("identity_id")
		s.Do("POST", "/identities/"+id+"/tokenize", M{"fields": []string{"FirstName"}})
		s.Do("GET", "/identities/"+id+"/detokenize", nil)
		s.Do("POST", "/hooks", M{"name": "h", "url": r.Hooks.Base("/hook?token=HOOKsecret81x"), "type": "PRE_TRANSACTION", "active": true, "timeout": 1, "retry_count": 0})
		s.Do("GET", "/ledgers", nil, "X-Blnk-Key", "WRONGsecret81x")
		s.Do("GET", "/ledgers", nil, "Authorization", "Bearer BEARsecret81x")
		s.Do("POST", "/transactions", `{"reference":`, "Content-Type", "application/json")
	}
	secrets["a hook's token"], secrets["a wrong key"], secrets["a bearer token"] = "HOOKsecret81x", "WRONGsecret81x", "BEARsecret81x"
	work()
	r.Eng.SetHook(func(i *stmt) *action {
		mu.Lock()
		defer mu.Unlock()
		switch rng.Intn(6) {
		case 0:
			return &action{Err: pgErr("57014", "canceling statement")}
		case 1:
			return &action{Cut: "before"}
		}
		return nil
	})
	r.Hooks.SetRespond(func(*rig.Hook) int { return 500 })
	work()
	r.Eng.SetHook(nil)
	r.MR.SetError("LOADING redis is loading")
	work()
	r.MR.SetError("")
	work()
	r.RunRetries(false)
	time.Sleep(1500 * time.Millisecond)
	s.Stop(8 * time.Second) // flushes what is left to export
	wk.Stop(8 * time.Second)
	for _, kind := range []string{"logs", "traces", "metrics"} {
		n := 0
		for _, b := range k.take(kind) {
			n++
			for what, v := range secrets {
				if i := bytes.Index(b, []byte(v)); i >= 0 {
					lo, hi := i-80, i+60
					if lo < 0 {
						lo = 0
					}
					if hi > len(b) {
						hi = len(b)
					}
					c.Violate("process "+kind+": "+strings.TrimRight(what, "0123456789 "), fmt.Sprintf("%s is in the exported %s: …%q…", what, kind, b[lo:hi]), nil)
				}
			}
		}
		c.Add("exported "+kind+" bodies of real processes", int64(n))
		c.Case("process/"+kind, n > 0)
	}
	for _, p := range []*rig.Proc{s, wk} {
		t := p.LogText()
		for what, v := range secrets {
			if what == "a hook's token" {
				continue // only the exporter withholds URLs
			}
			if i := strings.Index(t, v); i >= 0 {
				c.Violate("process log: "+strings.TrimRight(what, "0123456789 "), fmt.Sprintf("%s is printed by %s: …%q…", what, p.Name, cut(t[max(0, i-100):], 200)), nil)
			}
		}
		c.Add("bytes of process logs read", int64(len(t)))
	}
	for _, h := range r.Hooks.All() {
		for what, v := range secrets {
			if what != "a webhook header" && bytes.Contains(h.Body, []byte(v)) && !strings.HasPrefix(what, "a hook") {
				c.Violate("process notification: "+strings.TrimRight(what, "0123456789 "), fmt.Sprintf("%s is sent to the webhook: %s", what, cut(string(h.Body), 300)), nil)
			}
		}
	}
	if c.Counter("exported logs bodies of real processes") == 0 {
		c.Broken("P34: the processes exported nothing: %s", tailOf(s.LogText(), 800))
	}
}
