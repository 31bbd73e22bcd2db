package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P25"] = p25
}

const (
	secret25 = "0123456789abcdef0123456789ABCDEF"
	other25  = "ZYXWVUTSRQPONMLKJIHGFEDCBA987654"
)

// tokField is a text field of an identity: its JSON name (the column's too) and the name it is tokenised by, empty when it cannot be.
type tokField struct{ json, api string }

var tokFields = []tokField{
	{"first_name", "FirstName"}, {"last_name", "LastName"}, {"other_names", "OtherNames"}, {"email_address", "EmailAddress"},
	{"phone_number", "PhoneNumber"}, {"street", "Street"}, {"post_code", "PostCode"},
	{"identity_type", ""}, {"organization_name", ""}, {"category", ""}, {"gender", ""}, {"nationality", ""}, {"country", ""}, {"state", ""}, {"city", ""},
}

const tokN = 7 // the tokenisable ones come first

func tokText(rng *rand.Rand) string {
	word := func(n int, set string) string {
		r := []rune(set)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(r[rng.Intn(len(r))])
		}
		return b.String()
	}
	const lower, upper, digit = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"
	if rng.Intn(7) == 0 { // one character over and over
		all := lower + upper + digit
		return strings.Repeat(string(all[rng.Intn(len(all))]), 9+rng.Intn(9))
	}
	switch rng.Intn(19) {
	case 0:
		return word(1, upper) + word(3+rng.Intn(8), lower)
	case 1:
		return word(6, lower) + "." + word(5, lower) + "@" + word(4, lower) + ".com"
	case 2:
		return "+" + word(11+rng.Intn(4), digit)
	case 3:
		return word(3, digit) + " " + word(7, lower) + " St: flat " + word(2, digit)
	case 4: // separators of the token's own format
		return word(2, digit) + ":" + word(2, digit) + ":" + word(2, lower)
	case 5:
		return "FPT:" + word(5, lower) + ":" + base64.StdEncoding.EncodeToString([]byte(word(20, lower)))
	case 6:
		return word(5+rng.Intn(5), "áéíóúñüßçøåŁżé") // a Latin word of non-ASCII letters only
	case 7:
		return word(1, upper) + word(3, lower) + word(2, "éüñ") + word(3, lower)
	case 8:
		return word(2+rng.Intn(4), "李明王芳京東北張偉") + word(rng.Intn(2)*3, "москва")
	case 9:
		return ""
	case 10:
		return word(1, lower+upper+digit)
	case 11:
		return word(1+rng.Intn(6), "-_. /:@#'\"\\%$*()[]{}<>|;,?!&^~`")
	case 12:
		return word(3, lower) + "'; DROP TABLE blnk.identity; --" + word(3, lower)
	case 13:
		return word(200+rng.Intn(2000), lower+upper+digit+" :")
	case 14:
		return " \t" + word(5, lower) + "\n" + word(5, lower) + "\r\n "
	case 15:
		return word(6, "🔒🔑👩🏽‍🚀") + word(4, lower)
	case 16:
		return base64.StdEncoding.EncodeToString([]byte(word(30, lower+upper)))
	case 17:
		return "null" + word(4, "true") + "<script>&amp;" + word(6, lower) + "</script>"
	}
	return word(8+rng.Intn(40), lower+upper+digit+"  -")
}

// tokShape is the promise made about the visible part of a token: a letter for a letter, a digit for a digit, in place.
func tokShape(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case 'A' <= r && r <= 'Z':
			b.WriteRune('A')
		case 'a' <= r && r <= 'z':
			b.WriteRune('a')
		case '0' <= r && r <= '9':
			b.WriteRune('0')
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// tokJudge says what is wrong with a token of a value: empty when nothing is.
func tokJudge(orig, token string) (key, why string) {
	if !strings.HasPrefix(token, "FPT:") {
		return "format", "the token does not begin with FPT:"
	}
	rest := token[4:]
	i := strings.LastIndex(rest, ":")
	if i < 0 {
		return "format", "the token has no second part"
	}
	vis, enc := rest[:i], rest[i+1:]
	if tokShape(vis) != tokShape(orig) {
		return "format", fmt.Sprintf("the visible part %q has not the format of %q", cut(vis, 80), cut(orig, 80))
	}
	ascii, same, letters := 0, 0, 0
	rv, ro := []rune(vis), []rune(orig)
	for j, r := range ro {
		if r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r)) {
			ascii++
			if rv[j] == r {
				same++
			}
		}
		if r >= 128 && (unicode.IsLetter(r) || unicode.IsDigit(r)) {
			letters++
		}
	}
	// by chance a place keeps its character once in 26 (10 for a digit)
	if ascii >= 8 && same*4 >= ascii*3 {
		return "revealed", fmt.Sprintf("%d of the %d letters and digits of %q are visible in %q", same, ascii, cut(orig, 80), cut(vis, 80))
	}
	if ascii == 0 && letters > 0 && vis == orig {
		return "non-ascii-revealed", fmt.Sprintf("a value without ASCII letters or digits, %q, is its own visible part", cut(orig, 80))
	}
	raw, err := base64.StdEncoding.DecodeString(enc)
	if err != nil {
		return "format", "the second part is not base64"
	}
	if len(orig) >= 4 && (strings.Contains(string(raw), orig) || strings.Contains(enc, orig)) {
		return "revealed", "the second part contains the original"
	}
	return "", ""
}

func cut(s string, n int) string {
	if r := []rune(s); len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

type tokIdent struct {
	mu    sync.Mutex
	id    string
	orig  map[string]string // by JSON name
	tok   map[string]bool   // by JSON name
	token map[string]string // the token last seen
	meta  M
	dob   string
}

type tokWorld struct {
	c    *rig.Check
	r    *rig.Rig
	srv  []*rig.Proc
	ids  []*tokIdent
	seen int64
}

func (t *tokWorld) create(rng *rand.Rand) *tokIdent {
	c := t.c
	d := &tokIdent{orig: map[string]string{}, tok: map[string]bool{}, token: map[string]string{}, meta: M{"n": float64(rng.Intn(1000)), "nested": M{"a": []any{"x", 1.5}}}}
	body := M{"meta_data": d.meta, "dob": "1990-05-17T00:00:00Z"}
	if rng.Intn(4) == 0 {
		delete(body, "meta_data")
		d.meta = M{}
	}
	for _, f := range tokFields {
		d.orig[f.json] = tokText(rng)
		body[f.json] = d.orig[f.json]
	}
	r := t.srv[rng.Intn(len(t.srv))].Do("POST", "/identities", body)
	if r.Code != 201 {
		c.Violate("refused", "an identity was not created: "+r.String(), nil)
		return nil
	}
	d.id = r.S("identity_id")
	t.ids = append(t.ids, d)
	return d
}

// stored reads the identity from the database.
func (t *tokWorld) stored(d *tokIdent) (map[string]string, M) {
	rows, _, err := t.r.Eng.Do(true, "SELECT * FROM blnk.identity WHERE identity_id = $1", d.id)
	if err != nil || len(rows) != 1 {
		t.c.Broken("reading the identity: %d rows, %v", len(rows), err)
		return nil, nil
	}
	out := map[string]string{}
	for _, f := range tokFields {
		out[f.json] = fmt.Sprint(rows[0][f.json])
	}
	meta := M{}
	if b, err := json.Marshal(rows[0]["meta_data"]); err == nil {
		_ = json.Unmarshal(b, &meta)
	}
	return out, meta
}

// verify compares the identity with the model, in the store and through the API.
func (t *tokWorld) verify(rng *rand.Rand, d *tokIdent, when string) bool {
	c := t.c
	row, meta := t.stored(d)
	if row == nil {
		return false
	}
	bad := false
	say := func(key, detail string) {
		if key != "non-ascii-revealed" {
			bad = true
		}
		c.Violate(key, fmt.Sprintf("%s: identity %s: %s", when, d.id, detail), []any{d.orig, row})
	}
	flags, _ := meta["tokenized_fields"].(map[string]any)
	for _, f := range tokFields {
		v, o := row[f.json], d.orig[f.json]
		if !d.tok[f.json] {
			if v != o {
				say("untouched", fmt.Sprintf("%s was not tokenised, yet it is %q and was %q", f.json, cut(v, 80), cut(o, 80)))
			}
			continue
		}
		t.seen++
		c.Case("token:"+tokClass(o), true)
		if v == o {
			say("plain", fmt.Sprintf("%s was tokenised, yet the original %q is stored", f.json, cut(o, 80)))
			continue
		}
		if key, why := tokJudge(o, v); key != "" {
			say(key, f.json+": "+why)
		}
		d.token[f.json] = v
		if flags[f.api] != true {
			say("unmarked", f.json+" holds a token but is not recorded as tokenised: "+fmt.Sprint(meta))
		}
	}
	for k := range flags {
		ok := false
		for _, f := range tokFields[:tokN] {
			ok = ok || (f.api == k && d.tok[f.json])
		}
		if !ok {
			say("marked", k+" is recorded as tokenised and is not")
		}
	}
	delete(meta, "tokenized_fields")
	if len(meta)+len(d.meta) > 0 && canonJSON(meta) != canonJSON(d.meta) {
		say("untouched", fmt.Sprintf("the metadata is %v and was %v", meta, d.meta))
	}
	// through the API
	p := t.srv[rng.Intn(len(t.srv))]
	r := p.Do("GET", "/identities/"+d.id, nil)
	if r.Code != 200 {
		say("lost", "it cannot be read: "+r.String())
		return false
	}
	for _, f := range tokFields {
		if got := r.S(f.json); got != row[f.json] {
			say("shown", fmt.Sprintf("the API shows %s as %q; stored is %q", f.json, cut(got, 80), cut(row[f.json], 80)))
		}
	}
	if r := p.Do("GET", "/identities/"+d.id+"/tokenized-fields", nil); r.Code == 200 {
		var got, want []string
		l, _ := r.J["tokenized_fields"].([]any)
		for _, x := range l {
			got = append(got, fmt.Sprint(x))
		}
		for _, f := range tokFields[:tokN] {
			if d.tok[f.json] {
				want = append(want, f.api)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, ",") != strings.Join(want, ",") {
			say("list", fmt.Sprintf("the fields listed as tokenised are %v, want %v", got, want))
		}
	} else {
		say("list", "the tokenised fields cannot be listed: "+r.String())
	}
	return !bad
}

func canonJSON(v any) string {
	b, _ := json.Marshal(v)
	var x any
	_ = json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

func tokClass(o string) string {
	k := "ascii"
	for _, r := range o {
		if r >= 128 {
			k = "unicode"
		}
	}
	if strings.Contains(o, ":") {
		k += "+colon"
	}
	switch {
	case o == "":
		k = "empty"
	case len(o) > 150:
		k += "+long"
	case len(o) < 4:
		k += "+short"
	}
	return k
}

// recover asks for the originals in every way there is.
func (t *tokWorld) recover(rng *rand.Rand, p *rig.Proc, d *tokIdent, when string) {
	c := t.c
	want := map[string]string{}
	for _, f := range tokFields {
		if f.api == "" {
			continue
		}
		name := f.api
		if rng.Intn(2) == 0 {
			name = strings.ToLower(name[:1]) + name[1:]
		}
		r := p.Do("GET", "/identities/"+d.id+"/detokenize/"+name, nil)
		if d.tok[f.json] {
			want[f.api] = d.orig[f.json]
			c.Case("detokenize:field", true)
			if r.Code != 200 || r.S("value") != d.orig[f.json] {
				c.Violate("recovered", fmt.Sprintf("%s: detokenising %s of %s gave %s, the original is %q", when, name, d.id, r.String(), cut(d.orig[f.json], 80)), []any{d.token[f.json]})
			}
		} else if r.Code < 400 || r.Code >= 500 {
			c.Violate("not-tokenised", fmt.Sprintf("%s: detokenising %s of %s, which is not tokenised, gave %s", when, name, d.id, r.String()), nil)
		}
	}
	check := func(r *rig.Resp, names map[string]string) {
		c.Case("detokenize:many", len(names) > 0)
		m, _ := r.J["fields"].(map[string]any)
		if r.Code != 200 || len(m) != len(names) {
			c.Violate("recovered", fmt.Sprintf("%s: detokenising fields of %s gave %s, want %d fields", when, d.id, cut(r.String(), 400), len(names)), nil)
			return
		}
		for k, v := range names {
			if fmt.Sprint(m[k]) != v {
				c.Violate("recovered", fmt.Sprintf("%s: detokenising fields of %s gave %s as %q, the original is %q", when, d.id, k, cut(fmt.Sprint(m[k]), 80), cut(v, 80)), nil)
			}
		}
	}
	check(p.Do("POST", "/identities/"+d.id+"/detokenize", M{"fields": []string{}}), want)
	if len(want) > 0 {
		some, list := map[string]string{}, []string{}
		for k, v := range want {
			if rng.Intn(2) == 0 || len(list) == 0 {
				some[k] = v
				list = append(list, k)
			}
		}
		check(p.Do("POST", "/identities/"+d.id+"/detokenize", M{"fields": list}), some)
	}
}

// tokenise tokenises some fields, one by one or at once.
func (t *tokWorld) tokenise(rng *rand.Rand, p *rig.Proc, d *tokIdent) {
	c := t.c
	fs := append([]tokField{}, tokFields[:tokN]...)
	rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	fs = fs[:1+rng.Intn(4)]
	name := func(f tokField) string {
		if rng.Intn(3) == 0 {
			return strings.ToLower(f.api[:1]) + f.api[1:]
		}
		return f.api
	}
	if rng.Intn(2) == 0 {
		var list []string
		again := false
		for _, f := range fs {
			list = append(list, name(f))
			again = again || d.tok[f.json]
		}
		r := p.Do("POST", "/identities/"+d.id+"/tokenize", M{"fields": list})
		c.Case(fmt.Sprintf("tokenize:many,again=%v", again), true)
		if (r.Code == 200) == again || r.Code >= 500 {
			c.Violate("answer", fmt.Sprintf("tokenising %v of %s (one of them tokenised before: %v) answered %s", list, d.id, again, r.String()), nil)
		}
		// up to the one refused, the fields may have been tokenised
		row, _ := t.stored(d)
		for _, f := range fs {
			if d.tok[f.json] {
				break
			}
			d.tok[f.json] = true
			if again && row[f.json] == d.orig[f.json] { // refused as a whole
				d.tok[f.json] = false
			}
		}
		return
	}
	for _, f := range fs {
		n := name(f)
		r := p.Do("POST", "/identities/"+d.id+"/tokenize/"+n, nil)
		c.Case(fmt.Sprintf("tokenize:one,again=%v", d.tok[f.json]), true)
		if (r.Code == 200) == d.tok[f.json] || r.Code >= 500 {
			c.Violate("answer", fmt.Sprintf("tokenising %s of %s (tokenised before: %v) answered %s", n, d.id, d.tok[f.json], r.String()), nil)
		}
		if r.Code == 200 {
			d.tok[f.json] = true
		}
	}
}

// p25: tokenised fields.
func p25(c *rig.Check) {
	c.Rule = "identities with hostile texts: tokenised fields are hidden, keep their format, come back exactly; nothing else changes"
	r, err := rig.New(c, rig.Cfg{"tokenization_secret": secret25})
	if err != nil {
		c.Broken("%v", err)
		return
	}
	defer r.Close()
	t := &tokWorld{c: c, r: r}
	start := func(over rig.Cfg) *rig.Proc {
		p, err := r.Start("start", over)
		if err != nil {
			c.Broken("%v", err)
			return nil
		}
		return p
	}
	a, b := start(nil), start(nil)
	wrong := start(rig.Cfg{"tokenization_secret": other25})
	off := start(rig.Cfg{"tokenization_secret": ""})
	if a == nil || b == nil || wrong == nil || off == nil {
		return
	}
	t.srv = []*rig.Proc{a, b}
	rng := rand.New(rand.NewSource(c.Seed))

	// one at a time
	refusals, tampered, foreign := 0, 0, 0
	for i := 0; i < c.Pick(150, 3000) && c.Violations() < 8; i++ {
		d := t.create(rng)
		if d == nil {
			return
		}
		for n := 1 + rng.Intn(3); n > 0; n-- {
			t.tokenise(rng, t.srv[rng.Intn(2)], d)
			t.verify(rng, d, "after tokenising")
		}
		// what cannot be tokenised
		for _, bad := range []string{"Gender", "City", "IdentityID", "MetaData", "DOB", "CreatedAt", "first_name", "Nope", "city", "dOB", "firstName%00", "FIRSTNAME"} {
			if rng.Intn(6) > 0 {
				continue
			}
			p := t.srv[rng.Intn(2)]
			var q *rig.Resp
			if rng.Intn(2) == 0 {
				q = p.Do("POST", "/identities/"+d.id+"/tokenize/"+bad, nil)
			} else {
				q = p.Do("POST", "/identities/"+d.id+"/tokenize", M{"fields": []string{bad}})
			}
			refusals++
			if q.Code < 400 || q.Code >= 500 {
				c.Violate("answer", "tokenising the field "+bad+" answered "+q.String(), nil)
			}
		}
		if t.verify(rng, d, "after refused tokenisations") {
			t.recover(rng, t.srv[rng.Intn(2)], d, "plain")
		}
		// a server with another key or none
		for _, f := range tokFields[:tokN] {
			if rng.Intn(3) > 0 {
				continue
			}
			if d.tok[f.json] {
				foreign++
				for _, p := range []*rig.Proc{wrong, off} {
					q := p.Do("GET", "/identities/"+d.id+"/detokenize/"+f.api, nil)
					if q.Code < 400 || q.Err != nil {
						c.Violate("foreign-key", fmt.Sprintf("%s, tokenised under another key, was detokenised without complaint: %s", f.json, q.String()), []any{d.token[f.json]})
					}
				}
			} else if q := off.Do("POST", "/identities/"+d.id+"/tokenize/"+f.api, nil); q.Code < 400 || q.Err != nil {
				c.Violate("disabled", "tokenising without a key answered "+q.String(), nil)
			}
		}
		t.verify(rng, d, "after servers without the key")
		// tokens that were altered
		if rng.Intn(2) == 0 {
			for _, f := range tokFields[:tokN] {
				if !d.tok[f.json] {
					continue
				}
				tok := d.token[f.json]
				i := strings.LastIndex(tok, ":")
				at := i + 1 + rng.Intn((len(tok)-i-1)*3/4)
				x := byte('A')
				if tok[at] == 'A' {
					x = 'B'
				}
				if err := t.poke(d, f.json, tok[:at]+string(x)+tok[at+1:]); err != nil {
					c.Broken("%v", err)
					return
				}
				tampered++
				q := t.srv[rng.Intn(2)].Do("GET", "/identities/"+d.id+"/detokenize/"+f.api, nil)
				if q.Code < 400 || q.Err != nil {
					c.Violate("altered", fmt.Sprintf("the altered token of %s was detokenised without complaint: %s", f.json, q.String()), []any{tok})
				}
				if err := t.poke(d, f.json, tok); err != nil {
					c.Broken("%v", err)
					return
				}
			}
			t.verify(rng, d, "after altered tokens were put back")
		}
	}
	c.Add("refused", int64(refusals))
	c.Add("foreign_key", int64(foreign))
	c.Add("altered_tokens", int64(tampered))
	if c.Violations() >= 8 {
		return
	}

	// the same text under two keys must not look the same: the visible part is made with the key
	same, pairs := 0, 0
	for i := 0; i < c.Pick(6, 60); i++ {
		x, y := t.create(rng), t.create(rng)
		if x == nil || y == nil {
			return
		}
		txt := fmt.Sprintf("Alexander Hamilton %d", rng.Intn(1e6))
		for _, d := range []*tokIdent{x, y} {
			if q := a.Do("PUT", "/identities/"+d.id, M{"last_name": txt}); q.Code != 200 {
				c.Violate("refused", "an update of an identity was refused: "+q.String(), nil)
				return
			}
			d.orig["last_name"] = txt
		}
		q1, q2 := a.Do("POST", "/identities/"+x.id+"/tokenize/LastName", nil), wrong.Do("POST", "/identities/"+y.id+"/tokenize/LastName", nil)
		if q1.Code != 200 || q2.Code != 200 {
			c.Violate("answer", "tokenising a fresh field answered "+q1.String()+" and "+q2.String(), nil)
			return
		}
		rx, _ := t.stored(x)
		ry, _ := t.stored(y)
		vis := func(s string) string { return s[:strings.LastIndex(s, ":")] }
		pairs++
		if vis(rx["last_name"]) == vis(ry["last_name"]) {
			same++
		}
		x.tok["last_name"] = true
		t.ids = t.ids[:len(t.ids)-1] // y's token is the other server's
		if q := b.Do("GET", "/identities/"+y.id+"/detokenize/LastName", nil); q.Code < 400 {
			c.Violate("foreign-key", "a token made under another key was detokenised without complaint: "+q.String(), nil)
		}
	}
	if same > 0 {
		c.Violate("keyless", fmt.Sprintf("for %d of %d texts the visible part of the token is the same under two keys, so it can be found by trial", same, pairs), nil)
	}

	// fields of one identity tokenised at the same time, while other fields and the metadata change
	won, lost := int64(0), int64(0)
	for i := 0; i < c.Pick(30, 500) && c.Violations() < 8; i++ {
		d := t.create(rng)
		if d == nil {
			return
		}
		jitter(&rig.World{R: r}, rng.Int63(), 3, 12)
		var wg sync.WaitGroup
		ok := [tokN]int64{}
		for n := 0; n < 2*tokN; n++ {
			wg.Add(1)
			go func(n int, p *rig.Proc) {
				defer wg.Done()
				for try := 0; try < 40; try++ {
					q := p.Do("POST", "/identities/"+d.id+"/tokenize/"+tokFields[n%tokN].api, nil)
					if q.Code == 200 {
						atomic.AddInt64(&ok[n%tokN], 1)
						atomic.AddInt64(&won, 1)
						return
					}
					atomic.AddInt64(&lost, 1)
					if strings.Contains(q.String(), "already tokenized") {
						return
					}
					time.Sleep(5 * time.Millisecond)
				}
			}(n, t.srv[n%2])
		}
		city, key := "", ""
		wg.Add(2)
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				v := fmt.Sprintf("city %d", k)
				if q := a.Do("PUT", "/identities/"+d.id, M{"city": v}); q.Code == 200 {
					city = v
				}
			}
		}()
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				v := fmt.Sprintf("v%d", k)
				if q := b.Do("POST", "/"+d.id+"/metadata", M{"meta_data": M{"raced": v}}); q.Code == 200 {
					key = v
				}
			}
		}()
		wg.Wait()
		r.Eng.SetHook(nil)
		if city != "" {
			d.orig["city"] = city
		}
		if key != "" {
			d.meta["raced"] = key
		}
		for n, f := range tokFields[:tokN] {
			if ok[n] > 1 {
				c.Violate("twice", fmt.Sprintf("two requests both tokenised %s of %s", f.json, d.id), nil)
			}
			d.tok[f.json] = ok[n] > 0
		}
		c.Case("raced", true)
		if t.verify(rng, d, "after racing tokenisations") {
			t.recover(rng, t.srv[rng.Intn(2)], d, "raced")
		}
	}
	c.Add("raced_won", int64(int(won)))
	c.Add("raced_refused", int64(int(lost)))

	// statements that fail, and connections cut
	faults := int64(0)
	for i := 0; i < c.Pick(30, 500) && c.Violations() < 8; i++ {
		d := t.create(rng)
		if d == nil {
			return
		}
		left := int64(1 + rng.Intn(8))
		after := rng.Intn(2) == 0
		r.Eng.SetHook(func(s *pgfake.StmtInfo) *pgfake.Action {
			if s.App != a.Name || atomic.AddInt64(&left, -1) != 0 {
				return nil
			}
			atomic.AddInt64(&faults, 1)
			if after {
				return &pgfake.Action{Cut: "after"}
			}
			return &pgfake.Action{Err: pgErr("57014", "canceling statement due to user request")}
		})
		q := a.Do("POST", "/identities/"+d.id+"/tokenize", M{"fields": []string{"FirstName", "LastName", "Street"}})
		r.Eng.SetHook(nil)
		row, _ := t.stored(d)
		for _, n := range []string{"first_name", "last_name", "street"} {
			d.tok[n] = row[n] != d.orig[n]
			if q.Code == 200 && !d.tok[n] {
				c.Violate("plain", "tokenising answered 200 and left "+n+" as it was", nil)
			}
		}
		c.Case("fault", true)
		if t.verify(rng, d, "after a fault") {
			t.recover(rng, b, d, "fault")
		}
	}
	c.Add("faults", int64(int(faults)))

	// a server that dies: what was tokenised comes back on another one
	a.Kill()
	n := start(nil)
	if n == nil {
		return
	}
	t.srv = []*rig.Proc{n, b}
	for i := 0; i < 12 && i < len(t.ids); i++ {
		d := t.ids[rng.Intn(len(t.ids))]
		if t.verify(rng, d, "on a server started later") {
			t.recover(rng, n, d, "later")
		}
	}
	// the library's own reading of an identity
	bl, _, err := inProcess(c, r, rig.Cfg{"tokenization_secret": secret25})
	if err != nil {
		c.Broken("in process: %v", err)
		return
	}
	for i := 0; i < 20 && i < len(t.ids); i++ {
		d := t.ids[rng.Intn(len(t.ids))]
		x, err := bl.GetDetokenizedIdentity(d.id)
		if err != nil {
			c.Violate("recovered", "the detokenised identity cannot be read: "+err.Error(), nil)
			continue
		}
		c.Case("detokenize:identity", true)
		got := map[string]string{"first_name": x.FirstName, "last_name": x.LastName, "other_names": x.OtherNames, "email_address": x.EmailAddress, "phone_number": x.PhoneNumber, "street": x.Street, "post_code": x.PostCode,
			"identity_type": x.IdentityType, "organization_name": x.OrganizationName, "category": x.Category, "gender": x.Gender, "nationality": x.Nationality, "country": x.Country, "state": x.State, "city": x.City}
		for k, v := range d.orig {
			if got[k] != v {
				c.Violate("recovered", fmt.Sprintf("the detokenised identity %s has %s %q, the original is %q", d.id, k, cut(got[k], 80), cut(v, 80)), nil)
			}
		}
	}
	c.Add("tokens_judged", int64(int(t.seen)))
	c.Add("identities", int64(len(t.ids)))
}

// poke writes a field of an identity behind the service's back.
func (t *tokWorld) poke(d *tokIdent, field, v string) error {
	_, _, err := t.r.Eng.Do(true, "UPDATE blnk.identity SET "+field+" = $1 WHERE identity_id = $2", v, d.id)
	return err
}
