package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

// uploadFile posts a file of external records.
func uploadFile(p *rig.Proc, source, name, body string) *rig.Resp {
	var b bytes.Buffer
	m := multipart.NewWriter(&b)
	if source != "" {
		m.WriteField("source", source)
	}
	f, _ := m.CreateFormFile("file", name)
	f.Write([]byte(body))
	m.Close()
	return p.Do("POST", "/reconciliation/upload", b.Bytes(), "Content-Type", m.FormDataContentType())
}

func init() { checks["P35"] = p35 }

// p35rec is a record of a file, and whether it is one that can be stored.
type p35rec struct {
	id, amount, ref, cur, desc, date string
}

type p35w struct {
	c     *rig.Check
	r     *rig.Rig
	w     *rig.World
	procs []*rig.Proc
	site  *httptest.Server
	mu    sync.Mutex
	files map[string]p35served
	n     int
	bad   map[string]bool
}

type p35served struct {
	body string
	how  string // "", "cut": the connection ends in the middle, "slow"
}

// slow: an upload that is given up, by the service or by its client, is not a success.
func (w *p35w) slow() {
	rng := rand.New(rand.NewSource(w.c.Seed + 5))
	w.r.Eng.SetHook(func(s *stmt) *action {
		if strings.HasSuffix(s.Table, "external_transactions") && s.Kind != "SELECT" {
			return &action{Delay: 25 * time.Millisecond}
		}
		return nil
	})
	defer w.r.Eng.SetHook(nil)
	var wg sync.WaitGroup
	for k, p := range w.procs {
		var recs []p35rec
		for i := 0; i < 1200; i++ {
			r := w.record(rng)
			r.desc = "d"
			recs = append(recs, r)
		}
		source := rig.Ref("src")
		path := fmt.Sprintf("/slow%d.csv", k)
		body := w.csv(rng, recs, nil)
		w.mu.Lock()
		w.files[path] = p35served{body, ""}
		w.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := p.Do("POST", "/reconciliation/upload", M{"url": w.site.URL + path, "source": source})
			w.c.Case(fmt.Sprintf("slow/address/%d", x.Code), true)
			w.judge("a csv file of 1200 records by address whose storing takes longer than allowed", "csv", "fault", source, recs, recs, x, body)
		}()
	}
	for k := 0; k < 6; k++ {
		var recs []p35rec
		for i := 0; i < 300; i++ {
			recs = append(recs, w.record(rng))
		}
		body := w.csv(rng, recs, func(i int, row, cols []string) []string {
			if i > 200 {
				return row[:len(row)-1]
			}
			return row
		})
		p := w.procs[k%len(w.procs)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			var b bytes.Buffer
			m := multipart.NewWriter(&b)
			m.WriteField("source", rig.Ref("src"))
			f, _ := m.CreateFormFile("file", "gone.csv")
			f.Write([]byte(body))
			m.Close()
			cl := http.Client{Timeout: time.Duration(100+100*k) * time.Millisecond}
			if x, err := cl.Post(fmt.Sprintf("http://127.0.0.1:%v/reconciliation/upload", p.Port), m.FormDataContentType(), &b); err == nil {
				x.Body.Close()
			}
			w.c.Add("given_up", 1)
		}()
	}
	wg.Wait()
	for _, p := range w.procs {
		if x := p.Do("GET", "/health", nil); !x.OK() {
			w.tell("gone", "the server does not answer after uploads that their clients gave up: %v", x)
		}
	}
}

// large: an amount of more digits than a float64 holds.
func (w *p35w) large() {
	for _, amount := range []string{"12345678901234567.89", "-0.12345678901234567891"} {
		for _, format := range []string{"csv", "json"} {
			r := p35rec{w.id(), amount, rig.Ref("r"), "USD", "d", "2024-01-01T00:00:00Z"}
			source := rig.Ref("src")
			rng := rand.New(rand.NewSource(1))
			body := w.csv(rng, []p35rec{r}, nil)
			if format == "json" {
				body = w.json(rng, []p35rec{r}, nil)
			}
			x := uploadFile(w.procs[0], source, "large."+format, body)
			rows := w.stored(source)
			w.c.Case(fmt.Sprintf("large/%s/%s/%d", format, amount, x.Code), true)
			if x.OK() && (len(rows) != 1 || differs(r, rows[0]) != "") {
				w.tell("amount beyond a float64", "a %s record of amount %s is stored as %v", format, amount, rows)
			}
		}
	}
}

// p35: uploaded external data is stored as given, or refused.
func p35(c *rig.Check) {
	c.Rule = "random CSV and JSON files (columns in any order and with extra ones, quotes, line breaks, unicode, dates in many zones, amounts of many sizes, 0 to 1600 records), well-formed and broken in one of many ways (bad or missing values, ragged rows, repeated ids, cut off files, trailing text, a failing database), are uploaded by form and by address to two servers at once; the answer must come, a success must be of a well-formed file and have stored each record exactly once with its values under the upload's identifier and say how many, and whatever is stored of a refused file must be records of it; distinct_nontrivial counts (format, way of uploading, kind of breakage, size class, answer) kinds"
	site := httptest.NewUnstartedServer(nil)
	w := &p35w{c: c, files: map[string]p35served{}, bad: map[string]bool{}, site: site}
	site.Config.Handler = http.HandlerFunc(w.serve)
	site.Start()
	defer site.Close()
	u, _ := url.Parse(site.URL)
	base := boot(c, "uploads", rig.Cfg{"server": M{"upload_whitelist": u.Hostname(), "max_upload_size_mb": 1, "upload_url_timeout_sec": 4}}, 2, 0)
	if base == nil {
		return
	}
	defer base.R.Close()
	w.w, w.r, w.procs = base, base.R, base.S
	var wg sync.WaitGroup
	end := time.Now().Add(time.Duration(c.Pick(25, 1800)) * time.Second)
	for k := 0; k < 6; k++ {
		rng := rand.New(rand.NewSource(c.Seed*7919 + int64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.Pick(160, 20000) && c.Violations() < 20 && time.Now().Before(end); i++ {
				w.upload(rng, i)
			}
		}()
	}
	wg.Wait()
	w.oversize()
	w.slow()
	w.large()
	crashes(c, base, "uploads")
}

func (w *p35w) serve(out http.ResponseWriter, in *http.Request) {
	w.mu.Lock()
	f, ok := w.files[in.URL.Path]
	w.mu.Unlock()
	if !ok {
		http.NotFound(out, in)
		return
	}
	if f.how == "cut" {
		out.Header().Set("Content-Length", fmt.Sprint(len(f.body)))
		out.Write([]byte(f.body[:len(f.body)/2]))
		if h, _, err := out.(http.Hijacker).Hijack(); err == nil {
			h.Close()
		}
		return
	}
	out.Write([]byte(f.body))
}

func (w *p35w) id() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	return fmt.Sprintf("ext-%d", w.n)
}

func (w *p35w) record(rng *rand.Rand) p35rec {
	zone := pick(rng, []string{"Z", "Z", "+00:00", "+05:30", "-08:00", "+14:00"})
	d := time.Date(2020+rng.Intn(6), time.Month(1+rng.Intn(12)), 1+rng.Intn(28), rng.Intn(24), rng.Intn(60), rng.Intn(60), 0, time.UTC).Format("2006-01-02T15:04:05")
	if rng.Intn(3) == 0 {
		d += fmt.Sprintf(".%06d", rng.Intn(1000000))
	}
	amount := pick(rng, []string{"0", "1", "0.01", "-12.5", "100000000", "1e3", "12345678.87", "0.1", "99999999999.99", fmt.Sprint(rng.Intn(100000)), fmt.Sprintf("%d.%02d", rng.Intn(100000), rng.Intn(100))})
	text := func(s string) string {
		return s + pick(rng, []string{"", " plain", "é🙂", " with, comma", ` "quoted"`, " line\nbreak", " tab\tx", " 'sql--", " =1+1", " back\\slash", strings.Repeat(" long", 30)}) + "."
	}
	return p35rec{w.id(), amount, text(rig.Ref("r")), pick(rng, []string{"USD", "EUR", "BTC", "USDC.e"}), text("d"), d + zone}
}

func (w *p35w) csv(rng *rand.Rand, recs []p35rec, spoil func(i int, row []string, cols []string) []string) string {
	cols := []string{"id", "amount", "date", "currency", "reference", "description"}
	for i := rng.Intn(3); i > 0; i-- {
		cols = append(cols, fmt.Sprintf("extra %d", i))
	}
	rng.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	var b bytes.Buffer
	o := csv.NewWriter(&b)
	o.UseCRLF = rng.Intn(4) == 0
	head := append([]string{}, cols...)
	for i := range head {
		switch rng.Intn(4) {
		case 0:
			head[i] = strings.ToUpper(head[i])
		case 1:
			head[i] = " " + strings.ToUpper(head[i][:1]) + head[i][1:]
		}
	}
	o.Write(head)
	for i, r := range recs {
		var row []string
		for _, k := range cols {
			row = append(row, map[string]string{"id": r.id, "amount": r.amount, "date": r.date, "currency": r.cur, "reference": r.ref, "description": r.desc}[k])
			if strings.HasPrefix(k, "extra") {
				row[len(row)-1] = pick(rng, []string{"", "x", "1,2"})
			}
		}
		if spoil != nil {
			row = spoil(i, row, cols)
		}
		o.Flush()
		if len(row) == 1 && row[0] == "\x00raw" {
			b.WriteString("\"unclosed " + r.id + "\n")
			continue
		}
		o.Write(row)
	}
	o.Flush()
	return b.String()
}

func (w *p35w) json(rng *rand.Rand, recs []p35rec, spoil func(i int, m M)) string {
	var b strings.Builder
	b.WriteString("[")
	for i, r := range recs {
		m := M{"id": r.id, "amount": json.RawMessage(r.amount), "reference": r.ref, "currency": r.cur, "description": r.desc, "date": r.date}
		if rng.Intn(3) == 0 {
			m["source"] = "theirs"
		}
		if rng.Intn(3) == 0 {
			m["other"] = M{"x": []int{1}}
		}
		if spoil != nil {
			spoil(i, m)
		}
		j, _ := json.Marshal(m)
		if i > 0 {
			b.WriteString(",\n")
		}
		b.Write(j)
	}
	b.WriteString("]")
	return b.String()
}

func (w *p35w) upload(rng *rand.Rand, i int) {
	format := pick(rng, []string{"csv", "csv", "json"})
	n := pick(rng, []int{0, 1, 2, 7, 40, 130})
	if rng.Intn(12) == 0 {
		n = pick(rng, []int{499, 500, 501, 999, 1001, 1600})
	}
	var recs []p35rec
	for k := 0; k < n; k++ {
		recs = append(recs, w.record(rng))
	}
	broken, good := "", recs
	if n > 0 && rng.Intn(2) == 0 {
		broken = pick(rng, []string{"bad amount", "bad date", "no id", "repeated id", "cut", "trailing", "wrong kind", "ragged", "no column", "fault", "many bad", "quote", "taken id", "two columns"})
	}
	hit := map[int]bool{}
	if n > 0 {
		hit[rng.Intn(n)] = true
		if broken == "many bad" {
			for k := range recs {
				if rng.Intn(3) > 0 {
					hit[k] = true
				}
			}
		}
	}
	var body string
	fault := false
	if broken != "" {
		good = nil
		for k, r := range recs {
			if !hit[k] || broken == "fault" || broken == "taken id" || broken == "repeated id" || broken == "cut" || broken == "trailing" {
				good = append(good, r)
			}
		}
	}
	p := pick(rng, w.procs)
	source := rig.Ref("src")
	switch broken {
	case "repeated id":
		recs = append(recs, recs[rng.Intn(n)])
	case "taken id":
		if x := uploadFile(p, source, "first.csv", w.csv(rng, recs[:1], nil)); !x.OK() {
			w.tell("a file of one record is refused", "%v", x)
			return
		}
		source = rig.Ref("src")
		good = recs[1:]
	case "fault":
		fault = true
	}
	if format == "csv" {
		switch broken {
		case "wrong kind":
			broken = "bad amount"
		case "trailing":
			broken = "quote"
			good = without(recs, hit)
		}
		bodyOf := func() string {
			return w.csv(rng, recs, func(k int, row, cols []string) []string {
				if !hit[k] {
					return row
				}
				set := func(name, v string) []string {
					for j, c := range cols {
						if c == name {
							row[j] = v
						}
					}
					return row
				}
				switch broken {
				case "bad amount":
					return set("amount", pick(rng, []string{"abc", "1,000.00", "$5", "12.3.4", "--1", "1 2"}))
				case "bad date":
					return set("date", pick(rng, []string{"yesterday", "2024-13-45T00:00:00Z", "2024-02-30T00:00:00Z", "20240101", "2024-01-01"}))
				case "no id":
					return set("id", pick(rng, []string{"", "  "}))
				case "many bad":
					if rng.Intn(2) == 0 {
						return row[:len(row)-1]
					}
					return set(pick(rng, []string{"currency", "amount", "date", "reference"}), "")
				case "ragged":
					if rng.Intn(2) == 0 {
						return append(row, "more")
					}
					return row[:len(row)-1]
				case "quote":
					return []string{"\x00raw"}
				}
				return row
			})
		}
		body = bodyOf()
		switch broken {
		case "cut":
			// Cut where the file cannot have ended: inside a quoted value.
			k := strings.LastIndex(body, ",\"")
			if k < 0 {
				broken, good = "", recs
			} else {
				body = body[:k+2+rng.Intn(3)]
				good = recs
			}
		case "no column":
			j := strings.Index(body, "\n")
			h := regexp.MustCompile(`(?i)\b`+pick(rng, []string{"id", "amount", "date"})+`\b`).ReplaceAllString(body[:j], "thing")
			body, good = h+body[j:], nil
		case "two columns":
			j := strings.Index(body, "\n")
			h := regexp.MustCompile(`(?i)\bcurrency\b`).ReplaceAllString(body[:j], "amount")
			body, good = h+body[j:], nil
		}
	} else {
		switch broken {
		case "ragged", "no column", "two columns", "quote", "many bad", "no id":
			broken = "wrong kind"
		}
		body = w.json(rng, recs, func(k int, m M) {
			if !hit[k] {
				return
			}
			switch broken {
			case "wrong kind":
				m[pick(rng, []string{"id", "amount", "reference", "currency", "description", "date"})] = pick(rng, []any{M{"a": 1}, []int{1}, true})
			case "bad amount":
				m["amount"] = pick(rng, []any{"12", json.RawMessage("1e999"), "x"})
			case "bad date":
				m["date"] = pick(rng, []any{"yesterday", "2024-02-30T00:00:00Z", 5, ""})
			}
		})
		switch broken {
		case "cut":
			body = body[:len(body)-1-rng.Intn(len(body)/3)]
		case "trailing":
			body += pick(rng, []string{"x", "[1]", ",{}", "]", "{\"id\":\"late\"}"})
		case "fault":
		}
	}
	if len(body) > 900000 {
		return
	}
	name := pick(rng, []string{"data.", "My File.", "a.b.", "../../x.", "DATA."}) + format
	if rng.Intn(4) == 0 {
		name = strings.ToUpper(name)
	}
	if fault {
		left := int64(1 + rng.Intn(n))
		var once sync.Once
		w.r.Eng.SetHook(func(s *stmt) *action {
			if strings.HasSuffix(s.Table, "external_transactions") && s.App == p.Name && s.Kind != "SELECT" {
				if atomic.AddInt64(&left, -1) == 0 {
					a := &action{Err: pgErr("XX000", "refused")}
					if n%2 == 0 {
						a = &action{Cut: pick(rand.New(rand.NewSource(int64(n))), []string{"before", "after"})}
					}
					once.Do(func() { w.c.Add("insert_faults", 1) })
					return a
				}
			}
			return nil
		})
	}
	way := "form"
	var x *rig.Resp
	start := time.Now()
	if rng.Intn(3) == 0 {
		way = "address"
		path := "/" + rig.Ref("f") + "/" + strings.ReplaceAll(strings.ReplaceAll(name, "../", ""), " ", "_")
		how := ""
		if broken == "" && n > 10 && rng.Intn(4) == 0 {
			how, broken = "cut", "connection"
		}
		w.mu.Lock()
		w.files[path] = p35served{body, how}
		w.mu.Unlock()
		x = p.Do("POST", "/reconciliation/upload", M{"url": w.site.URL + path, "source": source})
		w.mu.Lock()
		delete(w.files, path)
		w.mu.Unlock()
	} else {
		x = uploadFile(p, source, name, body)
	}
	took := time.Since(start)
	size := "none"
	switch {
	case n > 1000:
		size = "huge"
	case n >= 499:
		size = "batch"
	case n > 7:
		size = "some"
	case n > 0:
		size = "few"
	}
	w.c.Add("files", 1)
	w.c.Add("records", int64(n))
	w.c.Case(fmt.Sprintf("%s/%s/%s/%s/%d", format, way, broken, size, x.Code), true)
	what := fmt.Sprintf("%s file of %d records by %s (%s, %s)", format, n, way, name, or(broken, "well-formed"))
	if x.Err != nil || took > 25*time.Second {
		w.tell("no answer: "+format+" "+broken, "%s: no answer within %v: %v; file starts %s", what, took, x, cut(body, 300))
		return
	}
	// An injected fault may also hit another upload; those are just refused.
	w.judge(what, format, or(broken, "well-formed"), source, recs, good, x, body)
}

func without(recs []p35rec, hit map[int]bool) []p35rec {
	var out []p35rec
	for k, r := range recs {
		if !hit[k] {
			out = append(out, r)
		}
	}
	return out
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func (w *p35w) tell(key, f string, a ...any) {
	w.mu.Lock()
	seen := w.bad[key]
	w.bad[key] = true
	w.mu.Unlock()
	if !seen {
		w.c.Violate(key, fmt.Sprintf(f, a...), nil)
	}
}

func (w *p35w) judge(what, format, broken, source string, recs, good []p35rec, x *rig.Resp, body string) {
	rows := w.stored(source)
	byID := map[string]map[string]any{}
	for _, r := range rows {
		byID[fmt.Sprint(r["id"])] = r
	}
	fileText := cut(body, 600)
	want := map[string]p35rec{}
	for _, r := range good {
		want[r.id] = r
	}
	for id, r := range byID {
		g, ok := want[id]
		if !ok {
			w.tell("invented: "+format+" "+broken, "%s: stored %s, which the file does not have as a good record; answer %v; file %s", what, cut(fmt.Sprint(r), 300), x, fileText)
			return
		}
		if d := differs(g, r); d != "" {
			w.tell("changed: "+format+" "+strings.Fields(d)[0], "%s: %s: stored %s, of the record %+v", what, d, cut(fmt.Sprint(r), 400), g)
			return
		}
		if x.OK() && fmt.Sprint(r["upload_id"]) != x.S("upload_id") {
			w.tell("under another upload", "%s: %v is stored under %v, the answer is %v", what, id, r["upload_id"], x)
			return
		}
	}
	if len(rows) != len(byID) {
		w.tell("stored twice", "%s: %d rows for %d records", what, len(rows), len(byID))
		return
	}
	if !x.OK() {
		w.c.Add("refused", 1)
		if broken == "well-formed" && !w.faulty(x) {
			w.tell("well-formed refused: "+format, "%s is refused: %v; file %s", what, x, fileText)
		}
		return
	}
	w.c.Add("accepted", 1)
	if n := num33(x.J["record_count"]); n != len(rows) {
		w.tell("count: "+format+" "+broken, "%s: record_count %d, %d stored; %v", what, n, len(rows), x)
		return
	}
	switch broken {
	case "well-formed", "fault":
		if len(byID) != len(recs) {
			w.tell("lost: "+format+" "+broken, "%s is accepted, but %d of its %d records are stored: %v", what, len(byID), len(recs), x)
		}
	default:
		w.tell("broken accepted: "+format+" "+broken, "%s is accepted: %v; file %s … %s", what, x, fileText, tail35(body))
	}
}

func tail35(s string) string {
	if len(s) > 200 {
		return s[len(s)-200:]
	}
	return s
}

// faulty tells that other workers of this check may have made the database fail.
func (w *p35w) faulty(x *rig.Resp) bool { return w.c.Counter("insert_faults") > 0 && x.Code >= 500 }

func (w *p35w) stored(source string) []map[string]any {
	var out []map[string]any
	for _, r := range w.r.Eng.Rows("blnk.external_transactions") {
		if fmt.Sprint(r["source"]) == source {
			out = append(out, r)
		}
	}
	return out
}

// differs tells how a stored row is not the record.
func differs(g p35rec, r map[string]any) string {
	same := func(a, b string) bool { return strings.TrimSpace(a) == strings.TrimSpace(b) }
	norm := func(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") }
	switch {
	case !same(norm(g.ref), norm(fmt.Sprint(r["reference"]))):
		return "reference"
	case !same(g.cur, fmt.Sprint(r["currency"])):
		return "currency"
	case !same(norm(g.desc), norm(fmt.Sprint(r["description"]))):
		return "description"
	}
	a, ok := new(big.Rat).SetString(g.amount)
	b, ok2 := new(big.Rat).SetString(fmt.Sprint(r["amount"]))
	if !ok || !ok2 || a.Cmp(b) != 0 {
		return "amount " + g.amount + " became " + fmt.Sprint(r["amount"])
	}
	d, err := time.Parse(time.RFC3339Nano, g.date)
	at, ok := asTime(r["date"])
	if err != nil || !ok || !d.UTC().Equal(at.UTC()) {
		return "date " + g.date + " became " + fmt.Sprint(r["date"])
	}
	return ""
}

// oversize: a file beyond the limit is refused, not cut off.
func (w *p35w) oversize() {
	rng := rand.New(rand.NewSource(w.c.Seed))
	for _, format := range []string{"csv", "json"} {
		for _, way := range []string{"form", "address"} {
			var recs []p35rec
			var body string
			for len(body) < 1<<20+5000 {
				for k := 0; k < 500; k++ {
					recs = append(recs, p35rec{w.id(), "5", rig.Ref("r"), "USD", "plain text " + strings.Repeat("x", 300), "2024-01-01T00:00:00Z"})
				}
				body = w.csv(rng, recs, nil)
				if format == "json" {
					body = w.json(rng, recs, nil)
				}
			}
			source := rig.Ref("src")
			var x *rig.Resp
			if way == "form" {
				x = uploadFile(w.procs[0], source, "big."+format, body)
			} else {
				path := "/big." + format
				w.mu.Lock()
				w.files[path] = p35served{body, ""}
				w.mu.Unlock()
				x = w.procs[0].Do("POST", "/reconciliation/upload", M{"url": w.site.URL + path, "source": source})
			}
			w.c.Add("oversize", 1)
			w.c.Case(fmt.Sprintf("oversize/%s/%s/%d", format, way, x.Code), true)
			if x.OK() {
				w.tell("cut off: "+format+" by "+way, "a %s file of %d bytes with %d records, over the limit of 1 MB, by %s: %v", format, len(body), len(recs), way, x)
			}
		}
	}
}
