package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/blnkfinance/blnk/model"
)

func init() {
	checks["P27"] = p27
}

// exact decodes JSON without losing a digit.
func exact(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

// exactText writes a decoded value in one way: keys sorted, numbers by their value.
func exactText(v any) string {
	var b strings.Builder
	var w func(any)
	w = func(v any) {
		switch x := v.(type) {
		case json.Number:
			if q, ok := new(big.Rat).SetString(string(x)); ok {
				b.WriteString(q.RatString())
			} else {
				b.WriteString(string(x))
			}
		case map[string]any:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			b.WriteString("{")
			for _, k := range ks {
				fmt.Fprintf(&b, "%q:", k)
				w(x[k])
				b.WriteString(",")
			}
			b.WriteString("}")
		case []any:
			b.WriteString("[")
			for _, e := range x {
				w(e)
				b.WriteString(",")
			}
			b.WriteString("]")
		case string:
			fmt.Fprintf(&b, "%q", x)
		default:
			fmt.Fprint(&b, x)
		}
	}
	w(v)
	return b.String()
}

// note is one notification that was queued and what became of it.
type note struct {
	text    string // the event and data as queued
	plan    []int  // the receiver's answers, then success
	seen    []int
	okAt    []time.Time
	task    string
	inProc  bool
	event   string
	dataMap map[string]any
}

func hookData(r *rand.Rand, depth int) any {
	switch n := r.Intn(14); {
	case n == 0:
		return nil
	case n == 1:
		return r.Intn(2) == 0
	case n == 2:
		return json.Number("123456789012345678901234567890")
	case n == 3:
		return json.Number("9007199254740993")
	case n == 4:
		return json.Number("0.30000000000000004441")
	case n == 5:
		return json.Number("-1e-9")
	case n == 6:
		return "</script>&amp;\u2028 \"quoted\" \\ \x7f \t\n"
	case n == 7:
		return "日本 é 🙂"
	case n == 8:
		return new(big.Int).Lsh(big.NewInt(int64(r.Intn(1000)+1)), 200)
	case n == 9:
		return strings.Repeat("x", r.Intn(5000))
	case n == 10:
		return int64(9223372036854775807 - r.Int63n(5))
	case n < 13 && depth > 0:
		m := map[string]any{}
		for i := r.Intn(4); i >= 0; i-- {
			m[[]string{"event", "data", "a", "", "é", "payload", "id"}[r.Intn(7)]] = hookData(r, depth-1)
		}
		return m
	case depth > 0:
		l := []any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, hookData(r, depth-1))
		}
		return l
	}
	return ""
}

// p27: each queued notification arrives as it was queued, signed, until it is accepted once.
func p27(c *rig.Check) {
	c.Rule = "for every notification queued: each delivery has its event, data and a signature the receiver can verify over the bytes received; refused ones come again; after an accepted one none follows"
	for i, sc := range []struct {
		tag, secret string
		inproc      bool
		workers     int
	}{{"signed", "s3cret-with-é-and-:.", true, 2}, {"unsigned", "", false, 1}, {"rekeyed", "another", false, 1}} {
		p27run(c, sc.tag, sc.secret, sc.inproc, sc.workers, int64(i))
	}
	for i := 1; i < c.Pick(1, 12); i++ {
		p27run(c, fmt.Sprintf("more-%d", i), fmt.Sprintf("k%d", i), true, 1+i%3, int64(10+i))
	}
}

func p27run(c *rig.Check, tag, secret string, inproc bool, workers int, n int64) {
	rng := rand.New(rand.NewSource(c.Seed*100 + n))
	cfg := rig.Cfg{"notification": rig.Cfg{"webhook": rig.Cfg{"headers": rig.Cfg{"X-Custom": "v1, v2", "Authorization": "Bearer abc"}}}}
	if secret != "" {
		cfg["server"] = rig.Cfg{"secret_key": secret}
	}
	w := boot(c, tag, cfg, 1, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	r := w.R
	// queue: what the service itself says, and arbitrary events
	start := time.Now()
	w.AddBalances("USD", 6, 100000)
	w.Run(rig.Mix{Sync: 6, HoldSync: 4, Settle: 4, Refund: 2, N: c.Pick(40, 120), Conc: 3}, c.Seed+n)
	made := 0
	if inproc {
		b, _, err := inProcess(c, r, cfg)
		if err != nil {
			c.Broken("%s: %v", tag, err)
			return
		}
		events := []string{"transaction.applied", "balance.created", "custom.event", "", "événement", "a\"b", strings.Repeat("e", 300)}
		for i := 0; i < c.Pick(60, 250); i++ {
			m := map[string]any{"vid": fmt.Sprintf("%s-%d", tag, i), "x": hookData(rng, 3), "y": hookData(rng, 2)}
			var data any = m
			if i%10 == 0 {
				data = &model.Transaction{TransactionID: fmt.Sprintf("txn_%s-%d", tag, i), PreciseAmount: new(big.Int).Lsh(big.NewInt(1), uint(50+i)), Amount: 0.1, Precision: 100, MetaData: m, CreatedAt: time.Now()}
			}
			if err := b.SendWebhook(blnk.NewWebhook{Event: pick(rng, events), Payload: data}); err != nil {
				c.Broken("%s: queueing: %v", tag, err)
				return
			}
			made++
			js, _ := json.Marshal(data)
			v, _ := exact(js)
			want := exactText(v)
			if i%7 == 0 { // and it is queued as it was given
				if !p27queued(r, want) {
					c.Violate("queued", fmt.Sprintf("[%s] a notification was queued with other data than given: %.300s", tag, want), nil)
				}
			}
		}
	}
	qs, err := p27tasks(r)
	if err != nil {
		c.Broken("%s: %v", tag, err)
		return
	}
	// the postings' notifications are queued after the answers
	for rig.Eventually(700*time.Millisecond, func() bool {
		n := len(qs)
		qs, err = p27tasks(r)
		return err == nil && len(qs) > n
	}) {
	}
	notes := map[string]*note{}
	for id, pl := range qs {
		v, err := exact(pl)
		m, _ := v.(map[string]any)
		if err != nil || m == nil {
			c.Violate("queued", fmt.Sprintf("[%s] a task holds %.200q", tag, pl), nil)
			continue
		}
		t := exactText(v)
		if notes[t] != nil {
			continue // the same words twice cannot be told apart
		}
		nt := &note{text: t, task: id, event: fmt.Sprint(m["event"])}
		nt.dataMap, _ = m["data"].(map[string]any)
		for k := []int{0, 0, 1, 1, 2, 3, 6}[rng.Intn(7)]; k > 0; k-- {
			nt.plan = append(nt.plan, pick(rng, []int{500, 503, 502, 400, 401, 404, 408, 410, 422, 429, 304, 0, -1}))
		}
		notes[t] = nt
	}
	if len(notes) < 20 || len(notes) < made {
		c.Violate("queued", fmt.Sprintf("[%s] %d notifications are queued after %d were queued directly and %d requests made", tag, len(notes), made, c.Pick(40, 120)), nil)
		return
	}
	ids := map[string]bool{}
	for _, nt := range notes {
		if id, _ := nt.dataMap["transaction_id"].(string); id != "" {
			ids[id] = true
		}
	}
	var mu sync.Mutex
	var bad []string
	good := []int{200, 200, 201, 202, 204, 299}
	okRng := rand.New(rand.NewSource(c.Seed + n))
	deliveries, failed, firstDup := 0, 0, ""
	killed := time.Time{}
	r.Hooks.SetRespond(func(h *rig.Hook) int {
		mu.Lock()
		defer mu.Unlock()
		deliveries++
		say := func(f string, a ...any) {
			if len(bad) < 10 {
				bad = append(bad, fmt.Sprintf(f, a...))
			}
		}
		v, err := exact(h.Body)
		if err != nil {
			say("a delivery's body is no JSON: %.200q", h.Body)
			return 200
		}
		nt := notes[exactText(v)]
		if nt == nil {
			// what the workers themselves do now is told of as well
			m, _ := v.(map[string]any)
			d, _ := m["data"].(map[string]any)
			if id, _ := d["transaction_id"].(string); id != "" && !ids[id] {
				nt = &note{text: exactText(v), event: fmt.Sprint(m["event"]), dataMap: d}
				notes[nt.text] = nt
			}
		}
		if nt == nil {
			say("a delivery says what was never queued: %.500s", h.Body)
			return 200
		}
		p27signed(h, secret, say)
		if h.Header.Get("X-Custom") != "v1, v2" || h.Header.Get("Authorization") != "Bearer abc" {
			say("a delivery lacks the configured headers: %v", h.Header)
		}
		if len(nt.okAt) > 0 {
			first := nt.okAt[0]
			if killed.IsZero() || first.After(killed.Add(500*time.Millisecond)) || first.Before(killed.Add(-1500*time.Millisecond)) {
				if firstDup == "" {
					firstDup = fmt.Sprintf("accepted at %s and sent again at %s: %.300s", first.Format(time.StampMicro), h.At.Format(time.StampMicro), nt.text)
				}
			}
		}
		k := len(nt.seen)
		if k < len(nt.plan) {
			failed++
			nt.seen = append(nt.seen, nt.plan[k])
			return nt.plan[k]
		}
		st := good[okRng.Intn(len(good))]
		nt.seen = append(nt.seen, st)
		nt.okAt = append(nt.okAt, time.Now())
		return st
	})
	kill := inproc && workers > 1
	for i := 0; i < workers; i++ {
		p, err := r.Start("workers", nil)
		if err != nil {
			c.Broken("%s: %v", tag, err)
			return
		}
		if i == 1 && kill {
			time.Sleep(150 * time.Millisecond)
			mu.Lock()
			killed = time.Now()
			mu.Unlock()
			p.Kill()
			r.ReclaimOrphans()
		}
	}
	done := func() int {
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, nt := range notes {
			if len(nt.okAt) > 0 {
				n++
			}
		}
		return n
	}
	total := func() int {
		mu.Lock()
		defer mu.Unlock()
		return len(notes)
	}
	last, lastAt := 0, time.Now()
	for time.Since(lastAt) < 25*time.Second && done() < total() {
		r.RunRetries(false)
		if d := done(); d != last {
			last, lastAt = d, time.Now()
		}
		time.Sleep(60 * time.Millisecond)
	}
	if kill {
		r.ReclaimOrphans()
	}
	time.Sleep(400 * time.Millisecond)
	r.RunRetries(false)
	time.Sleep(1500 * time.Millisecond) // anything that comes too often
	mu.Lock()
	defer mu.Unlock()
	p27stored(c, w, tag, notes)
	for _, b := range bad {
		c.Violate("delivery", "["+tag+"] "+b, nil)
	}
	if firstDup != "" {
		c.Violate("repeated", "["+tag+"] "+firstDup, nil)
	}
	lost := 0
	for _, nt := range notes {
		if len(nt.okAt) == 0 {
			if lost++; lost == 1 {
				info := ""
				if ti, err := r.Inspector().GetTaskInfo(p27queue, nt.task); err == nil {
					info = fmt.Sprintf("its task: state %v, retried %d, last error %q", ti.State, ti.Retried, ti.LastErr)
				} else {
					info = "its task: " + err.Error()
				}
				c.Violate("lost", fmt.Sprintf("[%s] never delivered after the answers %v: %.300s (%s)", tag, nt.seen, nt.text, info), nil)
			}
		}
		shape := fmt.Sprintf("%s signed=%v %v", nt.event, secret != "", nt.seen)
		c.Case(shape, len(nt.plan) > 0)
		c.State("answers", fmt.Sprint(nt.seen))
	}
	c.Add("notifications", int64(len(notes)))
	c.Add("deliveries checked", int64(deliveries))
	c.Add("refused deliveries", int64(failed))
	c.Add("not delivered", int64(lost))
	_ = start
	for _, s := range r.Crashes() {
		c.Violate("crash", "["+tag+"] "+s, nil)
	}
}

const p27queue = "new:webhook"

// p27tasks lists the queued notifications.
func p27tasks(r *rig.Rig) (map[string][]byte, error) {
	out := map[string][]byte{}
	names, err := r.Inspector().Queues()
	if err != nil {
		return nil, err
	}
	for _, q := range names {
		if q != p27queue {
			continue
		}
		ids, err := r.MR.List("asynq:{" + q + "}:pending")
		if err != nil {
			continue
		}
		for _, id := range ids {
			ti, err := r.Inspector().GetTaskInfo(q, id)
			if err != nil {
				return nil, err
			}
			out[id] = ti.Payload
		}
	}
	return out, nil
}

func p27queued(r *rig.Rig, data string) bool {
	qs, _ := p27tasks(r)
	for _, pl := range qs {
		if v, err := exact(pl); err == nil {
			if m, _ := v.(map[string]any); m != nil && exactText(m["data"]) == data {
				return true
			}
		}
	}
	return false
}

// p27stored compares what the notifications of postings say with the records.
func p27stored(c *rig.Check, w *rig.World, tag string, notes map[string]*note) {
	for _, nt := range notes {
		id, _ := nt.dataMap["transaction_id"].(string)
		if id == "" || !strings.HasPrefix(nt.event, "transaction.") {
			continue
		}
		row := w.R.Audit.Txn(id)
		if row == nil {
			continue
		}
		bad := func(f string, got, want any) {
			c.Violate("content", fmt.Sprintf("[%s] the %s notification of %s says %s=%v, recorded %v", tag, nt.event, id, f, got, want), nil)
		}
		for f, want := range map[string]string{"reference": row.Ref, "currency": row.Cur, "status": row.Status, "source": row.Src, "destination": row.Dst} {
			if got := rig.Str(nt.dataMap[f]); got != want {
				bad(f, got, want)
			}
		}
		if row.Status != "" && nt.event != "transaction."+strings.ToLower(row.Status) {
			bad("event", nt.event, row.Status)
		}
		if n, ok := nt.dataMap["precise_amount"].(json.Number); !ok || n.String() != row.Amt.String() {
			bad("precise_amount", nt.dataMap["precise_amount"], row.Amt)
		}
		c.Add("notifications compared with their record", 1)
	}
}

// p27signed verifies a delivery as its receiver would.
func p27signed(h *rig.Hook, secret string, say func(string, ...any)) {
	sig, ts := h.Header.Get("X-Blnk-Signature"), h.Header.Get("X-Blnk-Timestamp")
	if !strings.HasPrefix(h.Header.Get("Content-Type"), "application/json") {
		say("a delivery's content type is %q", h.Header.Get("Content-Type"))
	}
	if secret == "" {
		return
	}
	n, err := strconv.ParseInt(ts, 10, 64)
	if err != nil {
		say("a delivery's timestamp is %q", ts)
		return
	}
	if d := h.At.Sub(time.Unix(n, 0)); d < -2*time.Second || d > 10*time.Second {
		say("a delivery received at %s carries the timestamp %s", h.At, ts)
	}
	mac := hmac.New(sha256.New, []byte(secret))
	mac.Write([]byte(ts + "."))
	mac.Write(h.Body)
	if hex.EncodeToString(mac.Sum(nil)) != sig {
		say("a delivery's signature %q does not verify over its timestamp %s and its %d bytes", sig, ts, len(h.Body))
	}
}
