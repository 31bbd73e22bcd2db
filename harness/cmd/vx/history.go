package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/database"
	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
	"github.com/sirupsen/logrus"
)

func init() {
	checks["P16"] = p16
	checks["P17"] = p17
	checks["P18"] = p18
}

// inProcess makes the service's core in this process, over the rig's database and redis.
func inProcess(c *rig.Check, r *rig.Rig, over rig.Cfg) (*blnk.Blnk, *database.Datasource, error) {
	logrus.SetOutput(io.Discard)
	f, err := r.ConfigFile("inproc", over)
	if err != nil {
		return nil, nil, err
	}
	if err := config.InitConfig(f); err != nil {
		return nil, nil, err
	}
	cnf, err := config.Fetch()
	if err != nil {
		return nil, nil, err
	}
	ds, err := database.NewDataSource(cnf)
	if err != nil {
		return nil, nil, err
	}
	b, err := blnk.NewBlnk(ds)
	if err != nil {
		return nil, nil, err
	}
	d, ok := ds.(*database.Datasource)
	if !ok {
		return nil, nil, fmt.Errorf("datasource is a %T", ds)
	}
	return b, d, nil
}

// ---- P16 ----

var hostileMeta = []M{
	{"status": "VOID", "amount": 1, "precise_amount": "1", "transaction_id": "txn_x"},
	{"inflight": true, "allow_overdraft": true, "atomic": true},
	{"source": "@x", "destination": "@y", "reference": "r", "currency": "ZZZ", "precision": 1},
	{"hash": "0", "created_at": "2000-01-01T00:00:00Z", "chain_hash": "1", "chain_seq": 1},
	{"meta_data": M{"status": "APPLIED"}, "QUEUED_PARENT_TRANSACTION": "txn_other", "x'; UPDATE blnk.transactions SET status='VOID'; --": "y"},
	{},
}

// p16: recorded transactions never change.
func p16(c *rig.Check) {
	c.Rule = "every row change of every commit is checked: no transaction, journal entry or snapshot row loses or alters a protected column under a mixed workload with chaining, recovery, snapshots, hostile metadata, reused identifiers and crashes; what the API reported of a transaction is reported again unchanged at the end; a foreign client's update of each protected column is refused by the database; distinct_nontrivial counts the (operation or column, status) kinds"
	f := c.Pick(3, 12)
	run := func(tag string, cfg rig.Cfg, seed int64) {
		hist := map[string]M{}
		var hmu sync.Mutex
		stop := make(chan struct{})
		var wg sync.WaitGroup
		prep := func(w *rig.World) {
			rng := rand.New(rand.NewSource(seed + 5))
			w.Quiet = func() { close(stop); wg.Wait() }
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; ; n++ {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(5+rng.Intn(15)) * time.Millisecond):
					}
					p := w.S[rng.Intn(len(w.S))]
					var id, ref string
					w.R.Audit.With(func() {
						if l := w.R.Audit.Ord; len(l) > 0 {
							t := l[rng.Intn(len(l))]
							id, ref = t.ID, t.Ref
						}
					})
					if id == "" {
						continue
					}
					switch k := rng.Intn(9); k {
					case 0, 1:
						m := hostileMeta[rng.Intn(len(hostileMeta))]
						r := p.Do("POST", "/"+id+"/metadata", M{"meta_data": m})
						c.Case(fmt.Sprintf("metadata/%v", r.OK()), true)
					case 2:
						r := p.Txn(M{"source": "@world", "destination": w.Bals["USD"][0], "precise_amount": 5, "allow_overdraft": true, "transaction_id": id, "skip_queue": n%2 == 0, "status": "VOID", "created_at": "2001-01-01T00:00:00Z", "hash": "h"})
						c.Case(fmt.Sprintf("same-id/%v", r.OK()), true)
					case 3:
						r := p.Txn(M{"source": "@world", "destination": w.Bals["USD"][1], "precise_amount": 6, "allow_overdraft": true, "reference": ref, "skip_queue": true})
						c.Case(fmt.Sprintf("same-ref/%v", r.OK()), true)
					case 4:
						p.Do("POST", "/balances-snapshots?batch_size=2", nil)
						c.Case("snapshot", true)
					case 5:
						p.Do("POST", "/transactions/recover?threshold=1s", nil)
						c.Case("recover", true)
					case 6:
						r := p.Do("PUT", "/transactions/inflight/"+id, M{"status": []string{"commit", "void", "APPLIED", "reject"}[rng.Intn(4)], "skip_queue": n%2 == 0})
						c.Case(fmt.Sprintf("settle/%v", r.OK()), true)
					default:
						if r := p.Do("GET", "/transactions/"+id, nil); r.OK() {
							hmu.Lock()
							if hist[id] == nil {
								hist[id] = r.J
							}
							hmu.Unlock()
						}
					}
				}
			}()
		}
		mixed(c, tag, cfg, 2, 1, scaled(fullMix, f), seed, prep, func(w *rig.World) {
			time.Sleep(1200 * time.Millisecond) // the chain's next turn
			w.R.Audit.Settle(tag, "immutable")
			countShapes(c, w)
			for id, old := range hist {
				r := w.S[0].Do("GET", "/transactions/"+id, nil)
				if !r.OK() {
					c.Violate("vanished", fmt.Sprintf("[%s] transaction %s was reported once and is answered with %s now", tag, id, r), nil)
					continue
				}
				for _, k := range []string{"transaction_id", "source", "destination", "reference", "amount", "amount_string", "precise_amount", "precision", "currency", "status", "hash", "created_at", "description", "parent_transaction", "effective_date"} {
					if fmt.Sprint(old[k]) != fmt.Sprint(r.J[k]) {
						c.Violate("reported:"+k, fmt.Sprintf("[%s] transaction %s reported %s=%v first and %v later", tag, id, k, old[k], r.J[k]), nil)
					}
				}
				c.Case("reread/"+fmt.Sprint(old["status"]), true)
			}
			foreignUpdates(c, w, tag)
			crashes(c, w, tag)
		})
	}
	chain := M{"enabled": true, "poll_interval": int64(300 * time.Millisecond), "trailing_delay": int64(time.Millisecond), "batch_size": 7}
	all(
		func() { run("chain", rig.Cfg{"transaction": M{"hash_chain": chain}}, c.Seed+160) },
		func() {
			run("plain", rig.Cfg{"transaction": M{"batch_size": 3}, "queue": M{"enable_hot_lane": true, "hot_pair_lock_contention_threshold": 1}}, c.Seed+161)
		},
	)
}

// foreignUpdates tries to change each protected column behind the service's back.
func foreignUpdates(c *rig.Check, w *rig.World, tag string) {
	byStatus := map[string]string{}
	w.R.Audit.With(func() {
		for _, t := range w.R.Audit.Ord {
			byStatus[t.Status] = t.ID
		}
	})
	row := func(id string) M {
		l, _, err := w.R.Eng.Do(false, "SELECT * FROM blnk.transactions WHERE transaction_id = $1", id)
		if err != nil || len(l) != 1 {
			c.Broken("reading %s: %v", id, err)
			return M{}
		}
		return l[0]
	}
	cols := map[string]string{
		"transaction_id": "'txn_changed'", "source": "'x'", "destination": "'x'", "reference": "'changed' || reference", "amount": "amount + 1", "precise_amount": "precise_amount + 1",
		"precision": "1234", "currency": "'ZZZ'", "status": "'SCHEDULED'", "hash": "'x'", "created_at": "created_at + INTERVAL '1 second'", "description": "'changed'", "scheduled_for": "'2031-01-01'",
	}
	for st, id := range byStatus {
		before := row(id)
		for col, v := range cols {
			_, _, err := w.R.Eng.Do(false, fmt.Sprintf("UPDATE blnk.transactions SET %s = %s WHERE transaction_id = $1", col, v), id)
			c.Case("foreign/"+col+"/"+st, true)
			if err == nil {
				c.Violate("foreign:"+col, fmt.Sprintf("[%s] the database let a client change %s of a recorded %s transaction", tag, col, st), nil)
				w.R.Eng.Do(true, fmt.Sprintf("UPDATE blnk.transactions SET %s = $2 WHERE id = $1", col), before["id"], rig.Str(before[col]))
			} else if pe, ok := err.(interface{ Error() string }); ok && strings.Contains(pe.Error(), "pgfake") {
				c.Broken("foreign update: %v", err)
			}
		}
		// also hidden behind an allowed change
		if _, _, err := w.R.Eng.Do(false, `UPDATE blnk.transactions SET meta_data = '{"a":1}', precise_amount = precise_amount * 2 WHERE transaction_id = $1`, id); err == nil {
			c.Violate("foreign:with-metadata", fmt.Sprintf("[%s] the database let a client double the amount of a recorded %s transaction along with its metadata", tag, st), nil)
		}
		after := row(id)
		for k := range cols {
			if fmt.Sprint(before[k]) != fmt.Sprint(after[k]) {
				c.Violate("foreign-row:"+k, fmt.Sprintf("[%s] after refused updates %s of %s is %v, it was %v", tag, k, id, after[k], before[k]), nil)
			}
		}
		if _, _, err := w.R.Eng.Do(false, `UPDATE blnk.transactions SET meta_data = '{"b":2}' WHERE transaction_id = $1`, id); err != nil {
			c.Violate("metadata-refused", fmt.Sprintf("[%s] the database refused a change of metadata alone: %v", tag, err), nil)
		}
	}
	snaps := w.R.Eng.Rows("blnk.balance_snapshots")
	for i, s := range snaps {
		if i > 3 {
			break
		}
		for col, v := range map[string]string{"balance": "balance + 1", "credit_balance": "credit_balance + 1", "debit_balance": "debit_balance + 1", "inflight_balance": "7", "currency": "'ZZZ'", "snapshot_time": "snapshot_time + INTERVAL '1 second'", "balance_id": "'" + w.Bals["EUR"][0] + "'"} {
			if col == "balance_id" && rig.Str(s["balance_id"]) == w.Bals["EUR"][0] {
				continue
			}
			_, _, err := w.R.Eng.Do(false, fmt.Sprintf("UPDATE blnk.balance_snapshots SET %s = %s WHERE id = $1", col, v), s["id"])
			c.Case("foreign-snapshot/"+col, true)
			if err == nil {
				c.Violate("foreign-snapshot:"+col, fmt.Sprintf("[%s] the database let a client change %s of a balance snapshot", tag, col), nil)
			}
		}
	}
	c.Add("snapshot_rows", int64(len(snaps)))
}

// ---- P17 ----

func p17(c *rig.Check) {
	c.Rule = "chains sealed by several racing servers at several batch sizes, with one killed, are numbered and linked without a gap and verify at every moment; then rows of two chains (a mixed one and one longer than the verifier's pages) are altered, removed, added, moved and relinked one way at a time, and each must fail verification; distinct_nontrivial counts (tampering, place) kinds"
	c.Assume = []string{"the tamperer does not also rewrite the bookmark in chain_state"}
	all(func() { p17live(c, "live", 3, c.Seed+170) }, func() { p17live(c, "live1", 1, c.Seed+171) }, func() { p17tamper(c) })
}

func chainRows(r *rig.Rig) []M {
	var out []M
	for _, m := range r.Eng.Rows("blnk.transactions") {
		if m["chain_seq"] != nil {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return rig.BI(out[i]["chain_seq"]).Cmp(rig.BI(out[j]["chain_seq"])) < 0 })
	return out
}

func p17live(c *rig.Check, tag string, batch int, seed int64) {
	cfg := rig.Cfg{"transaction": M{"hash_chain": M{"enabled": true, "poll_interval": int64(50 * time.Millisecond), "trailing_delay": int64(20 * time.Millisecond), "batch_size": batch}}}
	w := boot(c, tag, cfg, 3, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	w.Faulty = true
	for _, cur := range []string{"USD", "EUR"} {
		if w.AddBalances(cur, 4, 50000) != nil {
			c.Broken("balances")
			return
		}
	}
	rng := rand.New(rand.NewSource(seed))
	jitter(w, seed, 25, 8)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(2)
	verify := func(when string) {
		out, err := w.R.Run("verify", "verify-chain")
		c.Case("verify/"+when, true)
		c.Add("verifications", 1)
		if err != nil {
			c.Violate("false-alarm", fmt.Sprintf("[%s] verify-chain failed on an untouched ledger %s: %v %s", tag, when, err, tailOf(out, 300)), nil)
		}
	}
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(rng.Intn(200)) * time.Millisecond):
				verify("while chaining")
			}
		}
	}()
	third := w.S[2]
	go func() {
		defer wg.Done()
		time.Sleep(1500 * time.Millisecond)
		third.Kill()
	}()
	w.S = w.S[:2]
	m := scaled(fullMix, c.Pick(1, 8))
	m.N = m.N * 2 / 3
	w.Run(m, seed)
	w.R.Drain(60*time.Second, false)
	close(stop)
	wg.Wait()
	w.R.Eng.SetHook(nil)
	full := rig.Eventually(20*time.Second, func() bool {
		n := 0
		for _, t := range w.R.Eng.Rows("blnk.transactions") {
			if t["chain_seq"] == nil {
				n++
			}
		}
		return n == 0
	})
	if !full {
		c.Violate("never-chained", fmt.Sprintf("[%s] transactions stay out of the chain", tag), nil)
	}
	verify("at the end")
	rows := chainRows(w.R)
	prev := strings.Repeat("0", 64)
	for i, m := range rows {
		if rig.BI(m["chain_seq"]).Int64() != int64(i+1) {
			c.Violate("numbering", fmt.Sprintf("[%s] the chain's row %d has number %v", tag, i+1, m["chain_seq"]), nil)
			break
		}
		if rig.Str(m["chain_prev_hash"]) != prev {
			c.Violate("link", fmt.Sprintf("[%s] row %d does not link to its predecessor", tag, i+1), nil)
			break
		}
		prev = rig.Str(m["chain_hash"])
		c.Case("sealed/"+rig.Str(m["status"]), true)
	}
	w.R.Audit.Settle(tag, "immutable")
	c.Add("chained_rows", int64(len(rows)))
	crashes(c, w, tag)
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// sealOf is the link a tamperer who knows the format computes.
func sealOf(prev string, m M) string {
	dec := func(v any) string {
		if v == nil {
			return ""
		}
		return fmt.Sprint(v)
	}
	at, _ := m["created_at"].(time.Time)
	s := strings.Join([]string{prev, rig.Str(m["transaction_id"]), rig.Str(m["source"]), rig.Str(m["destination"]), dec(m["amount"]), dec(m["precise_amount"]), rig.Str(m["currency"]), rig.Str(m["status"]), rig.Str(m["reference"]), at.UTC().Format(time.RFC3339Nano)}, "|")
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
}

func p17tamper(c *rig.Check) {
	w := boot(c, "tamper", nil, 1, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	if w.AddBalances("USD", 4, 50000) != nil {
		c.Broken("balances")
		return
	}
	m := fullMix
	m.N = 96
	w.Run(m, c.Seed+172)
	w.R.Drain(60*time.Second, false)
	b, ds, err := inProcess(c, w.R, nil)
	if err != nil {
		c.Broken("in process: %v", err)
		return
	}
	ctx := context.Background()
	eng := w.R.Eng
	rng := rand.New(rand.NewSource(c.Seed + 173))
	ins := func(n int) {
		names := []string{"@a", "@b", "bln_1", "", "ünï", "a|b", `q"q`, "x y"}
		for i := 0; i < n; i++ {
			at := time.Date(2024, 1, 1, 0, 0, rng.Intn(3000000), rng.Intn(1000000)*1000, time.UTC)
			if rng.Intn(5) == 0 {
				at = at.Truncate(time.Second)
			}
			amt := randAmount(rng)
			var src any = names[rng.Intn(len(names))]
			if rng.Intn(9) == 0 {
				src = nil
			}
			_, _, err := eng.Do(true, `INSERT INTO blnk.transactions (transaction_id, source, destination, reference, amount, precise_amount, precision, currency, description, status, hash, created_at, meta_data, scheduled_for)
				VALUES ($1,$2,$3,$4,$5,$6,100,$7,'d',$8,'h',$9,'{}','0001-01-01')`,
				rig.Ref("txn"), src, names[rng.Intn(len(names))], rig.Ref("ref"), amt, randPrecise(rng, 200).String(), []string{"USD", "EUR", "usd"}[rng.Intn(3)], []string{"APPLIED", "QUEUED", "INFLIGHT", "VOID", "REJECTED"}[rng.Intn(5)], at)
			if err != nil {
				c.Broken("insert: %v", err)
				return
			}
		}
	}
	seal := func() {
		for i := 0; i < 5000; i++ {
			n, err := ds.ChainPendingTransactions(ctx, time.Now().Add(time.Hour), 1+rng.Intn(400))
			if err != nil {
				c.Broken("sealing: %v", err)
				return
			}
			if n == 0 {
				return
			}
		}
	}
	verified := func() (bool, string) {
		r, err := b.VerifyChain(ctx, nil)
		c.Add("verifications", 1)
		if err != nil {
			return false, "error: " + err.Error()
		}
		return r.Verified, r.Reason
	}
	ins(20)
	seal()
	round := func(size string, per int) {
		if ok, why := verified(); !ok {
			c.Violate("false-alarm", fmt.Sprintf("the untouched %s chain of %d fails verification: %s", size, len(chainRows(w.R)), why), nil)
			return
		}
		rows := chainRows(w.R)
		n := len(rows)
		// places worth trying: the ends, the borders of the verifier's pages, anywhere
		place := func() (int, string) {
			switch rng.Intn(6) {
			case 0:
				return 0, "first"
			case 1:
				return n - 1, "last"
			case 2:
				k := []int{499, 500, 501, 998, 999, 1000, 1001, 1999, 2000, 2001}[rng.Intn(10)]
				if k < n {
					return k, "page"
				}
				return n - 2, "near-last"
			}
			return rng.Intn(n), "any"
		}
		exec := func(sql string, ps ...any) {
			if _, _, err := eng.Do(true, sql, ps...); err != nil {
				c.Broken("tampering %s: %v", sql, err)
			}
		}
		fields := []string{"transaction_id", "source", "destination", "amount", "precise_amount", "currency", "status", "reference", "created_at"}
		change := func(f string, old any) any {
			s := rig.Str(old)
			switch f {
			case "amount", "precise_amount":
				return []string{"0", "1", s + "1", "-" + s, "1" + s}[rng.Intn(5)]
			case "created_at":
				at, _ := old.(time.Time)
				return at.Add([]time.Duration{time.Microsecond, -time.Microsecond, time.Second, -time.Hour, 24 * time.Hour}[rng.Intn(5)])
			case "status":
				for {
					x := []string{"APPLIED", "QUEUED", "INFLIGHT", "VOID", "REJECTED", "applied"}[rng.Intn(6)]
					if x != s {
						return x
					}
				}
			}
			switch rng.Intn(4) {
			case 0:
				return s + "x"
			case 1:
				return s + " "
			case 2:
				if strings.ToUpper(s) != s {
					return strings.ToUpper(s)
				}
				return "y" + s
			}
			return "z"
		}
		restore := func(l ...M) {
			for _, m := range l {
				exec("DELETE FROM blnk.transactions WHERE id = $1", m["id"])
			}
			for _, m := range l {
				var cols, qs []string
				var ps []any
				for k, v := range m {
					if v == nil {
						continue
					}
					if k == "meta_data" {
						v = "{}"
					}
					cols = append(cols, k)
					qs = append(qs, fmt.Sprintf("$%d", len(ps)+1))
					ps = append(ps, v)
				}
				exec(fmt.Sprintf("INSERT INTO blnk.transactions (%s) VALUES (%s)", strings.Join(cols, ","), strings.Join(qs, ",")), ps...)
			}
		}
		for it := 0; it < per && c.Elapsed() < time.Duration(c.Pick(45, 3000))*time.Second; it++ {
			i, at := place()
			m := rows[i]
			kind, touched := "", []M{m}
			what := ""
			switch k := rng.Intn(14); k {
			case 0, 1, 2, 3:
				f := fields[rng.Intn(len(fields))]
				v := change(f, m[f])
				if rig.Str(v) == rig.Str(m[f]) || fmt.Sprint(v) == fmt.Sprint(m[f]) {
					continue
				}
				if (f == "amount" || f == "precise_amount") && rig.BI(v).Cmp(rig.BI(m[f])) == 0 && same(v, m[f]) {
					continue
				}
				kind = "alter:" + f
				what = fmt.Sprintf("%v -> %v", m[f], v)
				exec("UPDATE blnk.transactions SET "+f+" = $2 WHERE id = $1", m["id"], v)
			case 4:
				// altered and sealed again by one who knows the format
				f := fields[rng.Intn(len(fields))]
				v := change(f, m[f])
				if rig.Str(v) == rig.Str(m[f]) || ((f == "amount" || f == "precise_amount") && same(v, m[f])) {
					continue
				}
				kind = "reseal:" + f
				exec("UPDATE blnk.transactions SET "+f+" = $2 WHERE id = $1", m["id"], v)
				l, _, _ := eng.Do(true, "SELECT * FROM blnk.transactions WHERE id = $1", m["id"])
				exec("UPDATE blnk.transactions SET chain_hash = $2 WHERE id = $1", m["id"], sealOf(rig.Str(m["chain_prev_hash"]), l[0]))
			case 5:
				// the whole tail sealed again
				if n-i > 40 {
					i = n - 1 - rng.Intn(40)
					m = rows[i]
				}
				kind = "reseal-tail"
				touched = rows[i:]
				exec("UPDATE blnk.transactions SET precise_amount = precise_amount + 1 WHERE id = $1", m["id"])
				prev := rig.Str(m["chain_prev_hash"])
				for _, x := range rows[i:] {
					l, _, _ := eng.Do(true, "SELECT * FROM blnk.transactions WHERE id = $1", x["id"])
					h := sealOf(prev, l[0])
					exec("UPDATE blnk.transactions SET chain_prev_hash = $2, chain_hash = $3 WHERE id = $1", x["id"], prev, h)
					prev = h
				}
			case 6:
				kind = "remove"
				k := 1
				if rng.Intn(3) == 0 {
					k = 1 + rng.Intn(3)
				}
				if at == "last" {
					i = n - k
				}
				if i+k > n {
					k = n - i
				}
				touched = rows[i : i+k]
				if i+k == n {
					kind = "remove-tail"
				}
				for _, x := range touched {
					if rng.Intn(2) == 0 {
						exec("DELETE FROM blnk.transactions WHERE id = $1", x["id"])
					} else {
						exec("UPDATE blnk.transactions SET chain_seq = NULL, chain_prev_hash = NULL, chain_hash = NULL WHERE id = $1", x["id"])
					}
				}
			case 7:
				kind = "remove-renumber"
				if n-i > 60 {
					i = n - 2 - rng.Intn(60)
					m = rows[i]
				}
				touched = rows[i:]
				exec("DELETE FROM blnk.transactions WHERE id = $1", m["id"])
				for _, x := range rows[i+1:] {
					exec("UPDATE blnk.transactions SET chain_seq = chain_seq - 1 WHERE id = $1", x["id"])
				}
			case 8:
				j := rng.Intn(n)
				if rng.Intn(2) == 0 {
					j = (i + 1) % n
				}
				if j == i {
					continue
				}
				kind = "swap"
				o := rows[j]
				touched = []M{m, o}
				exec("UPDATE blnk.transactions SET chain_seq = NULL WHERE id = $1", m["id"])
				exec("UPDATE blnk.transactions SET chain_seq = $2 WHERE id = $1", o["id"], m["chain_seq"])
				exec("UPDATE blnk.transactions SET chain_seq = $2 WHERE id = $1", m["id"], o["chain_seq"])
				if rng.Intn(2) == 0 {
					kind = "swap-links"
					exec("UPDATE blnk.transactions SET chain_prev_hash = $2, chain_hash = $3 WHERE id = $1", o["id"], m["chain_prev_hash"], m["chain_hash"])
					exec("UPDATE blnk.transactions SET chain_prev_hash = $2, chain_hash = $3 WHERE id = $1", m["id"], o["chain_prev_hash"], o["chain_hash"])
				}
			case 9:
				kind = "append"
				last := rows[n-1]
				x := M{}
				for k, v := range last {
					x[k] = v
				}
				x["id"], x["transaction_id"], x["reference"] = 90000000+it, rig.Ref("txn"), rig.Ref("ref")
				x["chain_seq"], x["chain_prev_hash"] = n+1, last["chain_hash"]
				x["chain_hash"] = sealOf(rig.Str(last["chain_hash"]), x)
				restore(x)
				if ok, why := verified(); ok {
					c.Violate("undetected:append", fmt.Sprintf("a row added after the end of the %s chain of %d passes verification", size, n), nil)
				} else {
					_ = why
				}
				c.Case("append/last", true)
				exec("DELETE FROM blnk.transactions WHERE id = $1", x["id"])
				continue
			case 10:
				kind = "insert"
				if n-i > 40 {
					i = n - 1 - rng.Intn(40)
					m = rows[i]
				}
				touched = rows[i:]
				for k := n - 1; k >= i; k-- {
					exec("UPDATE blnk.transactions SET chain_seq = chain_seq + 1 WHERE id = $1", rows[k]["id"])
				}
				x := M{}
				for k, v := range m {
					x[k] = v
				}
				x["id"], x["transaction_id"], x["reference"] = 91000000+it, rig.Ref("txn"), rig.Ref("ref")
				x["chain_hash"] = sealOf(rig.Str(m["chain_prev_hash"]), x)
				restore(x)
				if i+1 <= n-1 || true {
					exec("UPDATE blnk.transactions SET chain_prev_hash = $2 WHERE id = $1", m["id"], x["chain_hash"])
				}
				if ok, _ := verified(); ok {
					c.Violate("undetected:insert", fmt.Sprintf("a row inserted at %d of the %s chain of %d passes verification", i+1, size, n), nil)
				}
				c.Case("insert/"+at, true)
				exec("DELETE FROM blnk.transactions WHERE id = $1", x["id"])
				restore(touched...)
				continue
			case 11:
				kind = "chain_hash"
				exec("UPDATE blnk.transactions SET chain_hash = $2 WHERE id = $1", m["id"], strings.Repeat("a", 64))
			case 12:
				kind = "chain_prev_hash"
				exec("UPDATE blnk.transactions SET chain_prev_hash = $2 WHERE id = $1", m["id"], strings.Repeat("b", 64))
			case 13:
				// contents moved across the separator between two sealed fields
				s := rig.Str(m["source"])
				d := rig.Str(m["destination"])
				j := strings.Index(s, "|")
				if j < 0 {
					continue
				}
				kind = "separator-shift"
				exec("UPDATE blnk.transactions SET source = $2, destination = $3 WHERE id = $1", m["id"], s[:j], s[j+1:]+"|"+d)
				ok, _ := verified()
				c.Case(kind+"/"+at, true)
				if ok {
					c.Violate("separator-shift", fmt.Sprintf("source %q and destination %q became %q and %q without verification failing", s, d, s[:j], s[j+1:]+"|"+d), nil)
				}
				restore(m)
				continue
			}
			c.Case(kind+"/"+at, true)
			ok, why := verified()
			if ok {
				c.Violate("undetected:"+kind, fmt.Sprintf("%s (%s) at row %d (%s) of the %s chain of %d passes verification", kind, what, i+1, at, size, n), nil)
			}
			_ = why
			restore(touched...)
			if it%25 == 0 {
				if ok, why := verified(); !ok {
					c.Broken("restoring after %s: %s", kind, why)
					return
				}
			}
		}
		if ok, why := verified(); !ok {
			c.Broken("restored chain: %s", why)
		}
	}
	round("short", c.Pick(700, 20000))
	ins(2150)
	seal()
	round("long", c.Pick(90, 3000))
	// the command line reports it too
	last := chainRows(w.R)
	m0 := last[len(last)/2]
	eng.Do(true, "UPDATE blnk.transactions SET precise_amount = precise_amount + 1 WHERE id = $1", m0["id"])
	if out, err := w.R.Run("verify", "verify-chain"); err == nil {
		c.Violate("command", "verify-chain exits 0 on an altered chain: "+tailOf(out, 200), nil)
	}
	eng.Do(true, "UPDATE blnk.transactions SET precise_amount = precise_amount - 1 WHERE id = $1", m0["id"])
	if out, err := w.R.Run("verify", "verify-chain"); err != nil {
		c.Violate("false-alarm", "verify-chain fails on an intact chain: "+tailOf(out, 200), nil)
	}
	eng.Do(true, "DELETE FROM blnk.transactions WHERE id = $1", last[len(last)-1]["id"])
	if out, err := w.R.Run("verify", "verify-chain"); err == nil {
		c.Violate("command", "verify-chain exits 0 on a chain whose last row is gone: "+tailOf(out, 200), nil)
	}
}

func same(x, y any) bool { return rat(fmt.Sprint(x)).Cmp(rat(fmt.Sprint(y))) == 0 }

// ---- P18 ----

func p18(c *rig.Check) {
	c.Rule = "the balance reported for a past moment is compared with the sum of the applied rows effective by then, at the moments of rows, just before and after them, at snapshots, before everything and later than everything, computed from the transactions and from snapshots, in histories of several days with snapshots at every batch size and in histories made by the service itself; snapshot rows are compared with the states their balance went through; distinct_nontrivial counts (history, mode, moment) kinds"
	all(func() { p18days(c, c.Seed+180) }, func() { p18days(c, c.Seed+181) }, func() { p18live(c, c.Seed+182) })
}

type hrow struct {
	src, dst string
	amt      *big.Int
	eff      time.Time
	rec      int // order of recording
}

// asked compares the answers for one balance and moment.
func asked(c *rig.Check, p *rig.Proc, tag, bal, cur, place string, at time.Time, rows []hrow, snaps []M) {
	cr, db := new(big.Int), new(big.Int)
	for _, h := range rows {
		if h.eff.After(at) {
			continue
		}
		if h.src == bal {
			db.Add(db, h.amt)
		}
		if h.dst == bal {
			cr.Add(cr, h.amt)
		}
	}
	// what the listed finding yields: the snapshot, plus what took effect after it
	var sn M
	for _, s := range snaps {
		if st, ok := s["snapshot_time"].(time.Time); ok && rig.Str(s["balance_id"]) == bal && !st.After(at) && (sn == nil || sn["snapshot_time"].(time.Time).Before(st)) {
			sn = s
		}
	}
	for _, src := range []string{"true", "false", ""} {
		loc := at
		if len(place)%2 == 0 {
			loc = at.In(time.FixedZone("x", 5*3600+1800))
		}
		u := "/balances/" + bal + "/at?timestamp=" + url.QueryEscape(loc.Format(time.RFC3339Nano))
		if src != "" {
			u += "&from_source=" + src
		}
		r := p.Do("GET", u, nil)
		mode := "source"
		if src != "true" {
			mode = "snapshot"
			if sn == nil {
				mode = "no-snapshot"
			}
		}
		c.Case(tag+"/"+mode+"/"+place, true)
		b, _ := r.J["balance"].(map[string]any)
		if !r.OK() || b == nil {
			c.Violate("no-answer", fmt.Sprintf("[%s] balance %s at %s (%s): %s", tag, bal, at.Format(time.RFC3339Nano), mode, r), nil)
			continue
		}
		gc, gd, gb := num(b["credit_balance"]), num(b["debit_balance"]), num(b["balance"])
		if gb.Cmp(new(big.Int).Sub(gc, gd)) != 0 || fmt.Sprint(b["balance_id"]) != bal || fmt.Sprint(b["currency"]) != cur {
			c.Violate("inconsistent", fmt.Sprintf("[%s] balance %s at %s answered %v", tag, bal, at.Format(time.RFC3339Nano), b), nil)
		}
		if gc.Cmp(cr) == 0 && gd.Cmp(db) == 0 {
			continue
		}
		if mode == "snapshot" {
			xc, xd := rig.BI(sn["credit_balance"]), rig.BI(sn["debit_balance"])
			st := sn["snapshot_time"].(time.Time)
			for _, h := range rows {
				if h.eff.After(st) && !h.eff.After(at) {
					if h.src == bal {
						xd.Add(xd, h.amt)
					}
					if h.dst == bal {
						xc.Add(xc, h.amt)
					}
				}
			}
			if gc.Cmp(xc) == 0 && gd.Cmp(xd) == 0 {
				c.Violate("snapshot-late-rows", "a row effective before a snapshot but recorded after it, or effective after it but recorded before, is missed or counted early by answers computed from the snapshot", nil)
				c.Add("late_row_answers", 1)
				continue
			}
		}
		c.Violate("wrong:"+mode, fmt.Sprintf("[%s] balance %s at %s (%s, %s): answered credit %s debit %s, the rows effective by then make it credit %s debit %s", tag, bal, at.Format(time.RFC3339Nano), mode, place, gc, gd, cr, db), nil)
	}
}

// p18days writes a history of several days, snapshotting as it goes.
func p18days(c *rig.Check, seed int64) {
	w := boot(c, "days", nil, 1, 0)
	if w == nil {
		return
	}
	defer w.R.Close()
	rng := rand.New(rand.NewSource(seed))
	eng := w.R.Eng
	var mu sync.Mutex
	base := time.Now().UTC().Truncate(24 * time.Hour).Add(-40 * 24 * time.Hour)
	clock := base
	eng.Clock = func() time.Time { mu.Lock(); defer mu.Unlock(); return clock }
	set := func(t time.Time) { mu.Lock(); clock = t; mu.Unlock() }
	var bals []string
	add := func(n int) {
		for i := 0; i < n; i++ {
			b := w.S[0].Balance(w.Ledger, "USD")
			if b == "" {
				c.Broken("balance")
				return
			}
			bals = append(bals, b)
		}
	}
	add(4)
	late := map[string]bool{} // balances that get rows out of order
	add(3)
	for _, b := range bals[4:] {
		late[b] = true
	}
	var rows []hrow
	do := func(sql string, ps ...any) {
		if _, _, err := eng.Do(true, sql, ps...); err != nil {
			c.Broken("history: %v: %s", err, sql)
		}
	}
	put := func(t time.Time, i int) {
		pool := bals
		s := pool[rng.Intn(len(pool))]
		d := pool[rng.Intn(len(pool))]
		if rng.Intn(5) == 0 {
			d = "@outside"
		}
		for late[s] != late[d] && d != "@outside" { // keep ordered and disordered histories apart
			d = pool[rng.Intn(len(pool))]
		}
		if s == d {
			d = "@outside"
		}
		amt := big.NewInt(1 + rng.Int63n(10000))
		if rng.Intn(10) == 0 {
			amt = randPrecise(rng, 120)
		}
		st := []string{"APPLIED", "APPLIED", "APPLIED", "APPLIED", "INFLIGHT", "VOID", "QUEUED", "REJECTED"}[rng.Intn(8)]
		eff := t
		var effv any = t
		switch {
		case rng.Intn(3) == 0:
			effv = nil
		case late[s] && rng.Intn(3) == 0:
			eff = t.Add(time.Duration(rng.Intn(6*24*3600)-3*24*3600) * time.Second)
			effv = eff
		}
		do(`INSERT INTO blnk.transactions (transaction_id, source, destination, reference, amount, precise_amount, precision, currency, description, status, hash, created_at, effective_date, meta_data, scheduled_for)
			VALUES ($1,$2,$3,$4,$5,$5,1,'USD','d',$6,'h',$7,$8,'{}','0001-01-01')`, rig.Ref("txn"), s, d, rig.Ref("ref"), amt.String(), st, t, effv)
		if st == "APPLIED" {
			do("UPDATE blnk.balances SET debit_balance = debit_balance + $2, balance = balance - $2 WHERE balance_id = $1", s, amt.String())
			do("UPDATE blnk.balances SET credit_balance = credit_balance + $2, balance = balance + $2 WHERE balance_id = $1", d, amt.String())
			rows = append(rows, hrow{s, d, amt, eff, len(rows)})
		}
	}
	var moments []time.Time
	snap := func(size string) {
		n0 := len(eng.Rows("blnk.balance_snapshots"))
		day := map[string]bool{}
		for _, s := range eng.Rows("blnk.balance_snapshots") {
			if st := s["snapshot_time"].(time.Time); st.UTC().Truncate(24*time.Hour).Equal(clock.Truncate(24 * time.Hour)) {
				day[rig.Str(s["balance_id"])] = true
			}
		}
		want := len(eng.Rows("blnk.balances")) - len(day)
		r := w.S[0].Do("POST", "/balances-snapshots?batch_size="+size, nil)
		if !r.OK() {
			c.Violate("snapshot-refused", r.String(), nil)
			return
		}
		if !rig.Eventually(10*time.Second, func() bool { return len(eng.Rows("blnk.balance_snapshots"))-n0 >= want }) {
			c.Violate("snapshot-short", fmt.Sprintf("a snapshot of batch size %s recorded %d of %d balances", size, len(eng.Rows("blnk.balance_snapshots"))-n0, want), nil)
		}
		for _, s := range eng.Rows("blnk.balance_snapshots")[n0:] {
			for _, b := range eng.Rows("blnk.balances") {
				if rig.Str(b["balance_id"]) == rig.Str(s["balance_id"]) {
					for _, k := range []string{"balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"} {
						if rig.BI(b[k]).Cmp(rig.BI(s[k])) != 0 {
							c.Violate("snapshot-value", fmt.Sprintf("snapshot of %s recorded %s=%v, the balance has %v", b["balance_id"], k, s[k], b[k]), nil)
						}
					}
				}
			}
			moments = append(moments, s["snapshot_time"].(time.Time))
		}
		c.Case(fmt.Sprintf("snapshot/%s/%v", size, want > 0), true)
		c.Add("snapshots", int64(len(eng.Rows("blnk.balance_snapshots"))-n0))
	}
	ask := func(n int, tag string) {
		snaps := eng.Rows("blnk.balance_snapshots")
		for i := 0; i < n; i++ {
			b := bals[rng.Intn(len(bals))]
			var at time.Time
			place := ""
			switch k := rng.Intn(8); {
			case k < 3 && len(rows) > 0:
				at, place = rows[rng.Intn(len(rows))].eff.Add(time.Duration(rng.Intn(3)-1)*time.Microsecond), "row"
			case k < 5 && len(moments) > 0:
				at, place = moments[rng.Intn(len(moments))].Add(time.Duration(rng.Intn(3)-1)*time.Microsecond), "snap"
			case k == 5:
				at, place = base.Add(-time.Hour), "before"
			case k == 6:
				at, place = clock.Add(30*24*time.Hour), "future"
			default:
				at, place = base.Add(time.Duration(rng.Int63n(int64(12*24*time.Hour)))), "any"
			}
			asked(c, w.S[0], tag, b, "USD", place, at.Truncate(time.Microsecond), rows, snaps)
		}
	}
	lim := time.Duration(c.Pick(40, 2500)) * time.Second
	t := base
	for day := 0; day < c.Pick(9, 60) && c.Elapsed() < lim; day++ {
		n := rng.Intn(26)
		for i := 0; i < n; i++ {
			t = t.Add(time.Duration(1+rng.Intn(3000000)) * time.Microsecond * 500)
			if rng.Intn(6) == 0 {
				t = t.Truncate(time.Second)
			}
			set(t)
			put(t, i)
			if rng.Intn(12) == 0 {
				if rng.Intn(2) == 0 { // at the very moment of rows
					put(t, i)
					put(t, i)
				} else {
					t = t.Add(time.Millisecond)
				}
				set(t)
				ask(3, "days")
				snap([]string{"1", "2", "3", "7", "1000"}[rng.Intn(5)])
				ask(3, "days")
				t = t.Add(time.Millisecond)
			}
			if rng.Intn(30) == 0 {
				add(1)
			}
		}
		next := t.Truncate(24 * time.Hour).Add(24 * time.Hour).Add(time.Duration(rng.Intn(3)) * time.Hour)
		if next.After(t) {
			t = next
		}
		ask(10, "days")
	}
	ask(c.Pick(250, 6000), "days")
	crashes(c, w, "days")
}

// p18live asks about histories the service made itself, with snapshots taken while it works.
func p18live(c *rig.Check, seed int64) {
	w := boot(c, "live", nil, 2, 1)
	if w == nil {
		return
	}
	defer w.R.Close()
	if w.AddBalances("USD", 5, 100000) != nil {
		c.Broken("balances")
		return
	}
	states := map[string]map[string]bool{}
	note := func(b M) {
		id := rig.Str(b["balance_id"])
		if states[id] == nil {
			states[id] = map[string]bool{}
		}
		states[id][fmt.Sprint(rig.BI(b["credit_balance"]), rig.BI(b["debit_balance"]), rig.BI(b["inflight_credit_balance"]), rig.BI(b["inflight_debit_balance"]))] = true
	}
	for _, b := range w.R.Eng.Rows("blnk.balances") {
		note(b)
	}
	w.R.Audit.With(func() {
		w.R.Audit.Watch = func(k *pgfake.Commit) {
			for _, ch := range k.Changes {
				if ch.Table == "blnk.balances" && ch.After != nil {
					note(ch.After)
				}
			}
		}
	})
	rng := rand.New(rand.NewSource(seed))
	// moments at which the service's clock stood still between transfers are asked about later
	for i := 0; i < c.Pick(4, 40); i++ {
		m := fullMix
		m.N, m.Conc = 64, 8
		done := make(chan struct{})
		go func() { w.Run(m, seed+int64(i)); close(done) }()
		if i == 1 {
			time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
			w.S[1].Do("POST", "/balances-snapshots?batch_size=2", nil)
		}
		<-done
		w.R.Drain(30*time.Second, false)
		b := w.Bals["USD"]
		for j, eff := range []string{"2021-05-05T10:00:00Z", "2020-02-29T23:59:59.5Z", time.Now().Add(48 * time.Hour).UTC().Format(time.RFC3339), "2021-05-05T15:30:00+05:30"} {
			r := w.S[0].Txn(M{"source": b[j%5], "destination": b[(j+1)%5], "precise_amount": 10 + j, "skip_queue": j%2 == 0, "effective_date": eff, "inflight": j == 1})
			if r.OK() && j == 1 {
				w.S[0].Do("PUT", "/transactions/inflight/"+r.S("transaction_id"), M{"status": "commit", "skip_queue": true})
			}
		}
		w.R.Drain(30*time.Second, false)
	}
	var rows []hrow
	w.R.Audit.With(func() {
		for i, t := range w.R.Audit.Ord {
			if t.Status != "APPLIED" {
				continue
			}
			eff, ok := t.Raw["effective_date"].(time.Time)
			if !ok {
				eff, _ = t.Raw["created_at"].(time.Time)
			}
			rows = append(rows, hrow{t.Src, t.Dst, t.Amt, eff, i})
		}
	})
	snaps := w.R.Eng.Rows("blnk.balance_snapshots")
	if len(snaps) == 0 {
		c.Broken("no snapshot was taken")
	}
	for _, s := range snaps {
		id := rig.Str(s["balance_id"])
		k := fmt.Sprint(rig.BI(s["credit_balance"]), rig.BI(s["debit_balance"]), rig.BI(s["inflight_credit_balance"]), rig.BI(s["inflight_debit_balance"]))
		if !states[id][k] && k != "0 0 0 0" {
			c.Violate("snapshot-state", fmt.Sprintf("snapshot of %s recorded %s, which the balance never was", id, k), nil)
		}
	}
	ids := append([]string{}, w.Bals["USD"]...)
	for _, k := range []string{"@world", "@fees"} {
		if b := w.R.Audit.ByIndicator(k, "USD"); b != "" {
			ids = append(ids, b)
		}
	}
	for i := 0; i < c.Pick(220, 6000); i++ {
		at, place := time.Time{}, ""
		switch rng.Intn(5) {
		case 0:
			at, place = time.Now().Add(72*time.Hour), "future"
		case 1:
			at, place = time.Date(2020, 6, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(rng.Intn(3))*365*24*time.Hour), "past"
		case 2:
			at, place = snaps[rng.Intn(len(snaps))]["snapshot_time"].(time.Time).Add(time.Duration(rng.Intn(3)-1)*time.Microsecond), "snap"
		default:
			at, place = rows[rng.Intn(len(rows))].eff.Add(time.Duration(rng.Intn(3)-1)*time.Microsecond), "row"
		}
		asked(c, w.S[rng.Intn(2)], "live", ids[rng.Intn(len(ids))], "USD", place, at.Truncate(time.Microsecond), rows, snaps)
	}
	// a moment not given is now: later than everything recorded so far but what takes effect later
	for _, b := range ids {
		cr, db := new(big.Int), new(big.Int)
		for _, h := range rows {
			if h.eff.Before(time.Now()) {
				if h.src == b {
					db.Add(db, h.amt)
				}
				if h.dst == b {
					cr.Add(cr, h.amt)
				}
			}
		}
		r := w.S[0].Do("GET", "/balances/"+b+"/at?from_source=1", nil)
		m, _ := r.J["balance"].(map[string]any)
		if !r.OK() || num(m["credit_balance"]).Cmp(cr) != 0 || num(m["debit_balance"]).Cmp(db) != 0 {
			c.Violate("wrong:now", fmt.Sprintf("balance %s now: %s; its rows make it credit %s debit %s", b, r, cr, db), nil)
		}
	}
	for _, x := range []string{"/balances/bln_none/at", "/balances/bln_none/at?from_source=true"} {
		if r := w.S[0].Do("GET", x, nil); r.OK() || r.Code >= 500 {
			c.Violate("unknown-balance", x+": "+r.String(), nil)
		}
	}
	if r := w.S[0].Do("GET", "/balances/"+ids[0]+"/at?timestamp=yesterday", nil); r.Code != 400 {
		c.Violate("bad-timestamp", r.String(), nil)
	}
	crashes(c, w, "live")
}
