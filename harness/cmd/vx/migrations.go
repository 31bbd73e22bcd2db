package main

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
	_ "github.com/lib/pq"
	migrate "github.com/rubenv/sql-migrate"
)

func init() {
	checks["P39"] = p39
}

func source39() migrate.MigrationSource {
	return migrate.EmbedFileSystemMigrationSource{FileSystem: blnk.SQLFiles, Root: "sql"}
}

// p39: migrations make the schema the service needs, and keep what is there.
func p39(c *rig.Check) {
	c.Rule = "the first k of the embedded migrations are applied to an empty database, for every k; generated rows as the service stores them then (amounts up to the width of the columns, absent and present optional values) are put in, and the real `blnk migrate up` is run, in some runs cut off or failed at random statements and run again. Every row must be there with the values it had, for every table; the schema must be that of a migration of an empty database; `migrate up` again must change nothing; for some k a server is started on it: old balances, transactions and references read as they were, an old reference is refused and old balances transact. Some migrations are rolled back and applied again with rows present: ledgers, balances and transactions must keep what the older schema has of them. On the schema made every route of the API is called with the usual work running, and no statement may fail for a table, column or function that is missing. distinct_nontrivial counts (prefix, rows, interruption)"
	c.Assume = append(c.Assume, "the first k migrations stand for the release that had them", "columns that a migration drops on purpose are not compared; an effective date that was absent may be filled in")
	ms, err := source39().FindMigrations()
	if err != nil || len(ms) < 5 {
		c.Broken("P39: %d migrations: %v", len(ms), err)
		return
	}
	base, err := rig.NewEmpty(c, nil)
	if err != nil {
		c.Broken("P39: %v", err)
		return
	}
	defer base.Close()
	if out, err := base.Run("migrate", "migrate", "up"); err != nil {
		c.Violate("up/empty", fmt.Sprintf("migrate up on an empty database fails: %v %s", err, tailOf(out, 500)), nil)
		return
	}
	want := base.Eng.Schema()
	c.Add("schema parts", int64(len(want)))
	c.Add("migrations", int64(len(ms)))
	var jobs []func()
	n := c.Pick(1, 12)
	for round := 0; round < n; round++ {
		for k := 0; k <= len(ms); k++ {
			seed := c.Seed*10000 + int64(round*100+k)
			k := k
			jobs = append(jobs, func() { p39prefix(c, seed, k, len(ms), want, k == 2 || (k+int(c.Seed))%c.Pick(5, 2) == 0 || k == len(ms)) })
		}
		for j := 1; j <= c.Pick(5, len(ms)-1); j++ {
			j, seed := j, c.Seed*10000+int64(round*100+50+j)
			if !c.Thorough() && j > 2 {
				j = 3 + int(seed+int64(j)*7)%(len(ms)-4)
			}
			jobs = append(jobs, func() { p39down(c, seed, j, len(ms), want) })
		}
	}
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		p33run(c, "queries", 3, (*p33w).queries39)
	}()
	for _, j := range jobs {
		if c.Violations() > 20 {
			break
		}
		j := j
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			j()
		}()
	}
	wg.Wait()
}

// to39 takes a database to the first k migrations (or j back).
func to39(r *rig.Rig, dir migrate.MigrationDirection, k int) error {
	db, err := sql.Open("postgres", r.DSN("old"))
	if err != nil {
		return err
	}
	defer db.Close()
	_, err = migrate.MigrationSet{SchemaName: "blnk", TableName: "gorp_migrations"}.ExecMax(db, "postgres", source39(), dir, k)
	return err
}

var refs39 = map[string]string{"ledger_id": "blnk.ledgers", "identity_id": "blnk.identity", "balance_id": "blnk.balances", "source": "blnk.balances", "destination": "blnk.balances", "shadow_balance_id": "blnk.balances", "aggregate_balance_id": "blnk.balances"}

// fill39 puts rows into every table there is, as the service stores them.
func fill39(r *rig.Rig, rng *rand.Rand, wide bool) (map[string]int, error) {
	order := []string{"blnk.ledgers", "blnk.identity", "blnk.balances", "blnk.accounts", "blnk.balance_monitors", "blnk.transactions"}
	known := map[string]bool{"blnk.gorp_migrations": true}
	for _, t := range order {
		known[t] = true
	}
	for _, t := range r.Eng.Tables() {
		if !known[t] && !strings.HasSuffix(t, "gorp_migrations") && !strings.HasSuffix(t, "chain_state") {
			order = append(order, t)
		}
	}
	ids := map[string][]string{}
	done := map[string]int{}
	key := map[string]string{"blnk.ledgers": "ledger_id", "blnk.identity": "identity_id", "blnk.balances": "balance_id"}
	serial := 0
	// what the service itself leaves out
	nothing := map[string]bool{"identity_id": true, "indicator": true, "effective_date": true, "revoked_at": true, "completed_at": true, "processed_at": true, "locked_until": true, "last_error": true, "chain_hash": true, "chain_prev_hash": true, "chain_seq": true}
	for _, t := range order {
		cols := r.Eng.Columns(t)
		if len(cols) == 0 {
			continue
		}
		rows := 3 + rng.Intn(3)
		if t == "blnk.transactions" {
			rows = 12
		}
		var fails error
		for i := 0; i < rows; i++ {
			serial++
			var names, marks []string
			var vals []any
			for _, col := range cols {
				if col.Name == "id" {
					if col.HasDefault {
						continue
					}
				}
				var v any
				table, ref := refs39[col.Name]
				switch {
				case ref && table != t && len(ids[table]) > 0:
					v = pick(rng, ids[table])
				case ref && table != t:
					continue
				}
				if key[t] == col.Name {
					v = fmt.Sprintf("%s_%d_é", col.Name, serial)
				}
				if v != nil && ref && nothing[col.Name] && !col.NotNull && rng.Intn(3) == 0 {
					v = nil
				} else if v == nil {
					switch {
					case col.HasDefault && rng.Intn(3) == 0 && col.Name != "status":
						continue
					case nothing[col.Name] && !col.NotNull && rng.Intn(2) == 0:
					case col.Name == "field":
						v = pick(rng, []string{"balance", "debit_balance", "credit_balance"})
					case col.Name == "operator":
						v = pick(rng, []string{">", "<", ">=", "<=", "="})
					case col.Name == "currency":
						v = pick(rng, []string{"USD", "EUR", "NGN"})
					case col.Name == "status" && t == "blnk.transactions":
						v = pick(rng, []string{"APPLIED", "INFLIGHT", "QUEUED", "VOID", "REJECTED", "COMMIT", "SCHEDULED"})
					case col.Name == "allocation_strategy":
						v = pick(rng, []string{"FIFO", "LIFO", "PROPORTIONAL"})
					case col.Name == "action_type":
						v = pick(rng, []string{"INSERT", "UPDATE"})
					case col.Name == "lineage_type":
						v = pick(rng, []string{"credit", "debit"})
					case col.Name == "precision" || col.Name == "currency_multiplier":
						v = pick(rng, []string{"1", "100", "10000"})
					case col.Name == "version" || col.Name == "max_attempts" || col.Name == "attempts":
						v = fmt.Sprint(1 + rng.Intn(900))
					case strings.HasPrefix(col.Type, "text[]"):
						v = pick(rng, []string{"{}", "{ledgers:read}", `{"a:b","*:*"}`})
					case strings.HasPrefix(col.Type, "text"):
						v = fmt.Sprintf("%s %d ü'\"\\", col.Name, serial)
						if strings.HasSuffix(col.Name, "hash") {
							v = strings.Repeat("a1", 32)
						}
						if col.Name == "key_prefix" {
							v = fmt.Sprintf("blk_%d", serial)
						}
					case col.Type == "integer":
						v = fmt.Sprint(rng.Intn(100000))
					case col.Type == "bigint":
						v = fmt.Sprint(rng.Int63n(1 << uint(10+rng.Intn(53))))
						if col.Name == "amount" { // a double since
							v = fmt.Sprint(rng.Int63n(1 << uint(10+rng.Intn(39))))
						}
						if rng.Intn(3) == 0 && (col.Name == "balance" || col.Name == "inflight_balance") {
							v = "-" + v.(string)
						}
					case col.Type == "numeric":
						n := new(big.Int).Rand(rng, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+rng.Intn(17))), nil))
						if wide && col.Name != "amount" {
							n.Rand(rng, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+rng.Intn(38))), nil))
						}
						v = n.String()
						if col.Name == "amount" {
							v = fmt.Sprintf("%d.%02d", rng.Intn(9999999), rng.Intn(100))
						}
					case strings.HasPrefix(col.Type, "double"):
						v = fmt.Sprint(float64(rng.Intn(1<<20)) / 4)
					case col.Type == "boolean":
						v = fmt.Sprint(rng.Intn(2) == 0)
					case strings.HasPrefix(col.Type, "timestamp"):
						v = time.Date(2020+rng.Intn(5), time.Month(1+rng.Intn(12)), 1+rng.Intn(28), rng.Intn(24), rng.Intn(60), rng.Intn(60), rng.Intn(1000000)*1000, time.UTC).Format("2006-01-02 15:04:05.000000")
						if col.Name == "scheduled_for" && rng.Intn(2) == 0 {
							v = "0001-01-01 00:00:00"
						}
					case col.Type == "date":
						v = "1990-02-03"
					case strings.HasPrefix(col.Type, "json"):
						v = pick(rng, []string{`{}`, `{"a": 1.50, "b": [true, null, "x"], "QUEUED_PARENT_TRANSACTION": "t"}`, `{"n": 123456789012345678901234567890}`})
					}
				}
				names = append(names, col.Name)
				vals = append(vals, v)
				marks = append(marks, fmt.Sprintf("$%d", len(vals)))
			}
			// as the service's own statements, with its connection
			db, err := sql.Open("postgres", r.DSN("filler"))
			if err != nil {
				return done, err
			}
			for j := range names {
				names[j] = `"` + names[j] + `"`
			}
			_, err = db.Exec(fmt.Sprintf("INSERT INTO %s (%s) VALUES (%s)", t, strings.Join(names, ", "), strings.Join(marks, ", ")), vals...)
			db.Close()
			if err != nil {
				fails = fmt.Errorf("%s: %w", t, err)
				continue
			}
			done[t]++
			if k := key[t]; k != "" {
				for j, nm := range names {
					if strings.Trim(nm, `"`) == k {
						ids[t] = append(ids[t], vals[j].(string))
					}
				}
			}
		}
		if done[t] == 0 {
			return done, fmt.Errorf("no row: %w", fails)
		}
	}
	return done, nil
}

// rows39 is what is stored, by table and id.
func rows39(r *rig.Rig) map[string]map[string]map[string]any {
	out := map[string]map[string]map[string]any{}
	for _, t := range r.Eng.Tables() {
		m := map[string]map[string]any{}
		for _, row := range r.Eng.Rows(t) {
			k := rig.Str(row["id"])
			if k == "" {
				k = rig.Str(row["chain_key"])
			}
			m[k] = row
		}
		out[t] = m
	}
	return out
}

func text39(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case time.Time:
		return x.UTC().Format(time.RFC3339Nano)
	case string:
		if r, ok := new(big.Rat).SetString(x); ok {
			return r.RatString()
		}
		if json.Valid([]byte(x)) {
			return canonJSON(x)
		}
		return strings.TrimRight(x, " ")
	case bool:
		return fmt.Sprint(x)
	}
	s := fmt.Sprint(v)
	if r, ok := new(big.Rat).SetString(s); ok {
		return r.RatString()
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// kept39 compares what is stored with what was.
func kept39(c *rig.Check, tag string, before, after map[string]map[string]map[string]any, only map[string]bool, skip map[string]bool) {
	for t, rows := range before {
		if strings.HasSuffix(t, "gorp_migrations") || (only != nil && !only[t]) {
			continue
		}
		if after[t] == nil {
			if only == nil {
				c.Violate("rows/"+t, fmt.Sprintf("%s: table %s with %d rows is gone", tag, t, len(rows)), nil)
			}
			continue
		}
		for id, row := range rows {
			now := after[t][id]
			if now == nil {
				c.Violate("rows/"+t, fmt.Sprintf("%s: row %s of %s is gone", tag, id, t), M{"row": row})
				continue
			}
			for col, v := range row {
				x, there := now[col]
				if !there {
					if !skip[col] {
						c.Violate("columns/"+t+"."+col, fmt.Sprintf("%s: column %s of %s is gone", tag, col, t), nil)
					}
					continue
				}
				if only != nil && skip[col] {
					continue
				}
				c.Add("values compared", 1)
				if text39(x) == text39(v) || (col == "effective_date" && v == nil && text39(x) == text39(now["created_at"])) {
					continue
				}
				c.Violate("values/"+t+"."+col, fmt.Sprintf("%s: %s of row %s of %s was %s and is %s", tag, col, id, t, text39(v), text39(x)), nil)
			}
		}
		if len(after[t]) != len(rows) && !strings.HasSuffix(t, "journal") { // migrations' own changes are journalled
			extra := len(after[t]) - len(rows)
			c.Violate("rows/"+t, fmt.Sprintf("%s: %s has %d rows more than before", tag, t, extra), nil)
		}
	}
}

// dropped are the columns that a migration takes away on purpose.
var dropped39 = map[string]bool{"rate": true, "currency_multiplier": true, "modification_ref": true}

func p39prefix(c *rig.Check, seed int64, k, total int, want []string, serve bool) {
	rng := rand.New(rand.NewSource(seed))
	r, err := rig.NewEmpty(c, nil)
	if err != nil {
		c.Broken("P39: %v", err)
		return
	}
	defer r.Close()
	filled := map[string]int{}
	if k > 0 {
		if err := to39(r, migrate.Up, k); err != nil {
			c.Violate("up/prefix", fmt.Sprintf("the first %d migrations fail on an empty database: %v", k, err), nil)
			return
		}
		if filled, err = fill39(r, rng, true); err != nil {
			c.Broken("P39: prefix %d: %v", k, err)
			return
		}
	}
	before := rows39(r)
	kind := pick(rng, []string{"plain", "plain", "cut", "failing"})
	tries := 1
	if kind != "plain" {
		tries = 2 + rng.Intn(2)
	}
	for try := 1; ; try++ {
		var n atomic.Int64
		at := int64(1 + rng.Intn(60))
		if try < tries {
			cutAt := pick(rng, []string{"before", "after"})
			r.Eng.SetHook(func(i *stmt) *action {
				if strings.HasPrefix(i.App, "old") || n.Add(1) != at {
					return nil
				}
				if kind == "failing" {
					return &action{Err: pgErr("57014", "canceling statement due to user request")}
				}
				return &action{Cut: cutAt}
			})
		}
		out, err := r.Run(fmt.Sprintf("up%d", try), "migrate", "up")
		r.Eng.SetHook(nil)
		if err == nil && try >= tries {
			break
		}
		if err == nil {
			continue // the fault did not come to pass
		}
		if try >= tries {
			c.Violate("up/populated", fmt.Sprintf("migrate up fails on a database with the first %d migrations and rows (%s): %v %s", k, kind, err, tailOf(out, 900)), M{"rows": filled})
			return
		}
		c.Add("migrations interrupted", 1)
	}
	tag := fmt.Sprintf("from %d of %d (%s)", k, total, kind)
	c.Case(fmt.Sprintf("up/%d/%s", k, kind), k > 0)
	c.Add("rows migrated", int64(len(filled)))
	after := rows39(r)
	if k > 0 {
		for t := range after {
			if len(before[t]) == 0 {
				delete(before, t)
			}
		}
		kept39(c, tag, before, after, nil, dropped39)
	}
	if d := diff39(want, r.Eng.Schema()); d != "" {
		c.Violate("schema", fmt.Sprintf("%s: the schema is not that of an empty database migrated: %s", tag, d), nil)
	}
	s1 := fmt.Sprint(after)
	if out, err := r.Run("again", "migrate", "up"); err != nil {
		c.Violate("up/again", fmt.Sprintf("%s: migrate up again fails: %v %s", tag, err, tailOf(out, 300)), nil)
	} else if s2 := fmt.Sprint(rows39(r)); s1 != s2 {
		c.Violate("up/again", fmt.Sprintf("%s: migrate up again changes rows", tag), nil)
	} else if d := diff39(want, r.Eng.Schema()); d != "" {
		c.Violate("up/again", fmt.Sprintf("%s: migrate up again changes the schema: %s", tag, d), nil)
	}
	if serve && k > 0 {
		p39serve(c, r, rng, tag, after)
	}
}

func diff39(a, b []string) string {
	in := func(l []string, s string) bool { i := sort.SearchStrings(l, s); return i < len(l) && l[i] == s }
	var out []string
	for _, s := range a {
		if !in(b, s) {
			out = append(out, "-"+cut(s, 120))
		}
	}
	for _, s := range b {
		if !in(a, s) {
			out = append(out, "+"+cut(s, 120))
		}
	}
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("and %d more", len(out)-6))
	}
	return strings.Join(out, "; ")
}

// p39serve reads and uses what was there before the migrations.
func p39serve(c *rig.Check, r *rig.Rig, rng *rand.Rand, tag string, rows map[string]map[string]map[string]any) {
	s, err := r.Start("start", nil)
	if err != nil {
		c.Broken("P39: %s: %v", tag, err)
		return
	}
	bad := func(key, f string, a ...any) {
		c.Violate("served/"+key, tag+": "+fmt.Sprintf(f, a...), nil)
	}
	same := func(what string, x *rig.Resp, row map[string]any, cols ...string) {
		if !x.OK() {
			bad(what, "%s of before cannot be read: %s", what, x)
			return
		}
		for _, col := range cols {
			v, there := row[col]
			if !there || v == nil {
				continue
			}
			c.Add("values read through the API", 1)
			if text39(jtext(x.J[col])) != text39(v) && text39(x.J[col]) != text39(v) {
				bad(what+"."+col, "%s of a %s of before was %s and is read as %v", col, what, text39(v), x.J[col])
			}
		}
	}
	var bals []map[string]any
	for _, row := range rows["blnk.balances"] {
		bals = append(bals, row)
		same("balance", s.Do("GET", "/balances/"+rig.Str(row["balance_id"]), nil), row, "balance_id", "balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance", "currency", "ledger_id")
	}
	for _, row := range rows["blnk.ledgers"] {
		same("ledger", s.Do("GET", "/ledgers/"+rig.Str(row["ledger_id"]), nil), row, "ledger_id", "name")
	}
	for _, row := range rows["blnk.identity"] {
		same("identity", s.Do("GET", "/identities/"+rig.Str(row["identity_id"]), nil), row, "identity_id", "first_name", "category")
	}
	unset := 0
	for _, row := range rows["blnk.transactions"] {
		if row["precise_amount"] == nil {
			unset++
			if x := s.Do("GET", "/transactions/"+rig.Str(row["transaction_id"]), nil); !x.OK() {
				c.Violate("served/precise_amount unset", fmt.Sprintf("%s: a transaction recorded before precise_amount existed cannot be read: %s", tag, x), nil)
			}
			continue
		}
		same("transaction", s.Do("GET", "/transactions/"+rig.Str(row["transaction_id"]), nil), row, "transaction_id", "reference", "source", "destination", "status", "currency", "precise_amount", "amount")
	}
	for _, p := range []string{"/balances?limit=50", "/transactions?limit=50", "/ledgers?limit=50", "/identities", "/balance-monitors", "/accounts"} {
		if x := s.Do("GET", p, nil); !x.OK() {
			if unset > 0 && strings.HasPrefix(p, "/transactions") {
				c.Violate("served/precise_amount unset", fmt.Sprintf("%s: transactions cannot be listed when one was recorded before precise_amount existed: %s", tag, x), nil)
				continue
			}
			bad("list", "GET %s: %s", p, x)
		}
	}
	for _, row := range rows["blnk.transactions"] {
		ref := rig.Str(row["reference"])
		x := s.Txn(M{"source": "@world39", "destination": rig.Str(bals[0]["balance_id"]), "allow_overdraft": true, "currency": rig.Str(bals[0]["currency"]), "precise_amount": 5, "precision": 100, "reference": ref, "description": "d", "skip_queue": true})
		c.Case("served/reference reused", true)
		if x.OK() {
			bad("reference", "the reference %q of before was taken again", ref)
		}
		break
	}
	ok := 0
	for _, b := range bals {
		id := rig.Str(b["balance_id"])
		x := s.Txn(M{"source": "@world39", "destination": id, "allow_overdraft": true, "currency": rig.Str(b["currency"]), "precise_amount": 77, "precision": 100, "reference": rig.Ref("m39"), "description": "d", "skip_queue": true})
		if !x.OK() {
			bad("transact", "a balance of before (%s) does not take money: %s", rig.Str(b["currency"]), x)
			continue
		}
		ok++
		was, _ := new(big.Int).SetString(text39(b["balance"]), 10)
		now := s.Do("GET", "/balances/"+id, nil)
		cr, _ := new(big.Int).SetString(text39(b["credit_balance"]), 10)
		if was == nil || cr == nil {
			continue
		}
		if text39(jtext(now.J["credit_balance"])) != cr.Add(cr, big.NewInt(77)).String() {
			bad("transact", "credits of a balance of before were %s and are %v after 77 more", text39(b["credit_balance"]), now.J["credit_balance"])
		}
	}
	c.Add("old balances used", int64(ok))
	if l := s.LogText(); strings.Contains(l, "panic:") || s.Dead() {
		bad("crash", "the server crashed: %s", tailOf(l, 400))
	}
}

// p39down rolls the last j migrations back and applies them again, with rows present.
func p39down(c *rig.Check, seed int64, j, total int, want []string) {
	rng := rand.New(rand.NewSource(seed))
	r, err := rig.NewEmpty(c, nil)
	if err != nil {
		c.Broken("P39: %v", err)
		return
	}
	defer r.Close()
	if err := to39(r, migrate.Up, total-j); err != nil {
		c.Violate("up/prefix", fmt.Sprintf("the first %d migrations fail on an empty database: %v", total-j, err), nil)
		return
	}
	cols := map[string]map[string]bool{}
	for _, t := range r.Eng.Tables() {
		cols[t] = map[string]bool{}
		for _, x := range r.Eng.Columns(t) {
			cols[t][x.Name] = true
		}
	}
	if _, err := fill39(r, rng, false); err != nil {
		c.Broken("P39: down %d: %v", j, err)
		return
	}
	before := rows39(r)
	if out, err := r.Run("up", "migrate", "up"); err != nil {
		c.Violate("up/populated", fmt.Sprintf("migrate up fails on a database with the first %d migrations and rows: %v %s", total-j, err, tailOf(out, 900)), nil)
		return
	}
	if err := to39(r, migrate.Down, j); err != nil {
		c.Violate("down/fails", fmt.Sprintf("rolling %d of %d migrations back fails with rows present: %v", j, total, err), nil)
		return
	}
	c.Case(fmt.Sprintf("down/%d", j), true)
	money := map[string]bool{"blnk.ledgers": true, "blnk.balances": true, "blnk.transactions": true, "blnk.identity": true}
	kept39(c, fmt.Sprintf("%d of %d migrations rolled back", j, total), before, rows39(r), money, dropped39)
	if out, err := r.Run("up2", "migrate", "up"); err != nil {
		c.Violate("down/up", fmt.Sprintf("migrate up fails after rolling %d of %d migrations back: %v %s", j, total, err, tailOf(out, 900)), nil)
		return
	}
	kept39(c, fmt.Sprintf("%d of %d migrations rolled back and applied again", j, total), before, rows39(r), money, dropped39)
	if d := diff39(want, r.Eng.Schema()); d != "" {
		c.Violate("down/schema", fmt.Sprintf("the schema after rolling %d of %d migrations back and applying them again is not that of an empty database migrated: %s", j, total, d), nil)
	}
}

// queries39 calls every route and has the usual work done, and looks for statements the schema does not serve.
func (w *p33w) queries39() {
	c := w.c
	for _, p := range []string{"workers"} {
		if _, err := w.w.R.Start(p, nil); err != nil {
			c.Broken("P39: %v", err)
			return
		}
	}
	n0, _ := w.w.R.Eng.Failures()
	for i := 0; i < 2; i++ {
		for _, r0 := range w.routes {
			if foreign(r0.pattern) {
				continue
			}
			r := w.fresh(r0)
			x := w.send33(r)
			c.Case(fmt.Sprintf("route/%s %s/%v", r.method, r.pattern, x.OK()), x.OK())
			c.Add("routes called", 1)
			if x.Code >= 500 {
				c.Violate("queries/"+r.method+" "+r.pattern, fmt.Sprintf("%s %s: %s", r.method, r.path, x), nil)
			}
		}
	}
	w.w.Run(rig.Mix{Sync: 20, Queued: 20, HoldSync: 6, HoldQueued: 6, Settle: 10, SettleQueued: 6, Refund: 8, Bulk: 4, Split: 4, N: 120, Conc: 6}, c.Seed)
	w.w.R.Drain(40*time.Second, false)
	w.p.Do("POST", "/transactions/recover?threshold=1s", nil)
	time.Sleep(500 * time.Millisecond)
	n, ex := w.w.R.Eng.Failures()
	for _, code := range []string{"42P01", "42703", "42883", "42P10", "42804", "42601", "3F000"} {
		if n[code] > n0[code] {
			c.Violate("queries/"+code, fmt.Sprintf("%d statements of the service failed with %s: %v", n[code]-n0[code], code, ex[code]), nil)
		}
	}
	c.Add("statements run on the migrated schema", w.w.R.Eng.Counters()["statements"])
	_ = os.Getpid
}
