package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/url"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

func init() {
	checks["P26"] = p26
}

type fkind int

const (
	kText fkind = iota
	kNum
	kInt
	kTime
	kDate
	kMeta    // meta_data as a whole: sorted by only
	kBalance // balance_id of a transaction: its source or its destination
	kInd     // indicator of a transaction: that of its source or its destination
)

type ftable struct {
	route, sql, id string
	fields         map[string]fkind
	names          []string
	rows           []frow
	byID           map[string]frow
}

type frow map[string]any

// tri is the truth of a condition in SQL: a condition on an absent value is neither true nor false.
type tri int

const (
	no tri = iota
	yes
	unknown
)

func toTri(b bool) tri {
	if b {
		return yes
	}
	return no
}

type fcond struct {
	field, op string
	vals      []any // string, json.Number or bool as sent
	get       bool  // sent as a query parameter
}

func fieldKinds(text, numeric, times string) map[string]fkind {
	m := map[string]fkind{}
	for _, f := range strings.Fields(text) {
		m[f] = kText
	}
	for _, f := range strings.Fields(numeric) {
		m[f] = kNum
	}
	for _, f := range strings.Fields(times) {
		m[f] = kTime
	}
	m["meta_data"] = kMeta
	return m
}

func p26tables() []*ftable {
	txn := fieldKinds("transaction_id parent_transaction currency source destination reference status description", "amount", "created_at effective_date")
	txn["precision"] = kInt
	txn["balance_id"] = kBalance
	txn["indicator"] = kInd
	idt := fieldKinds("identity_id first_name last_name other_names gender email_address phone_number nationality street country state organization_name category identity_type post_code city", "", "created_at")
	idt["dob"] = kDate
	ts := []*ftable{
		{route: "transactions", sql: "blnk.transactions", id: "transaction_id", fields: txn},
		{route: "balances", sql: "blnk.balances", id: "balance_id", fields: fieldKinds("balance_id ledger_id identity_id indicator currency", "balance credit_balance debit_balance inflight_balance inflight_credit_balance inflight_debit_balance", "created_at")},
		{route: "ledgers", sql: "blnk.ledgers", id: "ledger_id", fields: fieldKinds("ledger_id name", "", "created_at")},
		{route: "identities", sql: "blnk.identity", id: "identity_id", fields: idt},
		{route: "accounts", sql: "blnk.accounts", id: "account_id", fields: fieldKinds("account_id name number bank_name currency ledger_id identity_id balance_id", "", "created_at")},
	}
	for _, t := range ts {
		for f := range t.fields {
			t.names = append(t.names, f)
		}
		sort.Strings(t.names)
	}
	return ts
}

var (
	ftexts = []string{"USD", "usd", "EUR", "U_D", "U%D", "USDC", "7", "007", "+7", "7.0", "1e5", "100000", "true", "TRUE", "false", "null", "NULL", "nan", "inf", "0x10",
		"2024-01-01", "2024-01-01T00:00:00Z", "'", "a'b", "a\"b", `a\b`, "a\\%b", "x'; DROP TABLE blnk.transactions; --", "' OR '1'='1", "$1", "{a,b}", "é", "日本", "", " ", " pad", "A", "a", "b", "z"}
	ftimes = []string{"2023-12-31 23:59:59.999999", "2024-01-01 00:00:00", "2024-01-01 00:00:00.000001", "2024-01-01 05:30:00", "2024-01-01 12:00:00", "2024-01-01 12:00:00.5", "2024-01-01 12:00:59.999999",
		"2024-01-01 12:01:00", "2024-01-01 12:59:59", "2024-01-01 23:59:59.999999", "2024-01-02 00:00:00", "2024-02-29 10:00:00", "2024-03-01 00:00:00"}
	fnums = []string{"0", "1", "2", "7", "10", "100", "99.99", "100.01", "0.1", "-5", "-0.01", "9007199254740992", "9007199254740993", "9007199254740994", "9223372036854775807", "9223372036854775808",
		"18446744073709551617", "100000000000000000000000000000", "100000000000000000000000000001", "123456789012345678901234.567890123", "1e5"}
	fk1 = []string{"alpha", "Alpha", "beta", "be_ta", "a%", "it's", "", "{}", "né"}
	fk2 = []string{"1", "2", "3", "10", "-4", "9007199254740993"}
)

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

func randMeta(r *rand.Rand) string {
	m := map[string]any{}
	if r.Intn(3) > 0 {
		m["k1"] = pick(r, fk1)
	}
	if r.Intn(3) > 0 {
		m["k2"] = json.RawMessage(pick(r, fk2))
	}
	if r.Intn(3) > 0 {
		m["k3"] = r.Intn(2) == 0
	}
	if r.Intn(5) == 0 {
		m["k4"] = nil
	}
	if r.Intn(4) == 0 {
		m["K1"] = pick(r, fk1)
	}
	b, _ := json.Marshal(m)
	return string(b)
}

// fill writes the rows the queries run over: many equal values, boundary values, texts that look like something else.
func fill26(e *pgfake.Engine, r *rand.Rand, tables []*ftable) error {
	ins := func(tab string, m map[string]any) error {
		var cols, ph []string
		var vals []any
		for k, v := range m {
			cols = append(cols, k)
			vals = append(vals, v)
			ph = append(ph, fmt.Sprintf("$%d", len(vals)))
		}
		_, _, err := e.Do(true, "INSERT INTO "+tab+" ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(ph, ", ")+")", vals...)
		return err
	}
	orNull := func(s string) any {
		if r.Intn(3) == 0 {
			return nil
		}
		return s
	}
	txt := func() string { return pick(r, ftexts) }
	numb := func() string {
		for {
			if s := pick(r, fnums); !strings.Contains(s, "e") {
				return s
			}
		}
	}
	whole := func() string {
		for {
			if s := numb(); !strings.Contains(s, ".") {
				return s
			}
		}
	}
	var lids, iids, bids []string
	for i := 0; i < 25; i++ {
		id := fmt.Sprintf("ldg_f%02d", r.Intn(1000)*100+i)
		lids = append(lids, id)
		if err := ins("blnk.ledgers", map[string]any{"ledger_id": id, "name": txt(), "created_at": pick(r, ftimes), "meta_data": randMeta(r)}); err != nil {
			return err
		}
	}
	for i := 0; i < 60; i++ {
		id := fmt.Sprintf("idt_f%05d", r.Intn(1000)*100+i)
		iids = append(iids, id)
		m := map[string]any{"identity_id": id, "created_at": pick(r, ftimes), "meta_data": randMeta(r), "dob": pick(r, ftimes)[:10]}
		for _, t := range tables {
			if t.route == "identities" {
				for f, k := range t.fields {
					if k == kText && f != "identity_id" {
						m[f] = txt()
					}
				}
			}
		}
		if err := ins("blnk.identity", m); err != nil {
			return err
		}
	}
	inds := map[string]bool{}
	for i := 0; i < 90; i++ {
		id := fmt.Sprintf("bln_f%05d", r.Intn(1000)*100+i)
		bids = append(bids, id)
		var ind any
		if s := "@" + txt(); r.Intn(2) == 0 && !inds[s] {
			inds[s], ind = true, s
		}
		if s := txt(); r.Intn(4) == 0 && !inds[s] {
			inds[s], ind = true, s
		}
		m := map[string]any{"balance_id": id, "ledger_id": pick(r, lids), "identity_id": orNull(pick(r, iids)), "indicator": ind, "currency": txt(), "created_at": pick(r, ftimes), "meta_data": randMeta(r)}
		for _, f := range strings.Fields("balance credit_balance debit_balance inflight_balance inflight_credit_balance inflight_debit_balance") {
			m[f] = whole()
		}
		if err := ins("blnk.balances", m); err != nil {
			return err
		}
	}
	for i := 0; i < 40; i++ {
		if err := ins("blnk.accounts", map[string]any{"account_id": fmt.Sprintf("acc_f%05d", r.Intn(1000)*100+i), "name": txt(), "number": fmt.Sprintf("%0*d", 2+i%9, i), "bank_name": txt(), "currency": txt(), "ledger_id": pick(r, lids), "identity_id": pick(r, iids), "balance_id": pick(r, bids), "created_at": pick(r, ftimes), "meta_data": randMeta(r)}); err != nil {
			return err
		}
	}
	var tids []string
	used := map[string]bool{}
	for i := 0; i < 240; i++ {
		id := fmt.Sprintf("txn_f%06d", r.Intn(1000)*1000+i)
		par := any("")
		switch {
		case r.Intn(3) == 0:
			par = nil
		case len(tids) > 0 && r.Intn(2) == 0:
			par = pick(r, tids)
		}
		tids = append(tids, id)
		ref := fmt.Sprintf("%s~%d", txt(), i)
		if i < len(ftexts) {
			ref = ftexts[i]
		}
		if err := ins("blnk.transactions", map[string]any{"transaction_id": id, "parent_transaction": par, "source": pick(r, bids), "destination": pick(r, bids), "reference": ref, "amount": numb(), "precise_amount": whole(), "precision": pick(r, []string{"1", "100", "1000"}),
			"currency": txt(), "description": txt(), "status": pick(r, []string{"APPLIED", "INFLIGHT", "VOID", "QUEUED", "REJECTED"}), "created_at": uniqueTime(r, used), "effective_date": orNull(pick(r, ftimes)), "scheduled_for": "0001-01-01 00:00:00", "hash": "h", "meta_data": randMeta(r)}); err != nil {
			return err
		}
	}
	return nil
}

// uniqueTime is a moment no other transaction has.
func uniqueTime(r *rand.Rand, used map[string]bool) string {
	t, _ := asTime(pick(r, ftimes))
	for {
		s := t.Format("2006-01-02 15:04:05.999999")
		if !used[s] {
			used[s] = true
			return s
		}
		t = t.Add(time.Microsecond)
	}
}

// tied26 pages through transactions of one moment.
func tied26(c *rig.Check, r *rig.Rig, p *rig.Proc) {
	const n = 30
	for i := 0; i < n; i++ {
		if _, _, err := r.Eng.Do(true, "INSERT INTO blnk.transactions (transaction_id, source, destination, reference, amount, precise_amount, precision, currency, description, status, created_at, hash, meta_data) VALUES ($1, 'a', 'b', $1, '1', '100', '100', 'TIE', '', 'APPLIED', '2024-05-05 05:05:05', 'h', '{}')", fmt.Sprintf("txn_tie%d", i)); err != nil {
			c.Broken("%v", err)
			return
		}
	}
	seen := map[string]bool{}
	for off := 0; off < n; off += 5 {
		res := p.Do("POST", "/transactions/filter", M{"filters": []any{M{"field": "currency", "operator": "eq", "value": "TIE"}}, "limit": 5, "offset": off})
		for _, it := range res.L {
			if m, ok := it.(map[string]any); ok {
				seen[rig.Str(m["transaction_id"])] = true
			}
		}
	}
	if len(seen) != n {
		c.Violate("created-at-ties", fmt.Sprintf("pages of %d transactions recorded in the same microsecond, sorted by created_at, show %d of them", n, len(seen)), nil)
	}
}

func asRat(v any) *big.Rat {
	q, ok := new(big.Rat).SetString(fmt.Sprint(v))
	if !ok {
		return nil
	}
	return q
}

func asTime(v any) (time.Time, bool) {
	switch x := v.(type) {
	case time.Time:
		return x.UTC(), true
	case string:
		for _, f := range []string{time.RFC3339Nano, "2006-01-02T15:04:05.999999999", "2006-01-02 15:04:05.999999999", "2006-01-02T15:04", "2006-01-02 15:04", "2006-01-02"} {
			if t, err := time.Parse(f, x); err == nil {
				return t.UTC(), true
			}
		}
	}
	return time.Time{}, false
}

// span is what a moment written to some precision stands for in an equality.
func span(s string) (from, to time.Time) {
	t, _ := asTime(s)
	body := s
	if i := strings.IndexAny(s, "T "); i >= 0 {
		body = s[i+1:]
		if j := strings.IndexAny(body, "Z+-"); j >= 0 {
			body = body[:j]
		}
	} else {
		return t, t.AddDate(0, 0, 1)
	}
	_, frac, dot := strings.Cut(body, ".")
	switch {
	case dot && len(frac) >= 6:
		return t, t.Add(time.Microsecond)
	case dot:
		return t, t.Add(time.Millisecond)
	case strings.Count(body, ":") == 2:
		return t, t.Add(time.Second)
	}
	return t, t.Add(time.Minute)
}

// like is SQL's LIKE over characters, with the backslash as its escape.
func like(s, p []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return len(s) > 0 && like(s[1:], p[1:])
	case '\\':
		if len(p) < 2 {
			return false
		}
		p = p[1:]
	}
	return len(s) > 0 && s[0] == p[0] && like(s[1:], p[1:])
}

func cmpTri(op string, c int) tri {
	switch op {
	case "eq":
		return toTri(c == 0)
	case "ne":
		return toTri(c != 0)
	case "gt":
		return toTri(c > 0)
	case "gte":
		return toTri(c >= 0)
	case "lt":
		return toTri(c < 0)
	case "lte":
		return toTri(c <= 0)
	}
	panic("operator " + op)
}

func sqlText(v any) string { return fmt.Sprint(v) }

// scalar decides a condition on one plain value.
func (f fcond) scalar(k fkind, v any) tri {
	switch f.op {
	case "isnull":
		return toTri(v == nil)
	case "isnotnull":
		return toTri(v != nil)
	}
	if v == nil {
		return unknown
	}
	cmp := func(x any) int {
		switch k {
		case kNum, kInt:
			return asRat(v).Cmp(asRat(x))
		case kTime, kDate:
			a, _ := asTime(v)
			b, _ := asTime(x)
			return a.Compare(b)
		}
		return strings.Compare(sqlText(v), sqlText(x))
	}
	switch f.op {
	case "like":
		return toTri(like([]rune(sqlText(v)), []rune(sqlText(f.vals[0]))))
	case "ilike":
		return toTri(like([]rune(strings.ToLower(sqlText(v))), []rune(strings.ToLower(sqlText(f.vals[0])))))
	case "in":
		for _, x := range f.vals {
			if cmp(x) == 0 {
				return yes
			}
		}
		return no
	case "between":
		return toTri(cmp(f.vals[0]) >= 0 && cmp(f.vals[1]) <= 0)
	}
	if k == kTime && f.get && (f.op == "eq" || f.op == "ne") {
		t, _ := asTime(v)
		from, to := span(sqlText(f.vals[0]))
		in := !t.Before(from) && t.Before(to)
		return toTri(in == (f.op == "eq"))
	}
	return cmpTri(f.op, cmp(f.vals[0]))
}

func (f fcond) meta(row frow, key string) tri {
	m, _ := row["meta_data"].(map[string]any)
	raw, has := m[key]
	switch f.op {
	case "isnull":
		return toTri(!has || raw == nil)
	case "isnotnull":
		return toTri(has && raw != nil)
	case "eq": // containment: same type and value
		if !has || raw == nil {
			return no
		}
		if n, ok := f.vals[0].(json.Number); ok {
			if _, isText := raw.(string); isText {
				return no
			}
			if _, isBool := raw.(bool); isBool {
				return no
			}
			return toTri(asRat(raw).Cmp(asRat(n)) == 0)
		}
		switch raw.(type) {
		case string, bool:
			return toTri(raw == f.vals[0])
		}
		return no
	}
	if !has || raw == nil {
		return unknown
	}
	switch f.op {
	case "gt", "gte", "lt", "lte", "between":
		return f.scalar(kNum, raw)
	}
	return f.scalar(kText, raw)
}

func (f fcond) match(t *ftable, row frow, indOf map[string]any) tri {
	if k, ok := strings.CutPrefix(f.field, "meta_data."); ok {
		return f.meta(row, k)
	}
	switch k := t.fields[f.field]; k {
	case kBalance:
		a, b := f.scalar(kText, row["source"]), f.scalar(kText, row["destination"])
		if f.op == "ne" || f.op == "isnull" {
			return toTri(a == yes && b == yes)
		}
		return toTri(a == yes || b == yes)
	case kInd:
		for _, s := range []string{"source", "destination"} {
			if id, ok := row[s].(string); ok {
				if ind, have := indOf[id]; have && f.scalar(kText, ind) == yes {
					return yes
				}
			}
		}
		return no
	default:
		return f.scalar(k, row[f.field])
	}
}

// randCond draws a condition the service has to answer: its field exists, its operator fits and its values have the field's type.
func (t *ftable) randCond(r *rand.Rand, get bool, ids, inds []string) fcond {
	f := fcond{field: pick(r, t.names), get: get}
	for t.fields[f.field] == kMeta {
		if r.Intn(2) == 0 {
			f.field = "meta_data." + pick(r, []string{"k1", "k2", "k3", "k4", "K1", "absent"})
			break
		}
		f.field = pick(r, t.names)
	}
	cmps := []string{"eq", "eq", "ne", "gt", "gte", "lt", "lte"}
	n := func() int { return 1 + r.Intn(4) }
	some := func(ok func(string) bool, list ...[]string) []any {
		var l []string
		for _, x := range list {
			l = append(l, x...)
		}
		var out []any
		want := 1
		switch f.op {
		case "in":
			want = n()
		case "between":
			want = 2
		}
		for len(out) < want {
			if s := pick(r, l); ok == nil || ok(s) {
				out = append(out, s)
			}
		}
		return out
	}
	nums := func(l []string, whole bool) []any {
		out := some(func(s string) bool { return !whole || !strings.ContainsAny(s, ".e") }, l)
		if f.op == "between" && r.Intn(4) > 0 && asRat(out[0]).Cmp(asRat(out[1])) > 0 {
			out[0], out[1] = out[1], out[0]
		}
		for i := range out {
			if !get && r.Intn(5) > 0 {
				out[i] = json.Number(out[i].(string))
			}
		}
		return out
	}
	null := func() bool {
		if r.Intn(10) == 0 {
			f.op = pick(r, []string{"isnull", "isnotnull"})
			return true
		}
		return false
	}
	if null() {
		return f
	}
	// a text sent as a query parameter: commas and bars separate values there
	plain := func(s string) bool {
		return !get || f.op == "eq" || f.op == "ne" || !(strings.ContainsAny(s, ",|") || s != strings.TrimSpace(s))
	}
	if key, ok := strings.CutPrefix(f.field, "meta_data."); ok {
		if get && key != "k1" && key != "K1" {
			f.field, key = "meta_data.k1", "k1"
		}
		switch key {
		case "k2":
			f.op = pick(r, append(cmps, "in", "between"))
			f.vals = nums(fk2, true)
			for i := range f.vals { // a number is compared with a number
				f.vals[i] = json.Number(fmt.Sprint(f.vals[i]))
			}
		case "k3":
			f.op = pick(r, []string{"eq", "ne", "in"})
			f.vals = []any{r.Intn(2) == 0}
		default:
			f.op = pick(r, []string{"eq", "eq", "ne", "in", "like", "ilike"})
			f.vals = some(func(s string) bool { return plain(s) }, fk1)
			if f.op == "like" || f.op == "ilike" {
				f.vals = []any{pick(r, []string{"a%", "%a", "%e_t%", "_lpha", "%", "", "be\\_ta", "A%"})}
			}
		}
		return f
	}
	switch t.fields[f.field] {
	case kNum, kInt:
		f.op = pick(r, append(cmps, "in", "between"))
		whole := t.fields[f.field] == kInt
		if whole {
			f.vals = nums([]string{"0", "1", "100", "1000", "99"}, true)
		} else {
			f.vals = nums(fnums, false)
		}
	case kTime:
		f.op = pick(r, append(cmps, "in", "between"))
		f.vals = some(nil, ftimes)
		for i := range f.vals {
			s := f.vals[i].(string)
			tm, _ := asTime(s)
			switch r.Intn(7) {
			case 0:
				s = s[:10]
			case 1:
				s = tm.Format("2006-01-02T15:04:05")
			case 2:
				s = tm.Format("2006-01-02T15:04:05.000000Z")
			case 3:
				s = tm.In(time.FixedZone("", 5*3600+1800)).Format("2006-01-02T15:04:05-07:00")
			case 4:
				s = tm.In(time.FixedZone("", -4*3600)).Format("2006-01-02T15:04:05.000000-07:00")
			case 5:
				s = tm.Format("2006-01-02 15:04")
			}
			f.vals[i] = s
		}
	case kDate:
		f.op = pick(r, append(cmps, "in", "between"))
		f.vals = some(nil, ftimes)
		for i := range f.vals {
			f.vals[i] = f.vals[i].(string)[:10]
		}
	case kBalance:
		f.op = pick(r, []string{"eq", "eq", "ne", "in"})
		f.vals = some(plain, ids, ids, ids, ftexts[:8])
	case kInd:
		f.op = pick(r, []string{"eq", "eq", "in", "like", "ilike", "gt", "lte", "between"})
		f.vals = some(plain, inds, inds, ftexts)
		if f.op == "like" || f.op == "ilike" {
			f.vals = []any{pick(r, []string{"@%", "%SD%", "@_", "%\\%%"})}
		}
	default:
		f.op = pick(r, append(cmps, "in", "between", "like", "ilike"))
		var own []string
		for i := 0; i < 4; i++ {
			if s, ok := pick(r, t.rows)[f.field].(string); ok {
				own = append(own, s)
			}
		}
		f.vals = some(plain, own, own, own, ftexts)
		if f.op == "like" || f.op == "ilike" {
			s := fmt.Sprint(f.vals[0])
			for strings.HasSuffix(s, `\`) {
				s = s[:len(s)-1]
			}
			f.vals = []any{pick(r, []string{s, s + "%", "%" + s, "%", "_", "%_D%", "u%", "0_7", "%\\%%", "2024%", "%'%"})}
		}
	}
	return f
}

func (f fcond) body() M {
	m := M{"field": f.field, "operator": f.op}
	switch f.op {
	case "in", "between":
		m["values"] = f.vals
	case "isnull", "isnotnull":
	default:
		m["value"] = f.vals[0]
	}
	return m
}

// dupes counts the conditions that share field and operator with an earlier one.
func dupes(conds []fcond) int {
	n := 0
	seen := map[string]bool{}
	for _, f := range conds {
		if seen[f.field+f.op] {
			n++
		}
		seen[f.field+f.op] = true
	}
	return n
}

func (f fcond) query() (string, string) {
	var s []string
	for _, v := range f.vals {
		s = append(s, fmt.Sprint(v))
	}
	sep := ","
	if f.op == "between" {
		sep = "|"
	}
	if len(s) == 0 {
		s = []string{"true"}
	}
	return f.field + "_" + f.op, strings.Join(s, sep)
}

func p26(c *rig.Check) {
	c.Rule = "a listing returns exactly the rows that an evaluation of its conditions over the stored rows selects, each once across pages, in the order asked for, and counts them; nothing a request says changes or reveals anything else"
	r, err := rig.New(c, rig.Cfg{})
	if err != nil {
		c.Broken("%v", err)
		return
	}
	defer r.Close()
	p, err := r.Start("start", nil)
	if err != nil {
		c.Broken("%v", err)
		return
	}
	for round := 0; round < c.Pick(1, 12); round++ {
		p26round(c, r, p, round)
		if round == 0 {
			pgfake.ShuffleTies(c.Seed + 99)
			tied26(c, r, p)
			pgfake.ShuffleTies(0)
		}
		if c.Violations() > 20 {
			break
		}
	}
	for _, s := range r.Crashes() {
		c.Violate("crash", s, nil)
	}
}

func p26round(c *rig.Check, r *rig.Rig, p *rig.Proc, round int) {
	rng := rand.New(rand.NewSource(c.Seed*1000 + int64(round)))
	tables := p26tables()
	for _, t := range []string{"blnk.transactions", "blnk.accounts", "blnk.balances", "blnk.identity", "blnk.ledgers"} {
		q := "DELETE FROM " + t
		if t == "blnk.ledgers" {
			q += " WHERE ledger_id LIKE 'ldg_f%'"
		}
		if _, _, err := r.Eng.Do(true, q); err != nil {
			c.Broken("clearing %s: %v", t, err)
			return
		}
	}
	if err := fill26(r.Eng, rng, tables); err != nil {
		c.Broken("filling: %v", err)
		return
	}
	indOf := map[string]any{}
	var ids, inds []string
	for _, t := range tables {
		t.byID = map[string]frow{}
		for _, m := range r.Eng.Rows(t.sql) {
			t.rows = append(t.rows, m)
			id := sqlText(m[t.id])
			t.byID[id] = m
			if t.route == "balances" {
				indOf[id] = m["indicator"]
				ids = append(ids, id)
				if s, ok := m["indicator"].(string); ok {
					inds = append(inds, s)
				}
			}
		}
	}
	var writes atomic.Int64
	armed := atomic.Bool{}
	armed.Store(true)
	r.Audit.Watch = func(cm *pgfake.Commit) {
		if armed.Load() && cm.App == p.Name {
			for _, ch := range cm.Changes {
				for _, t := range tables {
					if ch.Table == t.sql {
						writes.Add(1)
					}
				}
			}
		}
	}
	pgfake.ShuffleTies(c.Seed*7 + int64(round) + 1)
	defer pgfake.ShuffleTies(0)
	defer armed.Store(false)
	n := c.Pick(3500, 8000)
	for i := 0; i < n && c.Violations() <= 40; i++ {
		t := pick(rng, tables)
		if rng.Intn(3) == 0 {
			t = tables[0]
		}
		if rng.Intn(8) == 0 {
			p26bad(c, p, t, rng)
			continue
		}
		get := rng.Intn(3) == 0
		var conds []fcond
		for k := []int{0, 1, 1, 1, 2, 2, 2, 3, 4}[rng.Intn(9)]; k > 0; k-- {
			conds = append(conds, t.randCond(rng, get, ids, inds))
		}
		if get && len(conds) == 0 {
			conds = append(conds, t.randCond(rng, get, ids, inds))
		}
		if len(conds) > 0 && rng.Intn(8) == 0 { // the same field and operator once more
			for tries := 0; tries < 30; tries++ {
				if f := t.randCond(rng, get, ids, inds); f.field == conds[0].field && f.op == conds[0].op {
					conds = append(conds, f)
					break
				}
			}
		}
		or := len(conds) > 1 && rng.Intn(2) == 0
		p26query(c, p, t, conds, or, get, rng, indOf)
	}
	if writes.Load() > 0 {
		c.Violate("written", fmt.Sprintf("listing requests changed %d stored records", writes.Load()), nil)
	}
	for _, t := range tables {
		if got := len(r.Eng.Rows(t.sql)); got != len(t.rows) {
			c.Violate("written", fmt.Sprintf("%s holds %d rows, had %d before the listings", t.sql, got, len(t.rows)), nil)
		}
	}
}

func p26query(c *rig.Check, p *rig.Proc, t *ftable, conds []fcond, or, get bool, rng *rand.Rand, indOf map[string]any) {
	want := map[string]bool{}
	for _, row := range t.rows {
		ok := !or || len(conds) == 0
		for _, f := range conds {
			m := f.match(t, row, indOf) == yes
			if or {
				ok = ok || m
			} else {
				ok = ok && m
			}
		}
		if ok {
			want[sqlText(row[t.id])] = true
		}
	}
	sortBy, order := "", ""
	if !get && rng.Intn(3) > 0 {
		sortBy = pick(rng, t.names)
		if rng.Intn(6) == 0 {
			sortBy = " " + strings.ToUpper(sortBy) + " "
		}
	}
	if !get && rng.Intn(3) > 0 {
		order = pick(rng, []string{"asc", "desc", "ASC", "Desc"})
	}
	count := !get && rng.Intn(2) == 0
	limit := pick(rng, []int{1, 2, 3, 7, 20, 50, 100, 100, 100})
	if len(want) > 60 && limit < 7 {
		limit = 20
	}
	off, stop := 0, len(want)
	middle := rng.Intn(4) == 0 && len(want) > 0
	if middle { // one page from the middle
		off = rng.Intn(len(want) + 2)
		stop = off + limit
	}
	var texts []string
	for _, f := range conds {
		b, _ := json.Marshal(f.body())
		texts = append(texts, string(b))
	}
	what := fmt.Sprintf("%s %s of [%s] (any=%v) sort %q %q limit %d from %d", map[bool]string{true: "GET", false: "POST"}[get], t.route, strings.Join(texts, " "), or, sortBy, order, limit, off)
	seen := map[string]int{}
	var list []string
	start := off
	pages := 0
	for {
		var res *rig.Resp
		if get {
			q := url.Values{}
			for _, f := range conds {
				k, v := f.query()
				q.Add(k, v)
			}
			if or {
				q.Set("logical_operator", "or")
			}
			q.Set("limit", fmt.Sprint(limit))
			q.Set("offset", fmt.Sprint(off))
			res = p.Do("GET", "/"+t.route+"?"+q.Encode(), nil)
		} else {
			b := M{"limit": limit, "offset": off}
			fl := []any{}
			for _, f := range conds {
				fl = append(fl, f.body())
			}
			b["filters"] = fl
			if or {
				b["logical_operator"] = pick(rng, []string{"or", "OR"})
			} else if rng.Intn(3) == 0 {
				b["logical_operator"] = "and"
			}
			if sortBy != "" {
				b["sort_by"] = sortBy
			}
			if order != "" {
				b["sort_order"] = order
			}
			if count {
				b["include_count"] = true
			}
			res = p.Do("POST", "/"+t.route+"/filter", b)
		}
		pages++
		if res.Err != nil {
			c.Broken("%s: %v", what, res.Err)
			return
		}
		if res.Code != 200 {
			if strings.Contains(string(res.Raw), "0A000") || strings.Contains(string(res.Raw), "unsupported") {
				c.Broken("%s: %s", what, res)
				return
			}
			c.Violate("refused", what+": a proper listing was refused: "+res.String(), nil)
			return
		}
		items := res.L
		if count && res.J != nil {
			items, _ = res.J["data"].([]any)
			if tc, ok := res.J["total_count"]; ok && tc != nil {
				if fmt.Sprint(tc) != fmt.Sprint(len(want)) {
					c.Violate("count", fmt.Sprintf("%s: total_count %v, %d records match", what, tc, len(want)), nil)
					return
				}
				c.Add("counts", 1)
			} else if len(items) > 0 {
				c.Violate("count", what+": no total_count though asked for", nil)
				return
			}
		}
		if len(items) > limit {
			c.Violate("page", fmt.Sprintf("%s: a page of %d", what, len(items)), nil)
			return
		}
		for _, it := range items {
			m, _ := it.(map[string]any)
			id := rig.Str(m[t.id])
			row, ok := t.byID[id]
			if !ok {
				c.Violate("outside", fmt.Sprintf("%s: returned %q, which is no record of it: %.200v", what, id, m), nil)
				return
			}
			for f, k := range t.fields {
				if k == kText && f != "indicator" {
					if s, have := m[f].(string); have && s != orEmpty(row[f]) {
						c.Violate("content", fmt.Sprintf("%s: %s %s shows %s=%q, stored %q", what, t.route, id, f, s, orEmpty(row[f])), nil)
						return
					}
				}
			}
			seen[id]++
			list = append(list, id)
		}
		off += limit
		if off >= stop && (middle || len(items) == 0 || off >= stop+limit) {
			break
		}
	}
	for id, k := range seen {
		if !want[id] {
			c.Violate("extra", fmt.Sprintf("%s: returned %s, which does not match: %s", what, id, showRow(t.byID[id], conds)), nil)
			return
		}
		if k > 1 {
			c.Violate("repeated", fmt.Sprintf("%s: returned %s %d times across %d pages", what, id, k, pages), nil)
			return
		}
	}
	exp := len(want)
	if middle {
		exp = max(0, min(limit, len(want)-start))
	}
	if len(seen) != exp {
		miss := ""
		for id := range want {
			if seen[id] == 0 {
				miss = id
				break
			}
		}
		c.Violate("missing", fmt.Sprintf("%s: returned %d of the %d matching records, not %s: %s", what, len(seen), exp, miss, showRow(t.byID[miss], conds)), nil)
		return
	}
	key := strings.ToLower(strings.TrimSpace(sortBy))
	kind := t.fields[key]
	if key == "" || kind == kBalance || kind == kInd {
		key, kind = "created_at", kTime
	}
	desc := strings.ToLower(order) != "asc"
	if kind != kMeta {
		// an absent text is shown as an empty one: it may be placed as either
		bad := ""
		for _, empty := range []bool{false, true} {
			if bad = misordered(t, list, key, kind, desc, empty); bad == "" || kind != kText {
				break
			}
		}
		if bad != "" {
			c.Violate("order", what+": "+bad, nil)
			return
		}
	}
	shape := fmt.Sprintf("%v %s %d or=%v", get, t.route, len(conds), or)
	for _, f := range conds {
		shape += " " + f.op
		c.State("field", t.route+"."+f.field+" "+f.op)
	}
	c.State("sort", t.route+" "+key)
	if get && dupes(conds) > 0 {
		c.Add("repeated parameters", 1)
	}
	c.Case(shape, len(want) > 0 && len(want) < len(t.rows))
	c.Add("pages", int64(pages))
	c.Add("records compared", int64(len(list)))
}

func misordered(t *ftable, list []string, key string, kind fkind, desc, empty bool) string {
	for i := 1; i < len(list); i++ {
		a, b := t.byID[list[i-1]][key], t.byID[list[i]][key]
		if empty {
			a, b = any(orEmpty(a)), any(orEmpty(b))
		}
		if desc {
			a, b = b, a
		}
		if orderCmp(kind, a, b) > 0 {
			return fmt.Sprintf("%s=%v comes before %v", key, t.byID[list[i-1]][key], t.byID[list[i]][key])
		}
	}
	return ""
}

func orEmpty(v any) string {
	if v == nil {
		return ""
	}
	return sqlText(v)
}

func showRow(row frow, conds []fcond) string {
	var s []string
	for _, f := range conds {
		n, _, _ := strings.Cut(f.field, ".")
		s = append(s, fmt.Sprintf("%s=%#v", n, row[n]))
	}
	return strings.Join(s, " ")
}

// orderCmp: absent values come after all others when ascending.
func orderCmp(k fkind, a, b any) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return 1
	case b == nil:
		return -1
	}
	switch k {
	case kNum, kInt:
		return asRat(a).Cmp(asRat(b))
	case kTime, kDate:
		x, _ := asTime(a)
		y, _ := asTime(b)
		return x.Compare(y)
	}
	return strings.Compare(sqlText(a), sqlText(b))
}

// p26bad sends a listing that names no field, no operator or no proper value: it has to be refused, never answered with something else.
func p26bad(c *rig.Check, p *rig.Proc, t *ftable, rng *rand.Rand) {
	good := pick(rng, t.names)
	for t.fields[good] != kText {
		good = pick(rng, t.names)
	}
	hostile := []string{"id", "hash", "precise_amount", "version", "1", "1=1", "currency OR 1=1", "created_at; DROP TABLE blnk.transactions", "(SELECT secret FROM blnk.api_keys)", "meta_data.k1'", "meta_data.k1') OR ('1'='1",
		"meta_data.1k", "meta_data.", "meta_data.a.b", "meta_data.k-1", "meta_datax.k1", "blnk.api_keys.key", "Currency", " currency", "", "currency\x00", "key", "meta_data->>'k1'"}
	f := M{"field": good, "operator": "eq", "value": "USD"}
	b := M{"limit": 10, "filters": []any{f}}
	kind := ""
	switch rng.Intn(6) {
	case 0, 1:
		kind = "field"
		f["field"] = pick(rng, hostile)
		if rng.Intn(3) == 0 {
			b["filters"] = []any{M{"field": good, "operator": "eq", "value": "USD"}, f}
			b["logical_operator"] = "or"
		}
	case 2:
		kind = "operator"
		f["operator"] = pick(rng, []string{"", "=", "eq; DROP", "is", "not", "OR", "eqq", "like ", "similar"})
	case 3:
		kind = "arity"
		f["operator"] = pick(rng, []string{"in", "between"})
		delete(f, "value")
		switch {
		case rng.Intn(2) == 0:
		case f["operator"] == "in":
			f["values"] = []any{}
		default:
			f["values"] = pick(rng, [][]any{{}, {"a"}, {"a", "b", "c"}})
		}
	case 4:
		kind = "mode"
		b["logical_operator"] = pick(rng, []string{"xor", "and 1=1", "or--", "not"})
	case 5:
		kind = "type"
		cols := []string{}
		for _, n := range t.names {
			if k := t.fields[n]; k == kNum || k == kInt || k == kTime || k == kDate {
				cols = append(cols, n)
			}
		}
		f["field"] = pick(rng, cols)
		f["value"] = pick(rng, []string{"abc", "", "1; DROP TABLE x", "2024-13-45", "--", "' OR 1=1"})
	}
	res := p.Do("POST", "/"+t.route+"/filter", b)
	if res.Err != nil {
		c.Broken("%v", res.Err)
		return
	}
	if res.Code < 400 {
		j, _ := json.Marshal(b)
		c.Violate("accepted", fmt.Sprintf("POST /%s/filter %s: answered %s", t.route, j, res), nil)
		return
	}
	c.Case("bad "+kind, true)
	c.Add("bad listings refused", 1)
}
