package pgfake

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
)

type base int

const (
	tInvalid base = iota
	tUnknown
	tText
	tInt4
	tInt8
	tNumeric
	tFloat8
	tBool
	tTimestamp
	tTimestamptz
	tDate
	tJSON
	tJSONB
	tInterval
	tInet
	tBytea
	tRecord
	tVoid
	tTrigger
)

// Type is a SQL type.
type Type struct {
	b          base
	arr        bool
	mod, scale int
	hasMod     bool
	char       bool
}

func typeByName(n string) Type {
	switch n {
	case "text", "varchar", "name", "uuid", "regclass", "citext":
		return Type{b: tText}
	case "bpchar", "char":
		return Type{b: tText, char: true}
	case "int", "integer", "int4", "smallint", "int2":
		return Type{b: tInt4}
	case "bigint", "int8":
		return Type{b: tInt8}
	case "numeric", "decimal":
		return Type{b: tNumeric}
	case "float", "float8", "real", "float4":
		return Type{b: tFloat8}
	case "bool", "boolean":
		return Type{b: tBool}
	case "timestamp":
		return Type{b: tTimestamp}
	case "timestamptz":
		return Type{b: tTimestamptz}
	case "date":
		return Type{b: tDate}
	case "json":
		return Type{b: tJSON}
	case "jsonb":
		return Type{b: tJSONB}
	case "interval":
		return Type{b: tInterval}
	case "inet":
		return Type{b: tInet}
	case "bytea":
		return Type{b: tBytea}
	case "record":
		return Type{b: tRecord}
	case "void":
		return Type{b: tVoid}
	case "trigger":
		return Type{b: tTrigger}
	}
	return Type{}
}

func (t Type) name() string {
	n := map[base]string{tUnknown: "unknown", tText: "text", tInt4: "integer", tInt8: "bigint", tNumeric: "numeric", tFloat8: "double precision", tBool: "boolean", tTimestamp: "timestamp without time zone", tTimestamptz: "timestamp with time zone", tDate: "date", tJSON: "json", tJSONB: "jsonb", tInterval: "interval", tInet: "inet", tBytea: "bytea", tRecord: "record", tVoid: "void", tTrigger: "trigger"}[t.b]
	if t.arr {
		n += "[]"
	}
	return n
}

func (t Type) oid() uint32 {
	if t.arr {
		switch t.b {
		case tText, tUnknown:
			return 1009
		case tInt4:
			return 1007
		case tInt8:
			return 1016
		case tNumeric:
			return 1231
		}
		return 1009
	}
	switch t.b {
	case tText, tUnknown:
		if t.char {
			return 1042
		}
		return 25
	case tInt4:
		return 23
	case tInt8:
		return 20
	case tNumeric:
		return 1700
	case tFloat8:
		return 701
	case tBool:
		return 16
	case tTimestamp:
		return 1114
	case tTimestamptz:
		return 1184
	case tDate:
		return 1082
	case tJSON:
		return 114
	case tJSONB:
		return 3802
	case tInterval:
		return 1186
	case tInet:
		return 869
	case tBytea:
		return 17
	case tVoid:
		return 2278
	}
	return 25
}

// Val is nil, string, int64, decimal.Decimal, float64, bool, time.Time, jsonVal, interval, []Val, rowVal.
type Val = any

type jsonVal struct{ v any }
type interval struct {
	months, days int64
	us           int64
}
type rowVal struct {
	names []string
	vals  []Val
	types []Type
}

// PgError is an error with an SQLSTATE.
type PgError struct {
	Code, Msg, Detail, Schema, Table, Column, Constraint string
}

func (e *PgError) Error() string { return "ERROR: " + e.Msg + " (" + e.Code + ")" }
func pgErr(code, msg string) error { return &PgError{Code: code, Msg: msg} }

func roundMicro(t time.Time) time.Time { return t.Round(time.Microsecond) }

var tsLayouts = []string{
	"2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999", "2006-01-02 15:04", "2006-01-02T15:04", "2006-01-02",
}

func parseTimestamp(s string) (wall time.Time, off *int, err error) {
	orig := s
	s = strings.TrimSpace(s)
	switch strings.ToLower(s) {
	case "now":
		t := time.Now().UTC()
		z := 0
		return t, &z, nil
	case "epoch":
		z := 0
		return time.Unix(0, 0).UTC(), &z, nil
	case "infinity", "-infinity":
		y := 294000
		if s[0] == '-' {
			y = -4000
		}
		return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), nil, nil
	}
	bc := false
	if strings.HasSuffix(s, " BC") {
		bc = true
		s = strings.TrimSuffix(s, " BC")
	}
	// split offset
	body := s
	if i := strings.LastIndexAny(s, "zZ"); i == len(s)-1 && i > 0 {
		z := 0
		off = &z
		body = s[:i]
	} else if len(s) > 10 {
		if i := strings.LastIndexAny(s[10:], "+-"); i >= 0 {
			o := s[10+i:]
			body = strings.TrimSpace(s[:10+i])
			sign := 1
			if o[0] == '-' {
				sign = -1
			}
			parts := strings.Split(o[1:], ":")
			tot := 0
			if len(parts) == 1 && len(parts[0]) == 4 {
				parts = []string{parts[0][:2], parts[0][2:]}
			}
			mul := 3600
			for _, p := range parts {
				n, e := strconv.Atoi(p)
				if e != nil {
					return wall, nil, pgErr("22007", fmt.Sprintf("invalid input syntax for type timestamp: %q", orig))
				}
				tot += n * mul
				mul /= 60
			}
			tot *= sign
			off = &tot
		} else if strings.HasSuffix(s, " UTC") || strings.HasSuffix(s, " GMT") {
			z := 0
			off = &z
			body = s[:len(s)-4]
		}
	}
	for _, l := range tsLayouts {
		if t, e := time.Parse(l, body); e == nil {
			if bc {
				t = t.AddDate(-2*t.Year()+1, 0, 0)
			}
			return roundMicro(t), off, nil
		}
	}
	// years with more or fewer digits
	if i := strings.IndexByte(body, '-'); i > 4 {
		if y, e := strconv.Atoi(body[:i]); e == nil {
			for _, l := range tsLayouts {
				if t, e := time.Parse(l, "2000"+body[i:]); e == nil {
					return roundMicro(t.AddDate(y-2000, 0, 0)), off, nil
				}
			}
		}
	}
	code := "22007"
	if len(body) >= 10 && body[4] == '-' {
		code = "22008"
		return wall, nil, pgErr(code, fmt.Sprintf("date/time field value out of range: %q", orig))
	}
	return wall, nil, pgErr(code, fmt.Sprintf("invalid input syntax for type timestamp: %q", orig))
}

func decodeJSON(s string) (any, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, &PgError{Code: "22P02", Msg: "invalid input syntax for type json"}
	}
	if d.More() {
		return nil, &PgError{Code: "22P02", Msg: "invalid input syntax for type json"}
	}
	if strings.Contains(s, `\u0000`) {
		return nil, &PgError{Code: "22P05", Msg: "unsupported Unicode escape sequence"}
	}
	return v, nil
}

// parseText converts external text to a value of type t.
func parseText(s string, t Type) (Val, error) {
	if strings.IndexByte(s, 0) >= 0 {
		return nil, pgErr("22021", "invalid byte sequence for encoding \"UTF8\": 0x00")
	}
	if t.arr {
		return parseArray(s, Type{b: t.b})
	}
	bad := func(code string) error {
		return pgErr(code, fmt.Sprintf("invalid input syntax for type %s: %q", t.name(), s))
	}
	switch t.b {
	case tText, tUnknown, tRecord, tVoid:
		return s, nil
	case tBytea:
		return s, nil
	case tInet:
		return s, nil
	case tInt4, tInt8:
		x := strings.TrimSpace(s)
		n, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
				return nil, pgErr("22003", fmt.Sprintf("value %q is out of range for type %s", s, t.name()))
			}
			return nil, bad("22P02")
		}
		if t.b == tInt4 && (n > math.MaxInt32 || n < math.MinInt32) {
			return nil, pgErr("22003", fmt.Sprintf("value %q is out of range for type integer", s))
		}
		return n, nil
	case tNumeric:
		x := strings.TrimSpace(s)
		if strings.EqualFold(x, "nan") || strings.Contains(strings.ToLower(x), "inf") {
			return nil, pgErr("22003", "NaN/Infinity numeric not supported by pgfake")
		}
		d, err := decimal.NewFromString(x)
		if err != nil {
			return nil, bad("22P02")
		}
		return applyNumMod(d, t)
	case tFloat8:
		x := strings.TrimSpace(s)
		f, err := strconv.ParseFloat(x, 64)
		if err != nil {
			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
				return nil, pgErr("22003", fmt.Sprintf("%q is out of range for type double precision", s))
			}
			return nil, bad("22P02")
		}
		return f, nil
	case tBool:
		switch strings.ToLower(strings.TrimSpace(s)) {
		case "t", "true", "yes", "on", "1", "y":
			return true, nil
		case "f", "false", "no", "off", "0", "n":
			return false, nil
		}
		return nil, bad("22P02")
	case tTimestamp:
		w, _, err := parseTimestamp(s)
		if err != nil {
			return nil, err
		}
		return w, nil
	case tTimestamptz:
		w, off, err := parseTimestamp(s)
		if err != nil {
			return nil, err
		}
		if off != nil {
			w = w.Add(-time.Duration(*off) * time.Second)
		}
		return w, nil
	case tDate:
		w, _, err := parseTimestamp(s)
		if err != nil {
			return nil, err
		}
		return time.Date(w.Year(), w.Month(), w.Day(), 0, 0, 0, 0, time.UTC), nil
	case tJSON, tJSONB:
		v, err := decodeJSON(s)
		if err != nil {
			return nil, err
		}
		return jsonVal{v}, nil
	case tInterval:
		return parseInterval(s)
	}
	return nil, bad("22P02")
}

func applyNumMod(d decimal.Decimal, t Type) (Val, error) {
	if t.hasMod {
		d = d.Round(int32(t.scale))
		lim := decimal.New(1, int32(t.mod-t.scale))
		if d.Abs().Cmp(lim) >= 0 {
			return nil, pgErr("22003", "numeric field overflow")
		}
	}
	return d, nil
}

func parseArray(s string, el Type) (Val, error) {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, pgErr("22P02", fmt.Sprintf("malformed array literal: %q", s))
	}
	in := s[1 : len(s)-1]
	out := []Val{}
	if strings.TrimSpace(in) == "" {
		return out, nil
	}
	i := 0
	for {
		for i < len(in) && in[i] == ' ' {
			i++
		}
		var b strings.Builder
		quoted := false
		if i < len(in) && in[i] == '"' {
			quoted = true
			i++
			for i < len(in) && in[i] != '"' {
				if in[i] == '\\' && i+1 < len(in) {
					i++
				}
				b.WriteByte(in[i])
				i++
			}
			i++
		} else {
			for i < len(in) && in[i] != ',' {
				if in[i] == '\\' && i+1 < len(in) {
					i++
				}
				b.WriteByte(in[i])
				i++
			}
		}
		x := b.String()
		if !quoted {
			x = strings.TrimSpace(x)
		}
		if !quoted && strings.EqualFold(x, "null") {
			out = append(out, nil)
		} else {
			v, err := parseText(x, el)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		if i >= len(in) {
			return out, nil
		}
		if in[i] != ',' {
			return nil, pgErr("22P02", fmt.Sprintf("malformed array literal: %q", s))
		}
		i++
	}
}

func parseInterval(s string) (Val, error) {
	var iv interval
	f := strings.Fields(strings.ToLower(s))
	bad := func() (Val, error) {
		return nil, pgErr("22007", fmt.Sprintf("invalid input syntax for type interval: %q", s))
	}
	for i := 0; i < len(f); i++ {
		if strings.Contains(f[i], ":") {
			p := strings.Split(f[i], ":")
			var tot float64
			mul := 3600.0
			for _, x := range p {
				n, err := strconv.ParseFloat(x, 64)
				if err != nil {
					return bad()
				}
				tot += n * mul
				mul /= 60
			}
			iv.us += int64(tot * 1e6)
			continue
		}
		num := f[i]
		j := 0
		for j < len(num) && strings.IndexByte("+-.0123456789e", num[j]) >= 0 {
			j++
		}
		unit := num[j:]
		n, err := strconv.ParseFloat(num[:j], 64)
		if err != nil {
			return bad()
		}
		if unit == "" {
			if i+1 < len(f) {
				i++
				unit = f[i]
			} else {
				unit = "s"
			}
		}
		switch strings.TrimSuffix(unit, "s") {
		case "microsecond", "u":
			iv.us += int64(n)
		case "millisecond", "m":
			if unit == "m" {
				iv.us += int64(n * 60e6)
			} else {
				iv.us += int64(n * 1e3)
			}
		case "second", "sec", "":
			iv.us += int64(math.Round(n * 1e6))
		case "minute", "min":
			iv.us += int64(n * 60e6)
		case "hour", "h", "hr":
			iv.us += int64(n * 3600e6)
		case "day", "d":
			iv.days += int64(n)
			iv.us += int64((n - math.Trunc(n)) * 86400e6)
		case "week", "w":
			iv.days += int64(n * 7)
		case "month", "mon":
			iv.months += int64(n)
		case "year", "y":
			iv.months += int64(n * 12)
		default:
			return bad()
		}
	}
	return iv, nil
}

func addInterval(t time.Time, iv interval, sign int64) time.Time {
	if iv.months != 0 {
		d := t.Day()
		first := time.Date(t.Year(), t.Month(), 1, t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC).AddDate(0, int(sign*iv.months), 0)
		last := first.AddDate(0, 1, -1).Day()
		if d > last {
			d = last
		}
		t = first.AddDate(0, 0, d-1)
	}
	t = t.AddDate(0, 0, int(sign*iv.days))
	return t.Add(time.Duration(sign*iv.us) * time.Microsecond)
}

func jsonText(v any) string {
	var b strings.Builder
	writeJSON(&b, v)
	return b.String()
}

func jsonString(b *strings.Builder, s string) {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	out := strings.TrimSuffix(buf.String(), "\n")
	out = strings.ReplaceAll(out, "\\u2028", "\u2028")
	out = strings.ReplaceAll(out, "\\u2029", "\u2029")
	b.WriteString(out)
}

func normNum(s string) string {
	d, err := decimal.NewFromString(s)
	if err != nil {
		return s
	}
	if strings.ContainsAny(s, "eE") {
		return d.String()
	}
	if strings.HasPrefix(s, "-0") && d.IsZero() {
		return strings.TrimPrefix(s, "-")
	}
	return s
}

func writeJSON(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case json.Number:
		b.WriteString(normNum(string(x)))
	case string:
		jsonString(b, x)
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteString(", ")
			}
			writeJSON(b, e)
		}
		b.WriteByte(']')
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			if len(keys[i]) != len(keys[j]) {
				return len(keys[i]) < len(keys[j])
			}
			return keys[i] < keys[j]
		})
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			jsonString(b, k)
			b.WriteString(": ")
			writeJSON(b, x[k])
		}
		b.WriteByte('}')
	default:
		panic(fmt.Sprintf("writeJSON %T", v))
	}
}

func toJSON(v Val, t Type) any {
	switch x := v.(type) {
	case nil:
		return nil
	case jsonVal:
		return x.v
	case bool:
		return x
	case int64:
		return json.Number(strconv.FormatInt(x, 10))
	case float64:
		return json.Number(fmtFloat(x))
	case decimal.Decimal:
		return json.Number(x.String())
	case []Val:
		out := make([]any, len(x))
		for i := range x {
			out[i] = toJSON(x[i], Type{b: t.b})
		}
		return out
	case rowVal:
		m := map[string]any{}
		for i := range x.vals {
			m[x.names[i]] = toJSON(x.vals[i], x.types[i])
		}
		return m
	case time.Time:
		switch t.b {
		case tTimestamp:
			return fmtTime(x, "2006-01-02T15:04:05.999999")
		case tDate:
			return x.Format("2006-01-02")
		}
		return fmtTime(x, "2006-01-02T15:04:05.999999") + "+00:00"
	}
	s := textOf(v, t)
	return s
}

func fmtTime(t time.Time, layout string) string {
	y := t.Year()
	if y > 9999 || y < 1 {
		bc := ""
		if y < 1 {
			bc = " BC"
			y = 1 - y
		}
		s := t.AddDate(2000-t.Year(), 0, 0).Format(layout)
		return fmt.Sprintf("%04d", y) + s[4:] + bc
	}
	return t.Format(layout)
}

func fmtFloat(f float64) string {
	if math.IsInf(f, 1) {
		return "Infinity"
	}
	if math.IsInf(f, -1) {
		return "-Infinity"
	}
	if math.IsNaN(f) {
		return "NaN"
	}
	a := math.Abs(f)
	if a != 0 && (a < 1e-4 || a >= 1e15) {
		return strconv.FormatFloat(f, 'e', -1, 64)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// textOf is the output function of a value.
func textOf(v Val, t Type) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return fmtFloat(x)
	case decimal.Decimal:
		if t.hasMod {
			return x.StringFixed(int32(t.scale))
		}
		return x.String()
	case bool:
		if x {
			return "t"
		}
		return "f"
	case time.Time:
		switch t.b {
		case tTimestamptz:
			s := fmtTime(x, "2006-01-02 15:04:05.999999")
			if strings.HasSuffix(s, " BC") {
				return strings.TrimSuffix(s, " BC") + "+00 BC"
			}
			return s + "+00"
		case tDate:
			return fmtTime(x, "2006-01-02")
		}
		return fmtTime(x, "2006-01-02 15:04:05.999999")
	case jsonVal:
		return jsonText(x.v)
	case interval:
		var p []string
		if x.months/12 != 0 {
			p = append(p, fmt.Sprintf("%d years", x.months/12))
		}
		if x.months%12 != 0 {
			p = append(p, fmt.Sprintf("%d mons", x.months%12))
		}
		if x.days != 0 {
			p = append(p, fmt.Sprintf("%d days", x.days))
		}
		if x.us != 0 || len(p) == 0 {
			us := x.us
			sg := ""
			if us < 0 {
				sg = "-"
				us = -us
			}
			s := fmt.Sprintf("%s%02d:%02d:%02d", sg, us/3600e6, us/60e6%60, us/1e6%60)
			if us%1e6 != 0 {
				s += strings.TrimRight(fmt.Sprintf(".%06d", us%1e6), "0")
			}
			p = append(p, s)
		}
		return strings.Join(p, " ")
	case []Val:
		var b strings.Builder
		b.WriteByte('{')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			if e == nil {
				b.WriteString("NULL")
				continue
			}
			s := textOf(e, Type{b: t.b})
			if s == "" || strings.ContainsAny(s, "{},\"\\ \t\n") || strings.EqualFold(s, "null") {
				b.WriteByte('"')
				for _, c := range []byte(s) {
					if c == '"' || c == '\\' {
						b.WriteByte('\\')
					}
					b.WriteByte(c)
				}
				b.WriteByte('"')
			} else {
				b.WriteString(s)
			}
		}
		b.WriteByte('}')
		return b.String()
	case rowVal:
		var b strings.Builder
		b.WriteByte('(')
		for i := range x.vals {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(textOf(x.vals[i], x.types[i]))
		}
		b.WriteByte(')')
		return b.String()
	}
	panic(fmt.Sprintf("textOf %T", v))
}

func toDec(v Val) (decimal.Decimal, bool) {
	switch x := v.(type) {
	case int64:
		return decimal.NewFromInt(x), true
	case decimal.Decimal:
		return x, true
	case float64:
		return decimal.NewFromFloat(x), true
	}
	return decimal.Decimal{}, false
}

// cmpVals orders two non-null values of compatible types.
func cmpVals(a, b Val) int {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0
			}
			if !x {
				return -1
			}
			return 1
		}
	case int64:
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	case time.Time:
		if y, ok := b.(time.Time); ok {
			return x.Compare(y)
		}
	case jsonVal:
		if y, ok := b.(jsonVal); ok {
			return strings.Compare(jsonText(x.v), jsonText(y.v))
		}
	case interval:
		if y, ok := b.(interval); ok {
			tot := func(i interval) int64 { return (i.months*30+i.days)*86400e6 + i.us }
			p, q := tot(x), tot(y)
			switch {
			case p < q:
				return -1
			case p > q:
				return 1
			}
			return 0
		}
	case []Val:
		if y, ok := b.([]Val); ok {
			for i := 0; i < len(x) && i < len(y); i++ {
				if x[i] == nil || y[i] == nil {
					if x[i] == nil && y[i] == nil {
						continue
					}
					if x[i] == nil {
						return 1
					}
					return -1
				}
				if c := cmpVals(x[i], y[i]); c != 0 {
					return c
				}
			}
			return len(x) - len(y)
		}
	case rowVal:
		if y, ok := b.(rowVal); ok {
			return cmpVals(x.vals, y.vals)
		}
	}
	if fa, ok := a.(float64); ok {
		if fb, ok := b.(float64); ok {
			switch {
			case fa < fb:
				return -1
			case fa > fb:
				return 1
			}
			return 0
		}
	}
	x, ok1 := toDec(a)
	y, ok2 := toDec(b)
	if ok1 && ok2 {
		return x.Cmp(y)
	}
	panic(fmt.Sprintf("cmpVals %T %T", a, b))
}

// keyOf is a canonical string for hashing (equality).
func keyOf(v Val) string {
	switch x := v.(type) {
	case nil:
		return "\x00N"
	case string:
		return "s" + x
	case int64:
		return "n" + strconv.FormatInt(x, 10)
	case decimal.Decimal:
		return "n" + x.String()
	case float64:
		return "n" + decimal.NewFromFloat(x).String()
	case bool:
		return "b" + strconv.FormatBool(x)
	case time.Time:
		return "t" + strconv.FormatInt(x.UnixMicro(), 10)
	case jsonVal:
		return "j" + jsonText(x.v)
	case []Val:
		s := "a"
		for _, e := range x {
			k := keyOf(e)
			s += strconv.Itoa(len(k)) + ":" + k
		}
		return s
	case interval:
		return fmt.Sprintf("i%v", x)
	case rowVal:
		return keyOf(x.vals)
	}
	panic(fmt.Sprintf("keyOf %T", v))
}

// castVal converts v (of type from) to type to.
func castVal(v Val, from, to Type) (Val, error) {
	if v == nil {
		return nil, nil
	}
	if from.b == tUnknown && !from.arr {
		s, ok := v.(string)
		if ok {
			r, err := parseText(s, to)
			if err != nil {
				return nil, err
			}
			return truncMod(r, to)
		}
	}
	if to.arr {
		if l, ok := v.([]Val); ok {
			out := make([]Val, len(l))
			for i := range l {
				x, err := castVal(l[i], Type{b: from.b}, Type{b: to.b})
				if err != nil {
					return nil, err
				}
				out[i] = x
			}
			return out, nil
		}
		if s, ok := v.(string); ok {
			return parseText(s, to)
		}
		return nil, pgErr("42846", "cannot cast type "+from.name()+" to "+to.name())
	}
	cannot := func() error { return pgErr("42846", "cannot cast type "+from.name()+" to "+to.name()) }
	switch to.b {
	case tText, tUnknown, tInet, tBytea:
		if b, ok := v.(bool); ok {
			return truncMod(strconv.FormatBool(b), to)
		}
		return truncMod(textOf(v, from), to)
	case tInt4, tInt8:
		var n int64
		switch x := v.(type) {
		case int64:
			n = x
		case decimal.Decimal:
			r := x.Round(0)
			bi := r.BigInt()
			if !bi.IsInt64() {
				return nil, pgErr("22003", to.name()+" out of range")
			}
			n = bi.Int64()
		case float64:
			r := math.RoundToEven(x)
			if r >= math.MaxInt64 || r < math.MinInt64 || math.IsNaN(r) {
				return nil, pgErr("22003", to.name()+" out of range")
			}
			n = int64(r)
		case bool:
			if x {
				n = 1
			}
		case string:
			return parseText(x, to)
		case jsonVal:
			nm, ok := x.v.(json.Number)
			if !ok {
				return nil, pgErr("22023", "cannot cast jsonb to type integer")
			}
			d, err := decimal.NewFromString(string(nm))
			if err != nil {
				return nil, err
			}
			return castVal(d, Type{b: tNumeric}, to)
		default:
			return nil, cannot()
		}
		if to.b == tInt4 && (n > math.MaxInt32 || n < math.MinInt32) {
			return nil, pgErr("22003", "integer out of range")
		}
		return n, nil
	case tNumeric:
		switch x := v.(type) {
		case int64:
			return applyNumMod(decimal.NewFromInt(x), to)
		case decimal.Decimal:
			return applyNumMod(x, to)
		case float64:
			d, err := decimal.NewFromString(strconv.FormatFloat(x, 'g', 15, 64))
			if err != nil {
				return nil, pgErr("22003", "cannot convert to numeric")
			}
			return applyNumMod(d, to)
		case string:
			return parseText(x, to)
		case jsonVal:
			nm, ok := x.v.(json.Number)
			if !ok {
				return nil, pgErr("22023", "cannot cast jsonb to type numeric")
			}
			return parseText(string(nm), to)
		}
		return nil, cannot()
	case tFloat8:
		switch x := v.(type) {
		case int64:
			return float64(x), nil
		case decimal.Decimal:
			f, _ := x.Float64()
			return f, nil
		case float64:
			return x, nil
		case string:
			return parseText(x, to)
		case jsonVal:
			nm, ok := x.v.(json.Number)
			if !ok {
				return nil, pgErr("22023", "cannot cast jsonb to type double precision")
			}
			return parseText(string(nm), to)
		}
		return nil, cannot()
	case tBool:
		switch x := v.(type) {
		case bool:
			return x, nil
		case int64:
			return x != 0, nil
		case string:
			return parseText(x, to)
		case jsonVal:
			b, ok := x.v.(bool)
			if !ok {
				return nil, pgErr("22023", "cannot cast jsonb to type boolean")
			}
			return b, nil
		}
		return nil, cannot()
	case tTimestamp, tTimestamptz:
		switch x := v.(type) {
		case time.Time:
			return x, nil
		case string:
			return parseText(x, to)
		}
		return nil, cannot()
	case tDate:
		switch x := v.(type) {
		case time.Time:
			return time.Date(x.Year(), x.Month(), x.Day(), 0, 0, 0, 0, time.UTC), nil
		case string:
			return parseText(x, to)
		}
		return nil, cannot()
	case tJSON, tJSONB:
		switch x := v.(type) {
		case jsonVal:
			return x, nil
		case string:
			return parseText(x, to)
		}
		return nil, cannot()
	case tInterval:
		switch x := v.(type) {
		case interval:
			return x, nil
		case string:
			return parseText(x, to)
		}
		return nil, cannot()
	}
	return nil, cannot()
}

// truncMod: explicit casts to varchar(n) truncate; assignment checks length (see assignVal).
func truncMod(v Val, t Type) (Val, error) {
	if s, ok := v.(string); ok && t.b == tText && t.hasMod && !t.arr {
		r := []rune(s)
		if len(r) > t.mod {
			return string(r[:t.mod]), nil
		}
	}
	return v, nil
}

// assignVal converts for storage into a column.
func assignVal(v Val, from Type, col *column) (Val, error) {
	if v == nil {
		return nil, nil
	}
	t := col.typ
	if from == t && !t.hasMod {
		return v, nil
	}
	if from.b != tUnknown {
		// assignment casts allowed by PostgreSQL
		ok := from.b == t.b && from.arr == t.arr
		num := func(b base) bool { return b == tInt4 || b == tInt8 || b == tNumeric || b == tFloat8 }
		tim := func(b base) bool { return b == tTimestamp || b == tTimestamptz || b == tDate }
		if !from.arr && !t.arr {
			ok = ok || num(from.b) && num(t.b) || tim(from.b) && tim(t.b) || t.b == tText || (t.b == tJSON && from.b == tJSONB) || (t.b == tJSONB && from.b == tJSON)
		}
		if !ok {
			return nil, pgErr("42804", fmt.Sprintf("column %q is of type %s but expression is of type %s", col.name, t.name(), from.name()))
		}
	}
	if t.b == tText && t.hasMod && !t.arr {
		full := t
		full.hasMod = false
		r, err := castVal(v, from, full)
		if err != nil {
			return nil, err
		}
		s := r.(string)
		rr := []rune(s)
		if len(rr) > t.mod {
			if strings.TrimRight(string(rr[t.mod:]), " ") != "" {
				n := "character varying"
				if t.char {
					n = "character"
				}
				return nil, pgErr("22001", fmt.Sprintf("value too long for type %s(%d)", n, t.mod))
			}
			s = string(rr[:t.mod])
		}
		return s, nil
	}
	return castVal(v, from, t)
}

func bigOf(v Val) *big.Int {
	d, ok := toDec(v)
	if !ok {
		return nil
	}
	return d.BigInt()
}
