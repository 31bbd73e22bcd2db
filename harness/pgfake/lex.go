// Package pgfake is a small in-memory PostgreSQL look-alike: wire protocol v3, the SQL and PL/pgSQL
// the service uses, row versions, row locks, READ COMMITTED / REPEATABLE READ visibility, constraints
// and triggers. Monitors observe every commit; faults are injected at the wire.
package pgfake

import (
	"fmt"
	"strings"
	"unicode"
)

type tokKind int

const (
	tkEOF tokKind = iota
	tkIdent
	tkQIdent
	tkNum
	tkStr
	tkParam
	tkOp
)

type token struct {
	k   tokKind
	s   string // identifier lower-cased, operator, literal text
	raw string
	pos int
	end int
}

func lexSQL(src string) ([]token, error) {
	var out []token
	i, n := 0, len(src)
	for i < n {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v':
			i++
		case c == '-' && i+1 < n && src[i+1] == '-':
			for i < n && src[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && src[i+1] == '*':
			d := 1
			i += 2
			for i < n && d > 0 {
				if strings.HasPrefix(src[i:], "/*") {
					d++
					i += 2
				} else if strings.HasPrefix(src[i:], "*/") {
					d--
					i += 2
				} else {
					i++
				}
			}
		case c == '\'' || ((c == 'E' || c == 'e') && i+1 < n && src[i+1] == '\''):
			start := i
			esc := false
			if c != '\'' {
				esc = true
				i++
			}
			i++
			var b strings.Builder
			closed := false
			for i < n {
				if src[i] == '\'' {
					if i+1 < n && src[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					closed = true
					break
				}
				if esc && src[i] == '\\' && i+1 < n {
					i++
					switch src[i] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					default:
						b.WriteByte(src[i])
					}
					i++
					continue
				}
				b.WriteByte(src[i])
				i++
			}
			if !closed {
				return nil, pgErr("42601", "unterminated quoted string")
			}
			out = append(out, token{tkStr, b.String(), src[start:i], start, i})
		case c == '"':
			start := i
			i++
			var b strings.Builder
			closed := false
			for i < n {
				if src[i] == '"' {
					if i+1 < n && src[i+1] == '"' {
						b.WriteByte('"')
						i += 2
						continue
					}
					i++
					closed = true
					break
				}
				b.WriteByte(src[i])
				i++
			}
			if !closed {
				return nil, pgErr("42601", "unterminated quoted identifier")
			}
			out = append(out, token{tkQIdent, b.String(), src[start:i], start, i})
		case c == '$' && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9':
			start := i
			i++
			for i < n && src[i] >= '0' && src[i] <= '9' {
				i++
			}
			out = append(out, token{tkParam, src[start+1 : i], src[start:i], start, i})
		case c == '$':
			// dollar quoting
			j := i + 1
			for j < n && (src[j] == '_' || unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			if j < n && src[j] == '$' {
				tag := src[i : j+1]
				e := strings.Index(src[j+1:], tag)
				if e < 0 {
					return nil, pgErr("42601", "unterminated dollar-quoted string")
				}
				body := src[j+1 : j+1+e]
				out = append(out, token{tkStr, body, "", i, j + 1 + e + len(tag)})
				i = j + 1 + e + len(tag)
			} else {
				return nil, pgErr("42601", "syntax error at or near \"$\"")
			}
		case c >= '0' && c <= '9' || (c == '.' && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9'):
			start := i
			for i < n && (src[i] >= '0' && src[i] <= '9' || src[i] == '.') {
				i++
			}
			if i < n && (src[i] == 'e' || src[i] == 'E') {
				j := i + 1
				if j < n && (src[j] == '+' || src[j] == '-') {
					j++
				}
				if j < n && src[j] >= '0' && src[j] <= '9' {
					for j < n && src[j] >= '0' && src[j] <= '9' {
						j++
					}
					i = j
				}
			}
			out = append(out, token{tkNum, src[start:i], src[start:i], start, i})
		case c == '_' || c >= 0x80 || unicode.IsLetter(rune(c)):
			start := i
			for i < n && (src[i] == '_' || src[i] == '$' || src[i] >= 0x80 || unicode.IsLetter(rune(src[i])) || src[i] >= '0' && src[i] <= '9') {
				i++
			}
			out = append(out, token{tkIdent, strings.ToLower(src[start:i]), src[start:i], start, i})
		default:
			start := i
			op := ""
			for _, o := range []string{"->>", "#>>", "!~*", "::", "->", "#>", "||", "<=", ">=", "<>", "!=", ":=", "@>", "<@", "?|", "?&", "~*", "!~", "=>"} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if strings.IndexByte("+-*/%=<>(),.;:[]?|&^~#@!", c) < 0 {
					return nil, pgErr("42601", fmt.Sprintf("syntax error at or near %q", string(c)))
				}
				op = string(c)
			}
			i += len(op)
			if op == "!=" {
				op = "<>"
			}
			out = append(out, token{tkOp, op, src[start:i], start, i})
		}
	}
	out = append(out, token{tkEOF, "", "", n, n})
	return out, nil
}
