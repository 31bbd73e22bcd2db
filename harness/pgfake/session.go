package pgfake

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// StmtInfo describes a statement about to run, for fault injection and tracing.
type StmtInfo struct {
	Seq    int64  // global statement number
	ConnID int64  // session
	App    string // application_name
	SQL    string
	Kind   string // begin, commit, rollback, select, insert, update, delete, copy, ddl, other
	Table  string // main table of a DML statement (schema.table)
	InTx   bool
	TxID   int64
	TxStmt int  // statements run before in this transaction
	TxDML  int  // data-modifying statements run before in this transaction
	Params []string
}

// Action is what a fault hook wants done with a statement.
type Action struct {
	Err   error         // fail the statement with this error instead of running it
	Cut   string        // "before": drop the connection without running it; "after": run it, then drop the connection without answering
	Delay time.Duration // wait before running it
	After func()        // called after it ran (before the answer is sent)
}

// SetHook installs the fault hook (nil: none). It is called without the engine's lock.
func (e *Engine) SetHook(f func(*StmtInfo) *Action) {
	e.mu.Lock()
	e.hook = f
	e.mu.Unlock()
}

// Err makes an SQL error for fault injection.
func Err(code, msg string) error { return pgErr(code, msg) }

type session struct {
	id        int64
	secret    uint32
	e         *Engine
	app       string
	conn      net.Conn
	w         *bufio.Writer
	tx        *Tx
	explicit  bool
	failed    bool
	cancelled int32
	gone      int32
	prepared  map[string]*prep
	portals   map[string]*portal
	txStmt    int
	txDML     int
	noTrig    bool
}

type prep struct {
	sql    string
	stmt   Stmt
	plan   *stmtPlan
	n      int
	cols   []colInfo
	hasRow bool
}
type portal struct {
	p      *prep
	params []Val
	fmts   []int
}

var errGone = errors.New("connection gone")

func kindOf(s Stmt) (kind, tbl string) {
	q := func(a, b string) string {
		if a == "" {
			a = "public"
		}
		return a + "." + b
	}
	switch n := s.(type) {
	case *selectStmt:
		t := ""
		if len(n.from) > 0 && n.from[0].table != "" {
			t = q(n.from[0].schema, n.from[0].table)
		}
		k := "select"
		for _, c := range n.with {
			ck, ct := kindOf(c.stmt)
			if ck != "select" {
				k, t = ck, ct
			}
		}
		return k, t
	case *insertStmt:
		return "insert", q(n.schema, n.table)
	case *updateStmt:
		return "update", q(n.schema, n.table)
	case *deleteStmt:
		return "delete", q(n.schema, n.table)
	case *copyStmt:
		return "copy", q(n.schema, n.table)
	case *txStmt:
		return n.op, ""
	case *createSchema, *dropSchema, *createTable, *createIndex, *createFunction, *createTrigger, *dropStmt, *alterTable:
		return "ddl", ""
	}
	return "other", ""
}

// prepare parses and compiles one statement. Caller holds the lock.
func (e *Engine) prepare(sql string, st Stmt) (*prep, error) {
	p := &prep{sql: sql, stmt: st}
	switch st.(type) {
	case *selectStmt, *insertStmt, *updateStmt, *deleteStmt:
	default:
		if _, ok := st.(*showStmt); ok {
			p.cols, p.hasRow = []colInfo{{"setting", Type{b: tText}}}, true
		}
		return p, nil
	}
	if e.plansVer != e.version {
		e.plans, e.plansVer = map[string]*stmtPlan{}, e.version
	}
	sp := e.plans[sql]
	if sp == nil {
		c := &compiler{e: e}
		pl, err := c.stmtPlan(st)
		if err != nil {
			if pe, ok := err.(*PgError); ok && (pe.Code == "0A000" || pe.Code == "42601" || pe.Code == "42883") {
				e.Unsupported[pe.Msg+" :: "+sql]++
			}
			return nil, err
		}
		sp = &stmtPlan{p: pl, nparams: c.nparams, stmt: st}
		if len(e.plans) > 5000 {
			e.plans = map[string]*stmtPlan{}
		}
		e.plans[sql] = sp
	}
	p.plan = sp
	p.n = sp.nparams
	p.cols = sp.p.columns()
	p.hasRow = len(p.cols) > 0
	return p, nil
}

func (s *session) wait(tx *Tx, w *waitErr) error {
	e := s.e
	if e.wouldDeadlock(tx, w.on) {
		e.Deadlocks++
		return pgErr("40P01", "deadlock detected")
	}
	e.Waits++
	tx.waitFor = w.on
	for !w.on.done {
		if atomic.LoadInt32(&s.cancelled) != 0 {
			tx.waitFor = nil
			return errCancelled
		}
		if atomic.LoadInt32(&s.gone) != 0 {
			tx.waitFor = nil
			return errGone
		}
		if e.closed {
			return errGone
		}
		e.cond.Wait()
	}
	tx.waitFor = nil
	return nil
}

// runStmt runs one prepared statement in tx. Caller holds the lock.
func (s *session) runStmt(tx *Tx, p *prep, params []Val, copyRows func(x *xctx) (int64, error)) (rs *rowset, tag string, err error) {
	e := s.e
	if tx.rr && !tx.snapSet {
		tx.snap, tx.snapSet = e.comSeq, true
		e.rrActive++
	}
	mark := len(tx.undo)
	for {
		x := &xctx{e: e, s: s, tx: tx, params: params, cteRes: map[*cteDef]*rowset{}, now: tx.start, noTrig: s.noTrig}
		switch {
		case copyRows != nil:
			rs = &rowset{dml: true}
			rs.n, err = copyRows(x)
		case p.plan != nil:
			rs, err = x.runPlan(p.plan.p, nil)
		default:
			switch st := p.stmt.(type) {
			case *setStmt:
				return &rowset{}, "SET", nil
			case *commentStmt:
				return &rowset{}, "COMMENT", nil
			case *showStmt:
				return &rowset{cols: p.cols, rows: [][]Val{{""}}}, "SHOW", nil
			default:
				tag, err = e.ddl(x, st)
				rs = &rowset{}
			}
		}
		if err == nil {
			break
		}
		w, ok := isWait(err)
		if !ok {
			return nil, "", err
		}
		e.undoTo(tx, mark)
		if err = s.wait(tx, w); err != nil {
			return nil, "", err
		}
		// the statement re-evaluates what it sees, as READ COMMITTED does after a lock wait
	}
	if tag != "" {
		return rs, tag, nil
	}
	switch p.stmt.(type) {
	case *insertStmt:
		tag = fmt.Sprintf("INSERT 0 %d", rs.n)
	case *updateStmt:
		tag = fmt.Sprintf("UPDATE %d", rs.n)
	case *deleteStmt:
		tag = fmt.Sprintf("DELETE %d", rs.n)
	case *copyStmt:
		tag = fmt.Sprintf("COPY %d", rs.n)
	default:
		tag = fmt.Sprintf("SELECT %d", len(rs.rows))
	}
	return rs, tag, nil
}

// exec runs one statement with transaction handling and faults. implicit is the transaction of a
// multi-statement simple query, or nil.
func (s *session) exec(p *prep, params []Val, copyRows func(x *xctx) (int64, error)) (rs *rowset, tag string, err error) {
	e := s.e
	kind, tbl := kindOf(p.stmt)
	info := &StmtInfo{ConnID: s.id, App: s.app, SQL: p.sql, Kind: kind, Table: tbl}
	e.mu.Lock()
	e.stmtSeq++
	e.Statements++
	info.Seq = e.stmtSeq
	info.InTx = s.tx != nil
	if s.tx != nil {
		info.TxID = s.tx.id
	}
	info.TxStmt, info.TxDML = s.txStmt, s.txDML
	hook := e.hook
	e.mu.Unlock()
	var act *Action
	if hook != nil {
		for _, v := range params {
			ps := ""
			if v != nil {
				ps, _ = v.(string)
			}
			info.Params = append(info.Params, ps)
		}
		act = hook(info)
	}
	if act != nil {
		if act.Delay > 0 {
			time.Sleep(act.Delay)
		}
		if act.Cut == "before" {
			return nil, "", errGone
		}
	}
	e.mu.Lock()
	if act != nil && act.Err != nil {
		err = act.Err
		if s.tx != nil {
			if kind == "commit" || kind == "rollback" {
				e.finish(s.tx, false)
				s.endTx()
			} else {
				s.failed = true
			}
		}
	} else {
		rs, tag, err = s.execLocked(p, params, copyRows)
	}
	if s.tx != nil {
		s.txStmt++
		if kind == "insert" || kind == "update" || kind == "delete" || kind == "copy" {
			s.txDML++
		}
	}
	e.mu.Unlock()
	if act != nil {
		if act.After != nil {
			act.After()
		}
		if act.Cut == "after" {
			return nil, "", errGone
		}
	}
	return rs, tag, err
}

func (s *session) endTx() {
	s.tx, s.explicit, s.failed = nil, false, false
	s.txStmt, s.txDML = 0, 0
}

func (s *session) execLocked(p *prep, params []Val, copyRows func(x *xctx) (int64, error)) (*rowset, string, error) {
	e := s.e
	if t, ok := p.stmt.(*txStmt); ok {
		switch t.op {
		case "begin":
			if s.tx == nil || !s.explicit {
				if s.tx == nil {
					s.tx = e.newTx(s)
				}
				s.explicit = true
			}
			if t.isolation == "rr" {
				s.tx.rr = true
			}
			return &rowset{}, "BEGIN", nil
		case "set":
			if s.tx != nil && t.isolation != "" {
				s.tx.rr = t.isolation == "rr"
			}
			return &rowset{}, "SET", nil
		case "commit":
			if s.tx == nil {
				return &rowset{}, "COMMIT", nil
			}
			ok := !s.failed
			e.finish(s.tx, ok)
			s.endTx()
			if !ok {
				return &rowset{}, "ROLLBACK", nil
			}
			return &rowset{}, "COMMIT", nil
		case "rollback":
			if s.tx != nil {
				e.finish(s.tx, false)
				s.endTx()
			}
			return &rowset{}, "ROLLBACK", nil
		}
	}
	if s.failed {
		return nil, "", pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	tx := s.tx
	implicit := tx == nil
	if implicit {
		tx = e.newTx(s)
	}
	rs, tag, err := s.runStmt(tx, p, params, copyRows)
	if implicit {
		e.finish(tx, err == nil)
	} else if err != nil {
		s.failed = true
	}
	return rs, tag, err
}

// ---- wire protocol ----

// Serve accepts connections until l is closed.
func (e *Engine) Serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go e.handle(c)
	}
}

// Listen starts the server on a loopback port and returns its address.
func (e *Engine) Listen() (net.Listener, string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, "", err
	}
	go e.Serve(l)
	return l, l.Addr().String(), nil
}

// CloseSessions drops every client connection whose application name matches (""=all).
func (e *Engine) CloseSessions(app string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, s := range e.sessions {
		if s.conn != nil && (app == "" || s.app == app) {
			s.conn.Close()
			n++
		}
	}
	return n
}

type msg struct {
	t byte
	b []byte
}

func (e *Engine) handle(c net.Conn) {
	defer c.Close()
	if t, ok := c.(*net.TCPConn); ok {
		t.SetNoDelay(true)
	}
	r := bufio.NewReaderSize(c, 1<<16)
	var params map[string]string
	for {
		var h [8]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:4])) - 8
		code := binary.BigEndian.Uint32(h[4:])
		if n < 0 || n > 1<<20 {
			return
		}
		body := make([]byte, n)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		switch code {
		case 80877103, 80877104: // SSL, GSS
			c.Write([]byte{'N'})
			continue
		case 80877102: // cancel
			if n >= 8 {
				pid := int64(binary.BigEndian.Uint32(body[:4]))
				sec := binary.BigEndian.Uint32(body[4:8])
				e.mu.Lock()
				if s := e.sessions[pid]; s != nil && s.secret == sec {
					atomic.StoreInt32(&s.cancelled, 1)
					e.cond.Broadcast()
				}
				e.mu.Unlock()
			}
			return
		case 196608:
			params = map[string]string{}
			parts := strings.Split(string(body), "\x00")
			for i := 0; i+1 < len(parts); i += 2 {
				params[parts[i]] = parts[i+1]
			}
		default:
			return
		}
		break
	}
	s := &session{e: e, conn: c, w: bufio.NewWriterSize(c, 1<<16), app: params["application_name"], prepared: map[string]*prep{}, portals: map[string]*portal{}}
	e.mu.Lock()
	if e.closed {
		e.mu.Unlock()
		return
	}
	e.sessSeq++
	s.id = e.sessSeq
	s.secret = uint32(s.id*2654435761) ^ 0x5bd1e995
	e.sessions[s.id] = s
	e.mu.Unlock()
	defer func() {
		e.mu.Lock()
		if s.tx != nil {
			e.finish(s.tx, false)
			s.endTx()
		}
		delete(e.sessions, s.id)
		e.mu.Unlock()
	}()
	s.send('R', be32(0))
	for _, kv := range [][2]string{{"server_version", "14.9"}, {"server_encoding", "UTF8"}, {"client_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}, {"integer_datetimes", "on"}, {"standard_conforming_strings", "on"}} {
		s.send('S', []byte(kv[0]+"\x00"+kv[1]+"\x00"))
	}
	s.send('K', append(be32(uint32(s.id)), be32(s.secret)...))
	s.ready()
	ch := make(chan msg, 64)
	quit := make(chan struct{})
	defer close(quit)
	go func() {
		defer func() {
			atomic.StoreInt32(&s.gone, 1)
			e.mu.Lock()
			e.cond.Broadcast()
			e.mu.Unlock()
			close(ch)
		}()
		for {
			var h [5]byte
			if _, err := io.ReadFull(r, h[:]); err != nil {
				return
			}
			n := int(binary.BigEndian.Uint32(h[1:])) - 4
			if n < 0 || n > 1<<28 {
				return
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			select {
			case ch <- msg{h[0], b}:
			case <-quit:
				return
			}
		}
	}()
	s.loop(ch)
}

func be32(n uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], n)
	return b[:]
}

func (s *session) send(t byte, b []byte) {
	s.w.WriteByte(t)
	s.w.Write(be32(uint32(len(b) + 4)))
	s.w.Write(b)
}

func (s *session) ready() {
	st := byte('I')
	if s.tx != nil {
		st = 'T'
		if s.failed {
			st = 'E'
		}
	}
	s.send('Z', []byte{st})
	s.w.Flush()
}

func (s *session) sendErr(err error) {
	pe, ok := err.(*PgError)
	if !ok {
		if errors.As(err, &pe) {
			ok = true
		}
	}
	if !ok {
		pe = &PgError{Code: "XX000", Msg: err.Error()}
	}
	s.e.failed(pe)
	var b []byte
	f := func(k byte, v string) {
		if v != "" {
			b = append(b, k)
			b = append(b, v...)
			b = append(b, 0)
		}
	}
	f('S', "ERROR")
	f('V', "ERROR")
	f('C', pe.Code)
	f('M', pe.Msg)
	f('D', pe.Detail)
	f('s', pe.Schema)
	f('t', pe.Table)
	f('c', pe.Column)
	f('n', pe.Constraint)
	b = append(b, 0)
	s.send('E', b)
}

func (s *session) rowDesc(cols []colInfo) {
	b := []byte{byte(len(cols) >> 8), byte(len(cols))}
	for _, c := range cols {
		b = append(b, c.name...)
		b = append(b, 0)
		b = append(b, 0, 0, 0, 0, 0, 0)
		b = append(b, be32(c.t.oid())...)
		b = append(b, 0xff, 0xff)
		mod := int32(-1)
		b = append(b, be32(uint32(mod))...)
		b = append(b, 0, 0)
	}
	s.send('T', b)
}

func (s *session) dataRows(cols []colInfo, rs *rowset, fmts []int) {
	for _, r := range rs.rows {
		b := []byte{byte(len(cols) >> 8), byte(len(cols))}
		for i, c := range cols {
			if r[i] == nil {
				b = append(b, 0xff, 0xff, 0xff, 0xff)
				continue
			}
			f := 0
			if len(fmts) == 1 {
				f = fmts[0]
			} else if i < len(fmts) {
				f = fmts[i]
			}
			t := textOf(r[i], c.t)
			if n, ok := r[i].(int64); ok && f == 1 {
				var w [8]byte
				binary.BigEndian.PutUint64(w[:], uint64(n))
				t = string(w[:])
				if c.t.b == tInt4 {
					t = t[4:]
				}
			}
			b = append(b, be32(uint32(len(t)))...)
			b = append(b, t...)
		}
		s.send('D', b)
	}
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) str() string {
	i := strings.IndexByte(string(r.b), 0)
	if i < 0 {
		r.bad = true
		return ""
	}
	v := string(r.b[:i])
	r.b = r.b[i+1:]
	return v
}
func (r *rd) i16() int {
	if len(r.b) < 2 {
		r.bad = true
		return 0
	}
	v := int(int16(binary.BigEndian.Uint16(r.b)))
	r.b = r.b[2:]
	return v
}
func (r *rd) i32() int {
	if len(r.b) < 4 {
		r.bad = true
		return 0
	}
	v := int(int32(binary.BigEndian.Uint32(r.b)))
	r.b = r.b[4:]
	return v
}
func (r *rd) take(n int) []byte {
	if n < 0 || len(r.b) < n {
		r.bad = true
		return nil
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}

func (s *session) parseOne(sql string) (*prep, error) {
	st, _, err := parseScript(sql)
	if err != nil {
		s.e.mu.Lock()
		s.e.Unsupported[err.Error()+" :: "+sql]++
		s.e.mu.Unlock()
		return nil, err
	}
	if len(st) > 1 {
		return nil, pgErr("42601", "cannot insert multiple commands into a prepared statement")
	}
	if len(st) == 0 {
		return &prep{sql: sql, stmt: &emptyStmt{}}, nil
	}
	s.e.mu.Lock()
	defer s.e.mu.Unlock()
	return s.e.prepare(sql, st[0])
}

func (s *session) loop(ch chan msg) {
	skip := false
	fail := func(err error) bool {
		if err == errGone {
			return false
		}
		s.sendErr(err)
		skip = true
		s.e.mu.Lock()
		if s.tx != nil {
			s.failed = true
		}
		s.e.mu.Unlock()
		return true
	}
	for m := range ch {
		if m.t == 'X' {
			return
		}
		if skip && m.t != 'S' {
			continue
		}
		r := &rd{b: m.b}
		switch m.t {
		case 'Q':
			atomic.StoreInt32(&s.cancelled, 0)
			if !s.simple(r.str(), ch) {
				return
			}
		case 'P':
			name, sql := r.str(), r.str()
			p, err := s.parseOne(sql)
			if err == nil && s.failed {
				if t, ok := p.stmt.(*txStmt); !ok || t.op == "begin" {
					err = pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
				}
			}
			if err != nil {
				if !fail(err) {
					return
				}
				continue
			}
			s.prepared[name] = p
			s.send('1', nil)
		case 'D':
			k := byte(0)
			if len(r.b) > 0 {
				k = r.b[0]
				r.b = r.b[1:]
			}
			name := r.str()
			var p *prep
			if k == 'S' {
				p = s.prepared[name]
				if p != nil {
					b := []byte{byte(p.n >> 8), byte(p.n)}
					for i := 0; i < p.n; i++ {
						b = append(b, be32(25)...)
					}
					s.send('t', b)
				}
			} else if po := s.portals[name]; po != nil {
				p = po.p
			}
			if p == nil {
				fail(pgErr("26000", "prepared statement does not exist"))
				continue
			}
			if p.hasRow {
				s.rowDesc(p.cols)
			} else {
				s.send('n', nil)
			}
		case 'B':
			pn, sn := r.str(), r.str()
			p := s.prepared[sn]
			if p == nil {
				fail(pgErr("26000", "prepared statement does not exist"))
				continue
			}
			nf := r.i16()
			fm := make([]int, nf)
			for i := range fm {
				fm[i] = r.i16()
			}
			np := r.i16()
			var params []Val
			var perr error
			for i := 0; i < np; i++ {
				l := r.i32()
				if l < 0 {
					params = append(params, nil)
					continue
				}
				f := 0
				if len(fm) == 1 {
					f = fm[0]
				} else if i < len(fm) {
					f = fm[i]
				}
				v := string(r.take(l))
				if f == 1 {
					perr = pgErr("0A000", "pgfake: binary parameter")
				}
				if strings.IndexByte(v, 0) >= 0 {
					perr = pgErr("22021", "invalid byte sequence for encoding \"UTF8\": 0x00")
				}
				params = append(params, v)
			}
			if perr == nil && np != p.n {
				perr = pgErr("08P01", fmt.Sprintf("bind message supplies %d parameters, but prepared statement requires %d", np, p.n))
			}
			if perr == nil {
				for _, v := range params {
					if sv, ok := v.(string); ok && !validUTF8(sv) {
						perr = pgErr("22021", "invalid byte sequence for encoding \"UTF8\"")
					}
				}
			}
			if perr != nil {
				fail(perr)
				continue
			}
			nr := r.i16()
			rf := make([]int, 0, nr)
			for i := 0; i < nr; i++ {
				rf = append(rf, r.i16())
			}
			s.portals[pn] = &portal{p, params, rf}
			s.send('2', nil)
		case 'E':
			po := s.portals[r.str()]
			if po == nil {
				fail(pgErr("34000", "portal does not exist"))
				continue
			}
			if _, ok := po.p.stmt.(*emptyStmt); ok {
				s.send('I', nil)
				continue
			}
			atomic.StoreInt32(&s.cancelled, 0)
			p := po.p
			// recompile if the schema changed
			if p.plan != nil {
				s.e.mu.Lock()
				if s.e.plansVer != s.e.version {
					np, err := s.e.prepare(p.sql, p.stmt)
					if err == nil {
						p = np
					}
				}
				s.e.mu.Unlock()
			}
			rs, tag, err := s.exec(p, po.params, nil)
			if err != nil {
				if !fail(err) {
					return
				}
				continue
			}
			s.dataRows(p.cols, rs, po.fmts)
			s.send('C', append([]byte(tag), 0))
		case 'S':
			skip = false
			s.ready()
		case 'C':
			if len(r.b) > 0 {
				k := r.b[0]
				r.b = r.b[1:]
				n := r.str()
				if k == 'S' {
					delete(s.prepared, n)
				} else {
					delete(s.portals, n)
				}
			}
			s.send('3', nil)
		case 'H':
			s.w.Flush()
		case 'd', 'c', 'f':
			// stray copy data after an error
		default:
			return
		}
	}
}

// simple runs a simple query; false: drop the connection.
func (s *session) simple(sql string, ch chan msg) bool {
	st, texts, err := parseScript(sql)
	if err != nil {
		s.e.mu.Lock()
		s.e.Unsupported[err.Error()+" :: "+sql]++
		if s.tx != nil {
			s.failed = true
		}
		s.e.mu.Unlock()
		s.sendErr(err)
		s.ready()
		return true
	}
	if len(st) == 0 {
		s.send('I', nil)
		s.ready()
		return true
	}
	group := len(st) > 1 && s.tx == nil
	if group {
		s.e.mu.Lock()
		s.tx = s.e.newTx(s)
		s.e.mu.Unlock()
	}
	endGroup := func(ok bool) {
		s.e.mu.Lock()
		if s.tx != nil && !s.explicit {
			s.e.finish(s.tx, ok)
			s.endTx()
		}
		s.e.mu.Unlock()
	}
	bad := func(err error) bool {
		if err == errGone {
			return false
		}
		if group {
			endGroup(false)
		}
		s.sendErr(err)
		s.ready()
		return true
	}
	for i, x := range st {
		if cs, ok := x.(*copyStmt); ok {
			if !s.copyIn(cs, texts[i], ch) {
				return false
			}
			continue
		}
		s.e.mu.Lock()
		p, err := s.e.prepare(texts[i], x)
		if err != nil && s.tx != nil {
			s.failed = true
		}
		s.e.mu.Unlock()
		if err != nil {
			return bad(err)
		}
		rs, tag, err := s.exec(p, nil, nil)
		if err != nil {
			return bad(err)
		}
		if p.hasRow {
			s.rowDesc(p.cols)
			s.dataRows(p.cols, rs, nil)
		}
		s.send('C', append([]byte(tag), 0))
	}
	if group {
		endGroup(true)
	}
	s.ready()
	return true
}

func (s *session) copyIn(cs *copyStmt, sql string, ch chan msg) bool {
	e := s.e
	e.mu.Lock()
	t := e.lookup(cs.schema, cs.table)
	var cols []int
	var err error
	switch {
	case s.failed:
		err = pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	case t == nil:
		err = pgErr("42P01", fmt.Sprintf("relation %q does not exist", cs.table))
	case cs.cols == nil:
		for i := range t.cols {
			cols = append(cols, i)
		}
	default:
		cols, err = t.colIdx(cs.cols)
	}
	e.mu.Unlock()
	if err != nil {
		s.e.mu.Lock()
		if s.tx != nil {
			s.failed = true
		}
		s.e.mu.Unlock()
		s.sendErr(err)
		return true
	}
	b := []byte{0, byte(len(cols) >> 8), byte(len(cols))}
	for range cols {
		b = append(b, 0, 0)
	}
	s.send('G', b)
	s.w.Flush()
	var data []byte
	for {
		m, ok := <-ch
		if !ok {
			return false
		}
		switch m.t {
		case 'd':
			data = append(data, m.b...)
			continue
		case 'H', 'S':
			continue
		case 'f':
			s.e.mu.Lock()
			if s.tx != nil {
				s.failed = true
			}
			s.e.mu.Unlock()
			s.sendErr(pgErr("57014", "COPY from stdin failed"))
			return true
		case 'c':
		default:
			return false
		}
		break
	}
	p := &prep{sql: sql, stmt: cs}
	var lines []string
	if len(data) > 0 {
		lines = strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
	}
	_, tag, err := s.exec(p, nil, func(x *xctx) (int64, error) {
		n := int64(0)
		for _, l := range lines {
			if l == "\\." {
				break
			}
			f := strings.Split(l, "\t")
			if len(f) != len(cols) {
				return 0, pgErr("22P04", "wrong number of columns in COPY data")
			}
			vals := make([]Val, len(f))
			types := make([]Type, len(f))
			for i, v := range f {
				types[i] = Type{b: tUnknown}
				if v == "\\N" {
					continue
				}
				u := copyUnescape(v)
				if !validUTF8(u) || strings.IndexByte(u, 0) >= 0 {
					return 0, pgErr("22021", "invalid byte sequence for encoding \"UTF8\"")
				}
				vals[i] = u
			}
			tup, err := x.buildTuple(t, cols, vals, types, nil)
			if err != nil {
				return 0, err
			}
			if _, err := x.insertTuple(t, tup, nil); err != nil {
				return 0, err
			}
			n++
		}
		for len(x.after) > 0 {
			q := x.after
			x.after = nil
			for _, f := range q {
				if err := f(); err != nil {
					return 0, err
				}
			}
		}
		return n, nil
	})
	if err == errGone {
		return false
	}
	if err != nil {
		s.sendErr(err)
		return true
	}
	s.send('C', append([]byte(tag), 0))
	return true
}

func copyUnescape(v string) string {
	if strings.IndexByte(v, '\\') < 0 {
		return v
	}
	var b strings.Builder
	for i := 0; i < len(v); i++ {
		if v[i] != '\\' || i+1 >= len(v) {
			b.WriteByte(v[i])
			continue
		}
		i++
		switch v[i] {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'v':
			b.WriteByte('\v')
		default:
			b.WriteByte(v[i])
		}
	}
	return b.String()
}

func validUTF8(s string) bool {
	for i, r := range s {
		if r == 0xFFFD {
			if len(s) < i+3 || s[i:i+3] != "\uFFFD" {
				return false
			}
		}
	}
	return true
}

// ---- backdoor for the harness ----

// Do runs statements inside the harness with parameters $1.. (nil, string, or fmt-able). With raw,
// triggers and foreign keys do not run.
func (e *Engine) Do(raw bool, sql string, params ...any) ([]map[string]any, int64, error) {
	s := &session{e: e, app: "harness", noTrig: raw}
	st, texts, err := parseScript(sql)
	if err != nil {
		return nil, 0, err
	}
	var ps []Val
	for _, p := range params {
		switch v := p.(type) {
		case nil:
			ps = append(ps, nil)
		case string:
			ps = append(ps, v)
		case time.Time:
			ps = append(ps, v.UTC().Format("2006-01-02 15:04:05.999999"))
		case bool:
			ps = append(ps, strconv.FormatBool(v))
		default:
			ps = append(ps, fmt.Sprint(v))
		}
	}
	var out []map[string]any
	var n int64
	for i, x := range st {
		e.mu.Lock()
		p, err := e.prepare(texts[i], x)
		if err != nil {
			e.mu.Unlock()
			return nil, 0, err
		}
		rs, _, err := s.execLocked(p, ps, nil)
		if err == nil {
			n += rs.n
			for _, r := range rs.rows {
				m := map[string]any{}
				for j, c := range p.cols {
					m[c.name] = export(r[j], c.t)
				}
				out = append(out, m)
			}
		}
		e.mu.Unlock()
		if err != nil {
			return nil, 0, err
		}
	}
	return out, n, nil
}

// Rows returns the committed rows of a table ("schema.name") in insertion order.
func (e *Engine) Rows(full string) []map[string]any {
	e.mu.Lock()
	defer e.mu.Unlock()
	t := e.tables[full]
	if t == nil {
		return nil
	}
	var out []map[string]any
	for _, r := range t.rows {
		if r.com != nil {
			out = append(out, tupMap(t, r.com))
		}
	}
	return out
}

// Locked calls f with the engine's lock held and the committed rows of the tables: one consistent state.
func (e *Engine) Locked(tables []string, f func(map[string][]map[string]any)) {
	e.mu.Lock()
	defer e.mu.Unlock()
	m := map[string][]map[string]any{}
	for _, n := range tables {
		if t := e.tables[n]; t != nil {
			for _, r := range t.rows {
				if r.com != nil {
					m[n] = append(m[n], tupMap(t, r.com))
				}
			}
		}
	}
	f(m)
}

// Counters returns the engine's counters.
func (e *Engine) Counters() map[string]int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	return map[string]int64{"statements": e.Statements, "commits": e.Commits, "rollbacks": e.Rollbacks, "lock_waits": e.Waits, "deadlocks": e.Deadlocks}
}

// Idle reports whether no transaction is open.
func (e *Engine) Idle() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, s := range e.sessions {
		if s.tx != nil {
			return false
		}
	}
	return true
}

// Close stops waiting sessions and drops every connection.
func (e *Engine) Close() {
	e.mu.Lock()
	e.closed = true
	for _, s := range e.sessions {
		if s.conn != nil {
			s.conn.Close()
		}
	}
	e.cond.Broadcast()
	e.mu.Unlock()
}

// UnsupportedSQL lists the statements pgfake could not run, for the harness to refuse a verdict on.
func (e *Engine) UnsupportedSQL() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	var out []string
	for k := range e.Unsupported {
		out = append(out, k)
	}
	return out
}
