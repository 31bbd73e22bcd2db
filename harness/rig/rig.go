package rig

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
	"github.com/hibiken/asynq"
)

// Cfg is a nested configuration overlay for blnk.json.
type Cfg map[string]any

// Rig is one isolated deployment: database, redis, and service processes.
type Rig struct {
	Env []string // added to the environment of the processes started

	C     *Check
	Eng   *pgfake.Engine
	PG    string
	MR    *miniredis.Miniredis
	Dir   string
	Procs []*Proc
	HTTP  *http.Client
	Hooks *Hooks
	Cfg   Cfg
	ln    net.Listener
	stop  chan struct{}
	insp  *asynq.Inspector
	nproc int
	Audit *Audit
}

// Proc is one service process.
type Proc struct {
	R    *Rig
	Kind string // start, workers
	Name string
	Port int
	Cmd  *exec.Cmd
	Log  string
	Dir  string
	Env  []string
	Key  string // sent as X-Blnk-Key when set
	dead chan struct{}
	down int32
}

func blnkBin() string {
	if b := os.Getenv("BLNK_BIN"); b != "" {
		return b
	}
	return "/tmp/pgb/blnk"
}

var (
	portMu   sync.Mutex
	portNext = 11000 + (os.Getpid()*97+int(time.Now().UnixNano()/1000))%20000
)

// freePort picks a port below the range outgoing connections are given, so that none takes it before the service binds it.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 5000; i++ {
		portNext++
		if portNext >= 32000 {
			portNext = 11000
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", portNext))
		if err == nil {
			l.Close()
			return portNext
		}
	}
	panic("no free port")
}

func merge(dst, src map[string]any) {
	for k, v := range src {
		if m, ok := asMap(v); ok {
			d, ok := asMap(dst[k])
			if !ok {
				d = map[string]any{}
			}
			merge(d, m)
			dst[k] = d
			continue
		}
		dst[k] = v
	}
}

func asMap(v any) (map[string]any, bool) {
	switch m := v.(type) {
	case map[string]any:
		return m, true
	case Cfg:
		return m, true
	}
	return nil, false
}

var (
	openMu sync.Mutex
	open   = map[*Rig]bool{}
)

// CloseAll tears down every rig still open.
func CloseAll() {
	openMu.Lock()
	var rs []*Rig
	for r := range open {
		rs = append(rs, r)
	}
	openMu.Unlock()
	for _, r := range rs {
		r.Close()
	}
}

// NewEmpty makes a rig without running the migrations.
func NewEmpty(c *Check, cfg Cfg) (*Rig, error) {
	r := &Rig{C: c, Cfg: cfg, stop: make(chan struct{})}
	var err error
	if r.Dir, err = os.MkdirTemp("", "vxrig"); err != nil {
		return nil, err
	}
	r.Eng = pgfake.NewEngine()
	if r.ln, r.PG, err = r.Eng.Listen(); err != nil {
		return nil, err
	}
	r.MR = miniredis.NewMiniRedis()
	if err := r.MR.Start(); err != nil {
		return nil, err
	}
	go func() {
		last := time.Now()
		t := time.NewTicker(50 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-r.stop:
				return
			case <-t.C:
				n := time.Now()
				r.MR.FastForward(n.Sub(last))
				last = n
			}
		}
	}()
	r.HTTP = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 128, MaxConnsPerHost: 0}}
	r.Hooks = newHooks()
	r.insp = asynq.NewInspector(asynq.RedisClientOpt{Addr: r.MR.Addr()})
	openMu.Lock()
	open[r] = true
	openMu.Unlock()
	return r, nil
}

// New makes a migrated rig.
func New(c *Check, cfg Cfg) (*Rig, error) {
	r, err := NewEmpty(c, cfg)
	if err != nil {
		return nil, err
	}
	if out, err := r.Run("migrate", "migrate", "up"); err != nil {
		r.Close()
		return nil, fmt.Errorf("migrate: %v: %s", err, tailStr(out, 600))
	}
	r.Audit = NewAudit(r)
	return r, nil
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// DSN for an application name.
func (r *Rig) DSN(app string) string {
	return fmt.Sprintf("postgres://u:p@%s/blnk?sslmode=disable&application_name=%s", r.PG, app)
}

func (r *Rig) config(name string, port, mon int) map[string]any {
	m := map[string]any{
		"project_name":        "verif",
		"data_source":         map[string]any{"dns": r.DSN(name), "max_open_conns": 40, "max_idle_conns": 20},
		"redis":               map[string]any{"dns": r.MR.Addr()},
		"server":              map[string]any{"port": fmt.Sprint(port)},
		"queue":               map[string]any{"monitoring_port": fmt.Sprint(mon), "number_of_queues": 4},
		"backup_dir":          filepath.Join(r.Dir, "backup"),
		"tokenization_secret": "0123456789abcdef0123456789abcdef",
		"notification":        map[string]any{"webhook": map[string]any{"url": r.Hooks.URL}},
	}
	merge(m, r.Cfg)
	return m
}

func (r *Rig) workdir(name string, port, mon int, over Cfg) (string, error) {
	d := filepath.Join(r.Dir, name)
	if err := os.MkdirAll(filepath.Join(d, "tmp"), 0o755); err != nil {
		return "", err
	}
	m := r.config(name, port, mon)
	merge(m, over)
	b, _ := json.Marshal(m)
	return d, os.WriteFile(filepath.Join(d, "blnk.json"), b, 0o644)
}

func cleanEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "BLNK_") || strings.HasPrefix(e, "OTEL_") || strings.HasPrefix(e, "GOMAXPROCS") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "TZ=UTC", "GIN_MODE=release", "GORACE=halt_on_error=0")
}

// Run runs a one-shot command of the service.
func (r *Rig) Run(name string, args ...string) (string, error) {
	d, err := r.workdir(name, freePort(), freePort(), nil)
	if err != nil {
		return "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, blnkBin(), args...)
	cmd.Dir = d
	cmd.Env = append(cleanEnv(), "TMPDIR="+filepath.Join(d, "tmp"))
	b, err := cmd.CombinedOutput()
	return string(b), err
}

// Start starts a service process ("start" or "workers") and waits until it is ready.
func (r *Rig) Start(kind string, over Cfg) (*Proc, error) {
	var last error
	for try := 0; try < 3; try++ {
		p, err := r.start1(kind, over)
		if err == nil {
			if m, ok := asMap(r.Cfg["server"]); ok {
				p.Key, _ = m["secret_key"].(string)
			}
			return p, nil
		}
		last = err
	}
	return nil, last
}

func (r *Rig) start1(kind string, over Cfg) (*Proc, error) {
	r.nproc++
	p := &Proc{R: r, Kind: kind, Name: fmt.Sprintf("%s%d", kind, r.nproc), Port: freePort(), dead: make(chan struct{})}
	mon := freePort()
	d, err := r.workdir(p.Name, p.Port, mon, over)
	if err != nil {
		return nil, err
	}
	p.Dir = d
	p.Log = filepath.Join(d, "log")
	lf, err := os.Create(p.Log)
	if err != nil {
		return nil, err
	}
	p.Cmd = exec.Command(blnkBin(), kind)
	p.Cmd.Dir = d
	p.Cmd.Env = append(append(cleanEnv(), "TMPDIR="+filepath.Join(d, "tmp")), r.Env...)
	p.Cmd.Stdout, p.Cmd.Stderr = lf, lf
	p.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.Cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.Cmd.Wait()
		lf.Close()
		atomic.StoreInt32(&p.down, 1)
		close(p.dead)
	}()
	r.Procs = append(r.Procs, p)
	probe := fmt.Sprintf("http://127.0.0.1:%d/health", p.Port)
	if kind == "workers" {
		probe = fmt.Sprintf("http://127.0.0.1:%d/", mon)
	}
	end := time.Now().Add(40 * time.Second)
	for time.Now().Before(end) {
		if p.Dead() {
			return nil, fmt.Errorf("%s exited: %s", kind, tailStr(p.LogText(), 800))
		}
		resp, err := r.HTTP.Get(probe)
		if err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			time.Sleep(5 * time.Millisecond)
			if p.Dead() { // someone else answered
				continue
			}
			return p, nil
		}
		time.Sleep(25 * time.Millisecond)
	}
	return nil, fmt.Errorf("%s did not become ready: %s", kind, tailStr(p.LogText(), 800))
}

// Dead reports whether the process ended.
func (p *Proc) Dead() bool { return atomic.LoadInt32(&p.down) != 0 }

// LogText reads the process's output.
func (p *Proc) LogText() string {
	b, _ := os.ReadFile(p.Log)
	return string(b)
}

// Kill ends the process at once, as a crash does.
func (p *Proc) Kill() {
	if p.Cmd.Process != nil {
		p.Cmd.Process.Kill()
	}
	<-p.dead
}

// Stop ends the process with SIGTERM.
func (p *Proc) Stop(d time.Duration) bool {
	if p.Dead() {
		return true
	}
	p.Cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-p.dead:
		return true
	case <-time.After(d):
		p.Kill()
		return false
	}
}

// Close tears everything down.
func (r *Rig) Close() {
	openMu.Lock()
	was := open[r]
	delete(open, r)
	openMu.Unlock()
	if !was {
		return
	}
	for _, p := range r.Procs {
		if !p.Dead() {
			p.Cmd.Process.Kill()
			<-p.dead
		}
	}
	close(r.stop)
	r.insp.Close()
	r.ln.Close()
	r.Eng.Close()
	r.MR.Close()
	r.Hooks.close()
	if u := r.Eng.UnsupportedSQL(); len(u) > 0 && r.C != nil {
		for i, s := range u {
			if i < 3 {
				r.C.Broken("database look-alike: %s", cut(oneLine(s), 300))
			}
		}
	}
	if os.Getenv("VX_KEEP") == "" && strings.HasPrefix(r.Dir, os.TempDir()) {
		os.RemoveAll(r.Dir)
	}
}

// Resp is an HTTP answer.
type Resp struct {
	Code int
	Raw  []byte
	J    map[string]any
	L    []any
	H    http.Header
	Err  error
}

// S returns a string field.
func (x *Resp) S(k string) string {
	s, _ := x.J[k].(string)
	return s
}

// OK reports a 2xx answer.
func (x *Resp) OK() bool { return x.Err == nil && x.Code >= 200 && x.Code < 300 }

func (x *Resp) String() string {
	if x.Err != nil {
		return "error: " + x.Err.Error()
	}
	return fmt.Sprintf("%d %s", x.Code, cut(string(x.Raw), 400))
}

// ErrCode is error_detail.code.
func (x *Resp) ErrCode() string {
	if m, ok := x.J["error_detail"].(map[string]any); ok {
		s, _ := m["code"].(string)
		return s
	}
	return ""
}

// Do sends a JSON request to a process.
func (p *Proc) Do(method, path string, body any, hdr ...string) *Resp {
	var rd io.Reader
	if body != nil {
		switch b := body.(type) {
		case string:
			rd = strings.NewReader(b)
		case []byte:
			rd = bytes.NewReader(b)
		default:
			j, err := json.Marshal(b)
			if err != nil {
				return &Resp{Err: err}
			}
			rd = bytes.NewReader(j)
		}
	}
	req, err := http.NewRequest(method, fmt.Sprintf("http://127.0.0.1:%d%s", p.Port, path), rd)
	if err != nil {
		return &Resp{Err: err}
	}
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	if p.Key != "" {
		req.Header.Set("X-Blnk-Key", p.Key)
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	resp, err := p.R.HTTP.Do(req)
	if err != nil {
		return &Resp{Err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	x := &Resp{Code: resp.StatusCode, Raw: b, H: resp.Header, Err: err}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if d.Decode(&v) == nil {
		switch t := v.(type) {
		case map[string]any:
			x.J = t
		case []any:
			x.L = t
		}
	}
	return x
}

// M is shorthand for a JSON object.
type M = map[string]any

// Ledger makes a ledger.
func (p *Proc) Ledger(name string) string {
	return p.Do("POST", "/ledgers", M{"name": name}).S("ledger_id")
}

// Balance makes a balance.
func (p *Proc) Balance(ledger, cur string, extra ...M) string {
	b := M{"ledger_id": ledger, "currency": cur}
	for _, e := range extra {
		for k, v := range e {
			b[k] = v
		}
	}
	return p.Do("POST", "/balances", b).S("balance_id")
}

var refSeq int64

// Ref makes a fresh reference.
func Ref(prefix string) string { return fmt.Sprintf("%s-%d", prefix, atomic.AddInt64(&refSeq, 1)) }

// Txn posts a transaction.
func (p *Proc) Txn(m M, hdr ...string) *Resp {
	b := M{"currency": "USD", "precision": 100, "description": "d"}
	for k, v := range m {
		b[k] = v
	}
	if _, ok := b["reference"]; !ok {
		b["reference"] = Ref("ref")
	}
	return p.Do("POST", "/transactions", b, hdr...)
}

// Queues summarises the task queues.
func (r *Rig) Queues() (pending, active, retry, scheduled, archived int) {
	qs, err := r.insp.Queues()
	if err != nil {
		return
	}
	for _, q := range qs {
		i, err := r.insp.GetQueueInfo(q)
		if err != nil {
			continue
		}
		pending += i.Pending
		active += i.Active
		retry += i.Retry
		scheduled += i.Scheduled
		archived += i.Archived
	}
	return
}

// Inspector gives access to the task queues.
func (r *Rig) Inspector() *asynq.Inspector { return r.insp }

// RunRetries makes every task waiting for a retry (and, with sched, every scheduled task) run now.
func (r *Rig) RunRetries(sched bool) int {
	qs, _ := r.insp.Queues()
	n := 0
	for _, q := range qs {
		if k, err := r.insp.RunAllRetryTasks(q); err == nil {
			n += k
		}
		if sched {
			if k, err := r.insp.RunAllScheduledTasks(q); err == nil {
				n += k
			}
		}
	}
	return n
}

// queueText names the queues and tasks that are not done.
func (r *Rig) queueText() string {
	var out []string
	qs, _ := r.insp.Queues()
	for _, q := range qs {
		k := "asynq:{" + q + "}:"
		for _, l := range []string{"pending", "active"} {
			ids, _ := r.MR.List(k + l)
			for _, id := range ids {
				sc, err := r.MR.ZScore(k+"lease", id)
				out = append(out, fmt.Sprintf("%s %s %s lease %d (%v) state %s", q, l, id, int64(sc)-time.Now().Unix(), err, r.MR.HGet(k+"t:"+id, "state")))
			}
		}
	}
	return tailStr(strings.Join(out, "; "), 600)
}

// ReclaimOrphans hands the tasks of killed workers out again at once and releases their locks, as happens when their leases end. No worker may be running.
func (r *Rig) ReclaimOrphans() int {
	time.Sleep(300 * time.Millisecond) // commands the killed processes had already sent
	n := 0
	qs, _ := r.insp.Queues()
	for _, q := range qs {
		k := "asynq:{" + q + "}:"
		ids, err := r.MR.List(k + "active")
		if err != nil {
			continue
		}
		for _, id := range ids {
			r.MR.ZRem(k+"lease", id)
			r.MR.HSet(k+"t:"+id, "state", "pending")
			r.MR.RPush(k+"pending", id)
			n++
		}
		r.MR.Del(k + "active")
	}
	for _, k := range r.MR.Keys() { // and what else lapses within minutes: the locks they held
		if t := r.MR.TTL(k); t > 0 && t <= 5*time.Minute && !strings.HasPrefix(k, "asynq") {
			r.MR.Del(k)
		}
	}
	return n
}

// Drain waits until no task is pending, active or waiting for a retry (retries run at once).
func (r *Rig) Drain(d time.Duration, sched bool) error {
	end := time.Now().Add(d)
	last := end.Add(2 * d) // as long as the queues get shorter
	least := 1 << 30
	calm := 0
	for time.Now().Before(end) {
		p, a, rt, sc, _ := r.Queues()
		if p+a+rt < least {
			least = p + a + rt
			if t := time.Now().Add(15 * time.Second); t.After(end) && t.Before(last) {
				end = t
			}
		}
		if rt > 0 || (sched && sc > 0) {
			r.RunRetries(sched)
		}
		if p+a+rt == 0 && (!sched || sc == 0) && r.Eng.Idle() {
			calm++
			if calm >= 4 {
				return nil
			}
		} else {
			calm = 0
		}
		time.Sleep(40 * time.Millisecond)
	}
	p, a, rt, sc, _ := r.Queues()
	return fmt.Errorf("queues did not drain (%s): pending=%d active=%d retry=%d scheduled=%d", r.queueText(), p, a, rt, sc)
}

// Eventually polls f.
func Eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(25 * time.Millisecond)
	}
}

// Races returns data race reports found in the processes' logs.
func (r *Rig) Races() []string {
	var out []string
	for _, p := range r.Procs {
		t := p.LogText()
		for {
			i := strings.Index(t, "WARNING: DATA RACE")
			if i < 0 {
				break
			}
			t = t[i:]
			e := strings.Index(t[18:], "==================")
			if e < 0 {
				e = len(t) - 18
			}
			out = append(out, t[:18+e])
			t = t[18+e:]
		}
	}
	return out
}

// Crashes returns processes that ended by themselves and panics that reached a log.
func (r *Rig) Crashes() []string {
	var out []string
	for _, p := range r.Procs {
		t := p.LogText()
		for _, pat := range []string{"\npanic: ", "fatal error: ", "[Recovery]", "panic recovered"} {
			if i := strings.Index(t, pat); i >= 0 {
				out = append(out, p.Name+": "+cut(t[i:], 1500))
				break
			}
		}
	}
	return out
}

// Hooks receives webhooks.
type Hooks struct {
	URL string
	mu  sync.Mutex
	Got []Hook
	srv *http.Server
	// Respond, when set, picks the status of an answer; 0 and less cut the connection.
	Respond func(h *Hook) int
}

// Hook is one delivery.
type Hook struct {
	At     time.Time
	Path   string
	Header http.Header
	Body   []byte
	J      map[string]any
	Status int
	Answer []byte // the answer's body, set by the responder
}

func newHooks() *Hooks {
	h := &Hooks{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	h.URL = "http://" + l.Addr().String() + "/hook"
	h.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		k := Hook{At: time.Now(), Path: q.URL.String(), Header: q.Header.Clone(), Body: b, Status: 200}
		json.Unmarshal(b, &k.J)
		h.mu.Lock()
		f := h.Respond
		h.mu.Unlock()
		if f != nil {
			k.Status = f(&k)
		}
		h.mu.Lock()
		h.Got = append(h.Got, k)
		h.mu.Unlock()
		if k.Status <= 0 { // cut the connection: without an answer, or in the middle of one
			if hj, ok := w.(http.Hijacker); ok {
				if c, _, err := hj.Hijack(); err == nil {
					if k.Status < 0 {
						c.Write([]byte("HTTP/1.1 2"))
					}
					c.Close()
				}
			}
			return
		}
		w.WriteHeader(k.Status)
		w.Write(k.Answer)
	})}
	go h.srv.Serve(l)
	return h
}

func (h *Hooks) close() { h.srv.Close() }

// SetRespond installs the response picker.
func (h *Hooks) SetRespond(f func(*Hook) int) {
	h.mu.Lock()
	h.Respond = f
	h.mu.Unlock()
}

// All returns a copy of the deliveries.
func (h *Hooks) All() []Hook {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]Hook{}, h.Got...)
}

// Base is the receiver's URL with another path.
func (h *Hooks) Base(path string) string {
	u, _ := url.Parse(h.URL)
	u.Path = path
	return u.String()
}

var errTimeout = errors.New("timeout")

// ConfigFile writes a configuration for code that the harness runs itself.
func (r *Rig) ConfigFile(name string, over Cfg) (string, error) {
	d, err := r.workdir(name, freePort(), freePort(), over)
	return filepath.Join(d, "blnk.json"), err
}
