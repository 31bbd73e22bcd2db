// pgserve runs the look-alike database and redis for interactive use.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"syscall"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/blnkfinance/blnk/internal/verifx/pgfake"
)

func main() {
	e := pgfake.NewEngine()
	_, addr, err := e.Listen()
	if err != nil {
		panic(err)
	}
	m := miniredis.NewMiniRedis()
	if err := m.Start(); err != nil {
		panic(err)
	}
	go func() {
		for range time.Tick(100 * time.Millisecond) {
			m.FastForward(100 * time.Millisecond)
		}
	}()
	if os.Getenv("PGTRACE") != "" {
		e.SetHook(func(s *pgfake.StmtInfo) *pgfake.Action {
			fmt.Fprintf(os.Stderr, "%d conn=%d tx=%d %s %s\n", s.Seq, s.ConnID, s.TxID, s.Kind, s.SQL)
			return nil
		})
	}
	fmt.Printf("PG=%s\nREDIS=%s\n", addr, m.Addr())
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGUSR1, syscall.SIGINT, syscall.SIGTERM)
	for s := range c {
		for _, u := range e.UnsupportedSQL() {
			fmt.Fprintln(os.Stderr, "UNSUPPORTED", u)
		}
		if s != syscall.SIGUSR1 {
			return
		}
	}
}
