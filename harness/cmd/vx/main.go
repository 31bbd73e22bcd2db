// Command vx runs one property's monitors against the real service processes.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"github.com/blnkfinance/blnk/internal/verifx/rig"
)

var checks = map[string]func(*rig.Check){}

func main() {
	if len(os.Args) < 2 {
		ids := []string{}
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		os.Exit(2)
	}
	id := os.Args[1]
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		os.Exit(2)
	}
	c := rig.NewCheck(id)
	lim := 400 * time.Second
	if c.Thorough() {
		lim = 3 * time.Hour
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				c.Broken("panic: %v\n%s", r, debug.Stack())
			}
		}()
		f(c)
	}()
	select {
	case <-done:
	case <-time.After(lim):
		c.Broken("time limit")
	}
	rig.CloseAll()
	os.Exit(c.Finish())
}
