// Command runner replays recorded assignments of harness functions natively.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"verif/harness/sym"
)

type req struct {
	Fn     string      `json:"fn"`
	Tier   int         `json:"tier"`
	Inputs []sym.Input `json:"inputs"`
	Tries  int         `json:"tries"`
}

type res struct {
	Status string      `json:"status"`
	Msg    string      `json:"msg"`
	Obs    [][2]string `json:"obs"`
	Covers []string    `json:"covers"`
}

func one(f func(), q req) (r res) {
	sym.Reset(q.Inputs, q.Tier)
	defer func() {
		r.Obs, r.Covers = sym.Obs, sym.Covers
		switch e := recover().(type) {
		case nil:
			r.Status = "ok"
		case sym.AssumeFailed:
			r.Status = "assume"
		case sym.AssertFailed:
			r.Status, r.Msg = "assert", e.Msg
		case sym.Exhausted:
			r.Status, r.Msg = "diverged", e.Msg
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(e)
			if os.Getenv("VERIF_TRACE") != "" {
				r.Msg += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return
}

func handle(q req) res {
	f, ok := funcs[q.Fn]
	if !ok {
		return res{Status: "error", Msg: "unknown harness function " + q.Fn}
	}
	var r res
	for i := 0; i == 0 || i < q.Tries; i++ {
		r = one(f, q)
		if r.Status == "assert" || r.Status == "panic" {
			return r
		}
	}
	return r
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) > 1 {
		b, err := os.ReadFile(os.Args[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var q req
		if err := json.Unmarshal(b, &q); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		q.Tries = 400
		r := handle(q)
		fmt.Println(r.Status, r.Msg)
		for _, o := range r.Obs {
			fmt.Println("  observed", o[0], "=", o[1])
		}
		if r.Status == "assert" || r.Status == "panic" {
			os.Exit(1)
		}
		return
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		var r res
		if err := json.Unmarshal(l, &q); err != nil {
			r = res{Status: "error", Msg: err.Error()}
		} else {
			r = handle(q)
		}
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		out.Flush()
	}
}
