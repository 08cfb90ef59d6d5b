// Command harness runs the real code on the cases it is given (one JSON object
// per line on standard input) and writes what it observed (one JSON object per
// line on standard output). It uses nothing but the public API.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"runtime/debug"
	"time"
)

type Case struct {
	ID   int             `json:"id"`
	Op   string          `json:"op"`
	Args json.RawMessage `json:"args"`
}

type handler func(json.RawMessage) (map[string]any, error)

var handlers = map[string]handler{}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	debug.SetMaxStack(64 << 20)
	limit := 20 * time.Second
	if s := os.Getenv("HARNESS_CASE_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	emit := func(v any) {
		bs, err := json.Marshal(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness: marshal:", err)
			os.Exit(4)
		}
		out.Write(bs)
		out.WriteByte('\n')
		out.Flush()
	}
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, "harness: bad case:", e)
				os.Exit(4)
			}
			h, ok := handlers[c.Op]
			if !ok {
				fmt.Fprintln(os.Stderr, "harness: unknown op:", c.Op)
				os.Exit(4)
			}
			done := make(chan map[string]any, 1)
			go func() {
				defer func() {
					if p := recover(); p != nil {
						done <- map[string]any{"out": "panic", "msg": fmt.Sprint(p)}
					}
				}()
				obs, e := h(c.Args)
				if e != nil {
					obs = map[string]any{"out": "harness-error", "msg": e.Error()}
				}
				done <- obs
			}()
			select {
			case obs := <-done:
				emit(map[string]any{"id": c.ID, "obs": obs})
			case <-time.After(limit):
				emit(map[string]any{"id": c.ID, "obs": map[string]any{"out": "hang"}})
				os.Exit(3)
			}
		}
		if err != nil {
			break
		}
	}
}
