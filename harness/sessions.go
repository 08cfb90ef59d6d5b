package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// Sess is one use of the library by a caller: an extraction (New, Parse, with
// the caller's serializer and converter in between) or a question whether a
// page is readerable.
type Sess struct {
	Kind  string `json:"kind"` // "extract" or "ask"
	HTML  string `json:"html"`
	URI   string `json:"uri"`
	Opts  Opts   `json:"opts"`
	Ser   string `json:"ser"`   // "" or the name of a serializer
	Conv  string `json:"conv"`  // "" or the name of a converter
	Group int    `json:"group"` // sessions of a group use the same option values
}

type Event struct {
	S   int               `json:"s"`
	Ev  string            `json:"ev"`
	Arg string            `json:"arg"`
	Ret string            `json:"ret"`
	Len int               `json:"len"`
	Oth map[string]string `json:"oth,omitempty"`
}

func serialize(name string, n *readability.Node) string {
	switch name {
	case "same":
		return n.GetInnerHTML()
	case "text":
		return "«" + n.GetTextContent() + "»"
	case "wrap":
		return "<section>é" + n.GetInnerHTML() + "</section>"
	case "short":
		return fmt.Sprint("日本", len(n.GetInnerHTML()))
	case "empty":
		return ""
	}
	return "?"
}

func convert(name, s string) string {
	switch name {
	case "same":
		return s
	case "upper":
		return strings.ToUpper(s)
	case "short":
		return fmt.Sprint("ü", len(s))
	case "empty":
		return ""
	case "twice":
		return s + "\U0001f600" + s
	}
	return "?"
}

func sessionOpts(s Sess) []readability.Option {
	o := s.Opts
	var pres []string
	pres, o.Pres = o.Pres, nil
	l := o.list()
	if pres != nil {
		// room behind the caller's slice: whoever appends to it writes to the caller's array
		p := make([]string, len(pres), len(pres)+8)
		copy(p, pres)
		l = append(l, readability.ClassesToPreserve(p...))
	}
	return l
}

// run carries out one session; gate is called wherever the caller's code has control.
func (s Sess) run(i int, shared []readability.Option, gate func(), emit func(Event)) {
	defer func() {
		if p := recover(); p != nil {
			emit(Event{S: i, Ev: "panic", Arg: fmt.Sprint(p)})
		}
	}()
	opts := append([]readability.Option{}, shared...)
	gate()
	if s.Kind == "ask" {
		asked := false
		opts = append(opts, readability.VisibilityChecker(func(n *html.Node) bool {
			if !asked {
				asked = true
				emit(Event{S: i, Ev: "asked"})
				gate()
			}
			return !nodeHidden(n)
		}))
		v := "no"
		if readability.IsProbablyReaderable(s.HTML, opts...) {
			v = "yes"
		}
		emit(Event{S: i, Ev: "verdict", Ret: v})
		return
	}
	if s.Ser != "" {
		opts = append(opts, readability.Serializer(func(n *readability.Node) string {
			arg := n.GetInnerHTML()
			gate()
			if now := n.GetInnerHTML(); now != arg {
				arg = "changed meanwhile: " + now
			}
			ret := serialize(s.Ser, n)
			emit(Event{S: i, Ev: "ser", Arg: arg, Ret: ret})
			return ret
		}))
	}
	if s.Conv != "" {
		opts = append(opts, readability.Html2Text(func(h string) string {
			gate()
			ret := convert(s.Conv, h)
			emit(Event{S: i, Ev: "conv", Arg: h, Ret: ret})
			return ret
		}))
	}
	r, err := readability.New(s.HTML, s.URI, opts...)
	if err != nil || r == nil {
		emit(Event{S: i, Ev: "rejected"})
		return
	}
	emit(Event{S: i, Ev: "built"})
	gate()
	res, err := r.Parse()
	if err != nil || res == nil {
		emit(Event{S: i, Ev: "failed"})
		return
	}
	emit(Event{S: i, Ev: "result", Arg: res.HTMLContent, Ret: res.TextContent, Len: res.Length, Oth: map[string]string{
		"title": res.Title, "excerpt": res.Excerpt, "byline": res.Byline, "dir": res.Dir, "site": res.SiteName, "lang": res.Lang, "time": res.PublishedTime}})
}

type SessionsArgs struct {
	Sess     []Sess `json:"sess"`
	Schedule []int  `json:"schedule"` // sessions (from 1), one step each; absent: all at once
	Rounds   int    `json:"rounds"`
}

func sharedOpts(ss []Sess) [][]readability.Option {
	out, groups := make([][]readability.Option, len(ss)), map[int][]readability.Option{}
	for i, s := range ss {
		if s.Group > 0 {
			if _, ok := groups[s.Group]; !ok {
				groups[s.Group] = sessionOpts(s)
			}
			out[i] = groups[s.Group]
		} else {
			out[i] = sessionOpts(s)
		}
	}
	return out
}

func init() {
	handlers["sessions"] = func(raw json.RawMessage) (map[string]any, error) {
		var a SessionsArgs
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		if a.Schedule == nil {
			return parallel(a), nil
		}
		var mu sync.Mutex
		events := []Event{}
		emit := func(e Event) {
			mu.Lock()
			events = append(events, e)
			mu.Unlock()
		}
		shared := sharedOpts(a.Sess)
		n := len(a.Sess)
		release, stopped, over := make([]chan struct{}, n), make([]chan bool, n), make([]bool, n)
		for i := range a.Sess {
			release[i], stopped[i] = make(chan struct{}), make(chan bool)
			go func() {
				first := true
				a.Sess[i].run(i+1, shared[i], func() {
					if !first {
						stopped[i] <- false
					}
					first = false
					<-release[i]
				}, emit)
				stopped[i] <- true
			}()
		}
		step := func(i int) bool {
			if over[i] {
				return false
			}
			release[i] <- struct{}{}
			select {
			case over[i] = <-stopped[i]:
			case <-time.After(15 * time.Second):
				emit(Event{S: i + 1, Ev: "stuck"})
				over[i] = true
			}
			return true
		}
		for _, s := range a.Schedule {
			step(s - 1)
		}
		for i := range a.Sess {
			for step(i) {
			}
		}
		return map[string]any{"out": "ok", "events": events}, nil
	}
}

// parallel runs all sessions at once, over and over; nothing but the library synchronises them.
func parallel(a SessionsArgs) map[string]any {
	all := []Event{}
	for round := 0; round < a.Rounds; round++ {
		shared := sharedOpts(a.Sess)
		evs := make([][]Event, len(a.Sess))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range a.Sess {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var mine []Event
				<-start
				a.Sess[i].run(i+1+round*len(a.Sess), shared[i], func() {}, func(e Event) { mine = append(mine, e) })
				evs[i] = mine
			}()
		}
		close(start)
		wg.Wait()
		for _, e := range evs {
			all = append(all, e...)
		}
	}
	return map[string]any{"out": "ok", "events": all}
}
