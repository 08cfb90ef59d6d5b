package main

import (
	"encoding/json"
	"strings"

	"github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

type ReaderableArgs struct {
	HTML   string    `json:"html"`
	MinLen []int     `json:"minlen"`
	Scores []float64 `json:"minscore"`
	Vis    string    `json:"vis"`
	Opts   Opts      `json:"opts"`
}

func nodeAttr(n *html.Node, name string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == name {
			return a.Val, true
		}
	}
	return "", false
}

func nodeHidden(n *html.Node) bool {
	if _, ok := nodeAttr(n, "hidden"); ok {
		return true
	}
	s, _ := nodeAttr(n, "style")
	for _, p := range []string{"display:none", "visibility:hidden"} {
		name, val, _ := strings.Cut(p, ":")
		for _, d := range strings.Split(s, ";") {
			k, v, _ := strings.Cut(d, ":")
			if strings.TrimSpace(k) == name {
				if strings.TrimSpace(v) == val {
					return true
				}
				break
			}
		}
	}
	a, _ := nodeAttr(n, "aria-hidden")
	c, _ := nodeAttr(n, "class")
	return a == "true" && !strings.Contains(c, "fallback-image")
}

func init() {
	handlers["readerable"] = func(raw json.RawMessage) (map[string]any, error) {
		var a ReaderableArgs
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		opts := a.Opts.list()
		// of an option given more than once the last counts
		for _, n := range a.MinLen {
			opts = append(opts, readability.MinContentLength(n))
		}
		for _, s := range a.Scores {
			opts = append(opts, readability.MinScore(s))
		}
		switch a.Vis {
		case "all":
			opts = append(opts, readability.VisibilityChecker(func(*html.Node) bool { return true }))
		case "none":
			opts = append(opts, readability.VisibilityChecker(func(*html.Node) bool { return false }))
		case "not":
			opts = append(opts, readability.VisibilityChecker(nodeHidden))
		case "attr":
			opts = append(opts, readability.VisibilityChecker(func(n *html.Node) bool { v, _ := nodeAttr(n, "data-v"); return v != "no" }))
		}
		out := "no"
		if readability.IsProbablyReaderable(a.HTML, opts...) {
			out = "yes"
		}
		return map[string]any{"out": out}, nil
	}
}
