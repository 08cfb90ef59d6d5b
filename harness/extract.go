package main

import (
	"encoding/json"
	"math/rand"
	"regexp"
	"strings"

	"github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

// Opts are the options of a reader; absent ones are not passed.
type Opts struct {
	Thr   *int     `json:"thr,omitempty"`
	NTop  *int     `json:"ntop,omitempty"`
	Max   *int     `json:"max,omitempty"`
	Keep  *bool    `json:"keep,omitempty"`
	Pres  []string `json:"pres,omitempty"`
	Vid   *string  `json:"vid,omitempty"` // regexp; "" means nil
	NoLD  *bool    `json:"nold,omitempty"`
	MinLn *int     `json:"minlen,omitempty"`
	MinSc *float64 `json:"minscore,omitempty"`
	Mix   int64    `json:"mix,omitempty"` // not 0: in any order, after others that are overridden, the classes in several parts
}

// mixed is the same options, given in another way: the last one of a kind counts, classes add up.
func (o Opts) mixed() []readability.Option {
	r := rand.New(rand.NewSource(o.Mix))
	var decoys, l []readability.Option
	if o.Thr != nil {
		decoys = append(decoys, readability.CharThreshold(r.Intn(1000)))
	}
	if o.NTop != nil {
		decoys = append(decoys, readability.NTopCandidates(1+r.Intn(9)))
	}
	if o.Max != nil {
		decoys = append(decoys, readability.MaxElemsToParse(r.Intn(10)))
	}
	if o.Keep != nil {
		decoys = append(decoys, readability.KeepClasses(!*o.Keep))
	}
	if o.Vid != nil {
		decoys = append(decoys, readability.AllowedVideoRegex(regexp.MustCompile("x")))
	}
	if o.NoLD != nil {
		decoys = append(decoys, readability.DisableJSONLD(!*o.NoLD))
	}
	if o.MinLn != nil {
		decoys = append(decoys, readability.MinContentLength(r.Intn(300)))
	}
	if o.MinSc != nil {
		decoys = append(decoys, readability.MinScore(float64(r.Intn(50))))
	}
	pres := o.Pres
	o.Pres, o.Mix = nil, 0
	l = o.list()
	if pres != nil && r.Intn(4) == 0 {
		l = append(l, readability.ClassesToPreserve())
	}
	for len(pres) > 0 {
		n := 1 + r.Intn(len(pres))
		l = append(l, readability.ClassesToPreserve(append([]string{}, pres[:n]...)...))
		pres = pres[n:]
	}
	r.Shuffle(len(decoys), func(i, j int) { decoys[i], decoys[j] = decoys[j], decoys[i] })
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return append(decoys[:r.Intn(len(decoys)+1)], l...)
}

func (o Opts) list() []readability.Option {
	if o.Mix != 0 {
		return o.mixed()
	}
	var l []readability.Option
	if o.Thr != nil {
		l = append(l, readability.CharThreshold(*o.Thr))
	}
	if o.NTop != nil {
		l = append(l, readability.NTopCandidates(*o.NTop))
	}
	if o.Max != nil {
		l = append(l, readability.MaxElemsToParse(*o.Max))
	}
	if o.Keep != nil {
		l = append(l, readability.KeepClasses(*o.Keep))
	}
	if o.Pres != nil {
		l = append(l, readability.ClassesToPreserve(o.Pres...))
	}
	if o.Vid != nil {
		if *o.Vid == "" {
			l = append(l, readability.AllowedVideoRegex(nil))
		} else {
			l = append(l, readability.AllowedVideoRegex(regexp.MustCompile(*o.Vid)))
		}
	}
	if o.NoLD != nil {
		l = append(l, readability.DisableJSONLD(*o.NoLD))
	}
	if o.MinLn != nil {
		l = append(l, readability.MinContentLength(*o.MinLn))
	}
	if o.MinSc != nil {
		l = append(l, readability.MinScore(*o.MinSc))
	}
	return l
}

type ExtractArgs struct {
	HTML string `json:"html"`
	URI  string `json:"uri"`
	Opts Opts   `json:"opts"`
}

func fields(res *readability.Result) map[string]any {
	return map[string]any{
		"title": res.Title, "html": res.HTMLContent, "text": res.TextContent, "len": res.Length,
		"excerpt": res.Excerpt, "byline": res.Byline, "dir": res.Dir, "site": res.SiteName,
		"lang": res.Lang, "time": res.PublishedTime,
	}
}

func observe(htmlSrc, uri string, opts []readability.Option) (map[string]any, *readability.Result) {
	r, err := readability.New(htmlSrc, uri, opts...)
	if err != nil {
		if r != nil {
			return map[string]any{"out": "both"}, nil
		}
		return map[string]any{"out": "rejected", "msg": err.Error()}, nil
	}
	if r == nil {
		return map[string]any{"out": "neither"}, nil
	}
	res, err := r.Parse()
	if err != nil {
		if res != nil {
			return map[string]any{"out": "both"}, nil
		}
		return map[string]any{"out": "err", "msg": err.Error()}, nil
	}
	if res == nil {
		return map[string]any{"out": "neither"}, nil
	}
	m := fields(res)
	m["out"] = "ok"
	m["tree"] = flatten(res.HTMLContent)
	return m, res
}

// flatten reads serialized markup: [depth, tag, [[name, value]...], text] in
// document order.
func flatten(src string) [][]any {
	z := html.NewTokenizer(strings.NewReader(src))
	items := [][]any{}
	var open []string
	bad := func(what string) { items = append(items, []any{len(open) + 1, "!" + what, [][]string{}, ""}) }
	for {
		tt := z.Next()
		switch tt {
		case html.ErrorToken:
			if len(open) != 0 {
				bad("unclosed")
			}
			return items
		case html.TextToken:
			items = append(items, []any{len(open) + 1, "", [][]string{}, html.UnescapeString(string(z.Raw()))})
		case html.StartTagToken, html.SelfClosingTagToken:
			t := z.Token()
			attrs := [][]string{}
			for _, a := range t.Attr {
				attrs = append(attrs, []string{a.Key, a.Val})
			}
			items = append(items, []any{len(open) + 1, t.Data, attrs, ""})
			if tt == html.StartTagToken {
				open = append(open, t.Data)
				z.NextIsNotRawText()
			}
		case html.EndTagToken:
			t := z.Token()
			if len(open) == 0 || open[len(open)-1] != t.Data {
				bad("end " + t.Data)
			} else {
				open = open[:len(open)-1]
			}
		default:
			bad("token")
		}
	}
}

func init() {
	handlers["extract"] = func(raw json.RawMessage) (map[string]any, error) {
		var a ExtractArgs
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		m, _ := observe(a.HTML, a.URI, a.Opts.list())
		return m, nil
	}
}
