package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"

	"github.com/giulianopz/go-readability"
)

// links is what one node's links and lists say, in node numbers (0: none, -1: a node nobody knows).
type links struct {
	Up int   `json:"up"`
	Nx int   `json:"nx"`
	Pv int   `json:"pv"`
	Ne int   `json:"ne"`
	Pe int   `json:"pe"`
	Cn []int `json:"cn"`
	Ch []int `json:"ch"`
	Tx []int `json:"tx"`
}

type domArgs struct {
	NE    int               `json:"ne"`
	NT    int               `json:"nt"`
	Views []json.RawMessage `json:"views"` // what the specification says of a state
	Kinds []string          `json:"kinds"`
	Walks []struct {
		Ops [][]json.RawMessage `json:"ops"`
		To  []int               `json:"to"` // the state after each step
	} `json:"walks"`
	Record bool `json:"record"`
}

type forest struct {
	nodes []*readability.Node // from 1
	num   map[*readability.Node]int
	alt   bool
}

func newForest(ne, nt int, parsed bool) *forest {
	f := &forest{nodes: []*readability.Node{nil}, num: map[*readability.Node]int{}}
	for i := 0; i < ne; i++ {
		n := &readability.Node{NodeType: 1, LocalName: "div", TagName: "DIV"}
		if parsed {
			n.SetInnerHTML("<div></div>")
			c := n.ChildNodes[0]
			n.RemoveChild(c)
			n = c
		}
		f.add(n)
	}
	for i := 0; i < nt; i++ {
		n := &readability.Node{NodeType: 3}
		f.add(n)
		n.SetTextContent(f.word(f.num[n]))
	}
	return f
}

func (f *forest) word(i int) string { return fmt.Sprintf("(%d)", i) }

func (f *forest) add(n *readability.Node) {
	f.nodes = append(f.nodes, n)
	f.num[n] = len(f.nodes) - 1
}

func (f *forest) id(n *readability.Node) int {
	if n == nil {
		return 0
	}
	if i, ok := f.num[n]; ok {
		return i
	}
	return -1
}

func (f *forest) ids(ns []*readability.Node) []int {
	r := make([]int, 0, len(ns))
	for _, n := range ns {
		r = append(r, f.id(n))
	}
	return r
}

func (f *forest) view(total int) []links {
	r := make([]links, total)
	for i := range r {
		if i+1 >= len(f.nodes) {
			r[i] = links{Cn: []int{}, Ch: []int{}, Tx: []int{}}
			continue
		}
		n := f.nodes[i+1]
		l := links{Up: f.id(n.ParentNode), Nx: f.id(n.NextSibling), Pv: f.id(n.PreviousSibling),
			Ne: f.id(n.NextElementSibling), Pe: f.id(n.PreviousElementSibling), Cn: f.ids(n.ChildNodes), Ch: f.ids(n.Children), Tx: []int{}}
		if n.NodeType == 1 {
			l.Tx = words(n.GetTextContent())
			// the end points of the lists
			if len(l.Cn) > 0 && (f.id(n.FirstChild()) != l.Cn[0] || f.id(n.LastChild()) != l.Cn[len(l.Cn)-1]) || len(l.Cn) == 0 && (n.FirstChild() != nil || n.LastChild() != nil) ||
				len(l.Ch) > 0 && f.id(n.FirstElementChild()) != l.Ch[0] || len(l.Ch) == 0 && n.FirstElementChild() != nil {
				l.Up = -2
			}
		}
		r[i] = l
	}
	return r
}

func words(s string) []int {
	r := []int{}
	for s != "" {
		i := strings.IndexByte(s, ')')
		var v int
		if i < 0 {
			return append(r, -1)
		}
		if _, err := fmt.Sscanf(s[:i+1], "(%d)", &v); err != nil {
			v = -1
		}
		r = append(r, v)
		s = s[i+1:]
	}
	return r
}

func num(m json.RawMessage) int {
	var i int
	if err := json.Unmarshal(m, &i); err != nil {
		panic(err)
	}
	return i
}

// step performs one edit; it returns a complaint if the outcome of the call itself is wrong.
func (f *forest) step(op []json.RawMessage) string {
	var name string
	if err := json.Unmarshal(op[0], &name); err != nil {
		panic(err)
	}
	switch name {
	case "append":
		f.nodes[num(op[1])].AppendChild(f.nodes[num(op[2])])
	case "remove", "remove!":
		c := f.nodes[num(op[2])]
		r, err := f.nodes[num(op[1])].RemoveChild(c)
		if name == "remove" && (err != nil || r != c) {
			return "removing a child failed"
		}
		if name == "remove!" && err == nil {
			return "removing a node that is no child succeeded"
		}
	case "replace":
		o := f.nodes[num(op[3])]
		if f.nodes[num(op[1])].ReplaceChild(f.nodes[num(op[2])], o) != o {
			return "replacing did not return the old child"
		}
	case "text":
		e := f.nodes[num(op[1])]
		e.SetTextContent(f.word(len(f.nodes)))
		f.adopt(e)
	case "markup":
		var m []string
		if err := json.Unmarshal(op[2], &m); err != nil {
			panic(err)
		}
		e := f.nodes[num(op[1])]
		s, k := "", len(f.nodes)
		for _, x := range m {
			switch x {
			case "t":
				s += f.word(k)
				k++
			case "e":
				s += "<b></b>"
				k++
			case "(et)":
				s += "<i>" + f.word(k+1) + "</i>"
				k += 2
			}
		}
		e.SetInnerHTML(s)
		f.adopt(e)
	default:
		panic("unknown edit " + name)
	}
	return ""
}

// adopt numbers the nodes that came into being.
func (f *forest) adopt(n *readability.Node) {
	for _, c := range n.ChildNodes {
		if _, known := f.num[c]; !known {
			f.add(c)
		}
		f.adopt(c)
	}
}

func same(a, b links) bool {
	return a.Up == b.Up && a.Nx == b.Nx && a.Pv == b.Pv && a.Ne == b.Ne && a.Pe == b.Pe &&
		slices.Equal(a.Cn, b.Cn) && slices.Equal(a.Ch, b.Ch) && slices.Equal(a.Tx, b.Tx)
}

func init() {
	// replays walks through the state graph of the specification
	handlers["domwalk"] = func(raw json.RawMessage) (map[string]any, error) {
		var a domArgs
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		views := make([][]links, len(a.Views))
		for i := range a.Views {
			if err := json.Unmarshal(a.Views[i], &views[i]); err != nil {
				return nil, err
			}
		}
		steps := 0
		for w, walk := range a.Walks {
			f := newForest(a.NE, a.NT, w%2 == 1)
			for i, op := range walk.Ops {
				bad := ""
				func() {
					defer func() {
						if p := recover(); p != nil {
							bad = fmt.Sprint("panic: ", p)
						}
					}()
					bad = f.step(op)
				}()
				steps++
				want := views[walk.To[i]]
				got := f.view(len(want))
				if len(f.nodes) > len(want)+1 {
					bad = "more nodes than there should be"
				}
				for x := range want {
					if bad == "" && !same(got[x], want[x]) {
						bad = fmt.Sprintf("the links of node %d", x+1)
					}
				}
				if bad != "" {
					return map[string]any{"out": "bad", "what": bad, "ops": walk.Ops[:i+1], "got": got, "want": want, "parsed": w%2 == 1, "steps": steps}, nil
				}
			}
		}
		return map[string]any{"out": "ok", "steps": steps}, nil
	}
	// performs edits and records what the links say after each
	handlers["domrec"] = func(raw json.RawMessage) (map[string]any, error) {
		var a struct {
			NE    int                 `json:"ne"`
			NT    int                 `json:"nt"`
			Total int                 `json:"total"`
			Ops   [][]json.RawMessage `json:"ops"`
		}
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		f := newForest(a.NE, a.NT, true)
		var views [][]links
		for _, op := range a.Ops {
			if bad := f.step(op); bad != "" {
				return map[string]any{"out": "bad", "what": bad, "views": views}, nil
			}
			views = append(views, f.view(a.Total))
		}
		return map[string]any{"out": "ok", "views": views}, nil
	}
	// the links of the article as the serializer sees it
	handlers["domart"] = func(raw json.RawMessage) (map[string]any, error) {
		var a struct {
			HTML string `json:"html"`
			Thr  int    `json:"thr"`
		}
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		var out []links
		var kinds []string
		r, err := readability.New(a.HTML, "http://h.example/", readability.CharThreshold(a.Thr), readability.Serializer(func(n *readability.Node) string {
			f := &forest{nodes: []*readability.Node{nil}, num: map[*readability.Node]int{}}
			f.add(n)
			f.adopt(n)
			out = f.view(len(f.nodes) - 1)
			for i := range out {
				out[i].Tx = []int{}
				if f.nodes[i+1].NodeType == 1 {
					kinds = append(kinds, "e")
				} else {
					kinds = append(kinds, "t")
				}
			}
			return ""
		}))
		if err != nil {
			return map[string]any{"out": "err"}, nil
		}
		if _, err := r.Parse(); err != nil {
			return map[string]any{"out": "err"}, nil
		}
		return map[string]any{"out": "ok", "view": out, "kinds": kinds}, nil
	}
}
