package main

import (
	"encoding/json"
	"fmt"

	"github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

type nodeView struct {
	List [][2]string `json:"list"`
	Get  [][]any     `json:"get"`
	Text string      `json:"text"`
}

// attrsOf compares what an element says of its attributes, and how they are written, with the view.
func attrsOf(h, n *readability.Node, v nodeView) string {
	if n.GetAttributeLen() != len(v.List) {
		return fmt.Sprintf("%d attributes", n.GetAttributeLen())
	}
	for _, g := range v.Get {
		name, has, val := g[0].(string), g[1].(bool), g[2].(string)
		if n.HasAttribute(name) != has {
			return "having " + name
		}
		if n.GetAttribute(name) != val {
			return "the value of " + name
		}
		switch name {
		case "id":
			if n.GetId() != val {
				return "the identifier"
			}
		case "class":
			if n.GetClassName() != val {
				return "the class"
			}
		case "src":
			if n.GetSrc() != val {
				return "the source"
			}
		case "srcset":
			if n.GetSrcset() != val {
				return "the source set"
			}
		}
	}
	got := flatten(h.GetInnerHTML())
	if len(got) == 0 {
		return "how it is written"
	}
	list := got[0][2].([][]string)
	if len(list) != len(v.List) {
		return "how it is written"
	}
	for i := range list {
		if list[i][0] != v.List[i][0] || list[i][1] != v.List[i][1] {
			return "how its attributes are written"
		}
	}
	return ""
}

func init() {
	handlers["nodewalk"] = func(raw json.RawMessage) (map[string]any, error) {
		var a struct {
			Mode  string     `json:"mode"`
			Ops   [][]string `json:"ops"`
			Views []nodeView `json:"views"`
		}
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		h := holder()
		var n *readability.Node
		if a.Mode == "attrs" {
			n = element("p")
		} else {
			n = &readability.Node{NodeType: 3}
		}
		h.AppendChild(n)
		for i, op := range a.Ops {
			bad := ""
			switch op[0] {
			case "set":
				n.SetAttribute(op[1], op[2])
			case "class":
				n.SetClassName(op[1])
			case "id":
				n.SetId(op[1])
			case "drop":
				n.RemoveAttribute(op[1])
			case "text":
				n.SetTextContent(op[1])
			case "markup":
				n.SetInnerHTML(op[1])
			case "asktext":
				// directly or through the element it is in
				got := n.GetTextContent()
				if i%2 == 0 {
					got = h.GetTextContent()
				}
				if got != op[1] {
					bad = fmt.Sprintf("the text is %q", got)
				}
			case "askmarkup":
				got := n.GetInnerHTML()
				if i%2 == 0 {
					got = h.GetInnerHTML()
				}
				if op[1] != "" && got != op[1] || html.UnescapeString(got) != op[2] {
					bad = fmt.Sprintf("the markup is %q", got)
				}
			default:
				return nil, fmt.Errorf("unknown step %s", op[0])
			}
			if bad == "" && a.Mode == "attrs" {
				bad = attrsOf(h, n, a.Views[i])
			}
			if bad != "" {
				return map[string]any{"out": "bad", "what": bad, "at": i}, nil
			}
		}
		return map[string]any{"out": "ok"}, nil
	}
	handlers["lookup"] = func(raw json.RawMessage) (map[string]any, error) {
		var a struct {
			Tree [][]json.RawMessage `json:"tree"`
			From int                 `json:"from"`
			ID   string              `json:"id"`
		}
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		nodes := []*readability.Node{nil}
		path := []*readability.Node{nil}
		for _, t := range a.Tree {
			d, id := num(t[0]), ""
			if err := json.Unmarshal(t[1], &id); err != nil {
				return nil, err
			}
			n := element("div")
			if id != "" {
				n.SetId(id)
			}
			nodes = append(nodes, n)
			path = append(path[:d], n)
			if d > 1 {
				path[d-1].AppendChild(n)
			}
		}
		found := nodes[a.From].GetElementById(a.ID)
		for i, n := range nodes {
			if n == found {
				return map[string]any{"out": "ok", "found": i}, nil
			}
		}
		return map[string]any{"out": "ok", "found": -1}, nil
	}
}
