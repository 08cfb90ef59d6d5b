package main

import (
	"encoding/json"
	"fmt"

	"github.com/giulianopz/go-readability"
)

type treeNode struct {
	Tag   string      `json:"tag"`
	Attrs [][2]string `json:"attrs"`
	Text  string      `json:"text"`
	HTML  string      `json:"html"` // a text node that is given markup of text
	Kids  []treeNode  `json:"kids"`
}

func holder() *readability.Node {
	return &readability.Node{NodeType: 1, LocalName: "div", TagName: "DIV"}
}

// blank makes an element with the given name, in the ways a caller can
func element(tag string) *readability.Node {
	h := holder()
	h.SetInnerHTML("<" + tag + "></" + tag + ">")
	n := h.FirstChild()
	h.RemoveChild(n)
	return n
}

func build(parent *readability.Node, kids []treeNode) {
	for _, k := range kids {
		if k.Tag == "" {
			t := &readability.Node{NodeType: 3}
			if k.HTML != "" {
				t.SetInnerHTML(k.HTML)
			} else {
				t.SetTextContent(k.Text)
			}
			parent.AppendChild(t)
			continue
		}
		e := element(k.Tag)
		for _, a := range k.Attrs {
			e.SetAttribute(a[0], a[1])
		}
		if len(k.Kids) == 1 && k.Kids[0].Tag == "" && k.Kids[0].HTML == "" {
			e.SetTextContent(k.Kids[0].Text)
		} else {
			build(e, k.Kids)
		}
		parent.AppendChild(e)
	}
}

// flat lists the nodes below n in document order: depth, name, attributes, text
func flat(n *readability.Node, names []string, depth int, out []any) []any {
	for _, c := range n.ChildNodes {
		switch c.NodeType {
		case 3:
			out = append(out, []any{depth, "", []any{}, c.GetTextContent()})
		case 1:
			attrs := []any{}
			for _, name := range names {
				if c.HasAttribute(name) {
					attrs = append(attrs, []string{name, c.GetAttribute(name)})
				}
			}
			if len(attrs) != c.GetAttributeLen() {
				attrs = append(attrs, []string{"#", fmt.Sprint(c.GetAttributeLen())})
			}
			out = append(out, []any{depth, c.LocalName, attrs, ""})
			out = flat(c, names, depth+1, out)
		}
	}
	return out
}

func init() {
	handlers["markup"] = func(raw json.RawMessage) (map[string]any, error) {
		var a struct {
			Src   *string    `json:"src"`
			Tree  []treeNode `json:"tree"`
			Names []string   `json:"names"`
		}
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		n := holder()
		if a.Src != nil {
			n.SetInnerHTML(*a.Src)
		} else {
			build(n, a.Tree)
		}
		var first []any
		written := ""
		if len(raw)%2 == 0 { // looking at the text first must not matter
			first = flat(n, a.Names, 1, []any{})
			written = n.GetInnerHTML()
		} else {
			written = n.GetInnerHTML()
			first = flat(n, a.Names, 1, []any{})
		}
		m := holder()
		m.SetInnerHTML(written)
		again := m.GetInnerHTML()
		k := holder()
		k.SetInnerHTML(again)
		return map[string]any{"out": "ok", "tree": first, "html": written, "back": flat(m, a.Names, 1, []any{}), "back2": flat(k, a.Names, 1, []any{})}, nil
	}
}
