package main

import (
	"encoding/base64"
	"encoding/json"

	"github.com/giulianopz/go-readability"
)

type SurviveArgs struct {
	B64  string `json:"b64"`
	URI  string `json:"uri"`
	Opts Opts   `json:"opts"`
	Tree bool   `json:"tree,omitempty"`
}

func init() {
	handlers["survive"] = func(raw json.RawMessage) (map[string]any, error) {
		var a SurviveArgs
		if err := json.Unmarshal(raw, &a); err != nil {
			return nil, err
		}
		bs, err := base64.StdEncoding.DecodeString(a.B64)
		if err != nil {
			return nil, err
		}
		opts := a.Opts.list()
		ask := "no"
		if readability.IsProbablyReaderable(string(bs), opts...) {
			ask = "yes"
		}
		m, _ := observe(string(bs), a.URI, opts)
		life := map[string]string{"ok": "result", "err": "error", "rejected": "rejected"}[m["out"].(string)]
		if life == "" {
			life = m["out"].(string)
		}
		res := map[string]any{"out": "ok", "life": life, "ask": ask}
		if a.Tree && life == "result" {
			res["tree"], res["text"], res["len"], res["html"] = m["tree"], m["text"], m["len"], m["html"]
		}
		return res, nil
	}
}
