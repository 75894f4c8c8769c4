package main

import (
	_ "embed"
	"encoding/json"
)

//go:embed meta.json
var metaJSON []byte

func init() {
	var m map[string]struct {
		Explain string   `json:"explain"`
		Assume  []string `json:"assume"`
	}
	if json.Unmarshal(metaJSON, &m) != nil {
		return
	}
	for i := range props {
		x := m[props[i].ID]
		props[i].Explain, props[i].Assume = x.Explain, x.Assume
	}
}
