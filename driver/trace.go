//go:build veriftrace

package main

import (
	"fmt"

	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

var seen = map[string][]uint64{}

func init() {
	traceStart = func() { ed.VerifTrace = nil; ed.VerifOn = true }
	traceStop = func() { ed.VerifOn = false }
	traceCompare = func(key string) string {
		t := ed.VerifTrace
		ed.VerifTrace = nil
		o, ok := seen[key]
		if !ok {
			seen[key] = t
			return ""
		}
		for i := 0; i < len(t) && i < len(o); i++ {
			if t[i] != o[i] {
				a, b := int(o[i]>>48), int(t[i]>>48)
				if a < len(sites) && b < len(sites) {
					return fmt.Sprintf("event %d: %s value %d, but %s value %d", i, sites[a], o[i]&0xffffffffffff, sites[b], t[i]&0xffffffffffff)
				}
				return fmt.Sprintf("event %d", i)
			}
		}
		if len(t) != len(o) {
			return fmt.Sprintf("%d events, but %d", len(o), len(t))
		}
		return ""
	}
}
