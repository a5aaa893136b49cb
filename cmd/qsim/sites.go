package main

import (
	"encoding/json"
	"os"
)

// sites is the table of instrumented statements the build wrote.
type siteRec struct {
	ID   int
	Pos  string
	Func string
	Kind string
}

var siteTab []siteRec
var siteDone bool

func sites() []siteRec {
	if !siteDone {
		siteDone = true
		var t struct{ Sites []siteRec }
		if b, err := os.ReadFile(os.Getenv("QSIM_SITES")); err == nil {
			json.Unmarshal(b, &t)
			siteTab = t.Sites
		}
	}
	return siteTab
}

func siteName(id uint32) string {
	if t := sites(); int(id) < len(t) {
		return t[id].Func + " " + t[id].Pos
	}
	return ""
}
