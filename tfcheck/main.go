// Command tfcheck decides properties of ecksbee/telefacts from its source:
// it loads the working tree, builds SSA and a call graph, and applies the
// analysis registered for the property.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type check struct {
	run func(c *Ctx, r *Report)
}

var checks = map[string]check{}

func register(prop string, run func(c *Ctx, r *Report)) { checks[prop] = check{run} }

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "directory that receives the evidence")
	prop := flag.String("prop", "", "property id, several separated by commas, or all")
	flag.Parse()
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	for _, id := range ids {
		if _, ok := checks[id]; !ok {
			fmt.Fprintln(os.Stderr, "no check for property", id)
			os.Exit(2)
		}
	}
	c, err := Load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 0
	for _, id := range ids {
		if n := runOne(c, id, *verif, start); n > code {
			code = n
		}
		start = time.Now()
	}
	os.Exit(code)
}

func runOne(c *Ctx, id, verif string, start time.Time) (code int) {
	r := NewReport(id)
	defer func() {
		if e := recover(); e != nil {
			if n, ok := e.(NoAnswer); ok {
				fmt.Fprintf(os.Stderr, "%s: no answer: %s\n", id, n.msg)
				code = 2
				return
			}
			panic(e)
		}
	}()
	checks[id].run(c, r)
	return r.Finish(c, verif, start)
}
