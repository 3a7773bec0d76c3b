package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

func init() {
	if len(os.Args) > 1 && os.Args[1] == "-vfdump" {
		c, err := Load(os.Args[2])
		if err != nil {
			panic(err)
		}
		vfDump(c, os.Args[3])
		os.Exit(0)
	}
}

func vfDump(c *Ctx, what string) {
	t0 := time.Now()
	vf := newVF(c, 3)
	acc := map[string]map[string]bool{}
	visit := func(pre string) func(path string, t types.Type, cl *vcell) {
		return func(path string, t types.Type, cl *vcell) {
			k := pre + path
			if acc[k] == nil {
				acc[k] = map[string]bool{}
			}
			for _, t := range cl.tgl {
				acc[k][t] = true
			}
			for _, v := range vf.via {
				for _, t := range v.tgl {
					if isBy(t) {
						acc[k][t] = true
					}
				}
			}
		}
	}
	switch what {
	case "hyd":
		in := vf.root(c.Func("pkg/hydratables", "Hydrate"), false)
		vf.solve()
		vf.shape(in.ret.sub["#0"], in.fn.Signature.Results().At(0).Type(), "", visit("H"), map[string]bool{})
	case "ren":
		for _, n := range []string{"MarshalCatalog", "MarshalRenderable", "MarshalExpressable"} {
			vf.root(c.Func("pkg/renderables", n), true)
		}
		vf.solve()
		for _, j := range vf.json {
			pre := c.PosOf(j.call) + " "
			for _, p := range j.arg.ptl {
				vf.shape(p, p.obj.typ, "", visit(pre+typeName(p.obj.typ)), map[string]bool{})
			}
		}
	}
	fmt.Println("instances", len(vf.list), "cells", vf.ncell, "objects", len(vf.objs), time.Since(t0))
	var ks []string
	for k := range acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var ts []string
		for t := range acc[k] {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		fmt.Println(k, "\n     ", strings.Join(ts, "\n      "))
	}
}
