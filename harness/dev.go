package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// devDump is a development aid: it lists what the reports of the tree print.
func devDump(what string) {
	labels := map[string]map[int64]string{}
	rows := map[string]map[string]map[string]bool{} // type → title → candidate paths
	cnt := map[string]int{}
	r := &Rand{7}
	for _, n := range rawNames() {
		rd := rawByName[n]
		for k := 0; k < 6000; k++ {
			g := rd.regs[r.N(len(rd.regs))]
			b := background(r, g.length(), []int{2, 2, 0, 1, 3, 4}[r.N(6)])
			g.normalise(r, b)
			if p := plausOf(g); p != nil && r.Bool() {
				p.shape(r, b)
				g.normalise(r, b)
			}
			if r.N(2) == 0 {
				w := g.spans()
				x := w[r.N(len(w))]
				v := codesOf(x.z-x.a+1, 64)
				b.Set(x.a, x.z, v[r.N(len(v))])
			}
			out := rd.call(int64(r.N(3)), r.Bool(), r.Bool(), b)
			if !out[1].IsNil() || out[0].Kind() == reflect.Slice {
				continue
			}
			m := out[0].Interface()
			for _, l := range Flatten(m) {
				if l.RV.Kind() >= reflect.Int && l.RV.Kind() <= reflect.Uint64 {
					if ts, ok := l.RV.Interface().(interface{ ToString() string }); ok {
						t := l.RV.Type().PkgPath() + "." + l.RV.Type().Name()
						if labels[t] == nil {
							labels[t] = map[int64]string{}
						}
						if len(labels[t]) < 300 {
							labels[t][l.Val.(int64)] = ts.ToString()
						}
					}
				}
			}
			ts, ok := m.(interface{ ToString() string })
			if !ok {
				continue
			}
			tn := TypeName(m)
			for _, t := range typeChain(m) {
				_ = t
				tn = t
			}
			cnt[tn]++
			cand := candidates(m)
			if rows[tn] == nil {
				rows[tn] = map[string]map[string]bool{}
			}
			for i, row := range parseRows(ts.ToString()) {
				title := fmt.Sprintf("%02d %s", i, row.title)
				have := map[string]bool{}
				for p, texts := range cand {
					for _, t := range texts {
						if t == row.val {
							have[p] = true
						}
					}
				}
				old, seen := rows[tn][title]
				if !seen {
					rows[tn][title] = have
					continue
				}
				for p := range old {
					if !have[p] {
						delete(old, p)
					}
				}
			}
		}
	}
	if what == "labels" {
		var ks []string
		for t := range labels {
			ks = append(ks, t)
		}
		sort.Strings(ks)
		for _, t := range ks {
			var cs []int
			for c := range labels[t] {
				cs = append(cs, int(c))
			}
			sort.Ints(cs)
			for _, c := range cs {
				fmt.Printf("%s\t%d\t%q\n", strings.TrimPrefix(t, "github.com/twuillemin/modes/pkg/"), c, labels[t][int64(c)])
			}
		}
		return
	}
	var ks []string
	for t := range rows {
		ks = append(ks, t)
	}
	sort.Strings(ks)
	for _, t := range ks {
		fmt.Printf("== %s %d\n", t, cnt[t])
		var ts []string
		for k := range rows[t] {
			ts = append(ts, k)
		}
		sort.Strings(ts)
		for _, k := range ts {
			var ps []string
			for p := range rows[t][k] {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			fmt.Printf("   %-60s %s\n", k, strings.Join(ps, " | "))
		}
	}
}

type row struct{ title, val string }

// parseRows reads a report: "Title:   value" lines; a line without value opens a nested block.
func parseRows(s string) []row {
	var out []row
	for _, l := range strings.Split(s, "\n") {
		i := strings.Index(l, ":")
		if i < 0 {
			out = append(out, row{"", l})
			continue
		}
		out = append(out, row{l[:i], strings.TrimSpace(l[i+1:])})
	}
	return out
}

func candidates(m interface{}) map[string][]string {
	out := map[string][]string{}
	for _, l := range Flatten(m) {
		if !l.RV.CanInterface() || l.RV.Kind() == reflect.Ptr {
			continue
		}
		x := l.RV.Interface()
		var t []string
		if ts, ok := x.(interface{ ToString() string }); ok {
			t = append(t, ts.ToString())
		}
		t = append(t, fmt.Sprintf("%v", x))
		out[l.Path] = append(out[l.Path], t...)
	}
	return out
}

// devFails runs a property in this process and lists each kind of failure once.
func devFails(p *Prop) {
	seen := map[string]int{}
	var order []string
	for bi, b := range p.Blocks(false) {
		for i := 0; i < b.N; i++ {
			b.Gen(genSeed(1, p.ID, bi, i), i, func(cs Case) {
				c := &Ctx{obs: map[string]int{}}
				runCase(p, c, &cs)
				if c.fail == "" {
					return
				}
				k := c.fail
				if j := strings.Index(k, "; whole report"); j > 0 {
					k = k[:j]
				}
				if j := strings.Index(k, "): "); j > 0 {
					k = k[j+3:]
				}
				if j := strings.Index(k, "it reads"); j > 0 {
					k = k[:j]
				}
				if j := strings.Index(k, "should say"); j > 0 && !strings.Contains(k, "prints") {
					k = k[:j]
				}
				if seen[k] == 0 {
					order = append(order, k+"\n      e.g. "+c.fail)
				}
				seen[k]++
			})
		}
	}
	for _, k := range order {
		fmt.Println(k)
	}
}
