package main

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/sim/plan"
)

// shrink makes a failing scenario smaller while it keeps failing the same way.
func shrink(r runner, sc *plan.Scenario, v *plan.Violation) (*plan.Scenario, *plan.Violation) {
	budget := 60 * time.Second
	if s := os.Getenv("SIM_SHRINK"); s != "" {
		budget, _ = time.ParseDuration(s)
	}
	deadline := time.Now().Add(budget)
	best, bestV := sc, v
	seen := map[string]bool{}
	// try evaluates candidates in parallel and takes the first (in order) which fails alike
	try := func(cands []any) bool {
		for len(cands) > 0 && time.Now().Before(deadline) {
			n := workers()
			if n > len(cands) {
				n = len(cands)
			}
			vs := make([]*plan.Violation, n)
			scs := make([]*plan.Scenario, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				b, _ := json.Marshal(cands[i])
				if seen[string(b)] {
					continue
				}
				seen[string(b)] = true
				var s plan.Scenario
				if json.Unmarshal(b, &s) != nil || s.Check() != nil {
					continue
				}
				scs[i] = &s
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					vs[i] = verdict(r, scs[i])
				}(i)
			}
			wg.Wait()
			for i := range vs {
				if vs[i] != nil && vs[i].Class == v.Class {
					best, bestV = scs[i], vs[i]
					return true
				}
			}
			cands = cands[n:]
		}
		return false
	}
	for round := 0; round < 30 && time.Now().Before(deadline); round++ {
		progress := false
		var tree any
		load := func() {
			b, _ := json.Marshal(best)
			tree = nil
			json.Unmarshal(b, &tree)
		}
		load()
		for _, p := range paths(tree) {
			if time.Now().After(deadline) {
				break
			}
			for time.Now().Before(deadline) {
				c := candidates(tree, p)
				if len(c) == 0 || !try(c) {
					break
				}
				progress = true
				load()
			}
		}
		if !progress {
			break
		}
	}
	return best, bestV
}

type path []any

var fixed = map[string]bool{"prop": true, "index": true, "x": true, "race": true, "mode": true, "path": true, "corpus": true, "limit": true}

// paths lists the places worth shrinking: big arrays first, then fields, then numbers.
func paths(t any) []path {
	type item struct {
		p path
		w int
	}
	var items []item
	var walk func(t any, p path)
	walk = func(t any, p path) {
		cp := append(path(nil), p...)
		switch x := t.(type) {
		case map[string]any:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if fixed[k] {
					continue
				}
				items = append(items, item{append(append(path(nil), cp...), k), weight(x[k])})
				walk(x[k], append(append(path(nil), cp...), k))
			}
		case []any:
			for i := range x {
				walk(x[i], append(append(path(nil), cp...), i))
			}
		}
	}
	walk(t, nil)
	sort.SliceStable(items, func(i, j int) bool { return items[i].w > items[j].w })
	var res []path
	for _, i := range items {
		res = append(res, i.p)
	}
	return res
}

func weight(t any) int {
	switch x := t.(type) {
	case map[string]any:
		n := 1
		for _, v := range x {
			n += weight(v)
		}
		return n
	case []any:
		n := 1
		for _, v := range x {
			n += weight(v)
		}
		return n
	case string:
		return 1 + len(x)/40
	}
	return 1
}

func at(t any, p path) (any, bool) {
	for _, k := range p {
		switch k := k.(type) {
		case string:
			m, ok := t.(map[string]any)
			if !ok {
				return nil, false
			}
			t, ok = m[k]
			if !ok {
				return nil, false
			}
		case int:
			a, ok := t.([]any)
			if !ok || k >= len(a) {
				return nil, false
			}
			t = a[k]
		}
	}
	return t, true
}

// with returns a copy of the tree in which the place holds v (drop removes it).
func with(t any, p path, v any, drop bool) any {
	if len(p) == 0 {
		return v
	}
	switch k := p[0].(type) {
	case string:
		m := map[string]any{}
		for kk, vv := range t.(map[string]any) {
			m[kk] = vv
		}
		if len(p) == 1 && drop {
			delete(m, k)
		} else {
			m[k] = with(m[k], p[1:], v, drop)
		}
		return m
	case int:
		a := append([]any(nil), t.([]any)...)
		a[k] = with(a[k], p[1:], v, drop)
		return a
	}
	return t
}

func candidates(tree any, p path) (res []any) {
	v, ok := at(tree, p)
	if !ok {
		return nil
	}
	put := func(x any) { res = append(res, with(tree, p, x, false)) }
	res = append(res, with(tree, p, nil, true))
	key, _ := p[len(p)-1].(string)
	switch x := v.(type) {
	case []any:
		n := len(x)
		for size := n / 2; size >= 1; size /= 2 {
			for lo := 0; lo < n; lo += size {
				hi := lo + size
				if hi > n {
					hi = n
				}
				put(append(append([]any(nil), x[:lo]...), x[hi:]...))
			}
			if n > 4000 && size < n/64 {
				break
			}
		}
		if len(x) > 0 {
			if _, num := x[0].(float64); num && n <= 16 {
				for i := range x {
					c := append([]any(nil), x...)
					c[i] = float64(0)
					put(c)
				}
			}
		}
	case float64:
		if x != 0 {
			for _, y := range []float64{1, 2, float64(int64(x / 2)), float64(int64(x * 3 / 4)), x - 1} {
				if (x > 0 && y < x && y >= 0) || (x < 0 && y > x) {
					put(y)
				}
			}
		}
	case string:
		if len(x) > 1 && key != "op" && key != "kind" && key != "k" && key != "opener" && !strings.Contains(key, "name") {
			put(x[:1])
			put(x[:len(x)/2])
			put(x[:len(x)-1])
		}
	}
	return
}
