package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

func cmdPanics(a []string) {
	n, _ := strconv.Atoi(a[1])
	base := 0
	if len(a) > 2 {
		base, _ = strconv.Atoi(a[2])
	}
	nl := 0
	m := map[string]int{}
	ex := map[string]int{}
	for i := 0; i < n; i++ {
		p := generate(a[0], uint64(base+i))
		tl = newTally()
		r := runWorld(p, seqOpt())
		for _, x := range r.x {
			if x == nil {
				continue
			}
			for id, s := range x.log {
				nl++
				for s != "" {
					k := strings.Index(s, "PANIC")
					if k < 0 {
						break
					}
					s = s[k:]
					t := s
					if len(t) > 70 {
						t = t[:70]
					}
					if e := strings.IndexAny(t, "\n;|"); e > 0 {
						t = t[:e]
					}
					o := findOp(p, id)
					key := o.K + " " + t
					m[key]++
					if _, ok := ex[key]; !ok {
						ex[key] = base + i
					}
					s = s[5:]
				}
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	fmt.Println("logs", nl)
	for _, k := range ks {
		fmt.Println(m[k], ex[k], k)
	}
}
