package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"ecksbee.com/telefacts/vsim"
)

// minimise shrinks a failing case: requests, filings and their features, then the schedule, map
// order and fault decisions.
func minimise(in, outFile, secs string) {
	c := readCase(in)
	class := c.Class
	out := mute()
	warm()
	end := time.Now().Add(time.Duration(atoi(secs)) * time.Second)
	tries := 0
	var dec *vsim.Decisions
	var detail, hash string
	ks := knownFindings()
	fails := func(c *Case) bool {
		n := 1
		if class == "race" {
			n = 2
		}
		for ; n > 0; n-- {
			tries++
			x := runCase(clone(c))
			for _, v := range x.Viol {
				if v.Class == class && matchKnown(ks, c.Prop, v.Class, v.Detail) == nil {
					dec, detail = decisions(x), v.Detail
					hash = fmt.Sprintf("%016x", x.Hash)
					return true
				}
			}
		}
		return false
	}
	late := func() bool { return time.Now().After(end) }
	if !fails(c) {
		// the decisions as recorded do not repeat; the caller falls back to the original file
		os.Exit(4)
	}
	keep := func(n *Case) {
		*c = *n
		d := *dec
		c.Dec = &d
	}
	keep(c)
	before := fmt.Sprintf("%d requests, %d scheduling deviations, %d preemptions, %d map orders, %d faults", len(c.Ops), len(c.Dec.Sched), len(c.Dec.Pre), len(c.Dec.Maps), len(c.Dec.Faults))
	// first try to do without any deviation of one kind
	for _, f := range []func(*Case){
		func(n *Case) { n.Dec.Maps = nil }, func(n *Case) { n.Dec.Sched = nil }, func(n *Case) { n.Dec.Faults = nil }, func(n *Case) { n.Dec.Pre = nil },
		func(n *Case) { n.Dec = &vsim.Decisions{} }, func(n *Case) { n.Pol.Clock, n.Pol.Zone = 0, 0 },
	} {
		n := clone(c)
		f(n)
		if !late() && fails(n) {
			keep(n)
		}
	}
	for round := 0; round < 3 && !late(); round++ {
		changed := false
		size := len(mustJSON(c))
		// requests
		reduce(len(c.Ops), late, func(drop []bool) bool {
			n := clone(c)
			n.Ops = nil
			for i, o := range c.Ops {
				if i >= len(drop) || !drop[i] {
					n.Ops = append(n.Ops, o)
				}
			}
			if len(n.Ops) == 0 || !fails(n) {
				return false
			}
			keep(n)
			return true
		})
		// faults
		reduce(len(c.Dec.Faults), late, func(drop []bool) bool {
			n := clone(c)
			n.Dec.Faults = nil
			for i, o := range c.Dec.Faults {
				if i >= len(drop) || !drop[i] {
					n.Dec.Faults = append(n.Dec.Faults, o)
				}
			}
			if !fails(n) {
				return false
			}
			keep(n)
			return true
		})
		for fi := range c.Filings {
			reduce(len(c.Filings[fi].Mut), late, func(drop []bool) bool {
				n := clone(c)
				var ms []Mut
				for i, m := range c.Filings[fi].Mut {
					if i >= len(drop) || !drop[i] {
						ms = append(ms, m)
					}
				}
				n.Filings[fi].Mut = ms
				if !fails(n) {
					return false
				}
				keep(n)
				return true
			})
			reduce(len(c.Filings[fi].Feats), late, func(drop []bool) bool {
				n := clone(c)
				var fs []string
				for i, f := range c.Filings[fi].Feats {
					if i >= len(drop) || !drop[i] {
						fs = append(fs, f)
					}
				}
				n.Filings[fi].Feats = fs
				if !fails(n) {
					return false
				}
				keep(n)
				return true
			})
			for _, f := range []func(*FSpec) *int{
				func(s *FSpec) *int { return &s.NCon }, func(s *FSpec) *int { return &s.NCtx },
				func(s *FSpec) *int { return &s.NRole }, func(s *FSpec) *int { return &s.NSch },
			} {
				for !late() {
					n := clone(c)
					v := f(&n.Filings[fi])
					if *v <= 1 {
						break
					}
					*v = *v / 2
					if !fails(n) {
						break
					}
					keep(n)
				}
			}
		}
		for i := range c.Ops {
			if c.Ops[i].Net != "" && !late() {
				n := clone(c)
				n.Ops[i].Net, n.Ops[i].Lag = "", 0
				if fails(n) {
					keep(n)
				}
			}
			if c.Ops[i].Wait > 0 && !late() {
				n := clone(c)
				n.Ops[i].Wait = 0
				if fails(n) {
					keep(n)
				}
			}
		}
		reduce(len(c.Dec.Maps), late, func(drop []bool) bool {
			n := clone(c)
			n.Dec.Maps = nil
			for i, o := range c.Dec.Maps {
				if i >= len(drop) || !drop[i] {
					n.Dec.Maps = append(n.Dec.Maps, o)
				}
			}
			if !fails(n) {
				return false
			}
			keep(n)
			return true
		})
		reduce(len(c.Dec.Sched), late, func(drop []bool) bool {
			n := clone(c)
			n.Dec.Sched = nil
			for i, o := range c.Dec.Sched {
				if i >= len(drop) || !drop[i] {
					n.Dec.Sched = append(n.Dec.Sched, o)
				}
			}
			if !fails(n) {
				return false
			}
			keep(n)
			return true
		})
		reduce(len(c.Dec.Pre), late, func(drop []bool) bool {
			n := clone(c)
			n.Dec.Pre = nil
			for i, o := range c.Dec.Pre {
				if i >= len(drop) || !drop[i] {
					n.Dec.Pre = append(n.Dec.Pre, o)
				}
			}
			if !fails(n) {
				return false
			}
			keep(n)
			return true
		})
		if len(mustJSON(c)) != size {
			changed = true
		}
		if !changed {
			break
		}
	}
	if !fails(c) && !(class == "race" && fails(c)) {
		os.Exit(4)
	}
	c.Class, c.Detail, c.Hash = class, detail, hash
	if class == "race" {
		if r := raceReports(); len(r) > 0 {
			c.Races = r[len(r)-1:]
		}
	}
	writeCase(outFile, c)
	fmt.Fprintf(out, "minimiser: %s -> %d requests, %d scheduling deviations, %d preemptions, %d map orders, %d faults (%d executions)\n", before, len(c.Ops), len(c.Dec.Sched), len(c.Dec.Pre), len(c.Dec.Maps), len(c.Dec.Faults), tries)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	return b
}

func clone(c *Case) *Case {
	n := &Case{}
	if err := json.Unmarshal(mustJSON(c), n); err != nil {
		fatal("%v", err)
	}
	if n.Knob == nil {
		n.Knob = map[string]int{}
	}
	return n
}

// reduce drops chunks of n items for as long as try succeeds; try applies the reduction. After a
// success the caller's list has shrunk.
func reduce(n int, late func() bool, try func(drop []bool) bool) {
	if n == 0 {
		return
	}
	chunk := n
	for chunk >= 1 {
		for i := 0; i < n; {
			if late() {
				return
			}
			drop := make([]bool, n)
			m := 0
			for j := i; j < n && j < i+chunk; j++ {
				drop[j] = true
				m++
			}
			if try(drop) {
				n -= m
			} else {
				i += chunk
			}
		}
		if chunk == 1 {
			break
		}
		chunk = (chunk + 1) / 2
	}
}
