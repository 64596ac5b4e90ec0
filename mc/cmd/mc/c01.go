package main

import "verif/mc/core"

func init() { register("C01", "model_checking", c01) }

// roots used by several checks: how the conversation got where exploration starts.
var pairRoots = []struct{ name, script string }{
	{"fresh", ""},
	{"initiated", "I0o S0"},
	{"established", "I0o S0 r1 S1 r0"},
	{"established-none", "I0n S0 r1 S1 r0"},
	{"skipped", "I0o S0 S0 S0 r1 S1 S1 r0 S0 S0 r1"},
	{"ratcheted", "I0o S0 r1 S1 r0 S0 r1 S1 r0 S0 r1 S1 r0 S0 r1 S1 r0"},
	{"full-chains", "I0o S0 S0 r1 S1 S1 r0 S0 S0 r1 S1 S1 r0 S0 S0 r1 S1 S1 r0 S0 S0 r1 S1 S1 r0 S0 S0 r1 S1 S1 r0"},
	{"crossed", "I0o I1o S0 S1"},
	{"crossed-read", "I0o I1o S0 S1 r0 r1"},
	{"reinit", "I0o S0 r1 S1 r0 S0 S1 I0o S0"},
	{"reinit-read", "I0o S0 r1 S1 r0 S0 S1 I1n S1 r0"},
	{"three-sessions", "I0o S0 S0 r1 S1 r0 I1o S1 S1 r0 S0 r1 I0n S0 S0 S1"},
}

func rootScript(name string) string {
	for _, r := range pairRoots {
		if r.name == name {
			return r.script
		}
	}
	panic(name)
}

func pairSpace(name string, cfg pcfg, depth int) core.Space {
	c := cfg
	return core.Space{Name: name, Depth: depth, Root: func() core.Node {
		for _, r := range pairRoots {
			if r.name == name || len(name) > len(r.name) && name[:len(r.name)+1] == r.name+"/" {
				return newPair(&c).run(r.script)
			}
		}
		return newPair(&c).run(name)
	}}
}

func c01(r *core.Run) {
	r.Assume("the network may reorder, delay and drop; duplication and alteration are C02 and C03")
	base := pcfg{Seed: r.Seed, Kinds: "deliver send", Modes: "on", Lens: []int{5, 0, 16, 33}}
	type sp struct {
		root  string
		sends [2]int
		inits [2]int
		q, t  int
		mem   bool
	}
	for _, s := range []sp{
		{"fresh", [2]int{3, 3}, [2]int{1, 1}, 7, 9, false},
		{"initiated", [2]int{3, 3}, [2]int{1, 1}, 6, 8, true},
		{"established", [2]int{4, 4}, [2]int{1, 1}, 6, 8, false},
		{"established-none", [2]int{3, 3}, [2]int{1, 1}, 5, 7, true},
		{"skipped", [2]int{3, 3}, [2]int{0, 0}, 6, 8, true},
		{"ratcheted", [2]int{3, 3}, [2]int{1, 0}, 5, 7, false},
		{"full-chains", [2]int{2, 2}, [2]int{0, 0}, 4, 6, true},
		{"crossed", [2]int{2, 2}, [2]int{1, 1}, 5, 7, true},
		{"crossed-read", [2]int{3, 3}, [2]int{1, 1}, 5, 7, false},
		{"reinit", [2]int{2, 2}, [2]int{1, 1}, 5, 7, false},
		{"reinit-read", [2]int{2, 2}, [2]int{1, 1}, 5, 7, true},
		{"three-sessions", [2]int{2, 2}, [2]int{0, 0}, 5, 6, false},
	} {
		cfg := base
		cfg.MaxSend, cfg.MaxInit, cfg.Mem = s.sends, s.inits, s.mem
		r.Explore(pairSpace(s.root, cfg, core.Pick(r, s.q, s.t)))
	}
	var lens []int
	for l := 0; l < 50; l++ {
		lens = append(lens, l*7%50)
	}
	longPairs(r, "deliver send init", lens, longPats(r), nil, nil)
	lengthsPair(r, "deliver send")
	marathonPairs(r, mDeliver)
}
