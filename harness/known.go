package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strings"
)

// A probe is a fixed input for a defect that is known and not repaired. It returns
// a violation while the defect is there. Only KNOWN_FINDINGS.txt can make one quiet.
type probe struct {
	prop, key string
	fn        func() error
}

var probes []*probe

func addProbe(prop, key string, fn func() error) {
	probes = append(probes, &probe{prop, key, fn})
}

func findProbe(prop, key string) *probe {
	for _, p := range probes {
		if p.prop == prop && p.key == key {
			return p
		}
	}
	return nil
}

type probeResult struct{ Key, Why string }

func runProbes(prop, out string) int {
	res := []probeResult{}
	for _, p := range probes {
		if p.prop != prop {
			continue
		}
		why := ""
		var err error
		if gerr := guarded("probe", func() { err = p.fn() }); gerr != nil {
			err = gerr
		}
		if err != nil {
			if _, ok := err.(*violation); !ok {
				fmt.Fprintln(os.Stderr, "probe", p.key, err)
				return 2
			}
			why = err.Error()
		}
		res = append(res, probeResult{p.key, why})
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

var knownLine = regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.+)$`)

// readKnown returns "<property>/<key>" -> description of the listed findings.
func readKnown(path string) (map[string]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "//") || strings.HasPrefix(l, "fixed: ") {
			continue
		}
		m := knownLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("%s: cannot read line %q", path, l)
		}
		out[m[1]+"/"+m[2]] = m[3]
	}
	return out, nil
}
