// Explores every program on the controlled runtime and prints the outcomes.
// (built together with the explorer of the checks, harness/explore.go)
package main

import (
	"encoding/json"
	"fmt"
	"strings"

	prog "ustack"
	"ustack/vrt"
)

func main() {
	type ans struct {
		Outcomes map[string]int64
		Want     []string
		Race     bool
		Raced    []string
		Fail     string
		Execs    int64
		Complete bool
	}
	all := map[string]*ans{}
	for _, p := range prog.Programs() {
		p := p
		scenarios = []*Scenario{{Name: p.Name, Cap: [2]int{400000, 400000}, Body: func() { vrt.Outcome(p.Run()) }}}
		a := &ans{Want: p.Want, Race: p.Race}
		all[p.Name] = a
		promoted := []string{}
		for {
			r := explore(job{Scenario: p.Name, Shards: 1, Bound: 3, Deadline: 120, Promoted: promoted})
			a.Outcomes, a.Execs, a.Complete = r.Outcomes, r.Execs, r.Exhaustive
			if r.Fail != nil {
				a.Fail = strings.SplitN(r.Fail.Msg, "\n", 2)[0]
			}
			if len(r.Races) == 0 {
				break
			}
			a.Raced = append(a.Raced, r.Races...)
			promoted = append(promoted, r.Races...)
		}
	}
	b, _ := json.MarshalIndent(all, "", " ")
	fmt.Println(string(b))
}
