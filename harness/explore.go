package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"ustack/vrt"
)

// Scenario is one closed system whose executions are enumerated.
type Scenario struct {
	Name  string
	Props []string
	// deviation bound, execution cap and number of shards, quick and thorough
	Bound  [2]int
	Cap    [2]int
	Shards [2]int
	// copy() and the completion of atomics are scheduling points too
	CopyPoints bool
	MaxPts     int
	MaxEnter   int
	Body       func()
	What       string // what is enumerated, for the evidence
}

var scenarios []*Scenario

func scenario(s *Scenario) {
	if s.Cap[0] == 0 {
		s.Cap[0] = 400000
	}
	if s.Cap[1] == 0 {
		s.Cap[1] = 20000000
	}
	for i := range s.Shards {
		if s.Shards[i] == 0 {
			s.Shards[i] = 1
		}
	}
	scenarios = append(scenarios, s)
}

// tier is 0 (quick) or 1 (thorough).
var tier int

// pick returns q in the quick tier and t in the thorough one.
func pick(q, t int) int {
	if tier == 0 {
		return q
	}
	return t
}

type job struct {
	Scenario string
	Tier     int
	Shard    int
	Shards   int
	Bound    int
	Promoted []string
	Deadline float64 // seconds
	Journal  string
	Replay   []int
	IsReplay bool
	Trace    bool
}

type failure struct {
	Msg   string
	Stack string
	Picks []int
}

type result struct {
	Scenario   string
	Shard      int
	Execs      int64
	Pruned     int64
	States     int64
	Trans      int64
	MaxDepth   int
	Outcomes   map[string]int64
	Races      []string
	Fail       *failure
	Exhaustive bool
	CapHit     string
	Diverged   int64
	DivMsg     string
	Stats      map[string]int64
	BoundDone  int
	PerBound   []int64
	Trace      []string
	Sample     string
}

type node struct {
	picks []uint8
	i     int
	alt   uint8
	key   uint64
}

func findScenario(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func promote(names []string) {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	vrt.Promoted = map[int]bool{}
	for id, n := range vrt.FieldNames {
		if want[n] {
			vrt.Promoted[id] = true
		}
	}
}

func execute(s *Scenario, prefix []int, visit func(int, uint64) bool, trace bool) *vrt.World {
	vrt.CopyPoints = s.CopyPoints
	return vrt.Run(vrt.Config{Prefix: prefix, Visit: visit, Trace: trace, MaxPts: s.MaxPts, MaxEnter: s.MaxEnter}, s.Body)
}

func raceNames(w *vrt.World) []string {
	var r []string
	for id := range w.Races {
		r = append(r, vrt.FieldNames[id])
	}
	sort.Strings(r)
	return r
}

func explore(j job) *result {
	debug.SetGCPercent(400)
	s := findScenario(j.Scenario)
	tier = j.Tier
	promote(j.Promoted)
	res := &result{Scenario: s.Name, Shard: j.Shard, Outcomes: map[string]int64{}, Stats: map[string]int64{}, Exhaustive: true, BoundDone: -1}
	start := time.Now()
	var jf *os.File
	if j.Journal != "" {
		jf, _ = os.Create(j.Journal)
	}
	if j.IsReplay {
		w := execute(s, j.Replay, nil, j.Trace)
		res.Execs = 1
		if w.Failure != nil {
			res.Fail = &failure{w.Failure.Msg, w.Failure.Stack, j.Replay}
		}
		res.Trace = w.Trace
		res.DivMsg = w.Diverged
		res.Races = raceNames(w)
		return res
	}
	visited := map[uint64]uint8{}
	bound := j.Bound
	buckets := make([][]node, bound+1)
	buckets[0] = append(buckets[0], node{i: -1})
	root := true
	cap := s.Cap[j.Tier]/j.Shards + 1
	for c := 0; c <= bound; c++ {
		for len(buckets[c]) > 0 {
			nd := buckets[c][len(buckets[c])-1]
			buckets[c] = buckets[c][:len(buckets[c])-1]
			var prefix []int
			if nd.i >= 0 {
				prefix = make([]int, nd.i+1)
				for k := 0; k < nd.i; k++ {
					prefix[k] = int(nd.picks[k])
				}
				prefix[nd.i] = int(nd.alt)
			}
			if jf != nil {
				b, _ := json.Marshal(prefix)
				jf.WriteAt(append(b, '\n'), 0)
			}
			rem := uint8(bound - c + 1)
			w := execute(s, prefix, func(i int, key uint64) bool {
				if visited[key] >= rem {
					return true
				}
				visited[key] = rem
				return false
			}, false)
			if w.Diverged != "" || (nd.i >= 0 && nd.i < len(w.Choices) && w.Choices[nd.i].Key != nd.key) {
				res.Diverged++
				res.DivMsg = "prefix replay diverged: " + w.Diverged
				res.Exhaustive = false
				if w.Failure == nil {
					continue
				}
			}
			count := !root || j.Shard == 0
			if count {
				res.Execs++
				res.Trans += int64(w.Points)
				if w.Pruned {
					res.Pruned++
				}
				if d := len(w.Choices); d > res.MaxDepth {
					res.MaxDepth = d
				}
				for k, v := range w.Stats {
					res.Stats[k] += v
				}
				for _, o := range w.Outcome {
					if len(res.Outcomes) < 4000 || res.Outcomes[o] > 0 {
						res.Outcomes[o]++
					}
				}
			}
			if w.Failure != nil {
				p := make([]int, len(w.Choices))
				for k, ch := range w.Choices {
					p[k] = ch.Pick
				}
				for len(p) > 0 && p[len(p)-1] == 0 {
					p = p[:len(p)-1]
				}
				res.Fail = &failure{w.Failure.Msg, w.Failure.Stack, p}
				res.Exhaustive = false
				res.States = int64(len(visited))
				return res
			}
			if len(w.Races) > 0 {
				res.Races = raceNames(w)
				return res
			}
			picks := make([]uint8, len(w.Choices))
			for k, ch := range w.Choices {
				picks[k] = uint8(ch.Pick)
			}
			nchild := 0
			for i := len(prefix); i < len(w.Choices); i++ {
				ch := w.Choices[i]
				nc := c
				if !ch.Free {
					nc++
				}
				if nc > bound {
					continue
				}
				for alt := ch.N - 1; alt >= 1; alt-- {
					nchild++
					if root && j.Shards > 1 && nchild%j.Shards != j.Shard {
						continue
					}
					buckets[nc] = append(buckets[nc], node{picks, i, uint8(alt), ch.Key})
				}
			}
			root = false
			if res.Execs >= int64(cap) {
				res.Exhaustive = false
				res.CapHit = fmt.Sprintf("execution cap %d", cap)
			} else if res.Execs&63 == 0 && time.Since(start).Seconds() > j.Deadline {
				res.Exhaustive = false
				res.CapHit = "time cap"
			}
			if res.CapHit != "" {
				res.States = int64(len(visited))
				return res
			}
		}
		res.BoundDone = c
		res.PerBound = append(res.PerBound, res.Execs)
	}
	res.States = int64(len(visited))
	return res
}
