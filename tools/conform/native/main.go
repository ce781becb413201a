// Runs every program natively N times and prints the outcomes seen.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"time"

	"prog"
)

func main() {
	prog.Dir = os.Args[1]
	n := map[string]map[string]int{}
	for _, p := range prog.Programs() {
		if p.Race {
			continue
		}
		n[p.Name] = map[string]int{}
		start := time.Now()
		for i := 0; i < 400 && time.Since(start) < 1500*time.Millisecond; i++ {
			runtime.GOMAXPROCS(1 + rand.Intn(8))
			r := make(chan string, 1)
			go func() { r <- p.Run() }()
			select {
			case s := <-r:
				n[p.Name][s]++
			case <-time.After(20 * time.Second):
				n[p.Name]["(stuck)"]++
				i = 1000
			}
		}
	}
	b, _ := json.MarshalIndent(n, "", " ")
	fmt.Println(string(b))
}
