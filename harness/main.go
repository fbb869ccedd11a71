package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: rapverif replay|...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		replay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func readScenarios(paths []string) []Scenario {
	var out []Scenario
	for _, p := range paths {
		f, err := os.Open(p)
		if err != nil {
			panic(err)
		}
		r := bufio.NewReaderSize(f, 1<<20)
		for {
			line, err := r.ReadString('\n')
			line = strings.TrimSpace(line)
			if line != "" {
				var sc Scenario
				if e := json.Unmarshal([]byte(line), &sc); e != nil {
					panic(fmt.Sprintf("%s: %v: %.200s", p, e, line))
				}
				out = append(out, sc)
			}
			if err != nil {
				break
			}
		}
		f.Close()
	}
	return out
}

// replay runs scenarios, dealt out over shards, and writes a trace per shard.
func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	out := fs.String("out", "", "prefix of the traces")
	shards := fs.Int("shards", 1, "number of traces")
	serial := fs.Bool("serial", false, "one trace after the other")
	kind := fs.String("gen", "", "seeded scenarios to add")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 0, "how many of them")
	fs.Parse(args)
	scs := readScenarios(fs.Args())
	for _, g := range strings.Split(*kind, ",") {
		if g != "" {
			scs = append(scs, generate(g, *seed, *n)...)
		}
	}
	var wg sync.WaitGroup
	total := make([]int, *shards)
	ops := map[string]int{}
	var mu sync.Mutex
	for i := 0; i < *shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t := newTracer(fmt.Sprintf("%s%d.ndjson", *out, i))
			for j := i; j < len(scs) && !tooManyHangs(); j += *shards {
				runScenario(t, scs[j], j)
			}
			t.emit(E{"op": "end"})
			t.close()
			total[i] = t.calls
			mu.Lock()
			for k, n := range t.ops {
				ops[k] += n
			}
			mu.Unlock()
		}(i)
		if *serial {
			wg.Wait()
		}
	}
	wg.Wait()
	sum := 0
	for _, c := range total {
		sum += c
	}
	b, _ := json.Marshal(map[string]interface{}{"scenarios": len(scs), "calls": sum, "ops": ops})
	fmt.Println(string(b))
}
