// Command worker runs simulations.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"simmod/api"
	"simmod/harness"
	b0 "simmod/n0/bridge"
	b1 "simmod/n1/bridge"
	b2 "simmod/n2/bridge"
	"simmod/simrt"
)

// Replay is a recorded execution.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	BySeed   bool     `json:"by_seed,omitempty"`
	Deep     bool     `json:"deep,omitempty"`
	Scenario string   `json:"scenario"`
	Sig      string   `json:"signature"`
	Message  string   `json:"message"`
	Hash     string   `json:"hash"`
	Work     []uint32 `json:"work"`
	Fault    []uint32 `json:"fault"`
	Sched    []uint32 `json:"sched"`
	Trace    []string `json:"trace,omitempty"`
	Note     string   `json:"note,omitempty"`
}

// Summary is what a sweep covered.
type Summary struct {
	Runs     int64            `json:"runs"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	SimNs    int64            `json:"sim_ns"`
	Faults   map[string]int64 `json:"faults"`
	Stats    map[string]int64 `json:"stats"`
	Scen     map[string]int64 `json:"scenarios"`
	Ilv      []uint64         `json:"ilv"`
	MaxSteps int64            `json:"max_steps"`
	WallS    float64          `json:"wall_s"`
	Samples  []string         `json:"samples"`
}

func seedOf(base uint64, prop string, i uint64) uint64 {
	h := base*0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03
	for _, c := range prop {
		h = (h ^ uint64(c)) * 0x100000001B3
	}
	z := h + i*0x9E3779B97F4A7C15
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return (z ^ z>>31) >> 3
}

func main() {
	var (
		mode   = flag.String("mode", "sweep", "sweep, seeds, replay or shrink")
		prop   = flag.String("prop", "", "property")
		base   = flag.Uint64("base", 1, "base seed")
		from   = flag.Uint64("from", 0, "first run")
		stride = flag.Uint64("stride", 1, "stride")
		to     = flag.Uint64("to", 100, "end of runs")
		secs   = flag.Float64("secs", 60, "time limit")
		deep   = flag.Bool("deep", false, "larger runs")
		cfg    = flag.String("config", "", "shipped configuration")
		file   = flag.String("file", "", "replay file")
		out    = flag.String("out", "", "output file")
		list   = flag.String("seeds", "", "seeds")
		trace  = flag.Bool("trace", false, "print the trace")
		known  = flag.String("known", "", "signatures of known findings")
	)
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	harness.Bridges = []api.Bridge{b0.B{}, b1.B{}, b2.B{}}
	c, err := os.ReadFile(*cfg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	harness.Config = c
	if len(harness.Props[*prop]) == 0 && *mode != "replay" && *mode != "shrink" {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(3)
	}
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	skip := map[string]bool{}
	if *known != "" {
		var l []string
		if b, err := os.ReadFile(*known); err == nil {
			json.Unmarshal(b, &l)
		}
		for _, x := range l {
			skip[x] = true
		}
	}
	switch *mode {
	case "sweep":
		unsup := 0
		start := time.Now()
		s := Summary{Faults: map[string]int64{}, Stats: map[string]int64{}, Scen: map[string]int64{}}
		for i := *from; i < *to; i += *stride {
			if time.Since(start).Seconds() > *secs {
				break
			}
			seed := seedOf(*base, *prop, i)
			fmt.Fprintf(w, "S %d\n", seed)
			w.Flush()
			r := harness.RunSeed(*prop, seed, harness.Opts{Deep: *deep})
			s.Runs++
			s.Steps += r.Steps
			s.Switches += r.Switches
			s.SimNs += r.SimNs
			s.Scen[r.Scenario]++
			if r.Steps > s.MaxSteps {
				s.MaxSteps = r.Steps
			}
			for k, v := range r.Faults {
				s.Faults[k] += v
			}
			for k, v := range r.Stats {
				s.Stats[k] += v
			}
			s.Ilv = append(s.Ilv, r.Ilv)
			if len(s.Samples) < 3 {
				s.Samples = append(s.Samples, fmt.Sprintf("seed %d: %s, %d steps, %d switches, %.3f s simulated, hash %s", seed, r.Scenario, r.Steps, r.Switches, float64(r.SimNs)/1e9, r.Hash))
			}
			if s.Runs <= 3 {
				fmt.Fprintf(w, "H %d %s\n", seed, r.Hash)
			}
			if r.Unsup != "" {
				put(w, "U", r)
				if unsup++; unsup > 2 {
					break
				}
				continue
			}
			if len(r.Viol) > 0 && skip[r.Viol[0].Sig] {
				s.Stats["known finding"]++
				continue
			}
			if len(r.Viol) > 0 {
				if err := save(*out, *prop, r, *deep, nil); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
				put(w, "V", r)
				break
			}
		}
		s.WallS = time.Since(start).Seconds()
		put(w, "E", s)
		w.Flush()
	case "seeds": // hashes of given seeds
		for _, x := range strings.Split(*list, ",") {
			seed, _ := strconv.ParseUint(x, 10, 64)
			r := harness.RunSeed(*prop, seed, harness.Opts{Deep: *deep, Trace: *trace})
			if *trace {
				for _, l := range r.Trace {
					fmt.Fprintln(w, l)
				}
			}
			put(w, "R", r)
			w.Flush()
		}
	case "replay":
		rp := load(*file)
		r := runReplay(rp, *trace)
		if *trace {
			for _, l := range r.Trace {
				fmt.Fprintln(w, l)
			}
		}
		put(w, "R", r)
		w.Flush()
	case "shrink":
		rp := load(*file)
		shrink(rp, time.Duration(*secs*float64(time.Second)), *out)
	}
}

func put(w *bufio.Writer, tag string, v any) {
	b, _ := json.Marshal(v)
	fmt.Fprintf(w, "%s %s\n", tag, b)
	w.Flush()
}

func load(f string) *Replay {
	b, err := os.ReadFile(f)
	if err == nil {
		rp := new(Replay)
		if err = json.Unmarshal(b, rp); err == nil {
			return rp
		}
	}
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
	return nil
}

func runReplay(rp *Replay, trace bool) *harness.Result {
	o := harness.Opts{Deep: rp.Deep, Trace: trace}
	if rp.BySeed {
		return harness.RunSeed(rp.Property, rp.Seed, o)
	}
	return harness.RunStreams(rp.Property, rp.Work, rp.Fault, rp.Sched, o)
}

func save(f, prop string, r *harness.Result, deep bool, trace []string) error {
	rp := Replay{Property: prop, Seed: r.Seed, Deep: deep, Scenario: r.Scenario, Sig: r.Viol[0].Sig, Message: r.Viol[0].Msg, Hash: r.Hash,
		Work: r.Work, Fault: r.Fault, Sched: r.Sched, Trace: trace}
	b, err := json.Marshal(rp)
	if err != nil {
		return err
	}
	return os.WriteFile(f, b, 0o644)
}

// shrink looks for a shorter and simpler execution with the same violation.
func shrink(rp *Replay, limit time.Duration, out string) {
	deadline := time.Now().Add(limit)
	cur := [3][]uint32{rp.Work, rp.Fault, rp.Sched}
	first := harness.RunStreams(rp.Property, cur[0], cur[1], cur[2], harness.Opts{Deep: rp.Deep})
	if len(first.Viol) == 0 || first.Viol[0].Sig != rp.Sig {
		fmt.Println("NOREPRO")
		return
	}
	best := first
	tries := 0
	try := func(c [3][]uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		r := harness.RunStreams(rp.Property, c[0], c[1], c[2], harness.Opts{Deep: rp.Deep})
		if len(r.Viol) > 0 && r.Viol[0].Sig == rp.Sig && r.Unsup == "" {
			best = r
			return true
		}
		return false
	}
	size := func() int { return len(cur[0]) + len(cur[1]) + len(cur[2]) }
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := size()
		nz := nonzero(cur)
		for _, k := range []int{2, 1, 0} {
			// Drop everything, or the tail.
			for n := 0; n < len(cur[k]); {
				c := cur
				c[k] = cur[k][:n]
				if try(c) {
					cur = c
					break
				}
				if n == 0 {
					n = 1
				} else {
					n *= 2
				}
				if time.Now().After(deadline) {
					break
				}
			}
			for l := len(cur[k]) / 2; l > 0; l /= 2 {
				for n := len(cur[k]) - l; n > 0 && n < len(cur[k]); n -= l {
					c := cur
					c[k] = cur[k][:n]
					if !try(c) {
						break
					}
					cur = c
				}
				if time.Now().After(deadline) {
					break
				}
			}
			// Zero or delete blocks.
			for l := len(cur[k]); l > 0; l /= 2 {
				for i := 0; i < len(cur[k]); {
					j := i + l
					if j > len(cur[k]) {
						j = len(cur[k])
					}
					if time.Now().After(deadline) {
						break
					}
					c := cur
					c[k] = append(append([]uint32(nil), cur[k][:i]...), cur[k][j:]...)
					if k == 0 && try(c) {
						cur = c
						continue
					}
					if anyNZ(cur[k][i:j]) {
						c[k] = append([]uint32(nil), cur[k]...)
						for x := i; x < j; x++ {
							c[k][x] = 0
						}
						if try(c) {
							cur = c
						}
					}
					i = j
				}
			}
		}
		if size() == before && nonzero(cur) == nz {
			break
		}
	}
	// Lower single values.
	for _, k := range []int{0, 1} {
		for i := 0; i < len(cur[k]) && time.Now().Before(deadline); i++ {
			v := cur[k][i]
			for _, nv := range []uint32{v / 2, v - 1} {
				if v == 0 || nv >= v {
					continue
				}
				c := cur
				c[k] = append([]uint32(nil), cur[k]...)
				c[k][i] = nv
				if try(c) {
					cur = c
					break
				}
			}
		}
	}
	r := harness.RunStreams(rp.Property, cur[0], cur[1], cur[2], harness.Opts{Deep: rp.Deep, Trace: true})
	if len(r.Viol) == 0 || r.Viol[0].Sig != rp.Sig {
		r = best
	}
	r.Seed = rp.Seed
	tr := r.Trace
	if len(tr) > 400 {
		tr = append(append([]string{}, tr[:100]...), append([]string{"..."}, tr[len(tr)-300:]...)...)
	}
	if err := save(out, rp.Property, r, rp.Deep, tr); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("SHRUNK %d -> %d choices in %d runs\n", len(rp.Work)+len(rp.Fault)+len(rp.Sched), size(), tries)
}

func anyNZ(v []uint32) bool {
	for _, x := range v {
		if x != 0 {
			return true
		}
	}
	return false
}

func nonzero(c [3][]uint32) int {
	n := 0
	for _, s := range c {
		for _, x := range s {
			if x != 0 {
				n++
			}
		}
	}
	return n
}

var _ = simrt.W
