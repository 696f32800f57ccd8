// Command check decides one property: it generates the simulated program from
// the repository's working tree, searches seeds in parallel, and reports.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	root  string // of the verification tree
	repo  string
	tmp   string
	wbin  string
	start = time.Now()
)

type plan struct {
	runs  int     // runs of the quick tier
	secs  float64 // its time limit
	tsecs float64 // time limit of the thorough tier
}

var plans = map[string]plan{
	"":    {12000, 60, 600},
	"P01": {28000, 60, 600},
	"P02": {32000, 60, 600},
	"P03": {40000, 60, 600},
	"P04": {28000, 60, 600},
	"P05": {26000, 60, 600},
	"P06": {36000, 60, 600},
	"P07": {55000, 60, 600},
	"P08": {110000, 60, 600},
	"P09": {90000, 60, 600},
	"P10": {90000, 60, 600},
	"P11": {6000, 60, 600},
	"P12": {13000, 60, 600},
	"P13": {80000, 60, 600},
	"P14": {45000, 60, 600},
	"P15": {55000, 60, 600},
	"P16": {24000, 60, 600},
	"P17": {60000, 60, 600},
	"P19": {60000, 60, 600},
	"P20": {40000, 60, 600},
	"P21": {26000, 60, 600},
	"P22": {20000, 60, 600},
	"P23": {18000, 60, 600},
	"P24": {40000, 50, 600},
	"P25": {36000, 60, 600},
}

// musts are the checks made and the faults met that every search has to have.
var musts = map[string][]string{
	"P01": {"probes", "restarts", "clock jump", "corrupt", "crash", "duplicate", "loss", "stall", "truncate"},
	"P02": {"datagrams judged", "sends judged", "sends refused", "duplicate", "loss", "send error", "stall"},
	"P03": {"bad packets answered", "datagrams judged", "corrupt", "duplicate", "loss", "truncate"},
	"P04": {"changes", "repeated beacons", "tables compared", "clock jump", "crash"},
	"P05": {"beacons checked", "bursts complete", "figures checked", "settings racing with a burst", "crash", "send error", "disk error on statfs"},
	"P06": {"paths with deletions", "requests judged", "transfers recorded", "crash", "disk error on remove"},
	"P07": {"answers judged", "disks compared", "names used", "crash"},
	"P08": {"disks compared", "files sent", "local files", "received files removed", "receptions", "file appears after it was looked for", "disk error on create"},
	"P09": {"blocks read", "blocks written", "failed reads", "failed writes", "files compared", "torn write", "disk full"},
	"P10": {"checksums", "directory entries", "file information", "metadata produced", "metadata refused", "disk error on read", "file replaced while it is looked at"},
	"P11": {"blocks recorded", "complete reports", "files transferred", "ranges added", "crash", "loss", "torn write", "partition drop"},
	"P12": {"report frames", "reports", "reports refused", "reports sent", "send error"},
	"P13": {"changes checked", "changes refused", "connections lost", "listings checked", "lists compared", "lookups", "refusals", "removals", "rows checked", "transfers started", "crash", "dial error"},
	"P14": {"commands", "histories explained", "keys", "malformed commands", "probes", "transfers", "typed commands checked"},
	"P15": {"displays judged", "peer times judged", "received timestamps judged", "timestamps judged", "timestamps refused", "clock jump"},
	"P16": {"bad starts", "beacons to the configured group", "configurations checked", "headers checked", "starts refused", "usages checked", "crash while starting", "short read"},
	"P17": {"messages checked", "messages cleared", "reports checked", "slow user interface", "stall"},
	"P19": {"ends", "failed starts", "lines that do not end the node", "probes", "sizes outlived", "receive error", "start fails", "terminal error", "terminal resized"},
	"P20": {"enquiries", "enquiries while settings change", "settings shown", "holdings compared", "slow user interface"},
	"P21": {"announcements checked", "answers checked", "refusals checked", "statuses in full", "beacons traced", "entries checked", "duplicate", "loss", "send error", "slow user interface", "stall"},
	"P22": {"commands answered", "settings made", "transfers answered", "uses shown", "wrong addresses", "dial error", "disk error on open", "slow user interface"},
	"P23": {"nodes found", "tables checked", "clock jump", "crash", "disk error on statfs", "duplicate", "free space change", "loss", "partition drop", "send error", "stall"},
	"P24": {"control characters reported", "packet traces compared", "packet window toggled", "prompts compared", "traces scrolled", "windows cleared", "windows compared", "slow user interface", "stall", "terminal resized"},
	"P25": {"calls", "descriptors compared", "probes", "transfers ended", "crash", "dial error", "send error", "disk error on open", "disk error on read", "out of descriptors"},
}

type violation struct {
	Prop string `json:"property"`
	Msg  string `json:"message"`
	Sig  string `json:"signature"`
}

type result struct {
	Seed     uint64      `json:"seed"`
	Scenario string      `json:"scenario"`
	Viol     []violation `json:"violations"`
	Unsup    string      `json:"unsupported"`
	Hash     string      `json:"hash"`
}

type summary struct {
	Runs     int64            `json:"runs"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	SimNs    int64            `json:"sim_ns"`
	Faults   map[string]int64 `json:"faults"`
	Stats    map[string]int64 `json:"stats"`
	Scen     map[string]int64 `json:"scenarios"`
	Ilv      []uint64         `json:"ilv"`
	MaxSteps int64            `json:"max_steps"`
	WallS    float64          `json:"wall_s"`
	Samples  []string         `json:"samples"`
}

type replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	BySeed   bool     `json:"by_seed,omitempty"`
	Deep     bool     `json:"deep,omitempty"`
	Scenario string   `json:"scenario"`
	Sig      string   `json:"signature"`
	Message  string   `json:"message"`
	Hash     string   `json:"hash"`
	Work     []uint32 `json:"work"`
	Fault    []uint32 `json:"fault"`
	Sched    []uint32 `json:"sched"`
	Trace    []string `json:"trace,omitempty"`
	Note     string   `json:"note,omitempty"`
}

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func goenv() []string {
	return append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
}

func runIn(dir string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goenv()
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, b.String())
	}
	return nil
}

func build() {
	g := filepath.Join(tmp, "g")
	if err := os.MkdirAll(g, 0o755); err != nil {
		die(2, "%v", err)
	}
	rt := filepath.Join(root, "sim/rt")
	if err := runIn(root, "cp", "-r", rt+"/.", g); err != nil {
		die(2, "%v", err)
	}
	if err := os.WriteFile(filepath.Join(g, "go.mod"), []byte("module simmod\n\ngo 1.21\n"), 0o644); err != nil {
		die(2, "%v", err)
	}
	sg := filepath.Join(tmp, "simgen")
	if err := runIn(filepath.Join(root, "sim/cmd"), "go", "build", "-o", sg, "./simgen"); err != nil {
		die(2, "cannot build the generator: %v", err)
	}
	if err := runIn(tmp, sg, "-repo", repo, "-rt", rt, "-out", g, "-copies", "3", "-bridge", filepath.Join(root, "sim/tmpl/bridge.go.txt"), "-roots", "saratoga"); err != nil {
		die(2, "cannot generate the simulated program: %v", err)
	}
	wbin = filepath.Join(tmp, "worker")
	if err := runIn(g, "go", "build", "-trimpath", "-o", wbin, "./worker"); err != nil {
		die(2, "cannot build the simulated program: %v", err)
	}
	os.RemoveAll(g)
}

// worker prepares a worker process, limited in memory.
func worker(args ...string) *exec.Cmd {
	a := append([]string{"-c", `ulimit -v 6000000 2>/dev/null; exec "$@"`, "sh", wbin, "-config", filepath.Join(repo, "saratoga/saratoga.json")}, args...)
	c := exec.Command("/bin/sh", a...)
	c.Dir = tmp
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "TZ=UTC", "GOTRACEBACK=single")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	return c
}

func kill(c *exec.Cmd) {
	if c.Process != nil {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
}

// one runs a worker to its end within limit; hung tells that it did not end.
func one(limit time.Duration, args ...string) (out string, errs string, hung bool, err error) {
	c := worker(args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Start(); err != nil {
		return "", "", false, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		hung = true
		kill(c)
		err = <-done
	}
	return o.String(), e.String(), hung, err
}

type sweep struct {
	prop  string
	base  uint64
	runs  uint64
	deep  bool
	until time.Time
	n     int
	known []string

	mu    sync.Mutex
	cmds  []*exec.Cmd
	sums  []summary
	viol  []result // with the file in files
	files []string
	deep1 []bool
	dead  []result // seeds on which a worker died or hung
	unsup []result
	stop  bool
	hash  map[uint64]string
	hdeep map[uint64]bool
}

func (s *sweep) stopAll() {
	s.mu.Lock()
	s.stop = true
	for _, c := range s.cmds {
		kill(c)
	}
	s.mu.Unlock()
}

func (s *sweep) part(i int, from uint64, deep bool) {
	for attempt := 0; attempt < 4; attempt++ {
		left := time.Until(s.until).Seconds()
		if left <= 0 {
			return
		}
		file := filepath.Join(tmp, fmt.Sprintf("v%d-%d.json", i, attempt))
		args := []string{"-mode", "sweep", "-prop", s.prop, "-base", fmt.Sprint(s.base), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(s.n),
			"-to", fmt.Sprint(s.runs), "-secs", fmt.Sprintf("%.1f", left), "-out", file}
		if deep {
			args = append(args, "-deep")
		}
		if len(s.known) > 0 {
			args = append(args, "-known", filepath.Join(tmp, "known.json"))
		}
		c := worker(args...)
		var errs bytes.Buffer
		c.Stderr = &errs
		p, err := c.StdoutPipe()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.stop {
			s.mu.Unlock()
			return
		}
		s.cmds = append(s.cmds, c)
		s.mu.Unlock()
		if err := c.Start(); err != nil {
			return
		}
		var last uint64
		var cnt uint64
		ended := false
		var tmu sync.Mutex
		beat := time.Now()
		quit := make(chan struct{})
		go func() {
			for {
				select {
				case <-quit:
					return
				case <-time.After(2 * time.Second):
				}
				tmu.Lock()
				d := time.Since(beat)
				tmu.Unlock()
				if d > 120*time.Second {
					kill(c)
					return
				}
			}
		}()
		rd := bufio.NewReaderSize(p, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				tmu.Lock()
				beat = time.Now()
				tmu.Unlock()
			}
			if len(l) > 2 {
				body := strings.TrimSpace(l[2:])
				switch l[0] {
				case 'S':
					last, _ = strconv.ParseUint(body, 10, 64)
					cnt++
				case 'H':
					f := strings.Fields(body)
					if len(f) == 2 {
						seed, _ := strconv.ParseUint(f[0], 10, 64)
						s.mu.Lock()
						s.hash[seed] = f[1]
						s.hdeep[seed] = deep
						s.mu.Unlock()
					}
				case 'V', 'U':
					var r result
					if json.Unmarshal([]byte(body), &r) == nil {
						s.mu.Lock()
						if l[0] == 'V' {
							s.viol = append(s.viol, r)
							s.files = append(s.files, file)
							s.deep1 = append(s.deep1, deep)
						} else {
							s.unsup = append(s.unsup, r)
						}
						s.mu.Unlock()
					}
				case 'E':
					var m summary
					if json.Unmarshal([]byte(body), &m) == nil {
						ended = true
						s.mu.Lock()
						s.sums = append(s.sums, m)
						hit := len(s.viol) > 0
						s.mu.Unlock()
						if hit {
							go s.stopAll()
						}
					}
				}
			}
			if err != nil {
				break
			}
		}
		close(quit)
		c.Wait()
		s.mu.Lock()
		stop := s.stop
		s.mu.Unlock()
		if ended || stop {
			return
		}
		// The worker died in a run.
		s.mu.Lock()
		s.dead = append(s.dead, result{Seed: last, Unsup: tail(errs.String(), 4000)})
		s.deep1 = append(s.deep1, deep)
		s.mu.Unlock()
		go s.stopAll()
		return
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func parseR(out string) (*result, bool) {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "R ") {
			r := new(result)
			if json.Unmarshal([]byte(l[2:]), r) == nil {
				return r, true
			}
		}
	}
	return nil, false
}

func saveReplay(prop string, rp *replay) string {
	dir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, rp.Seed))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		die(2, "%v", err)
	}
	return f
}

func readReplay(f string) (*replay, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	rp := new(replay)
	return rp, json.Unmarshal(b, rp)
}

// known findings: lines "known: property=<id> sig=<signature>".
func knownSigs(prop string) []string {
	var out []string
	b, _ := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		if x, ok := strings.CutPrefix(l, "known: property="+prop+" sig="); ok {
			out = append(out, strings.TrimSpace(x))
		}
	}
	return out
}

func main() {
	if len(os.Args) == 3 && os.Args[2] == "build" {
		os.Args = append(os.Args, "")
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "check ROOT PROPERTY quick|thorough, check ROOT replay FILE, or check ROOT build")
		os.Exit(2)
	}
	root = os.Args[1]
	repo = "/repo"
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repo = r
	}
	prop, tier := os.Args[2], os.Args[3]
	var err error
	tmp, err = os.MkdirTemp("", "sarcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	build()
	buildS := time.Since(start).Seconds()
	if prop == "build" {
		fmt.Printf("built in %.1f s\n", buildS)
		return
	}
	if prop == "replay" {
		doReplay(tier)
		return
	}
	if prop == "determinism" {
		os.Exit(determinism(tier))
	}
	base := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		base = v
	}
	pl, ok := plans[prop]
	if !ok {
		pl = plans[""]
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		n = v
	}
	s := &sweep{prop: prop, base: base, n: n, hash: map[uint64]string{}, hdeep: map[uint64]bool{}, known: knownSigs(prop)}
	if len(s.known) > 0 {
		b, _ := json.Marshal(s.known)
		os.WriteFile(filepath.Join(tmp, "known.json"), b, 0o644)
	}
	runs, secs := uint64(pl.runs), pl.secs
	if tier == "thorough" {
		runs, secs = 1<<40, pl.tsecs
	}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64); err == nil && v > 0 {
		secs = v
	}
	if v, err := strconv.ParseUint(os.Getenv("VERIF_RUNS"), 10, 64); err == nil && v > 0 {
		runs = v
	}
	s.runs = runs
	s.until = time.Now().Add(time.Duration(secs * float64(time.Second)))
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s.part(i, uint64(i), tier == "thorough" && i%2 == 1)
		}(i)
	}
	wg.Wait()
	sweepS := time.Since(start).Seconds() - buildS

	code := 0
	var vlist []map[string]any
	notes := []string{}
	report := func(rp *replay, f string) {
		vlist = append(vlist, map[string]any{"signature": rp.Sig, "message": rp.Message, "replay": f, "seed": rp.Seed, "scenario": rp.Scenario})
		fmt.Printf("%s: %s\n%s\n", prop, rp.Sig, rp.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		code = 1
	}
	for i, r := range s.viol {
		if rp, f, ok := confirm(prop, r, s.files[i], tier); ok {
			report(rp, f)
			break
		} else {
			notes = append(notes, fmt.Sprintf("seed %d: a violation did not repeat: %s", r.Seed, r.Viol[0].Sig))
		}
	}
	if code == 0 {
		for i, d := range s.dead {
			deep := i < len(s.deep1) && s.deep1[i]
			if rp, f, ok := confirmDeath(prop, d, deep); ok {
				report(rp, f)
				break
			} else {
				notes = append(notes, fmt.Sprintf("seed %d: the death of a worker did not repeat", d.Seed))
			}
		}
	}
	// Same seed, same execution: repeat some runs in fresh processes.
	repeated, differ := 0, 0
	if code == 0 && len(s.hash) > 0 {
		repeated, differ = s.repeat()
		if differ > 0 {
			notes = append(notes, fmt.Sprintf("%d of %d repeated runs differ", differ, repeated))
		}
	}
	tot := summary{Faults: map[string]int64{}, Stats: map[string]int64{}, Scen: map[string]int64{}}
	ilv := map[uint64]bool{}
	for _, m := range s.sums {
		tot.Runs += m.Runs
		tot.Steps += m.Steps
		tot.Switches += m.Switches
		tot.SimNs += m.SimNs
		if m.MaxSteps > tot.MaxSteps {
			tot.MaxSteps = m.MaxSteps
		}
		add(tot.Faults, m.Faults)
		add(tot.Stats, m.Stats)
		add(tot.Scen, m.Scen)
		for _, x := range m.Ilv {
			ilv[x] = true
		}
		tot.Samples = append(tot.Samples, m.Samples...)
	}
	sort.Strings(tot.Samples)
	if len(tot.Samples) > 5 {
		tot.Samples = tot.Samples[:5]
	}
	if n := len(s.unsup); code == 0 && n > 0 && int64(n)*200 <= tot.Runs {
		notes = append(notes, fmt.Sprintf("%d of %d runs without a verdict, the first seed %d (%s): %s", n, tot.Runs, s.unsup[0].Seed, s.unsup[0].Scenario, s.unsup[0].Unsup))
	} else if code == 0 && n > 0 {
		code = 2
		fmt.Fprintf(os.Stderr, "%s: no answer, the simulation met what it does not model: seed %d (%s): %s\n", prop, s.unsup[0].Seed, s.unsup[0].Scenario, s.unsup[0].Unsup)
	}
	if code == 0 && len(s.viol)+len(s.dead) > 0 {
		code = 2
		fmt.Fprintf(os.Stderr, "%s: no answer: %s\n", prop, strings.Join(notes, "; "))
	}
	if code == 0 && tot.Runs == 0 {
		code = 2
		fmt.Fprintf(os.Stderr, "%s: no answer: nothing ran\n", prop)
	}
	if code == 0 && tot.Runs >= 4000 {
		// A search which never got to what it is to judge proves nothing.
		for _, k := range musts[prop] {
			if tot.Stats[k]+tot.Faults[k] == 0 {
				code = 2
				fmt.Fprintf(os.Stderr, "%s: no answer: no run had %q\n", prop, k)
			}
		}
	}
	for _, k := range s.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	for _, x := range notes {
		fmt.Fprintln(os.Stderr, "note:", x)
	}
	evidence(prop, tier, base, tot, ilv, vlist, notes, map[string]any{"build_s": r1(buildS), "search_s": r1(sweepS), "workers": n,
		"repeated_runs": repeated, "repeated_runs_that_differ": differ})
	fmt.Printf("%s %s: %d runs, %d distinct interleavings, %.0f s simulated, %.1f s wall, exit %d\n", prop, tier, tot.Runs, len(ilv), float64(tot.SimNs)/1e9, time.Since(start).Seconds(), code)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func r1(f float64) float64 { return float64(int(f*10)) / 10 }

func add(a, b map[string]int64) {
	for k, v := range b {
		a[k] += v
	}
}

// confirm repeats a violation in a fresh process, makes it small, and repeats
// the small one in another fresh process.
func confirm(prop string, r result, file, tier string) (*replay, string, bool) {
	rp, err := readReplay(file)
	if err != nil {
		return nil, "", false
	}
	ok := func(f string, want *replay) bool {
		out, _, _, _ := one(180*time.Second, "-mode", "replay", "-file", f)
		x, ok := parseR(out)
		return ok && len(x.Viol) > 0 && x.Viol[0].Sig == want.Sig && x.Hash == want.Hash
	}
	if !ok(file, rp) {
		// The recorded choices do not lead there: perhaps the seed does.
		rp.BySeed = true
		b, _ := json.Marshal(rp)
		os.WriteFile(file, b, 0o644)
		if !ok(file, rp) {
			return nil, "", false
		}
		return rp, saveReplay(prop, rp), true
	}
	lim := 30.0
	if tier == "thorough" {
		lim = 120
	}
	small := file + ".small"
	out, _, _, _ := one(time.Duration(lim*2+60)*time.Second, "-mode", "shrink", "-file", file, "-secs", fmt.Sprint(lim), "-out", small)
	if strings.Contains(out, "SHRUNK") {
		if sp, err := readReplay(small); err == nil && ok(small, sp) {
			sp.Seed = r.Seed
			sp.Note = strings.TrimSpace(out)
			return sp, saveReplay(prop, sp), true
		}
	}
	return rp, saveReplay(prop, rp), true
}

// confirmDeath repeats a run that ended its worker.
func confirmDeath(prop string, d result, deep bool) (*replay, string, bool) {
	rp := &replay{Property: prop, Seed: d.Seed, BySeed: true, Deep: deep, Scenario: "?", Sig: "the process dies or hangs"}
	args := []string{"-mode", "seeds", "-prop", prop, "-seeds", fmt.Sprint(d.Seed)}
	if deep {
		args = append(args, "-deep")
	}
	out, errs, hung, err := one(120*time.Second, args...)
	if r, ok := parseR(out); ok && err == nil && r != nil {
		return nil, "", false
	}
	if hung {
		rp.Message = "the run makes no progress: a loop without end"
	} else {
		rp.Message = fmt.Sprintf("the process dies: %v\n%s", err, head(errs, 3000))
	}
	return rp, saveReplay(prop, rp), true
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (s *sweep) repeat() (n, differ int) {
	for _, deep := range []bool{false, true} {
		var list []string
		for k := range s.hash {
			if s.hdeep[k] == deep {
				list = append(list, fmt.Sprint(k))
			}
		}
		if len(list) == 0 {
			continue
		}
		sort.Strings(list)
		args := []string{"-mode", "seeds", "-prop", s.prop, "-seeds", strings.Join(list, ",")}
		if deep {
			args = append(args, "-deep")
		}
		out, _, _, _ := one(120*time.Second, args...)
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "R ") {
				var r result
				if json.Unmarshal([]byte(l[2:]), &r) == nil {
					n++
					if s.hash[r.Seed] != r.Hash {
						differ++
					}
				}
			}
		}
	}
	return
}

// determinism runs the same seeds of every property spread over 1, 3 and 8
// processes, in different orders and with different GOMAXPROCS, and compares
// the hashes of the executions.
func determinism(count string) int {
	n, _ := strconv.Atoi(count)
	if n <= 0 {
		n = 200
	}
	var props []string
	for p := range plans {
		if p != "" {
			props = append(props, p)
		}
	}
	sort.Strings(props)
	total, bad := 0, 0
	for _, p := range props {
		hash := make([]map[uint64]string, 3)
		for k, procs := range []int{1, 3, 8} {
			hash[k] = map[uint64]string{}
			var wg sync.WaitGroup
			var mu sync.Mutex
			for w := 0; w < procs; w++ {
				var l []string
				for i := w; i < n; i += procs {
					l = append(l, fmt.Sprint(uint64(i+1)*0x9E3779B97F4A7C15>>3))
				}
				if k == 1 {
					sort.Strings(l)
				} else if k == 2 {
					sort.Sort(sort.Reverse(sort.StringSlice(l)))
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					c := worker("-mode", "seeds", "-prop", p, "-seeds", strings.Join(l, ","))
					c.Env = append(c.Env, fmt.Sprintf("GOMAXPROCS=%d", procs))
					out, _ := c.Output()
					mu.Lock()
					defer mu.Unlock()
					for _, l := range strings.Split(string(out), "\n") {
						var r result
						if strings.HasPrefix(l, "R ") && json.Unmarshal([]byte(l[2:]), &r) == nil {
							hash[k][r.Seed] = r.Hash
						}
					}
				}()
			}
			wg.Wait()
		}
		differ := 0
		for s, h := range hash[0] {
			if h != hash[1][s] || h != hash[2][s] {
				differ++
				fmt.Printf("%s seed %d: %s %s %s\n", p, s, h, hash[1][s], hash[2][s])
			}
		}
		fmt.Printf("%s: %d seeds, %d differ\n", p, len(hash[0]), differ)
		total += len(hash[0])
		bad += differ + n - len(hash[0])
	}
	fmt.Printf("%d seeds three times each, %d differ\n", total, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func doReplay(f string) {
	rp, err := readReplay(f)
	if err != nil {
		die(2, "%v", err)
	}
	out, errs, hung, err := one(300*time.Second, "-mode", "replay", "-file", f, "-trace")
	fmt.Print(out)
	x, ok := parseR(out)
	switch {
	case ok && len(x.Viol) > 0 && x.Viol[0].Sig == rp.Sig:
		fmt.Printf("reproduced: %s (hash %s, recorded %s)\n", x.Viol[0].Sig, x.Hash, rp.Hash)
		os.RemoveAll(tmp)
		os.Exit(1)
	case (hung || !ok) && rp.BySeed:
		fmt.Printf("reproduced: the process dies or hangs (%v)\n%s\n", err, head(errs, 2000))
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}

func evidence(prop, tier string, seed uint64, t summary, ilv map[uint64]bool, viol []map[string]any, notes []string, extra map[string]any) {
	wall := time.Since(start).Seconds()
	perHour := 0.0
	if s, _ := extra["search_s"].(float64); s > 0 {
		perHour = float64(t.Runs) / s * 3600
	}
	cov := map[string]any{
		"evaluations":          t.Runs,
		"distinct_nontrivial":  len(ilv),
		"rule":                 "one evaluation is one simulated run of one seed; two runs are distinct when the sequences of task switches (the order in which the simulated tasks were scheduled) differ; every run executes a drawn workload against the real code and is judged by the reference model",
		"samples":              t.Samples,
		"seeds_per_hour":       int64(perHour),
		"simulated_seconds":    int64(t.SimNs / 1e9),
		"steps":                t.Steps,
		"context_switches":     t.Switches,
		"largest_run_steps":    t.MaxSteps,
		"faults_injected":      t.Faults,
		"scenarios":            t.Scen,
		"checks_made":          t.Stats,
		"interleaving_measure": "distinct hashes of the whole sequence of task switches of a run",
		"real_code":            "all packages of the node reached from saratoga/main (beacon, data, dirent, fileio, holes, metadata, request, sarflags, sarnet, sarscreen, sarwin, status, timestamp, trans, saratoga as far as imported), rewritten by simgen so that goroutines, channels, selects, locks, maps and shared variables are scheduling points; jroimartin/gocui is the vendored real source, rewritten by hand onto the simulator",
		"stubs":                "the operating system: UDP sockets and multicast, file system and statfs, clocks and timers, process exit, terminal (termbox), standard streams",
	}
	for k, v := range extra {
		cov[k] = v
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(viol) > 0 {
		cov["violations_found"] = viol
	}
	m := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the simulated sockets, file system, clock and terminal behave as the real ones in what the program uses of them",
			"the rewriting of the sources keeps the meaning of the program; memory accesses interleave between statements",
			"seeds explored stand for those not explored",
		},
		"wall_s": r1(wall), "violations": len(viol),
	}
	b, err := json.MarshalIndent(m, "", "  ")
	if err == nil {
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
