package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	_ "time/tzdata"
)

type property struct {
	ID     string
	Level  string
	Suites func(thorough bool) []*suite
	Assume []string
}

var properties = map[string]*property{}

// setups run before anything else, after all tables are built.
var setups, lateSetups []func()

func register(p *property) { properties[p.ID] = p }

type childResult struct {
	Suites []suiteResult
	Fails  []*failure
	Known  map[string]int
}

type knownFinding struct {
	Property string `json:"property"`
	Suite    string `json:"suite"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fRoot   = flag.String("root", "/verif", "verification root")
	fChild  = flag.String("child", "", "internal: directory for results")
	fSuite  = flag.String("suite", "", "restrict to one suite")
	fReplay = flag.String("replay", "", "replay file")
	fOne    = flag.String("one", "", "internal: run one execution with these choices")
	fBudget = flag.Duration("budget", 0, "wall time budget")
	fWork   = flag.Int("workers", 0, "internal: number of workers")
	fInst   = flag.String("instrument", "", "copy /repo with scheduling points to this directory")
	fTZ     = flag.String("tz", "", "internal: zone of the process, if not the usual one")
	fList   = flag.Bool("list", false, "list properties and suites")
)

const childTZ = "Asia/Kolkata" // no daylight saving, not UTC

func main() {
	flag.Parse()
	if *fInst != "" {
		if err := instrument("/repo", *fInst); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	for _, f := range append(setups, lateSetups...) {
		f()
	}
	if *fList {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range properties[id].Suites(*fTier == "thorough") {
				fmt.Println(id, s.Name, s.Bound, s.About)
			}
		}
		return
	}
	if *fReplay != "" {
		replay(*fReplay)
		return
	}
	p := properties[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fChild != "" {
		child(p)
		return
	}
	os.Exit(parent(p))
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(*fRoot, "known-findings.json"))
	if err != nil {
		return nil
	}
	var k []knownFinding
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		os.Exit(2)
	}
	return k
}

func child(p *property) {
	lim := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetGCPercent(400)
	debug.SetMaxStack(16 << 20)
	if p.ID == "C20" {
		mark := filepath.Join(*fChild, "measuring")
		os.WriteFile(mark, nil, 0o644)
		measureOps()
		os.Remove(mark)
	}
	thorough := *fTier == "thorough"
	suites := p.Suites(thorough)
	if *fOne != "" {
		var ch []uint32
		for _, s := range strings.Split(*fOne, ",") {
			if s == "" || s == "-" {
				continue
			}
			n, _ := strconv.ParseUint(s, 10, 32)
			ch = append(ch, uint32(n))
		}
		for _, s := range suites {
			if s.Name == *fSuite {
				c := &Ctx{prefix: ch, hseed: maphash.MakeSeed(), hashes: map[uint64]struct{}{}, want: true}
				runOnce(s, c)
				if c.fail != nil {
					c.fail.Suite, c.fail.Choices = s.Name, ch
				}
				b, _ := json.Marshal(c.fail)
				os.WriteFile(filepath.Join(*fChild, "one.json"), b, 0o644)
			}
		}
		return
	}
	var j *journal
	if f, err := os.OpenFile(filepath.Join(*fChild, "journal"), os.O_RDWR, 0); err == nil {
		mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*256, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err == nil {
			j = &journal{mem}
		}
		f.Close()
	}
	var deadline time.Time
	if *fBudget > 0 {
		deadline = time.Now().Add(*fBudget)
	}
	known := loadKnown()
	out := childResult{Known: map[string]int{}}
	for i, s := range suites {
		if *fSuite != "" && s.Name != *fSuite || s.TZ != *fTZ {
			continue
		}
		if !deadline.IsZero() && time.Now().After(deadline) {
			out.Suites = append(out.Suites, suiteResult{Name: s.Name, About: s.About, Bound: s.Bound})
			continue
		}
		r, f, k := explore(s, uint32(i), j, deadline, func(f *failure) bool {
			for _, e := range known {
				if e.Property == p.ID && e.Suite == f.Suite && e.Sig == f.Sig && e.Status == "open" {
					return true
				}
			}
			return false
		})
		out.Suites = append(out.Suites, r)
		out.Fails = append(out.Fails, f...)
		for s, n := range k {
			out.Known[s] += n
		}
		if len(out.Fails) >= maxFails {
			break
		}
	}
	b, _ := json.Marshal(out)
	tmp := filepath.Join(*fChild, "result.tmp")
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		os.Rename(tmp, filepath.Join(*fChild, "result.json"))
	}
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type slot struct {
	seq     uint64
	suite   uint32
	choices []uint32
	since   time.Time
}

func readSlots(mem []byte) []slot {
	var s []slot
	for w := 0; w < 256; w++ {
		b := mem[w*slotSize : (w+1)*slotSize]
		e := slot{seq: binary.LittleEndian.Uint64(b), suite: binary.LittleEndian.Uint32(b[8:])}
		if e.seq&1 == 1 {
			n := binary.LittleEndian.Uint32(b[12:])
			if n > 900 {
				n = 900
			}
			for i := uint32(0); i < n; i++ {
				e.choices = append(e.choices, binary.LittleEndian.Uint32(b[16+4*i:]))
			}
		}
		s = append(s, e)
	}
	return s
}

const (
	measuring = "while calls run alone: "
	hangLimit = 40 * time.Second
	rssLimit  = 10 << 30
)

func childCmd(dir string, extra ...string) *exec.Cmd {
	args := append([]string{"-prop", *fProp, "-tier", *fTier, "-root", *fRoot, "-child", dir, "-tz", *fTZ}, extra...)
	cmd := exec.Command("/proc/self/exe", args...)
	if self, err := os.Executable(); err == nil {
		cmd = exec.Command(self, args...)
	}
	tz := childTZ
	if *fTZ != "" {
		tz = *fTZ
	}
	cmd.Env = append(os.Environ(), "TZ="+tz, "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// runOneIsolated runs a single execution in its own process and classifies it.
func runOneIsolated(suiteName string, ch []uint32) (*failure, string) {
	dir, err := os.MkdirTemp("", "mcone")
	if err != nil {
		return nil, ""
	}
	defer os.RemoveAll(dir)
	s := make([]string, len(ch))
	for i, c := range ch {
		s[i] = strconv.Itoa(int(c))
	}
	cs := strings.Join(s, ",")
	if cs == "" {
		cs = "-"
	}
	cmd := childCmd(dir, "-suite", suiteName, "-one", cs)
	var out bytes.Buffer
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return nil, ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := time.After(hangLimit)
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if err != nil {
				m := out.String()
				if len(m) > 3000 {
					m = m[:3000]
				}
				return nil, "process died: " + err.Error() + "\n" + m
			}
			b, _ := os.ReadFile(filepath.Join(dir, "one.json"))
			var f *failure
			json.Unmarshal(b, &f)
			return f, ""
		case <-limit:
			cmd.Process.Kill()
			<-done
			return nil, fmt.Sprintf("did not terminate within %v", hangLimit)
		case <-tick.C:
			if rss(cmd.Process.Pid) > rssLimit {
				cmd.Process.Kill()
				<-done
				return nil, fmt.Sprintf("memory use exceeded %d GiB", rssLimit>>30)
			}
		}
	}
}

func parent(p *property) int {
	start := time.Now()
	thorough := *fTier == "thorough"
	suites := p.Suites(thorough)
	budget := *fBudget
	if budget == 0 {
		budget = 420 * time.Second
		if thorough {
			budget = 3000 * time.Second
		}
	}
	var (
		res   childResult
		fails []*failure
	)
	zones := []string{""}
	for _, s := range suites {
		if s.TZ != zones[len(zones)-1] && s.TZ != "" {
			zones = append(zones, s.TZ)
		}
	}
	for attempt := 0; ; attempt++ {
		*fTZ = zones[0]
		r, died, cands, err := runChild(max(budget-time.Since(start), 10*time.Second))
		if err != nil && len(fails) > 0 {
			break
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		if r != nil {
			res.Suites = append(res.Suites, r.Suites...)
			if res.Known == nil {
				res.Known = map[string]int{}
			}
			for k, n := range r.Known {
				res.Known[k] += n
			}
			fails = append(fails, r.Fails...)
			if zones = zones[1:]; len(zones) == 0 {
				break
			}
			attempt = -1
			continue
		}
		// the child hung or died: find the execution responsible
		fmt.Println("exploration stopped:", strings.SplitN(died, "\n", 2)[0])
		for _, s := range cands {
			if int(s.suite) >= len(suites) {
				continue
			}
			name := suites[s.suite].Name
			f, why := runOneIsolated(name, s.choices)
			if why != "" {
				_, why2 := runOneIsolated(name, s.choices)
				if why2 != "" {
					first := strings.SplitN(why, "\n", 2)[0]
					fails = append(fails, &failure{Sig: "nontermination-or-crash: " + first, Detail: why, Suite: name, Choices: s.choices, Repeat: "2/2"})
				}
			} else if f != nil {
				fails = append(fails, f)
			}
			if len(fails) > 0 {
				break
			}
		}
		if len(fails) == 0 && strings.HasPrefix(died, measuring) {
			fails = append(fails, &failure{Sig: "a call by itself does not return", Detail: died, Suite: "alone", Repeat: "once"})
		}
		if len(fails) == 0 && p.ID == "C20" && strings.Contains(died, "fatal error: concurrent") {
			fails = append(fails, &failure{Sig: "concurrent calls crash", Detail: died, Suite: "parallel", Repeat: "once"})
		}
		if len(fails) > 0 {
			break
		}
		*fWork = 1 // rule out interference between executions
		if attempt == 1 {
			fmt.Fprintln(os.Stderr, "error: exploration process failed and no execution reproduces it:", died)
			return 2
		}
	}
	// outcome
	evdir := filepath.Join(*fRoot, "evidence")
	os.MkdirAll(evdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evdir, "replay-"+p.ID+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	var states, trans, traces, execs int64
	outcomes := 0
	exhaustive := len(res.Suites) > 0
	samples := []string{}
	for _, s := range res.Suites {
		states += s.States
		trans += s.Trans
		traces += s.Traces
		execs += s.Executions
		outcomes += s.Outcomes
		exhaustive = exhaustive && s.Exhaustive
		for i, e := range s.Samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, s.Name+": "+e)
			}
		}
	}
	if *fSuite != "" {
		exhaustive = false
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	per := res.Suites
	for i := range per {
		per[i].Samples = nil
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": traces,
		"executions": execs, "distinct_outcomes": outcomes, "samples": samples,
		"exhaustive": exhaustive, "suites": per,
	}
	if p.Level != "model_checking" {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = outcomes
		cov["rule"] = "every execution of the bounded choice tree is run once; distinct outcomes are counted by hash of the observed result"
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range per {
		fmt.Printf("%s %-28s bound=%d execs=%d states=%d impl-calls=%d outcomes=%d exhaustive=%v %.1fs\n", p.ID, s.Name, s.Bound, s.Executions, s.States, s.Traces, s.Outcomes, s.Exhaustive, s.WallS)
	}
	for _, e := range loadKnown() {
		if e.Property == p.ID && e.Status == "open" && res.Known[e.Sig] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, e.What)
		}
	}
	if len(fails) == 0 {
		fmt.Printf("OK %s %d executions, %d states, %d implementation calls in %.1fs\n", p.ID, execs, states, traces, time.Since(start).Seconds())
		return 0
	}
	sort.SliceStable(fails, func(i, k int) bool { return len(fails[i].Choices) < len(fails[k].Choices) })
	for i, f := range fails {
		path := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", p.ID, i))
		rb, _ := json.MarshalIndent(map[string]any{
			"property": p.ID, "tier": *fTier, "suite": f.Suite, "choices": f.Choices, "sig": f.Sig,
			"detail": f.Detail, "reproduced": f.Repeat, "replay_cmd": "bash " + *fRoot + "/replay.sh " + path,
		}, "", " ")
		os.WriteFile(path, append(rb, '\n'), 0o644)
		fmt.Printf("--- %s [%s] %s (reproduced %s)\n%s\n", p.ID, f.Suite, f.Sig, f.Repeat, clip(f.Detail, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// alone tells whether the exploration process is still running calls alone.
func alone(dir string) string {
	if _, err := os.Stat(filepath.Join(dir, "measuring")); err != nil {
		return ""
	}
	return measuring
}

func runChild(budget time.Duration) (*childResult, string, []slot, error) {
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		return nil, "", nil, err
	}
	defer os.RemoveAll(dir)
	jf, err := os.OpenFile(filepath.Join(dir, "journal"), os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, "", nil, err
	}
	defer jf.Close()
	if err := jf.Truncate(slotSize * 256); err != nil {
		return nil, "", nil, err
	}
	mem, err := syscall.Mmap(int(jf.Fd()), 0, slotSize*256, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		return nil, "", nil, err
	}
	defer syscall.Munmap(mem)
	extra := []string{"-budget", budget.String(), "-workers", strconv.Itoa(*fWork)}
	if *fSuite != "" {
		extra = append(extra, "-suite", *fSuite)
	}
	cmd := childCmd(dir, extra...)
	var out bytes.Buffer
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return nil, "", nil, err
	}
	done := make(chan error, 1)
	runtime.LockOSThread() // Pdeathsig is tied to the starting thread
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	last := map[int]slot{}
	start := time.Now()
	over := start.Add(budget + 120*time.Second)
	active := func() []slot {
		var c []slot
		now := time.Now()
		for w, s := range readSlots(mem) {
			if s.seq&1 == 1 {
				s.since = now
				if l, ok := last[w]; ok && l.seq == s.seq {
					s.since = l.since
				}
				c = append(c, s)
			}
		}
		sort.SliceStable(c, func(i, k int) bool { return c[i].since.Before(c[k].since) })
		return c
	}
	for {
		select {
		case err := <-done:
			b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
			if err == nil && rerr == nil {
				var r childResult
				if err := json.Unmarshal(b, &r); err != nil {
					return nil, "", nil, err
				}
				return &r, "", nil, nil
			}
			m := out.String()
			if len(m) > 3000 {
				m = m[:3000]
			}
			if cmd.ProcessState.ExitCode() == harnessExit {
				return nil, "", nil, fmt.Errorf("%s", m)
			}
			return nil, alone(dir) + fmt.Sprintf("exit %v\n%s", err, m), active(), nil
		case <-tick.C:
			now := time.Now()
			stuck := false
			for w, s := range readSlots(mem) {
				l, ok := last[w]
				if !ok || l.seq != s.seq {
					s.since = now
					last[w] = s
				} else if s.seq&1 == 1 && now.Sub(l.since) > hangLimit {
					stuck = true
				}
			}
			why := ""
			if now.Sub(start) > hangLimit && alone(dir) != "" {
				why = "no end"
			} else if stuck {
				why = "an execution does not terminate"
			} else if rss(cmd.Process.Pid) > rssLimit {
				why = "memory use grows without bound"
			} else if now.After(over) {
				why = "budget overrun"
			}
			if why != "" {
				c := active()
				why = alone(dir) + why
				cmd.Process.Kill()
				<-done
				return nil, why, c, nil
			}
		}
	}
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r struct {
		Property, Tier, Suite, Sig string
		Choices                    []uint32
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	*fProp, *fTier = r.Property, r.Tier
	for _, s := range properties[*fProp].Suites(*fTier == "thorough") {
		if s.Name == r.Suite {
			*fTZ = s.TZ
		}
	}
	f, why := runOneIsolated(r.Suite, r.Choices)
	switch {
	case why != "":
		fmt.Println(why)
	case f != nil:
		fmt.Println(f.Sig)
		fmt.Println(f.Detail)
	default:
		fmt.Println("does not reproduce")
		return
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	os.Exit(1)
}
