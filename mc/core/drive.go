package core

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"xpdfmc/sched"
)

type shardOut struct {
	Fails  []Failure        `json:"fails"`
	Trans  int64            `json:"trans"`
	Impl   int64            `json:"impl"`
	Skips  int64            `json:"skips"`
	Done   map[string]int64 `json:"done"` // cases per space
	Extra  map[string]int64 `json:"extra"`
	Full   bool             `json:"full"`
	States int              `json:"states"`
}

type Known struct {
	Property string `json:"property"`
	Space    string `json:"space,omitempty"`
	Sig      string `json:"sig,omitempty"`
	Case     string `json:"case,omitempty"` // exact description of the failing case
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."
}

type options struct {
	id, tier, verif string
	shard, shards   int
	from            string // progress to resume behind
	space           string
	i               int64
	out             string
	deadline        time.Duration
	scratch         string
}

// Verif is the directory of the verification machinery.
var Verif = "/verif"

// Main is the entry point of the checker binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: xpdfmc run|shard|case|list ...")
		os.Exit(2)
	}
	var o options
	fs := flag.NewFlagSet("xpdfmc", flag.ExitOnError)
	fs.StringVar(&o.id, "id", "", "property")
	fs.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	fs.StringVar(&o.verif, "verif", "/verif", "verif directory")
	fs.IntVar(&o.shard, "shard", 0, "")
	fs.IntVar(&o.shards, "shards", 8, "")
	fs.StringVar(&o.from, "from", "", "")
	fs.StringVar(&o.space, "space", "", "")
	fs.Int64Var(&o.i, "i", 0, "")
	fs.StringVar(&o.out, "out", "", "")
	fs.StringVar(&o.scratch, "scratch", "", "")
	fs.DurationVar(&o.deadline, "deadline", 0, "")
	replay := fs.String("replay", "", "replay file")
	req := fs.String("req", "", "")
	fs.Parse(os.Args[2:])
	Verif = o.verif
	switch os.Args[1] {
	case "list":
		for _, id := range IDs() {
			fmt.Println(id)
		}
	case "instr":
		for _, id := range IDs() {
			if Get(id).Instr {
				fmt.Println(id)
			}
		}
	case "size":
		c := Get(o.id)
		setup(c, &o)
		for _, s := range c.Spaces(o.tier) {
			fmt.Printf("%s %d\n", s.Name, s.N)
		}
	case "run":
		os.Exit(supervise(o))
	case "shard":
		shardMain(o)
	case "case":
		if *replay != "" {
			b, err := os.ReadFile(*replay)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			var rf replayFile
			if err := json.Unmarshal(b, &rf); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			o.id, o.tier, o.space, o.i = rf.Property, rf.Tier, rf.Space, rf.I
		}
		os.Exit(caseMain(o))
	case "exec":
		os.Exit(execMain(o, *req))
	default:
		fmt.Println("unknown mode")
		os.Exit(2)
	}
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Space    string `json:"space"`
	I        int64  `json:"i"`
	Sig      string `json:"sig"`
	Msg      string `json:"msg"`
	Desc     string `json:"desc"`
	How      string `json:"how"`
}

func setup(c *Check, o *options) {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2200 << 20)
	lim := &syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30}
	if !raceBuild {
		// the race detector reserves address space
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	if c.Setup != nil {
		dir := o.scratch
		if dir == "" {
			dir, _ = os.MkdirTemp("", "xpdfmc")
		}
		d := filepath.Join(dir, fmt.Sprintf("p%d", os.Getpid()))
		_ = os.MkdirAll(d, 0o777)
		c.Setup(d)
	}
}

// quiet sends what the code under test prints to /dev/null and returns the real stdout.
func quiet() *os.File {
	real := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	return real
}

func caseMain(o options) int {
	c := Get(o.id)
	if c == nil {
		fmt.Println("no such check")
		return 2
	}
	real := quiet()
	setup(c, &o)
	for _, s := range c.Spaces(o.tier) {
		if s.Name != o.space {
			continue
		}
		r := NewRec()
		RunCase(&s, o.i, r)
		fmt.Fprintf(real, "property %s, space %s, case %d\n%s\n", o.id, s.Name, o.i, describe(&s, o.i))
		for _, f := range r.fails {
			fmt.Fprintf(real, "FAIL %s: %s\n", f.Sig, f.Msg)
		}
		if len(r.fails) > 0 {
			return 1
		}
		fmt.Fprintln(real, "ok")
		return 0
	}
	fmt.Fprintln(real, "no such space")
	return 2
}

// execMain executes a request of ExecSelf.
func execMain(o options, req string) int {
	c := Get(o.id)
	quiet()
	debug.SetMaxStack(256 << 20)
	s := c.Exec(req, o.scratch)
	if err := os.WriteFile(o.out, []byte(s), 0o666); err != nil {
		return 4
	}
	return 0
}

// ExecSelf executes a request in a process of its own, with an empty scratch directory: what it
// returns, what it printed, and whether it came to an end.
func ExecSelf(id, req string, limit time.Duration) (out, printed string, ok bool) {
	exe, err := os.Executable()
	if err != nil {
		return "", err.Error(), false
	}
	dir, err := os.MkdirTemp("", "exec")
	if err != nil {
		return "", err.Error(), false
	}
	defer os.RemoveAll(dir)
	res := dir + ".out"
	defer os.Remove(res)
	cmd := exec.Command(exe, "exec", "-id", id, "-verif", Verif, "-scratch", dir, "-out", res, "-req", req)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return "", err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		err = fmt.Errorf("no answer within %v", limit)
	}
	b, rerr := os.ReadFile(res)
	if err != nil || rerr != nil {
		return "", fmt.Sprintf("%v %v\n%s", err, rerr, tail(sb.String(), 3000)), false
	}
	return string(b), sb.String(), true
}

func shardMain(o options) {
	c := Get(o.id)
	quiet()
	setup(c, &o)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	spaces := c.Spaces(o.tier)
	r := NewRec()
	res := shardOut{Done: map[string]int64{}, Full: true}
	pf, err := os.OpenFile(o.out+".progress", os.O_RDWR|os.O_CREATE, 0o666)
	if err != nil {
		os.Exit(3)
	}
	startSpace, startI := 0, int64(-1)
	if o.from != "" {
		fmt.Sscanf(o.from, "%d:%d", &startSpace, &startI)
	}
	t0 := time.Now()
	var buf [24]byte
	var tick uint64
	stop := o.scratch + "/stop"
	lastStop := time.Now()
loop:
	for si := startSpace; si < len(spaces); si++ {
		s := &spaces[si]
		for i := int64(o.shard); i < s.N; i += int64(o.shards) {
			if si == startSpace && i <= startI {
				continue
			}
			tick++
			binary.LittleEndian.PutUint64(buf[0:], uint64(si))
			binary.LittleEndian.PutUint64(buf[8:], uint64(i))
			binary.LittleEndian.PutUint64(buf[16:], tick)
			_, _ = pf.WriteAt(buf[:], 0)
			n := len(r.fails)
			RunCase(s, i, r)
			res.Done[s.Name]++
			if len(r.fails) > n && len(r.fails) >= 25 {
				res.Full = false
				break loop
			}
			if tick%16 == 0 || time.Since(lastStop) > time.Second {
				if time.Since(lastStop) > 500*time.Millisecond {
					lastStop = time.Now()
					if _, err := os.Stat(stop); err == nil {
						res.Full = false
						break loop
					}
					if len(r.fails) > 0 && time.Since(t0) > 2*time.Second {
						// enough to report
						res.Full = false
						break loop
					}
				}
				if o.deadline > 0 && time.Since(t0) > o.deadline {
					res.Full = false
					break loop
				}
			}
		}
	}
	res.Fails, res.Trans, res.Impl, res.Skips, res.Extra, res.States = r.fails, r.trans, r.impl, r.skips, r.Extra, len(r.obs)
	ob := make([]byte, 0, 8*len(r.obs))
	for h := range r.obs {
		ob = binary.LittleEndian.AppendUint64(ob, h)
	}
	_ = os.WriteFile(o.out+".obs", ob, 0o666)
	b, _ := json.Marshal(res)
	_ = os.WriteFile(o.out+".tmp", b, 0o666)
	_ = os.Rename(o.out+".tmp", o.out)
	os.Exit(0)
}

type shardState struct {
	k       int
	cmd     *exec.Cmd
	done    chan error
	out     string
	outs    []string
	last    uint64
	lastT   time.Time
	running bool
	restart int
}

func loadKnown(verif string) []Known {
	var ks []Known
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err == nil {
		_ = json.Unmarshal(b, &ks)
	}
	return ks
}

const hangAfter = 90 * time.Second

func supervise(o options) int {
	t0 := time.Now()
	c := Get(o.id)
	if c == nil {
		fmt.Println("no such check:", o.id)
		return 2
	}
	exe, _ := os.Executable()
	scratch, err := os.MkdirTemp("", "xpdfmc-"+o.id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	_ = os.Chmod(scratch, 0o777)
	o.scratch = scratch
	if o.deadline == 0 {
		o.deadline = 480 * time.Second
		if o.tier == "thorough" {
			o.deadline = 780 * time.Second
		}
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	var fails []Failure
	crashNotes := []string{}
	start := func(st *shardState, from string) {
		st.restart++
		st.out = filepath.Join(scratch, fmt.Sprintf("shard%d.%d", st.k, st.restart))
		st.outs = append(st.outs, st.out)
		left := o.deadline - time.Since(t0)
		if left < time.Second {
			left = time.Second
		}
		cmd := exec.Command(exe, "shard", "-id", o.id, "-tier", o.tier, "-verif", o.verif, "-shard", strconv.Itoa(st.k), "-shards", strconv.Itoa(n), "-from", from, "-out", st.out, "-scratch", scratch, "-deadline", left.String())
		ef, _ := os.Create(st.out + ".err")
		cmd.Stderr = ef
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		st.cmd = cmd
		done := make(chan error, 1)
		st.done = done
		st.running = true
		st.lastT = time.Now()
		st.last = 0
		started := make(chan struct{})
		go func() {
			runtime.LockOSThread() // Pdeathsig is tied to the starting thread
			if err := cmd.Start(); err != nil {
				close(started)
				done <- err
				return
			}
			close(started)
			done <- cmd.Wait()
		}()
		<-started
		if ef != nil {
			ef.Close()
		}
	}
	shards := make([]*shardState, n)
	for k := range shards {
		shards[k] = &shardState{k: k}
		start(shards[k], "")
	}
	spaces := func() []Space {
		real := quiet()
		setup(c, &o)
		sp := c.Spaces(o.tier)
		os.Stdout = real
		return sp
	}()
	full := true
	progress := func(st *shardState) (si int, i int64, tick uint64, ok bool) {
		b, err := os.ReadFile(st.out + ".progress")
		if err != nil || len(b) < 24 {
			return 0, -1, 0, false
		}
		return int(binary.LittleEndian.Uint64(b)), int64(binary.LittleEndian.Uint64(b[8:])), binary.LittleEndian.Uint64(b[16:]), true
	}
	confirm := func(si int, i int64, times int, limit time.Duration) (bad int, out string) {
		for t := 0; t < times; t++ {
			b, code := runCaseProc(exe, o, spaces[si].Name, i, limit)
			if code != 0 {
				bad++
				out = b
			}
		}
		return
	}
	died := func(st *shardState, how string, si int, i int64) {
		bad, out := confirm(si, i, 2, hangAfter)
		if bad > 0 {
			eb, _ := os.ReadFile(st.out + ".err")
			f := Failure{Space: spaces[si].Name, I: i, Sig: how, Msg: fmt.Sprintf("the process %s while executing this case (%d of 2 repetitions failed as well)\n%s\n%s", how, bad, tail(string(eb), 3000), tail(out, 3000)), Desc: describe(&spaces[si], i)}
			fails = append(fails, f)
		} else {
			eb, _ := os.ReadFile(st.out + ".err")
			crashNotes = append(crashNotes, fmt.Sprintf("%s at %s:%d did not recur: %s", how, spaces[si].Name, i, tail(string(eb), 500)))
		}
	}
	for {
		alive := false
		for _, st := range shards {
			if !st.running {
				continue
			}
			alive = true
			select {
			case err := <-st.done:
				st.running = false
				if _, serr := os.Stat(st.out); serr == nil {
					var so shardOut
					b, _ := os.ReadFile(st.out)
					if json.Unmarshal(b, &so) == nil && len(so.Fails) > 0 {
						if hasNew(so.Fails, o) {
							_ = os.WriteFile(scratch+"/stop", nil, 0o666)
						}
					}
					continue
				}
				_ = err
				si, i, _, ok := progress(st)
				if !ok || si >= len(spaces) {
					eb, _ := os.ReadFile(st.out + ".err")
					crashNotes = append(crashNotes, "shard did not start: "+tail(string(eb), 800))
					full = false
					if st.restart < 3 {
						start(st, "")
					}
					continue
				}
				died(st, "crashed", si, i)
				full = false
				if len(fails) == 0 && st.restart < 20 {
					start(st, fmt.Sprintf("%d:%d", si, i))
				} else {
					_ = os.WriteFile(scratch+"/stop", nil, 0o666)
				}
			default:
				si, i, tick, ok := progress(st)
				if tick != st.last {
					st.last, st.lastT = tick, time.Now()
				} else if time.Since(st.lastT) > hangAfter {
					_ = syscall.Kill(-st.cmd.Process.Pid, syscall.SIGKILL)
					<-st.done
					st.running = false
					full = false
					if ok && si < len(spaces) {
						died(st, "hangs", si, i)
						if len(fails) == 0 && st.restart < 4 {
							start(st, fmt.Sprintf("%d:%d", si, i))
						} else {
							_ = os.WriteFile(scratch+"/stop", nil, 0o666)
						}
					}
				}
			}
		}
		if !alive {
			break
		}
		time.Sleep(15 * time.Millisecond)
	}
	// collect
	tot := shardOut{Done: map[string]int64{}, Extra: map[string]int64{}}
	states := map[uint64]struct{}{}
	for _, st := range shards {
		for _, out := range st.outs {
			b, err := os.ReadFile(out)
			if err != nil {
				full = false
				continue
			}
			var so shardOut
			if json.Unmarshal(b, &so) != nil {
				full = false
				continue
			}
			tot.Trans += so.Trans
			tot.Impl += so.Impl
			tot.Skips += so.Skips
			for k, v := range so.Done {
				tot.Done[k] += v
			}
			for k, v := range so.Extra {
				tot.Extra[k] += v
			}
			fails = append(fails, so.Fails...)
			if !so.Full {
				full = false
			}
			ob, _ := os.ReadFile(out + ".obs")
			for j := 0; j+8 <= len(ob); j += 8 {
				states[binary.LittleEndian.Uint64(ob[j:])] = struct{}{}
			}
		}
	}
	sort.Slice(fails, func(a, b int) bool {
		if fails[a].Space != fails[b].Space {
			return fails[a].Space < fails[b].Space
		}
		return fails[a].I < fails[b].I
	})
	// judge
	known := loadKnown(o.verif)
	code := 0
	reported := 0
	unconfirmed := 0
	bySig := map[string]int{}
	for _, f := range fails {
		if kf := match(known, o.id, f); kf != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.id, kf.What)
			continue
		}
		bySig[f.Space+"/"+f.Sig]++
		if reported >= 3 || (reported > 0 && bySig[f.Space+"/"+f.Sig] > 1) {
			continue
		}
		if f.Sig != "crashed" && f.Sig != "hangs" {
			bad := 0
			si := -1
			for k := range spaces {
				if spaces[k].Name == f.Space {
					si = k
				}
			}
			for t := 0; t < 5 && bad == 0; t++ {
				b, _ := confirm(si, f.I, 1, hangAfter)
				bad += b
			}
			if bad == 0 {
				unconfirmed++
				crashNotes = append(crashNotes, fmt.Sprintf("not reproduced in 5 fresh processes: %s:%d %s %s", f.Space, f.I, f.Sig, tail(f.Msg, 400)))
				continue
			}
		}
		code = 1
		reported++
		rp := writeReplay(o, f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.id, rp)
		fmt.Printf("  %s, space %s, case %d: %s\n", f.Sig, f.Space, f.I, indent(f.Msg))
		fmt.Printf("  case: %s\n", indent(f.Desc))
	}
	if code == 0 && unconfirmed >= 3 {
		// several cases fail now and then: the behaviour is not deterministic
		f := fails[0]
		rp := writeReplay(o, f)
		code = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.id, rp)
		fmt.Printf("  %d cases failed in the run without failing again in fresh processes, e.g. %s: %s\n", unconfirmed, f.Sig, indent(f.Msg))
	}
	// evidence
	sizes := map[string]interface{}{}
	var cases, all int64
	for _, s := range spaces {
		d := tot.Done[s.Name]
		cases += d
		all += s.N
		sizes[s.Name] = fmt.Sprintf("%d of %d", d, s.N)
	}
	if cases < all {
		full = false
	}
	samples := []interface{}{}
	for k := range spaces {
		s := &spaces[k]
		for _, i := range []int64{0, s.N / 2} {
			if i < s.N && len(samples) < 12 {
				d := describe(s, i)
				if len(d) > 1500 {
					d = d[:1500] + "..."
				}
				samples = append(samples, map[string]interface{}{"space": s.Name, "case": i, "what": d})
			}
		}
	}
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   tot.Trans,
		"traces_validated_against_impl": tot.Impl,
		"evaluations":                   cases,
		"rule":                          c.Rule,
		"samples":                       samples,
		"spaces":                        sizes,
		"exhaustive":                    full,
		"skipped_outside_precondition":  tot.Skips,
	}
	for k, v := range tot.Extra {
		cov["count_"+k] = v
	}
	if c.Instr {
		cov["instrumented_build"] = sched.Instrumented
	}
	if len(crashNotes) > 0 {
		cov["notes"] = crashNotes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": o.id, "tier": o.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": append([]string{}, c.Assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": reported,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o777)
	_ = os.WriteFile(filepath.Join(o.verif, "evidence", o.id+".json"), append(b, '\n'), 0o666)
	fmt.Printf("%s %s: %d of %d cases, %d states, %d transitions, %d executions compared, %d skipped, exhaustive=%v, %.1fs\n", o.id, o.tier, cases, all, len(states), tot.Trans, tot.Impl, tot.Skips, full, time.Since(t0).Seconds())
	for _, s := range crashNotes {
		fmt.Println("note:", s)
	}
	if code == 0 && cases == 0 {
		fmt.Println("no case was executed")
		return 2
	}
	return code
}

func hasNew(fs []Failure, o options) bool {
	known := loadKnown(o.verif)
	for _, f := range fs {
		if match(known, o.id, f) == nil {
			return true
		}
	}
	return false
}

func match(known []Known, id string, f Failure) *Known {
	for k := range known {
		kf := &known[k]
		if kf.Status == "known" && kf.Property == id && kf.Sig == f.Sig && kf.Case == f.Desc {
			return kf
		}
	}
	return nil
}

func runCaseProc(exe string, o options, space string, i int64, limit time.Duration) (string, int) {
	cmd := exec.Command(exe, "case", "-id", o.id, "-tier", o.tier, "-verif", o.verif, "-space", space, "-i", strconv.FormatInt(i, 10), "-scratch", o.scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return err.Error(), 0
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return sb.String(), 0
		}
		return sb.String(), 1
	case <-time.After(limit):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return sb.String() + "\n(killed: no answer within " + limit.String() + ")", 1
	}
}

func writeReplay(o options, f Failure) string {
	dir := filepath.Join(o.verif, "replays")
	_ = os.MkdirAll(dir, 0o777)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", o.id, strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' {
			return '_'
		}
		return r
	}, f.Space), f.I))
	rf := replayFile{Property: o.id, Tier: o.tier, Space: f.Space, I: f.I, Sig: f.Sig, Msg: f.Msg, Desc: f.Desc, How: "/verif/run.sh replay " + p}
	b, _ := json.MarshalIndent(rf, "", " ")
	_ = os.WriteFile(p, append(b, '\n'), 0o666)
	return p
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func indent(s string) string {
	if len(s) > 1000 {
		s = s[:1000] + "... (all of it is in the replay file)"
	}
	return strings.ReplaceAll(s, "\n", "\n    ")
}
