package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Layout of /verif, found from the environment set by run.sh.
func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func loadKnown() knownFile {
	var k knownFile
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			die("known_findings.json: %v", err)
		}
	}
	return k
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: tv check|child|isolate|replay ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2], os.Args[3]))
	case "batch":
		cmdBatch()
	case "child":
		cmdChild()
	case "isolate":
		cmdIsolate()
	case "replay":
		os.Exit(cmdReplay(os.Args[2]))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		die("unknown command %s", os.Args[1])
	}
}

func envSeed() uint64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil || s == 0 {
		s = 1
	}
	return uint64(s)
}

func envScale() float64 {
	f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64)
	if err != nil || f <= 0 {
		return 1
	}
	return f
}

// ---- parent ---------------------------------------------------------------

func cmdCheck(id, tier string) int {
	start := time.Now()
	ck, ok := checks[id]
	if !ok {
		die("no such property %s", id)
	}
	if tier != "quick" && tier != "thorough" {
		die("bad tier %s", tier)
	}
	seed := envSeed()
	work, err := os.MkdirTemp("", "tv-"+id+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(work)
	evid := filepath.Join(verifDir(), "evidence", id+".json")
	os.MkdirAll(filepath.Dir(evid), 0o755)

	var rep *Report
	stall := 45 * time.Second
	for attempt := 0; attempt < 3 && rep == nil; attempt++ {
		r, suspects, why := runChild(ck, tier, seed, work, stall)
		if r != nil {
			rep = r
			break
		}
		if concurrentFatal(why) {
			// Cases that run at the same time disturb each other in the code
			// under test. That is what P27 is about; the others are decided
			// with one case at a time.
			if id == "P27" {
				rep = &Report{Done: true, Subs: map[string]subStats{}, Known: map[string]int{}, Failures: []Replay{{Property: id, Sub: "parallel", Key: "concurrent-fatal",
					Message: "analyses at the same time end the process: " + why, Input: fmt.Sprintf("all cases of seed %d", seed), CaseSeed: seed}}}
				break
			}
			os.Setenv("TV_ALONE", "1")
			continue
		}
		// The child died or stalled. Decide by rerunning the cases it was in,
		// alone, with a CPU-time and memory limit.
		var bad *Replay
		for _, s := range suspects {
			sub := ck.Subs[s.sub]
			if res, input := isolate(ck.ID, sub.Name, seed, s.idx, nil, work); res != nil {
				bad = &Replay{Property: id, Sub: sub.Name, Key: res.Key, Message: res.Msg, Input: input, Index: s.idx, CaseSeed: caseSeed(seed, id, sub.Name, s.idx), Isolated: true}
				break
			}
		}
		if bad != nil {
			rep = &Report{Done: true, Subs: map[string]subStats{}, Known: map[string]int{}, Failures: []Replay{*bad}}
			break
		}
		fmt.Fprintf(os.Stderr, "harness: child ended without a result (%s); retrying\n", why)
		stall *= 3
	}
	if rep == nil {
		die("no result for %s", id)
	}

	known := loadKnown()
	viol := []string{}
	for _, f := range rep.Failures {
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, f.Sub, f.Index))
		if err := writeJSON(p, f); err != nil {
			die("%v", err)
		}
		fmt.Printf("violation in %s/%s (%s)\n%s\ninput:\n%s\n", id, f.Sub, f.Key, clip(f.Message, 3000), clip(f.Input, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		viol = append(viol, f.Key)
	}
	for _, k := range known.Findings {
		if k.Property == id && rep.Known[k.Key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	cov := map[string]any{
		"evaluations":         rep.Evals,
		"distinct_nontrivial": rep.Distinct,
		"rule":                ck.Rule,
		"samples":             rep.Samples,
		"subchecks":           rep.Subs,
	}
	if len(rep.Known) > 0 {
		cov["known_finding_hits"] = rep.Known
	}
	if rep.Samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"assumptions": ck.Assumptions,
		"violations":  viol,
	}
	if ck.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if err := writeJSON(evid, ev); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs\n", id, tier, seed, rep.Evals, rep.Distinct, time.Since(start).Seconds())
	if len(rep.Failures) > 0 {
		return 1
	}
	return 0
}

type suspect struct{ sub, idx int }

// concurrentFatal tells that the Go runtime ended the process because of
// unsynchronized map accesses in the code under test.
func concurrentFatal(why string) bool {
	i := strings.Index(why, "fatal error: concurrent map")
	return i >= 0 && strings.Contains(clip(why[i:], 1500), "github.com/dragmz/teal")
}

func runChild(ck *Check, tier string, seed uint64, work string, stall time.Duration) (*Report, []suspect, string) {
	slotPath := filepath.Join(work, "slots")
	if err := os.WriteFile(slotPath, make([]byte, maxWorkers*24), 0o644); err != nil {
		die("%v", err)
	}
	out := filepath.Join(work, "report.json")
	os.Remove(out)
	cmd := exec.Command(os.Args[0], "child", ck.ID, tier, strconv.FormatUint(seed, 10), slotPath, out)
	logf, _ := os.Create(filepath.Join(work, "child.log"))
	cmd.Stdout = logf
	cmd.Stderr = logf
	cmd.Env = append(os.Environ(), "TV_WORK="+work)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	kill := func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	defer kill()
	why := ""
	f, _ := os.Open(slotPath)
	defer f.Close()
	readSlots := func() ([]suspect, bool) {
		b := make([]byte, maxWorkers*24)
		f.ReadAt(b, 0)
		var ss []suspect
		stalled := false
		now := time.Now().UnixMilli()
		for w := 0; w < maxWorkers; w++ {
			s := getU64(b[w*24:])
			if s == 0 {
				continue
			}
			st := int64(getU64(b[w*24+16:]))
			if now-st > stall.Milliseconds() {
				stalled = true
				ss = append([]suspect{{int(s) - 1, int(getU64(b[w*24+8:]))}}, ss...)
			} else {
				ss = append(ss, suspect{int(s) - 1, int(getU64(b[w*24+8:]))})
			}
		}
		return ss, stalled
	}
	for {
		select {
		case err := <-done:
			if b, e := os.ReadFile(out); e == nil {
				var r Report
				if json.Unmarshal(b, &r) == nil && r.Done {
					return &r, nil, ""
				}
			}
			why = fmt.Sprintf("exit: %v", err)
			if b, e := os.ReadFile(filepath.Join(work, "child.log")); e == nil {
				why += "\n" + clip(string(b), 2000)
			}
			ss, _ := readSlots()
			return nil, ss, why
		case <-time.After(500 * time.Millisecond):
			if ss, st := readSlots(); st {
				kill()
				<-done
				return nil, ss, "stalled"
			}
		}
	}
}

func isolate(id, sub string, seed uint64, idx int, tape []uint64, work string) (res *failure, input string) {
	args := []string{"isolate", id, sub, strconv.FormatUint(seed, 10), strconv.Itoa(idx)}
	cmd := exec.Command(os.Args[0], args...)
	logp := filepath.Join(work, "iso.log")
	logf, _ := os.Create(logp)
	cmd.Stdout = logf
	cmd.Stderr = logf
	out := filepath.Join(work, "iso.json")
	os.Remove(out)
	in := filepath.Join(work, "iso.input")
	os.Remove(in)
	cmd.Env = append(os.Environ(), "TV_WORK="+work, "TV_ISO_OUT="+out, "TV_ISO_IN="+in)
	if tape != nil {
		tp := filepath.Join(work, "iso.tape")
		writeJSON(tp, tape)
		cmd.Env = append(cmd.Env, "TV_TAPE="+tp)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	group := func(pid, pgrp int) bool { return pgrp == cmd.Process.Pid }
	hung := false
	for begin, over := time.Now(), false; !over; {
		select {
		case <-done:
			over = true
			continue
		case <-time.After(30 * time.Second):
		}
		if blocked(group, 20*time.Second) {
			hung = true
		} else if time.Since(begin) < 150*time.Second {
			continue
		}
		over = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		if !hung { // a slow machine: not decided by the clock
			return nil, ""
		}
	}
	if hung {
		if b, err := os.ReadFile(in); err == nil {
			input = string(b)
		}
		return &failure{Key: "blocks", Msg: "the case alone sleeps for ever"}, input
	}
	b, _ := os.ReadFile(logp)
	log := clip(string(b), 2500)
	if b, err := os.ReadFile(in); err == nil {
		input = string(b)
	}
	switch cmd.ProcessState.ExitCode() {
	case 0:
		return nil, ""
	case 1:
		var f failure
		if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &f) == nil {
			return &f, input
		}
		return &failure{Key: "exit1", Msg: log}, input
	case 78:
		return &failure{Key: "unbounded-memory", Msg: "the case alone grew the heap beyond 3 GB"}, input
	case 79:
		return &failure{Key: "does-not-terminate", Msg: "the case alone used more than 25 s of CPU time; ordinary cases take milliseconds"}, input
	}
	if strings.Contains(log, "github.com/dragmz/teal") {
		return &failure{Key: "fatal:" + panicSite(log), Msg: log}, input
	}
	return nil, ""
}

// ---- children -------------------------------------------------------------

func cmdChild() {
	ck := checks[os.Args[2]]
	tier := os.Args[3]
	seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
	fd, err := os.OpenFile(os.Args[5], os.O_RDWR, 0)
	if err != nil {
		die("%v", err)
	}
	mem, err := syscall.Mmap(int(fd.Fd()), 0, maxWorkers*24, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("%v", err)
	}
	go memWatch(6<<30, 77)
	if ck.Prepare != nil {
		if err := ck.Prepare(); err != nil {
			die("prepare: %v", err)
		}
	}
	known := map[string]bool{}
	for _, k := range loadKnown().Findings {
		if k.Property == ck.ID {
			known[k.Key] = true
		}
	}
	limit := 500 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	rep := runAll(ck, tier, seed, &slots{mem}, known, envScale(), time.Now().Add(limit))
	if err := writeJSON(os.Args[6]+".tmp", rep); err != nil {
		die("%v", err)
	}
	os.Rename(os.Args[6]+".tmp", os.Args[6])
}

func memWatch(limit uint64, code int) {
	debug.SetMemoryLimit(int64(limit) / 2)
	for {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > limit {
			os.Exit(code)
		}
		time.Sleep(300 * time.Millisecond)
	}
}

func cpuWatch(limit time.Duration, code int) {
	for {
		var ru syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
		used := time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
		if used > limit {
			os.Exit(code)
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func findSub(ck *Check, name string) *Sub {
	for i := range ck.Subs {
		if ck.Subs[i].Name == name {
			return &ck.Subs[i]
		}
	}
	die("no sub %s", name)
	return nil
}

func cmdIsolate() {
	ck := checks[os.Args[2]]
	sub := findSub(ck, os.Args[3])
	seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
	idx, _ := strconv.Atoi(os.Args[5])
	go memWatch(3<<30, 78)
	go cpuWatch(25*time.Second, 79)
	if ck.Prepare != nil {
		if err := ck.Prepare(); err != nil {
			die("prepare: %v", err)
		}
	}
	isoInput = os.Getenv("TV_ISO_IN")
	g := startG(ck, sub, seed, idx)
	if tp := os.Getenv("TV_TAPE"); tp != "" {
		b, err := os.ReadFile(tp)
		if err != nil {
			die("%v", err)
		}
		var t []uint64
		json.Unmarshal(b, &t)
		g = replayG(t)
	}
	r := runCase(sub.Fn, g)
	if r.fail != nil {
		writeJSON(os.Getenv("TV_ISO_OUT"), r.fail)
		fmt.Println(r.ctx.input)
		os.Exit(1)
	}
	os.Exit(0)
}

func cmdReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	ck := checks[r.Property]
	if ck == nil {
		die("no property %s", r.Property)
	}
	sub := findSub(ck, r.Sub)
	if r.Key == "concurrent-fatal" {
		work, err := os.MkdirTemp("", "tv-replay-")
		if err != nil {
			die("%v", err)
		}
		defer os.RemoveAll(work)
		if _, _, why := runChild(ck, "quick", r.CaseSeed, work, 3*time.Minute); concurrentFatal(why) {
			fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", r.Key, why, r.Property, path)
			return 1
		}
		fmt.Println("no violation")
		return 0
	}
	if ck.Prepare != nil {
		if err := ck.Prepare(); err != nil {
			die("prepare: %v", err)
		}
	}
	var g *G
	if r.Isolated {
		g = newG(r.CaseSeed)
		if sub.Enum != nil {
			g.hasEnum = true
			g.enum = r.Index
		}
	} else {
		g = replayG(r.Tape)
	}
	res := runCase(sub.Fn, g)
	fmt.Printf("input:\n%s\n", res.ctx.input)
	if res.fail != nil {
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", res.fail.Key, res.fail.Msg, r.Property, path)
		return 1
	}
	fmt.Println("no violation")
	return 0
}
