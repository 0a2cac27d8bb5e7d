package main

// Deciding that a process hangs, without trusting the clock: a process that a
// busy machine starves is runnable, one that is blocked for ever sleeps and
// uses no processor time.

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// groupState returns whether every thread of the processes chosen sleeps, and
// the processor time (in ticks) they have used.
func groupState(choose func(pid, pgrp int) bool) (sleeping bool, ticks int64, found bool) {
	sleeping = true
	dirs, _ := filepath.Glob("/proc/[0-9]*")
	for _, d := range dirs {
		pid, _ := strconv.Atoi(filepath.Base(d))
		f := statFields(filepath.Join(d, "stat"))
		if f == nil {
			continue
		}
		pgrp, _ := strconv.Atoi(f[2])
		if !choose(pid, pgrp) || f[0] == "Z" {
			continue
		}
		found = true
		u, _ := strconv.ParseInt(f[11], 10, 64)
		s, _ := strconv.ParseInt(f[12], 10, 64)
		ticks += u + s
		ts, _ := filepath.Glob(filepath.Join(d, "task/*/stat"))
		for _, t := range ts {
			if x := statFields(t); x != nil && x[0] != "S" {
				sleeping = false
			}
		}
	}
	return
}

// statFields are the fields of a stat file from the state on.
func statFields(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return nil
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 15 {
		return nil
	}
	return f
}

// blocked watches the processes for a while: true when they slept all the
// time and used next to no processor time.
func blocked(choose func(pid, pgrp int) bool, d time.Duration) bool {
	_, t0, ok := groupState(choose)
	if !ok {
		return false
	}
	awake, n := 0, 0
	for end := time.Now().Add(d); time.Now().Before(end); n++ {
		time.Sleep(200 * time.Millisecond)
		s, _, ok := groupState(choose)
		if !ok {
			return false
		}
		if !s {
			awake++
		}
	}
	_, t1, ok := groupState(choose)
	return ok && awake*10 <= n && t1-t0 <= 5
}

// toolWait waits for the tool to end; it fails when the tool never does.
func toolWait(c *Ctx, cmd *exec.Cmd, gone chan error) error {
	me := func(pid, pgrp int) bool { return pid == cmd.Process.Pid }
	for {
		select {
		case err := <-gone:
			return err
		case <-time.After(10 * time.Second):
		}
		hangs := blocked(me, 5*time.Second)
		if _, t, ok := groupState(me); ok && t > 2500 { // 25 s
			hangs = true
		}
		if !hangs {
			continue
		}
		select {
		case err := <-gone:
			return err
		case <-time.After(time.Second):
		}
		cmd.Process.Kill()
		<-gone
		c.Fail("tool-hang", "%s does not end when its input has ended", filepath.Base(cmd.Path))
	}
}

// toolDo runs the command.
func toolDo(c *Ctx, cmd *exec.Cmd) error {
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	gone := make(chan error, 1)
	go func() { gone <- cmd.Wait() }()
	return toolWait(c, cmd, gone)
}

// talk holds a conversation with a tool over pipes: send hands it some input,
// until waits for enough output, and fails when the tool waits for input
// instead.
type talk struct {
	c    *Ctx
	cmd  *exec.Cmd
	in   *os.File
	out  bytes.Buffer
	err  bytes.Buffer
	more chan []byte
	gone chan error
}

func newTalk(c *Ctx, dir, tool string, args ...string) *talk {
	bin := os.Getenv("TV_BIN")
	if bin == "" {
		c.Discard()
	}
	t := &talk{c: c, cmd: exec.Command(filepath.Join(bin, tool), args...), more: make(chan []byte, 1000), gone: make(chan error, 1)}
	t.cmd.Dir = dir
	ir, iw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	or, ow, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = ir, ow, &t.err
	t.in = iw
	if err := t.cmd.Start(); err != nil {
		panic(err)
	}
	ir.Close()
	ow.Close()
	go func() {
		for {
			b := make([]byte, 65536)
			n, err := or.Read(b)
			if n > 0 {
				t.more <- b[:n]
			}
			if err != nil {
				break
			}
		}
		close(t.more)
		or.Close()
	}()
	go func() { t.gone <- t.cmd.Wait() }()
	return t
}

func (t *talk) until(what string, enough func(out []byte) bool) {
	me := func(pid, pgrp int) bool { return pid == t.cmd.Process.Pid }
	for !enough(t.out.Bytes()) {
		select {
		case b, ok := <-t.more:
			if !ok {
				t.c.Fail("tool-ended", "%s ended before it answered %s: %s", filepath.Base(t.cmd.Path), what, clip(t.err.String(), 300))
			}
			t.out.Write(b)
			continue
		case <-time.After(10 * time.Second):
		}
		hangs := blocked(me, 5*time.Second)
		if _, n, ok := groupState(me); ok && n > 2500 {
			hangs = true
		}
		if hangs && len(t.more) == 0 {
			time.Sleep(time.Second)
			if len(t.more) == 0 {
				t.c.Fail("tool-silent", "%s was asked %s and waits for more input without an answer", filepath.Base(t.cmd.Path), what)
			}
		}
	}
}

// end closes the input and waits for the tool.
func (t *talk) end() error {
	t.in.Close()
	err := toolWait(t.c, t.cmd, t.gone)
	for b := range t.more {
		t.out.Write(b)
	}
	return err
}

func (t *talk) kill() {
	t.in.Close()
	t.cmd.Process.Kill()
}
