package main

import (
	"bufio"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Native is a running replay program.
type Native struct {
	bin, scratch string
	cmd          *exec.Cmd
	in           *os.File
	out          *os.File
	rd           *bufio.Reader
	runs         int
}

func (n *Native) start() error {
	n.stop()
	cr, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	pr, cw, err := os.Pipe()
	if err != nil {
		return err
	}
	c := exec.Command(n.bin)
	home := filepath.Join(n.scratch, "home")
	os.MkdirAll(home, 0o755)
	c.Dir = home
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	// the replay program gets an empty PATH and a scratch home: nothing real can be started or reached
	c.Env = []string{"HOME=" + home, "PATH=/nonexistent", "TMPDIR=" + n.scratch, "VERIF_TIER=" + tier, "GOTRACEBACK=none", "GOMEMLIMIT=4GiB"}
	c.ExtraFiles = []*os.File{cr, cw}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := c.Start(); err != nil {
		return err
	}
	cr.Close()
	cw.Close()
	n.cmd, n.in, n.out = c, pw, pr
	n.rd = bufio.NewReaderSize(pr, 1<<20)
	return nil
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		syscall.Kill(-n.cmd.Process.Pid, syscall.SIGKILL)
		n.cmd.Wait()
		n.out.Close()
		n.cmd = nil
	}
}

// Run executes one input vector natively. Status is OK, FAIL msg, ASSUME, PANIC msg, MISMATCH msg, CRASH or HANG.
func (n *Native) Run(h string, inputs []string, limit time.Duration) (string, []string) {
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return "MISMATCH " + err.Error(), nil
		}
	}
	n.runs++
	if inputs == nil {
		inputs = []string{}
	}
	b, _ := json.Marshal(map[string]any{"H": h, "Inputs": inputs})
	n.in.Write(append(b, '\n'))
	type ans struct {
		line string
		err  error
	}
	ch := make(chan ans, 1)
	rd := n.rd
	go func() {
		l, err := rd.ReadString('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			n.stop()
			return "CRASH the process died", nil
		}
		var r struct {
			Status string
			Trace  []string
		}
		if err := json.Unmarshal([]byte(a.line), &r); err != nil {
			return "MISMATCH " + err.Error(), nil
		}
		return r.Status, r.Trace
	case <-time.After(limit):
		n.stop()
		return "HANG no answer within " + limit.String(), nil
	}
}

func bad(status string) bool {
	for _, p := range []string{"FAIL ", "PANIC ", "CRASH", "HANG"} {
		if strings.HasPrefix(status, p) {
			return true
		}
	}
	return false
}
