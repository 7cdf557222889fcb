// Package exec stands in for os/exec while the code under test is checked: it starts nothing
// and records what would have been started.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
)

// Error and ErrNotFound mirror os/exec.
var ErrNotFound = errors.New("executable file not found in $PATH")

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + e.Name + ": " + e.Err.Error() }

type ExitError struct{ Stderr []byte }

func (e *ExitError) Error() string { return "exit status 1" }
func (e *ExitError) ExitCode() int { return 1 }

// Started is one recorded process start.
type Started struct {
	Path  string
	Args  []string
	Stdin string
	Dir   string
	Env   []string
}

// The recorder and the behaviour of started processes, set by the harness.
var (
	Log    []Started
	Out    string
	ErrOut string
	Fail   bool
)

// Reset forgets everything recorded.
func Reset() { Log, Out, ErrOut, Fail = nil, "", "", false }

type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	Err    error

	Process      *os.Process
	ProcessState *os.ProcessState
	started      bool
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func LookPath(file string) (string, error) { return file, nil }

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	in := ""
	if c.Stdin != nil {
		b, err := io.ReadAll(c.Stdin)
		if err != nil {
			return err
		}
		in = string(b)
	}
	Log = append(Log, Started{c.Path, append([]string(nil), c.Args...), in, c.Dir, append([]string(nil), c.Env...)})
	return nil
}

func (c *Cmd) Wait() error {
	if c.Stdout != nil {
		if _, err := io.WriteString(c.Stdout, Out); err != nil {
			return err
		}
	}
	if c.Stderr != nil {
		if _, err := io.WriteString(c.Stderr, ErrOut); err != nil {
			return err
		}
	}
	if Fail {
		return &ExitError{}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) Environ() []string { return c.Env }
func (c *Cmd) String() string {
	s := c.Path
	for _, a := range c.Args[1:] {
		s += " " + a
	}
	return s
}
