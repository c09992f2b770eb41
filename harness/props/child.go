package props

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"syscall"
	"time"
)

// children are what this program does when started as "child NAME args".
var children = map[string]func(args []string) int{}

// RunChild is called by main in a child process.
func RunChild(args []string) int {
	f := children[args[0]]
	if f == nil {
		return 4
	}
	return f(args[1:])
}

type childResult struct {
	out, err []byte
	code     int // -1 if killed
	signal   syscall.Signal
	timeout  bool
	wall     time.Duration
}

// runChild starts this program again.
func runChild(timeout time.Duration, env []string, stdin []byte, args ...string) childResult {
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return runProg(timeout, exe, append(os.Environ(), env...), stdin, append([]string{"child"}, args...)...)
}

// runProg runs a program and waits for it.
func runProg(timeout time.Duration, prog string, env []string, stdin []byte, args ...string) childResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, prog, args...)
	cmd.Env = env
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	return runCmd(ctx, cmd)
}

func runCmd(ctx context.Context, cmd *exec.Cmd) childResult {
	var so, se bytes.Buffer
	if cmd.Stdout == nil {
		cmd.Stdout = &so
	}
	cmd.Stderr = &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	t0 := time.Now()
	err := cmd.Run()
	r := childResult{out: so.Bytes(), err: se.Bytes(), wall: time.Since(t0), timeout: ctx.Err() != nil}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.signal = ws.Signal()
		}
	default:
		if r.timeout {
			r.code = -1
			break
		}
		panic("harness: " + err.Error())
	}
	return r
}
