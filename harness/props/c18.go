package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
)

func init() {
	register(&mon.Prop{ID: "C18",
		Rule: "every combination of values of NO_COLOR, FORCE_COLOR and TERM, set in the environment of new processes and changed within one, with terminals, pipes, files, devices, sockets, closed and nil files and other writers; the answer is compared with the documented policy, and so is whether the jc program colors its output; non-trivial: distinct by environment and writer",
		Run:  runC18})
	children["term"] = childTerm
}

// What the variables are set to; "-" is not set.
var (
	noColors    = []string{"-", "", "1", "0", "false", " "}
	forceColors = []string{"-", "", "1", "0", "false", "3", " "}
	terms       = []string{"-", "", "dumb", "xterm", "DUMB", "dumb2", "xterm-dumb", "xterm-256color"}
)

func isSet(s string) bool { return s != "-" && s != "" }

// policy is what IsColorTerminal must say.
func policy(no, force, term string, tty bool) bool {
	switch {
	case isSet(no):
		return false
	case isSet(force):
		return true
	case term == "dumb":
		return false
	}
	return tty
}

type writerKind struct {
	name string
	w    io.Writer
	tty  bool
}

// fileWriter is not an *os.File, though it embeds one.
type fileWriter struct{ *os.File }

func writerKinds(dir string) (ws []writerKind, done func()) {
	var closers []io.Closer
	must := func(f *os.File, err error) *os.File {
		if err != nil {
			panic("harness: " + err.Error())
		}
		closers = append(closers, f)
		return f
	}
	add := func(name string, w io.Writer, tty bool) { ws = append(ws, writerKind{name, w, tty}) }
	m, s := openPty()
	closers = append(closers, m, s)
	add("terminal", s, true)
	add("terminal opened again", must(os.OpenFile(s.Name(), os.O_WRONLY|0x100, 0)), true)
	add("terminal under another name", must(dupFile(s), nil), true)
	add("wrapped terminal", fileWriter{s}, false)
	add("pointer to wrapped terminal", &fileWriter{s}, false)
	add("buffered terminal", bufio.NewWriter(s), false)
	add("MultiWriter of terminal", io.MultiWriter(s, s), false)
	r, p, err := os.Pipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	closers = append(closers, r, p)
	add("pipe", p, false)
	add("read end of pipe", r, false)
	add("file", must(os.Create(dir+"/file")), false)
	add("file called tty", must(os.Create(dir+"/tty")), false)
	add("directory", must(os.Open(dir)), false)
	for _, d := range []string{"/dev/null", "/dev/zero", "/dev/full", "/dev/urandom"} {
		if f, err := os.OpenFile(d, os.O_RDWR, 0); err == nil {
			closers = append(closers, f)
			add(d, f, false)
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err == nil {
		closers = append(closers, l)
		add("listening socket", must(l.(*net.TCPListener).File()), false)
		if c, err := net.Dial("tcp", l.Addr().String()); err == nil {
			closers = append(closers, c)
			add("connection", c, false)
			add("connection as a file", must(c.(*net.TCPConn).File()), false)
		}
	}
	closed := must(os.Create(dir + "/closed"))
	closed.Close()
	add("closed file", closed, false)
	m2, s2 := openPty()
	closers = append(closers, m2)
	s2.Close()
	add("closed terminal", s2, false)
	add("nil", nil, false)
	add("nil *os.File", (*os.File)(nil), false)
	add("buffer", &bytes.Buffer{}, false)
	add("nil buffer", (*bytes.Buffer)(nil), false)
	add("discard", io.Discard, false)
	return ws, func() {
		for _, c := range closers {
			c.Close()
		}
	}
}

func dupFile(f *os.File) *os.File {
	fd, err := syscall.Dup(int(f.Fd()))
	if err != nil {
		panic("harness: " + err.Error())
	}
	syscall.CloseOnExec(fd)
	return os.NewFile(uintptr(fd), "out.json")
}

func setEnv(name, v string) {
	if v == "-" {
		os.Unsetenv(name)
	} else {
		os.Setenv(name, v)
	}
}

func getEnv(name string) string {
	if v, ok := os.LookupEnv(name); ok {
		return v
	}
	return "-"
}

// childTerm prints what IsColorTerminal says for each kind of writer.
func childTerm(args []string) int {
	dir := args[0]
	ws, done := writerKinds(dir)
	defer done()
	no, force, term := getEnv("NO_COLOR"), getEnv("FORCE_COLOR"), getEnv("TERM")
	var out bytes.Buffer
	for _, k := range ws {
		fmt.Fprintf(&out, "%s=%v\n", k.name, jc.IsColorTerminal(k.w))
	}
	if getEnv("NO_COLOR") != no || getEnv("FORCE_COLOR") != force || getEnv("TERM") != term {
		out.WriteString("environment changed\n")
	}
	os.Stdout.Write(out.Bytes())
	return 0
}

func envWith(no, force, term string, more ...string) []string {
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "TMPDIR=" + os.TempDir()}
	for _, v := range [][2]string{{"NO_COLOR", no}, {"FORCE_COLOR", force}, {"TERM", term}} {
		if v[1] != "-" {
			env = append(env, v[0]+"="+v[1])
		}
	}
	return append(env, more...)
}

func runC18(c *mon.Ctx) {
	type combo struct{ no, force, term string }
	var combos []combo
	for _, n := range noColors {
		for _, f := range forceColors {
			for _, t := range terms {
				combos = append(combos, combo{n, f, t})
			}
		}
	}
	base, err := os.MkdirTemp("", "c18-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(base)
	exe, _ := os.Executable()
	irrelevant := []string{"CLICOLOR=0", "CLICOLOR_FORCE=1", "COLORTERM=truecolor", "CI=1", "no_color=1", "force_color=1", "COLOR=0", "TERM_PROGRAM=dumb", "NOCOLOR=1"}
	c.Workload("processes", len(combos)*c.N(1, 3), func(w *mon.W) {
		k := combos[w.Index%len(combos)]
		dir := fmt.Sprintf("%s/p%d", base, w.Index)
		if err := os.Mkdir(dir, 0o700); err != nil {
			panic("harness: " + err.Error())
		}
		defer os.RemoveAll(dir)
		var more []string
		for n := w.R.IntN(3); n > 0; n-- {
			more = append(more, gen.Pick(w.R, irrelevant...))
		}
		r := runProg(60*time.Second, exe, envWith(k.no, k.force, k.term, more...), nil, "child", "term", dir)
		w.Note("NO_COLOR=%q FORCE_COLOR=%q TERM=%q (- is unset) %v", k.no, k.force, k.term, more)
		if r.code != 0 {
			w.Fatalf("the process ends with %d: %s", r.code, cut(crashLine(r.err), 2000))
		}
		n := 0
		for _, l := range strings.Split(strings.TrimSpace(string(r.out)), "\n") {
			name, got, ok := strings.Cut(l, "=")
			if !ok {
				w.Fatalf("%s", l)
			}
			tty := strings.HasPrefix(name, "terminal")
			if got != fmt.Sprint(policy(k.no, k.force, k.term, tty)) {
				w.Fatalf("%s: %s", name, got)
			}
			w.Count("answers", 1)
			if got == "true" {
				w.Count("answers: true", 1)
			}
			w.Distinct(k, name)
			n++
		}
		if n < 20 {
			panic("harness: too few kinds")
		}
		if w.WantSample() {
			w.Sample("%+v: %s", k, strings.ReplaceAll(cut(string(r.out), 200), "\n", " "))
		}
	})
	// The environment changes while the process runs.
	c.Serial("changes", 1, func(w *mon.W) {
		dir := base + "/changes"
		if err := os.Mkdir(dir, 0o700); err != nil {
			panic("harness: " + err.Error())
		}
		ws, done := writerKinds(dir)
		defer done()
		saved := combo{getEnv("NO_COLOR"), getEnv("FORCE_COLOR"), getEnv("TERM")}
		set := func(k combo) {
			setEnv("NO_COLOR", k.no)
			setEnv("FORCE_COLOR", k.force)
			setEnv("TERM", k.term)
		}
		defer set(saved)
		before := termios(ws[0].w.(*os.File))
		for n := c.N(4000, 10); n > 0; n-- {
			k := combos[w.R.IntN(len(combos))]
			set(k)
			x := ws[w.R.IntN(len(ws))]
			if got, want := jc.IsColorTerminal(x.w), policy(k.no, k.force, k.term, x.tty); got != want {
				w.Note("NO_COLOR=%q FORCE_COLOR=%q TERM=%q (- is unset) writer %s", k.no, k.force, k.term, x.name)
				w.Fatalf("%v", got)
			}
			w.Count("answers in a changing environment", 1)
		}
		if termios(ws[0].w.(*os.File)) != before {
			w.Fatalf("the settings of the terminal are changed")
		}
	})
	// The jc program applies the policy to standard output.
	bin := os.Getenv("VERIF_JC")
	doc := []byte(`{"a":[1,true,null,"x"]}`)
	c.Workload("jc", len(combos), func(w *mon.W) {
		if bin == "" {
			panic("harness: VERIF_JC is not set")
		}
		k := combos[w.Index]
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		tty := w.R.IntN(3) > 0
		flags := gen.Pick(w.R, []string{"-p=false"}, []string{"-p=false", "-c"}, []string{"-p=false", "-c=false"})
		cmd := exec.CommandContext(ctx, bin, flags...)
		cmd.Env = envWith(k.no, k.force, k.term)
		cmd.Stdin = bytes.NewReader(doc)
		var out []byte
		var r childResult
		if tty {
			m, s := openPty()
			cmd.Stdout = s
			c := readPty(m)
			r = runCmd(ctx, cmd)
			s.Close()
			out = <-c
			m.Close()
		} else {
			r = runCmd(ctx, cmd)
			out = r.out
		}
		w.Note("NO_COLOR=%q FORCE_COLOR=%q TERM=%q (- is unset) terminal=%v flags %v", k.no, k.force, k.term, tty, flags)
		want, _ := json.Marshal(json.RawMessage(doc))
		if r.code != 0 || string(strip(out)) != string(want)+"\n" {
			w.Fatalf("jc ends with %d and prints %s", r.code, q(out))
		}
		colored := bytes.ContainsRune(out, 0x1b)
		if wantC := policy(k.no, k.force, k.term, tty) && flags[len(flags)-1] != "-c=false"; colored != wantC {
			w.Fatalf("jc's output is colored: %v", colored)
		}
		w.Count("runs of jc", 1)
	})
	c.MustObserve("answers", 7000)
	c.MustObserve("answers: true", 1000)
	c.MustObserve("answers in a changing environment", 3000)
	c.MustObserve("runs of jc", 300)
}
