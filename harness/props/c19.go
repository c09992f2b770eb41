package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
)

func init() {
	register(&mon.Prop{ID: "C19",
		Rule: "the jc program is run with random options in random spellings on valid and invalid documents, from pipes, files and -i, to pipes, files, terminals, full devices and -o paths of all kinds, under environments that ask for color or not; exit status, standard output, standard error and the files afterwards are compared with what encoding/json makes of the document; non-trivial: a document which is printed, distinct by options and document",
		Run:  runC19})
}

func runC19(c *mon.Ctx) {
	bin := os.Getenv("VERIF_JC")
	if bin == "" {
		panic("harness: VERIF_JC is not set")
	}
	base, err := os.MkdirTemp("", "c19-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(base)
	check := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	c.Workload("runs", c.N(9000, 12), func(w *mon.W) {
		var err error
		dir := fmt.Sprintf("%s/r%d", base, w.Index)
		check(os.Mkdir(dir, 0o700))
		defer os.RemoveAll(dir)

		// The input.
		var doc []byte
		switch w.R.IntN(12) {
		case 0:
			doc = []byte(gen.Mutate(w.R, gen.Doc(w.R, 3)))
		case 1:
			doc = []byte(gen.Soup(w.R))
		case 2:
			d := gen.Doc(w.R, 3)
			doc = []byte(d[:w.R.IntN(len(d)+1)])
		case 3:
			doc = []byte(gen.Pick(w.R, "", " \n", "1 2", "{}{}", "[1,]", "nul", `"\x"`, "\xef\xbb\xbf{}", "1e999", "'a'", "{a:1}", "01", "[", "]"))
		case 4: // larger than a pipe
			doc = []byte("[" + strings.Repeat(gen.Doc(w.R, 2)+",", 1+w.R.IntN(6000)) + "null]")
		default:
			doc = []byte(gen.WS(w.R) + gen.Doc(w.R, 1+w.R.IntN(6)) + gen.WS(w.R))
		}
		if len(doc) > 4<<20 {
			return
		}
		var v interface{}
		valid := json.Unmarshal(doc, &v) == nil

		// The options.
		pretty, colorize := true, true
		var args []string
		boolFlag := func(name string, v *bool) {
			switch w.R.IntN(6) {
			case 0, 1:
				*v = false
				args = append(args, gen.Pick(w.R, "-", "--")+name+"="+gen.Pick(w.R, "false", "0", "f", "F", "False", "FALSE"))
			case 2:
				args = append(args, gen.Pick(w.R, "-", "--")+name+gen.Pick(w.R, "", "=true", "=1", "=t", "=TRUE"))
			case 3:
				if gen.Chance(w.R, 4) { // the last one counts
					*v = false
					args = append(args, "-"+name, "-"+name+"=false")
				}
			}
		}
		boolFlag("p", &pretty)
		boolFlag("c", &colorize)
		failure := ""
		stdin := io.Reader(nil)
		var stdinFile *os.File
		inPath := ""
		in := w.R.IntN(8)
		switch {
		case in < 3:
			stdin = bytes.NewReader(doc) // a pipe
		case in == 3: // a file as standard input
			check(os.WriteFile(dir+"/stdin", doc, 0o600))
			stdinFile, err = os.Open(dir + "/stdin")
			check(err)
		case in == 4 && gen.Chance(w.R, 3):
			stdinFile, err = os.Open("/dev/null")
			check(err)
			failure = "a device as standard input"
		case in == 5 && gen.Chance(w.R, 3):
			inPath = gen.Pick(w.R, dir+"/missing", dir, "missing/file", dir+"/stdin/x")
			args = append(args, "-i", inPath)
			failure = "an unreadable input file"
		case in == 6 && gen.Chance(w.R, 3): // a file without a size
			stdin = bytes.NewReader(doc)
			args = append(args, "-i", gen.Pick(w.R, "/dev/stdin", "/dev/fd/0"))
			w.Count("input files which are pipes", 1)
		default:
			inPath = dir + "/" + gen.Pick(w.R, "in.json", "in put", "ü.json", "-i")
			check(os.WriteFile(inPath, doc, 0o600))
			p := inPath
			if gen.Chance(w.R, 2) {
				p = "./" + filepath.Base(p)
			}
			if gen.Chance(w.R, 2) {
				args = append(args, "-i", p)
			} else {
				args = append(args, "--i="+p)
			}
			if gen.Chance(w.R, 2) {
				stdin = strings.NewReader(`"not this"`)
			}
		}
		outPath, old := "", []byte(nil)
		switch k := w.R.IntN(9); {
		case k < 4:
		case k == 4 && gen.Chance(w.R, 2):
			check(os.WriteFile(dir+"/plain", []byte("kept"), 0o600))
			args = append(args, "-o", gen.Pick(w.R, dir, "plain/x.json", dir+"/plain/a/b"))
			failure = "an output file which cannot be made"
		case k == 4:
			args = append(args, "-o", "/dev/full")
			failure = "a full device"
		case k == 5 && inPath != "" && failure == "":
			outPath = inPath // in place
			args = append(args, "-o", outPath)
			old = doc
		default:
			outPath = dir + "/" + gen.Pick(w.R, "out.json", "a/b/c/out.json", "out put", "é", "x/../y.json", "./z")
			if gen.Chance(w.R, 2) {
				check(os.MkdirAll(filepath.Dir(outPath), 0o700))
				old = bytes.Repeat([]byte("old content\n"), w.R.IntN(500))
				check(os.MkdirAll(dir+"/x", 0o700))
				check(os.WriteFile(outPath, old, 0o600))
			}
			p := outPath
			if gen.Chance(w.R, 2) {
				p = strings.TrimPrefix(p, dir+"/")
			}
			args = append(args, gen.Pick(w.R, "-o=", "--o=")+p)
		}
		if gen.Chance(w.R, 25) {
			args = append(args, gen.Pick(w.R, "-x", "-p=maybe", "--pretty", "-o", "-c=2"))
			failure = "a bad option"
		}
		no, force, term := gen.Pick(w.R, "-", "-", "-", "", "1"), gen.Pick(w.R, "-", "-", "", "1", "0"), gen.Pick(w.R, "xterm", "-", "dumb")

		// Standard output.
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = dir
		cmd.Env = envWith(no, force, term)
		if stdinFile != nil {
			cmd.Stdin = stdinFile
			defer stdinFile.Close()
		} else {
			if stdin == nil {
				stdin = strings.NewReader("")
			}
			cmd.Stdin = stdin
		}
		tty := false
		var out []byte
		var r childResult
		full := false
		switch k := w.R.IntN(8); {
		case k == 0:
			tty = true
			m, s := openPty()
			cmd.Stdout = s
			ch := readPty(m)
			r = runCmd(ctx, cmd)
			s.Close()
			out = <-ch
			m.Close()
		case k == 1 && outPath == "" && failure == "":
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			check(err)
			cmd.Stdout = f
			full = true
			r = runCmd(ctx, cmd)
			f.Close()
		case k == 2:
			f, err := os.Create(dir + "/stdout")
			check(err)
			cmd.Stdout = f
			r = runCmd(ctx, cmd)
			f.Close()
			out, err = os.ReadFile(dir + "/stdout")
			check(err)
		default:
			r = runCmd(ctx, cmd)
			out = r.out
		}
		w.Note("jc %q input %s", args, q(doc))
		w.Note("NO_COLOR=%q FORCE_COLOR=%q TERM=%q terminal=%v full=%v input by %d", no, force, term, tty, full, in)
		if r.timeout {
			w.Fatalf("jc does not end")
		}
		var file []byte
		fileThere := false
		if outPath != "" {
			file, err = os.ReadFile(filepath.Clean(outPath))
			fileThere = err == nil
		}
		if !valid || failure != "" || full {
			if failure == "" {
				failure = "invalid input"
				if valid {
					failure = "a full device"
				}
			}
			if r.code == 0 || r.signal != 0 {
				w.Fatalf("%s: exit status %d %v", failure, r.code, r.signal)
			}
			if len(r.err) == 0 {
				w.Fatalf("%s: nothing on standard error", failure)
			}
			if bytes.Contains(r.err, []byte("panic:")) || bytes.Contains(r.err, []byte("goroutine ")) {
				w.Fatalf("%s: %s", failure, cut(string(r.err), 1500))
			}
			if len(out) != 0 {
				w.Fatalf("%s: prints %s", failure, q(out))
			}
			if fileThere && !bytes.Equal(file, old) || !fileThere && old != nil {
				w.Fatalf("%s: the output file holds %s, before: %s", failure, q(file), q(old))
			}
			w.Count("failures: "+failure, 1)
			return
		}
		if r.code != 0 || r.signal != 0 {
			w.Fatalf("exit status %d %v: %s", r.code, r.signal, cut(string(r.err), 1500))
		}
		if len(r.err) != 0 {
			w.Fatalf("on standard error: %s", cut(string(r.err), 1500))
		}
		var want []byte
		if pretty {
			want, err = json.MarshalIndent(v, "", "  ")
		} else {
			want, err = json.Marshal(v)
		}
		check(err)
		want = append(want, '\n')
		if outPath != "" {
			if len(out) != 0 {
				w.Fatalf("with -o, prints %s", q(out))
			}
			if !fileThere || !sameEnc(file, want) {
				w.Fatalf("the output file holds %s\nwant %s", q(file), q(want))
			}
			if left, _ := filepath.Glob(outPath + "?*"); len(left) > 0 {
				w.Fatalf("leaves files behind: %v", left)
			}
			w.Count("documents in output files", 1)
		} else if colorize && policy(no, force, term, tty) {
			if got := strip(out); !sameEnc(got, want) {
				w.Fatalf("without the colors: %s\nwant %s", q(got), q(want))
			}
			var ind *jc.Indenter
			if pretty {
				ind = jc.NewIndenter("", "  ")
			}
			cw, err := jc.Append(nil, v, jc.SortMapKeys|jc.EscapeHTML, jc.DefaultColors(), ind)
			check(err)
			if got := bytes.TrimSuffix(out, []byte("\n")); !bytes.Equal(got, cw) {
				w.Fatalf("prints %s\nwant %s", q(got), q(cw))
			}
			w.Count("documents in color", 1)
		} else {
			if !sameEnc(out, want) {
				w.Fatalf("prints %s\nwant %s", q(out), q(want))
			}
			w.Count("documents without color", 1)
		}
		if inPath != "" && outPath != inPath {
			if b, err := os.ReadFile(inPath); err != nil || !bytes.Equal(b, doc) {
				w.Fatalf("the input file changed to %s (%v)", q(b), err)
			}
		}
		w.Distinct(args, doc)
		if w.WantSample() {
			w.Sample("jc %q < %s", args, cut(string(doc), 200))
		}
	})
	// Whoever reads standard error can tell one reason from another.
	c.Workload("reasons", 40, func(w *mon.W) {
		dir := fmt.Sprintf("%s/reason%d", base, w.Index)
		check(os.Mkdir(dir, 0o700))
		defer os.RemoveAll(dir)
		said := map[string]string{}
		for why, how := range map[string]struct {
			args []string
			in   string
		}{
			"invalid input":                       {nil, gen.Pick(w.R, "[1,]", "{", "tru", "{} {}", "")},
			"an input file which is not there":    {[]string{"-i", dir + "/missing"}, "{}"},
			"an output file which cannot be made": {[]string{"-o", dir}, "{}"},
		} {
			args := append(gen.Pick(w.R, nil, []string{"-c"}, []string{"-p=false"}, []string{"-c=false"}), how.args...)
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			cmd := exec.CommandContext(ctx, bin, args...)
			cmd.Dir = dir
			cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
			cmd.Stdin = strings.NewReader(how.in)
			r := runCmd(ctx, cmd)
			cancel()
			if r.code == 0 || len(r.out) != 0 {
				w.Fatalf("jc %q: %s: exit status %d, prints %s", args, why, r.code, q(r.out))
			}
			for why2, s := range said {
				if s == string(r.err) {
					w.Fatalf("jc %q: standard error does not tell %s from %s: %s", args, why, why2, cut(s, 600))
				}
			}
			said[why] = string(r.err)
			w.Count("reasons told apart", 1)
		}
	})
	c.MustObserve("input files which are pipes", 200)
	c.MustObserve("reasons told apart", 100)
	c.MustObserve("documents in output files", 1200)
	c.MustObserve("documents in color", 400)
	c.MustObserve("documents without color", 1500)
	for f, n := range map[string]int64{"invalid input": 800, "a full device": 150, "a device as standard input": 100, "an unreadable input file": 100,
		"an output file which cannot be made": 150, "a bad option": 100} {
		c.MustObserve("failures: "+f, n)
	}
}
