package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"slices"
	"strings"
	"syscall"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C12",
		Rule: "streams of values, valid, damaged or cut off, delivered by scripted readers (every single split, pairs of splits, single bytes, random pieces, empty reads, errors alone or with data, at every point) across the buffer's growth; each call's result and each Read call are recorded and checked against encoding/json reading the same script and against the positions of the values; non-trivial: distinct streams with at least two reads",
		Run:  runC12})
}

type piece struct {
	b   []byte
	err error
}

// script delivers pieces and records what happens at the boundary.
type script struct {
	pieces    []piece
	delivered int
	final     error // error that was returned
	reads     int
	// onRead is called before each read.
	onRead func(s *script, room int)
}

func (s *script) Read(p []byte) (int, error) {
	s.reads++
	if s.onRead != nil {
		s.onRead(s, len(p))
	}
	if s.final != nil {
		return 0, s.final
	}
	if len(s.pieces) == 0 {
		s.final = io.EOF
		return 0, io.EOF
	}
	pc := &s.pieces[0]
	n := copy(p, pc.b)
	pc.b = pc.b[n:]
	s.delivered += n
	if len(pc.b) > 0 {
		return n, nil
	}
	err := pc.err
	s.pieces = s.pieces[1:]
	if err != nil {
		s.final = err
	}
	return n, err
}

func clonePieces(ps []piece) []piece { return append([]piece(nil), ps...) }

func showPieces(ps []piece) string {
	var sb strings.Builder
	for i, p := range ps {
		if i > 30 {
			fmt.Fprintf(&sb, " ... %d pieces", len(ps))
			break
		}
		if len(p.b) > 120 {
			fmt.Fprintf(&sb, " (%d bytes %q...%q", len(p.b), p.b[:50], p.b[len(p.b)-50:])
		} else {
			fmt.Fprintf(&sb, " (%q", p.b)
		}
		if p.err != nil {
			fmt.Fprintf(&sb, " err=%v", p.err)
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// The errors of readers; those that wrap io.EOF are no ends.
var (
	errReader  = errors.New("the reader failed")
	errReaders = []error{errReader, fmt.Errorf("the connection was lost: %w", io.EOF), fmt.Errorf("cut off: %w", io.ErrUnexpectedEOF), io.ErrNoProgress, io.ErrClosedPipe, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, &json.SyntaxError{Offset: 3}}
)

// class of an error of a Decoder.
func class(err error) string {
	if slices.Contains(errReaders, err) {
		return "reader"
	}
	switch e := err.(type) {
	case nil:
		return "nil"
	case *json.SyntaxError:
		return "syntax"
	case *json.InvalidUnmarshalError:
		return "invalid target"
	default:
		switch {
		case err == io.EOF:
			return "EOF"
		case err == io.ErrUnexpectedEOF:
			return "unexpected EOF"
		}
		_ = e
		return "refused"
	}
}

type extent struct {
	start, end int
	number     bool
}

// extents finds the values of a stream, until it is no longer valid.
func extents(b []byte) (es []extent) {
	at := 0
	for at < len(b) {
		d, err := ref.Prefix(b[at:])
		if err != nil {
			return es
		}
		es = append(es, extent{at + d.Start, at + d.End, d.Toks[0].Kind == '0'})
		at += d.End
	}
	return es
}

// runScript checks the Decoder on one script. targets makes the target of the
// i-th call.
func runScript(w *mon.W, pieces []piece, targets func(i int) interface{}) {
	var stream []byte
	for _, p := range pieces {
		stream = append(stream, p.b...)
	}
	es := extents(stream)
	pos := 0 // of the value being waited for
	sr := &script{pieces: clonePieces(pieces)}
	jr := &script{pieces: clonePieces(pieces)}
	jr.onRead = func(s *script, room int) {
		if room == 0 {
			w.Fatalf("Read is called without room, script%s", showPieces(pieces))
		}
		if s.final != nil {
			w.Count("reads after an error", 1)
		}
		if pos < len(es) {
			e := es[pos]
			if s.delivered > e.end || s.delivered == e.end && !e.number {
				w.Fatalf("Read is called for more after %d bytes though value %d ends at byte %d, script%s", s.delivered, pos, e.end, showPieces(pieces))
			}
		}
		w.Count("reads checked", 1)
	}
	sd, jd := json.NewDecoder(sr), jc.NewDecoder(jr)
	lastStop := ""
	after, readsThen := 0, 0
	var kept [][2]interface{}
	for i := 0; i < 100000; i++ {
		a, b := targets(i), targets(i)
		serr, jerr := sd.Decode(a), jd.Decode(b)
		sc, jcl := class(serr), class(jerr)
		if sc != jcl {
			if sc == "refused" && jcl == "nil" && b != nil && durExt(reflect.TypeOf(b).Elem(), serr) {
				jcl = sc
			} else if sc == "reader" && pos == len(es)-1 && !es[pos].number && es[pos].end == len(stream) && (jcl == "nil" || jcl == "refused" || jcl == "invalid target") {
				// encoding/json wants to see a byte more after a string or a
				// literal; without it the value is not returned.
				serr = json.Unmarshal(stream[es[pos].start:es[pos].end], a)
				if sc = class(serr); sc != jcl {
					w.Fatalf("call %d into %T: %s, by encoding/json on the value alone: %s, script%s", i, b, jcl, sc, showPieces(pieces))
				}
				w.Count("complete values right before an error of the reader", 1)
			} else {
				w.Fatalf("call %d into %T: encoding/json %s (%v), jsoncolor %s (%v), script%s", i, b, sc, serr, jcl, jerr, showPieces(pieces))
			}
		}
		if sc == "nil" && !same(reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()) {
			w.Fatalf("call %d into %T: encoding/json %s, jsoncolor %s, script%s", i, b, shortDump(reflect.ValueOf(a)), shortDump(reflect.ValueOf(b)), showPieces(pieces))
		}
		if sc == "nil" || sc == "refused" || sc == "invalid target" {
			if pos >= len(es) {
				w.Fatalf("call %d decodes a value though there are only %d, script%s", i, len(es), showPieces(pieces))
			}
			// Where the stream stands now.
			off := int(jd.InputOffset())
			lo, hi := es[pos].end, len(stream)
			hi = lo + len(stream[lo:]) - len(bytes.TrimLeft(stream[lo:], " \t\r\n"))
			if off < lo || off > hi {
				w.Fatalf("InputOffset is %d after value %d, which is followed by white space from %d to %d, script%s", off, pos, lo, hi, showPieces(pieces))
			}
			buffered, _ := io.ReadAll(jd.Buffered())
			if len(buffered) > 0 && len(buffered) > len(stream) || off+len(buffered) != jr.delivered || !bytes.Equal(buffered, stream[off:jr.delivered]) {
				w.Fatalf("after value %d, at offset %d with %d bytes read, Buffered has %s, script%s", pos, off, jr.delivered, q(buffered), showPieces(pieces))
			}
			if sc == "nil" && len(kept) < 50 {
				kept = append(kept, [2]interface{}{a, b})
			}
			pos++
			w.Count("values", 1)
			continue
		}
		if lastStop != "" && lastStop != jcl {
			w.Fatalf("call %d gives %s after %s, script%s", i, jcl, lastStop, showPieces(pieces))
		}
		if lastStop == "syntax" && jr.reads != readsThen {
			w.Fatalf("call %d reads on after a syntax error, script%s", i, showPieces(pieces))
		}
		lastStop, readsThen = jcl, jr.reads
		if after++; after > 2 {
			break
		}
	}
	if lastStop != "syntax" && pos != len(es) && !(lastStop == "reader" && pos == len(es)-1 && es[pos].number && es[pos].end == len(stream)) {
		w.Fatalf("%d of %d values were delivered before %s, script%s", pos, len(es), lastStop, showPieces(pieces))
	}
	for i, k := range kept {
		if len(kept) > 1 && !same(reflect.ValueOf(k[0]).Elem(), reflect.ValueOf(k[1]).Elem()) {
			w.Fatalf("value %d into %T is %s at the end of the stream, by encoding/json %s, script%s", i, k[1], shortDump(reflect.ValueOf(k[1])), shortDump(reflect.ValueOf(k[0])), showPieces(pieces))
		}
	}
	w.Count("ends with "+lastStop, 1)
	if len(pieces) > 1 {
		for _, p := range pieces {
			w.Distinct(stream, len(p.b))
			break
		}
	}
}

// cutAt splits a stream at the given ascending positions.
func cutAt(b []byte, at ...int) (ps []piece) {
	last := 0
	for _, i := range at {
		ps = append(ps, piece{b: b[last:i]})
		last = i
	}
	return append(ps, piece{b: b[last:]})
}

// randPieces splits a stream at random, with empty reads, and ends it.
func randPieces(w *mon.W, b []byte, mx int) (ps []piece) {
	for len(b) > 0 {
		n := min(len(b), 1+w.R.IntN(mx))
		ps = append(ps, piece{b: b[:n]})
		b = b[n:]
		if gen.Chance(w.R, 8) {
			ps = append(ps, piece{})
		}
	}
	return ending(w, ps)
}

// ending adds how the stream ends.
func ending(w *mon.W, ps []piece) []piece {
	switch w.R.IntN(5) {
	case 0:
		if len(ps) > 0 {
			ps[len(ps)-1].err = io.EOF
		}
	case 1:
		ps = append(ps, piece{err: gen.Pick(w.R, errReaders...)})
	case 2:
		if len(ps) > 0 {
			ps[len(ps)-1].err = gen.Pick(w.R, errReaders...)
		}
	}
	return ps
}

func anyTarget(int) interface{} { return new(interface{}) }
func rawTarget(int) interface{} { return new(json.RawMessage) }

func runC12(c *mon.Ctx) {
	ts := append(decodable(typePool(c, 1400))[:600:600], decodable(zoo.Types())...)
	targetsFor := func(w *mon.W) func(int) interface{} {
		switch w.R.IntN(5) {
		case 0:
			return rawTarget
		case 1, 2:
			return anyTarget
		case 3:
			t := reflect.TypeOf(skipSome{})
			return func(int) interface{} { return reflect.New(t).Interface() }
		}
		k := w.R.IntN(10000)
		return func(i int) interface{} {
			switch (k + i) % 6 {
			case 0:
				return new(interface{})
			case 1:
				return new(string)
			case 2:
				return nil
			case 3:
				return new(skipAll)
			case 4:
				return new(int)
			}
			return new(map[string]interface{})
		}
	}
	// Every split of small streams.
	small := []string{
		`{"a":[1,2.5e1,"xA\u00e9\n"],"b":{}} [ ] "s" 12 -0.5 null true false `,
		"1\n2\n3", `"\ud83d\ude00\\" "" "a"`, "-1 0 1e5 12345678901234567890 3", "[[[]]][][1]{}{\"a\":{}}", "nullnull", "truefalse1", `1"a"2[3]4`,
		"\t \n{\"x\" :\r\n 1 , \"y\":[ ] }\n\n", "123", `"abc"`, `{"a":1`, `[1,2`, `"ab`, `"ab\u00`, "tru", "-", "1.", "1e", "1e+", "nulx", "[1,]", `{"a" 1}`, `{"a":1,}`, "01", "1 2 x 3", "[1]]", "}", ",", `{"a":"\q"}`, "\"\x01\"", "", " ", "\n\n", `"é"`, "\"\xff\"", "[\"\\ud800\"]",
	}
	type split struct {
		doc  string
		i, j int
	}
	var splits []split
	for _, s := range small {
		for i := 0; i <= len(s); i++ {
			splits = append(splits, split{s, i, i})
			for j := i + 1; j <= len(s) && (c.Tier == "thorough" || len(s) < 40 || (i+j)%3 == 0); j++ {
				splits = append(splits, split{s, i, j})
			}
		}
	}
	c.Workload("all-splits", len(splits), func(w *mon.W) {
		s := splits[w.Index]
		for _, mk := range []func(int) interface{}{anyTarget, rawTarget, func(int) interface{} { return new(skipSome) }} {
			b := []byte(s.doc)
			for e := 0; e < 4; e++ {
				ps := cutAt(b, s.i, s.j)
				switch e {
				case 1:
					ps[2].err = io.EOF
				case 2:
					ps[2].err = errReaders[(s.i+s.j)%len(errReaders)]
				case 3:
					ps = append(ps[:2:2], piece{err: errReaders[(s.i+s.j)%len(errReaders)]}) // cut off
				}
				runScript(w, ps, mk)
				w.Count("enumerated splits", 1)
			}
		}
	})
	c.Workload("bytewise", c.N(6000, 8), func(w *mon.W) {
		b := streamOf(w, ts, 400)
		var ps []piece
		for i := range b {
			ps = append(ps, piece{b: b[i : i+1]})
		}
		runScript(w, ending(w, ps), targetsFor(w))
	})
	c.Workload("random", c.N(20000, 10), func(w *mon.W) {
		b := streamOf(w, ts, gen.Pick(w.R, 50, 400, 3000))
		ps := randPieces(w, b, gen.Pick(w.R, 5, 50, 1000, 5000))
		if w.WantSample() {
			w.Sample("%s", showPieces(ps))
		}
		runScript(w, ps, targetsFor(w))
	})
	c.Workload("damaged", c.N(20000, 10), func(w *mon.W) {
		b := streamOf(w, ts, gen.Pick(w.R, 20, 100, 400))
		if gen.Chance(w.R, 2) {
			b = b[:w.R.IntN(len(b)+1)]
		} else {
			b = []byte(gen.Mutate(w.R, string(b)))
		}
		runScript(w, randPieces(w, b, gen.Pick(w.R, 5, 50, 1000)), targetsFor(w))
	})
	// Around the sizes at which the buffer grows or is full.
	c.Workload("boundaries", c.N(900, 8), func(w *mon.W) {
		size := gen.Pick(w.R, 4096, 32768, 28672, 65536, 61440, 131072) + w.R.IntN(41) - 20
		var b []byte
		switch w.R.IntN(7) {
		case 0: // one value of that size
			b = []byte(`"` + strings.Repeat("s", size-2) + `"`)
		case 1: // a value that begins there
			b = append([]byte(`["`+strings.Repeat("p", size-gen.Pick(w.R, 4, 5, 12))+`"]`), streamOf(w, ts, 200)...)
		case 2:
			b = []byte(strings.Repeat(" ", size-w.R.IntN(10)))
			b = append(b, streamOf(w, ts, 100)...)
		case 3:
			b = []byte("[" + strings.Repeat("1,", size/2-w.R.IntN(6)) + "1]")
			b = append(b, streamOf(w, ts, 100)...)
		case 5: // a long number
			b = append([]byte(gen.Pick(w.R, "-1", "0.0", "12e0", "7")), bytes.Repeat([]byte(gen.Pick(w.R, "0", "1")), gen.Pick(w.R, size, 4500+w.R.IntN(4000)))...)
			b = append(b, gen.Pick(w.R, " ", "\n", "[1]", "null", `"x"`)...)
			size = len(b) - w.R.IntN(3)
			b = append(b, streamOf(w, ts, 100)...)
		case 6: // a mistake amid a long value
			if gen.Chance(w.R, 2) {
				size = 5000
			}
			b = []byte("[" + strings.Repeat("1,", size/4) + gen.Pick(w.R, "x,", ",", "{],", `"\q",`, "1 2,", "}") + strings.Repeat("1,", size/4+1+w.R.IntN(4000)) + "1]")
			b = append(b, streamOf(w, ts, 100)...)
		case 4:
			for len(b) < size+300 {
				b = append(b, streamOf(w, ts, 2000)...)
				b = append(b, ' ')
			}
		}
		var ps []piece
		switch w.R.IntN(4) {
		case 0:
			ps = cutAt(b, min(len(b), size))
		case 1:
			k := min(len(b)-1, max(0, size-3+w.R.IntN(6)))
			ps = cutAt(b, k, k+1)
		case 2:
			ps = []piece{{b: b}}
		case 3:
			ps = randPieces(w, b, 20000)
		}
		runScript(w, ending(w, ps), targetsFor(w))
		w.Count("streams longer than the buffer", 1)
	})
	c.MustObserve("values", 200000)
	c.MustObserve("reads checked", 300000)
	c.MustObserve("enumerated splits", 15000)
	c.MustObserve("streams longer than the buffer", 100)
	for _, s := range []string{"EOF", "unexpected EOF", "reader", "syntax"} {
		c.MustObserve("ends with "+s, 1000)
	}
}

// streamOf makes a stream of values of about the given length.
func streamOf(w *mon.W, ts []reflect.Type, size int) (b []byte) {
	for len(b) < size {
		var doc string
		switch w.R.IntN(4) {
		case 0:
			doc = gen.DocFor(w.R, pickType(w.R, ts), 1+w.R.IntN(3), 20)
		case 1:
			doc = gen.NumberTok(w.R)
			if !ref.Valid([]byte(doc)) {
				doc = "7"
			}
		default:
			doc = gen.Doc(w.R, 1+w.R.IntN(4))
		}
		b = append(b, doc...)
		b = append(b, gen.WS(w.R)...)
		if gen.Chance(w.R, 8) && len(b) > 0 && !strings.ContainsRune("0123456789", rune(b[len(b)-1])) {
			continue
		}
		b = append(b, gen.Pick(w.R, " ", "\n", "\r\n", "\t")...)
	}
	return b
}
