package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	commb "github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

// C27: the command-line tool, observed from outside. The trace it prints is cut at the lines that echo the input; each
// section must be what the library says of that input line alone, in the order of the input.

// cliExpect is the section of one line: what its non-blank lines say. any: one error line of any text.
func cliExpect(line string, level int, obs func(string)) (want []string, any bool) {
	say := func(s string) {
		for _, l := range strings.Split(s, "\n") {
			if n := cliNorm(l); n != "" {
				want = append(want, n)
			}
		}
	}
	data, err := hex.DecodeString(line)
	if err != nil {
		obs("not hexadecimal")
		return nil, true
	}
	m, err := modesreader.ReadMessage(data)
	if err != nil {
		obs("refused as a Mode S reply")
		say(err.Error())
		return
	}
	df := m.GetDownLinkFormat()
	addr, err := modesreader.CheckCRC(m, data, nil, nil)
	if err != nil {
		obs(fmt.Sprintf("DF%d with a bad parity", df))
		say(err.Error())
		return
	}
	obs(fmt.Sprintf("DF%d", df))
	say("-- Mode-S Information --")
	if df == 11 {
		say("In reply to interrogator: " + addr.ToString())
	} else {
		say("From: " + addr.ToString())
	}
	say(m.ToString())
	es := func(me []byte) {
		say("-- ADSB Information --")
		a, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(level), false, false, me)
		if err != nil {
			obs("extended squitter not decodable")
			say(err.Error())
			return
		}
		t := typeChain(a)
		obs(fmt.Sprintf("version %d %s", level, t[0]))
		say(a.ToString())
	}
	mb := func(b []byte) {
		say("-- Comm-B Information --")
		l, err := commb.ReadCommBMessage(b)
		if err != nil {
			obs("Comm-B not decodable")
			say(err.Error())
			return
		}
		if len(l) == 0 {
			obs("Comm-B of unknown format")
			say("Unknown message format")
			return
		}
		if len(l) > 1 {
			obs("Comm-B with several readings")
		}
		for i, x := range l {
			obs("Comm-B register " + x.GetRegister().GetId())
			if i > 0 {
				say("-------------------------------")
			}
			say(x.ToString())
		}
	}
	switch x := m.(type) {
	case *messages.MessageDF16:
		say("-- ACAS Information --")
		v := x.MessageACAS
		if v[0] != 0x30 {
			obs("air-air reply of unknown content")
			say(fmt.Sprintf("Unknown message type: [%X:%X]", v[0]>>4, v[0]&15))
			return
		}
		a, err := ra.ReadResolutionAdvisory(v[1:])
		if err != nil {
			obs("resolution advisory not decodable")
			say(err.Error())
			return
		}
		obs("resolution advisory")
		say(a.ToString())
	case *messages.MessageDF17:
		es(x.MessageExtendedSquitter)
	case *messages.MessageDF18:
		switch x.ControlField {
		case 0, 1:
			obs("DF18 ADS-B")
			es(x.MessageExtendedSquitter)
		case 2, 3, 4, 5:
			obs("DF18 TIS-B")
			say("-- TISB Information --")
			say("Not implemented")
		default:
			obs("DF18 of another kind")
		}
	case *messages.MessageDF20:
		mb(x.MessageCommB)
	case *messages.MessageDF21:
		mb(x.MessageCommB)
	}
	return
}

// cliNorm compares without regard to letter case and runs of white space.
func cliNorm(l string) string { return strings.Join(strings.Fields(strings.ToLower(l)), " ") }

// cliCheck compares the trace with the sections of the lines; bad is the first line that is not reported right.
func cliCheck(out []byte, lines []string, level int, obs func(string)) (what string, bad int) {
	got := strings.Split(string(out), "\n")
	at := 0
	skip := func() {
		for at < len(got) && strings.TrimSpace(got[at]) == "" {
			at++
		}
	}
	here := func() string {
		if at >= len(got) {
			return "the end of the output"
		}
		l := got[at]
		if len(l) > 200 {
			l = l[:200] + "…"
		}
		return fmt.Sprintf("%q", l)
	}
	short := func(s string) string {
		if len(s) > 80 {
			return fmt.Sprintf("%.80q… (%d bytes)", s, len(s))
		}
		return fmt.Sprintf("%q", s)
	}
	for i, line := range lines {
		skip()
		if at >= len(got) || strings.TrimSpace(got[at]) != strings.TrimSpace("Reading: "+line) {
			return fmt.Sprintf("line %d, %s, is not echoed in its place: found %s", i+1, short(line), here()), i
		}
		at++
		want, any := cliExpect(line, level, obs)
		if any {
			skip()
			if at >= len(got) || strings.HasPrefix(got[at], "Reading: ") {
				return fmt.Sprintf("line %d, %s, is not hexadecimal, but no error is printed: found %s", i+1, short(line), here()), i
			}
			if cliNorm(got[at]) == "-- mode-s information --" {
				return fmt.Sprintf("line %d, %s, is not hexadecimal, but it is decoded", i+1, short(line)), i
			}
			at++
			continue
		}
		for k, w := range want {
			skip()
			if at >= len(got) || cliNorm(got[at]) != w {
				return fmt.Sprintf("line %d, %s, version %d: row %d of its report should say %q; found %s", i+1, short(line), level, k+1, w, here()), i
			}
			at++
		}
	}
	skip()
	if at < len(got) {
		return fmt.Sprintf("after the last line, the output goes on: %s", here()), len(lines) - 1
	}
	return "", -1
}

func runTool(args []string) (out []byte, fail string) { return runToolOn(nil, args) }

// runToolOn gives the pieces to the tool's standard input, one by one.
func runToolOn(pieces [][]byte, args []string) (out []byte, fail string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, *flagAux, args...)
	if pieces != nil {
		in, err := cmd.StdinPipe()
		if err != nil {
			die("pipe: %v", err)
		}
		go func() {
			for _, p := range pieces {
				in.Write(p)
				time.Sleep(time.Millisecond)
			}
			in.Close()
		}()
	}
	var o bytes.Buffer
	var e tailBuffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		return o.Bytes(), "the tool did not end within 120 s"
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			die("cannot run the tool: %v", err)
		}
		s := e.String()
		if len(s) > 300 {
			s = s[:300]
		}
		return o.Bytes(), fmt.Sprintf("the tool failed (%v): %s", err, s)
	}
	return o.Bytes(), ""
}

// cliLines are the lines of a file: ended by LF or CR LF, the last one possibly not ended.
func cliLines(d []byte) []string {
	if len(d) == 0 {
		return nil
	}
	l := strings.Split(strings.TrimSuffix(string(d), "\n"), "\n")
	for i := range l {
		l[i] = strings.TrimSuffix(l[i], "\r")
	}
	return l
}

var cliStyle = func(level int) [][]string {
	return [][]string{
		{"-adsb_reader_level", fmt.Sprint(level)},
		{fmt.Sprintf("-adsb_reader_level=%d", level)},
		{fmt.Sprintf("--adsb_reader_level=%d", level)},
	}
}

func checkCLI(c *Ctx, cs *Case) {
	if *flagAux == "" {
		die("the tool was not built")
	}
	level, style := int(cs.A[0]), int(cs.A[1])
	opts := cliStyle(level)[style%3]
	if level == 0 && style >= 3 {
		opts = nil // the default
		c.Obs("default version")
	}
	var lines []string
	var args []string
	var pieces [][]byte
	switch cs.K {
	case "none":
		out, fail := runTool(nil)
		if fail != "" {
			c.Fail("without arguments: %s", fail)
		} else if strings.Contains(string(out), "Reading") {
			c.Fail("without arguments, the tool reports something: %q", out)
		}
		c.Obs("no argument")
		c.NonTrivial()
		return
	case "broken":
		missing := filepath.Join(os.TempDir(), fmt.Sprintf("modesverif.missing.%d", os.Getpid()))
		good := "8D4BAB4558AB031C446849B72535"
		var args []string
		var what string
		switch cs.A[2] {
		case 0:
			args, what = append(append([]string{}, opts...), "-file", missing), "a file that does not exist"
		case 1:
			args, what = append(append([]string{}, opts...), "-file", os.TempDir()), "a directory given as the file"
		default:
			v := []string{"3", "-1", "4", "256", "x", "", "1.5", "4294967296", "18446744073709551616"}[cs.A[3]%9]
			args, what = []string{"-adsb_reader_level=" + v, good}, "a version that does not exist"
		}
		out, fail := runTool(args)
		if fail == "" {
			c.Fail("%v: the tool succeeds with %s", args, what)
		} else if strings.Contains(fail, "did not end") {
			c.Fail("%v: %s", args, fail)
		} else if strings.Contains(string(out), "Reading: ") {
			c.Fail("%v: the tool reports lines with %s", args, what)
		}
		c.Obs(what)
		c.NonTrivial()
		return
	case "line":
		lines = cs.S
		args = append(append([]string{}, opts...), cs.S[0])
		c.Obs("single line")
	case "file", "long", "pipe":
		content := cs.D
		if cs.K == "long" { // A[2] lines picked from those given
			pool := cliLines(cs.D)
			r := &Rand{uint64(cs.A[3])}
			var b bytes.Buffer
			for k := int64(0); k < cs.A[2]; k++ {
				b.WriteString(pool[r.N(len(pool))])
				b.WriteByte('\n')
			}
			content = b.Bytes()
			c.Obs("file of more than 2^17 lines")
		}
		lines = cliLines(content)
		f := filepath.Join(os.TempDir(), fmt.Sprintf("modesverif.lines.%d", os.Getpid()))
		if err := os.WriteFile(f, content, 0o600); err != nil {
			die("%v", err)
		}
		defer os.Remove(f)
		if cs.K == "pipe" { // the same through a pipe, in pieces
			f = "/dev/stdin"
			r := &Rand{uint64(cs.A[2])}
			for rest := content; ; {
				n := []int{1, 2, 13, 14, 15, 28, 29, 512, 4096, 65536}[r.N(10)]
				if n > len(rest) {
					n = len(rest)
				}
				pieces = append(pieces, rest[:n])
				if rest = rest[n:]; len(rest) == 0 {
					break
				}
				if len(pieces) == 100 {
					pieces = append(pieces, rest)
					break
				}
			}
			c.Obs("file through a pipe")
		}
		file := []string{"-file", f}
		if style%2 == 1 {
			file = []string{"-file=" + f}
		}
		if style%4 < 2 {
			args = append(file, opts...)
		} else {
			args = append(append([]string{}, opts...), file...)
		}
		c.Obs("file")
		if len(cs.D) == 0 {
			c.Obs("empty file")
		} else if cs.D[len(cs.D)-1] != '\n' {
			c.Obs("file without a final line end")
		}
		if bytes.Contains(cs.D, []byte("\r\n")) {
			c.Obs("file with CR LF")
		}
		for _, l := range lines {
			if len(l) > 1<<16 {
				c.Obs("line above 64 KB")
			}
		}
	}
	out, fail := runToolOn(pieces, args)
	if fail != "" {
		c.Fail("%v on %d lines: %s", opts, len(lines), fail)
		return
	}
	if len(lines) > 0 {
		c.NonTrivial()
	}
	what, bad := cliCheck(out, lines, level, c.Obs)
	c.obs["lines reported"] += len(lines)
	if what == "" {
		return
	}
	if cs.K != "line" && len(lines) > 1 {
		// does the line fail alone?
		f := filepath.Join(os.TempDir(), fmt.Sprintf("modesverif.one.%d", os.Getpid()))
		os.WriteFile(f, []byte(lines[bad]+"\n"), 0o600)
		defer os.Remove(f)
		o, fl := runTool([]string{"-file", f, "-adsb_reader_level", fmt.Sprint(level)})
		w := fl
		if fl == "" {
			w, _ = cliCheck(o, lines[bad:bad+1], level, func(string) {})
		}
		if w == "" {
			what += " [the same line alone is reported right]"
		} else {
			what += " [so it is alone: " + w + "]"
		}
	}
	c.Fail("%s: %s", strings.Join(opts, " "), what)
}

// ---------------------------------------------------------------- workload

// fullFrame is a recorded frame or a reply of any format with content of any kind, sealed for an address (or, seldom, not sealed right).
func fullFrame(r *Rand, fleet []int64) []byte {
	if r.N(10) == 0 {
		return clone(recordedFrames[r.N(len(recordedFrames))])
	}
	df := allDF[r.N(len(allDF))]
	if r.N(2) == 0 {
		df = []int64{16, 17, 17, 17, 18, 18, 20, 21}[r.N(8)]
	}
	g := modesRegs[df]
	b := background(r, g.length(), []int{2, 2, 2, 0, 1, 3}[r.N(6)])
	g.normalise(r, b)
	if len(b) == 14 {
		switch df {
		case 16:
			if r.N(4) > 0 {
				b[4] = 0x30
			}
		case 17, 18:
			if df == 18 && r.N(2) == 0 {
				b.Set(6, 8, int64(r.N(2)))
			}
			if r.N(10) > 0 {
				rawNames()
				rd := rawByName["adsb/reader.ReadADSBMessage"]
				copy(b[4:11], regContent(r, rd.regs[r.N(len(rd.regs))]))
			}
		case 20, 21:
			if r.N(10) > 0 {
				rawNames()
				rd := rawByName["commb.ReadCommBMessage"]
				copy(b[4:11], regContent(r, rd.regs[r.N(len(rd.regs))]))
			}
		}
	}
	var overlay uint32
	if df == 11 {
		overlay = uint32(r.N(128))
	} else if df != 17 && df != 18 {
		overlay = uint32(r.Pick(0x123456, 0, 0xFFFFFF, 1, int64(r.N(1<<24)), int64(r.N(1<<24))))
	}
	if len(fleet) > 0 && r.N(4) > 0 { // one of the aircraft of the file
		if a := fleet[r.N(len(fleet))]; df == 11 || df == 17 || df == 18 {
			b.Set(9, 32, a)
		} else {
			overlay = uint32(a)
		}
	}
	seal(b, overlay)
	if r.N(12) == 0 {
		b[len(b)-1-r.N(3)] ^= 1 << uint(r.N(8))
	}
	return b
}

// regContent is content a register reads, plausible three times out of four where that means something.
func regContent(r *Rand, g *Reg) Bits {
	b := background(r, g.length(), []int{2, 2, 0, 1, 3}[r.N(5)])
	g.normalise(r, b)
	if p := plausOf(g); p != nil && r.N(4) > 0 {
		p.shape(r, b)
		g.normalise(r, b)
	}
	return b
}

func cliLine(r *Rand, arg bool, fleet []int64) string {
	h := hex.EncodeToString(fullFrame(r, fleet))
	if r.Bool() {
		h = strings.ToUpper(h)
	}
	if r.N(8) > 0 {
		return h
	}
	switch r.N(16) {
	case 0:
		return h[:len(h)-1]
	case 1:
		return h[:2*r.N(len(h)/2)]
	case 2:
		return h + hex.EncodeToString(r.Bytes(1+r.N(20)))
	case 3:
		k := r.N(len(h))
		return h[:k] + string("gGzZ .;*%x-+_/\\'\"\t"[r.N(18)]) + h[k+1:]
	case 4:
		return "*" + h + ";"
	case 5:
		return "0x" + h
	case 6:
		return h + " "
	case 7:
		return " " + h
	case 8:
		return ""
	case 9:
		return []string{"%s%d%n%v", "%!", "%%", "100%", h[:4] + "%v"}[r.N(5)]
	case 10:
		return []string{"héllo", "日本", "٣٤", "\u2028", "Ａ１"}[r.N(5)]
	case 11:
		if arg {
			return "hello world"
		}
		return string(bytes.ReplaceAll(r.Bytes(1+r.N(60)), []byte("\n"), []byte(" ")))
	case 12:
		return hex.EncodeToString(r.Bytes([]int{7, 14}[r.N(2)]))
	case 13:
		return hex.EncodeToString(r.Bytes(r.N(40)))
	case 14:
		return []string{"8D4BAB4558AB031C446849B72535", "00", "8D", "Reading", "Reading: " + h, "5D", "no"}[r.N(7)]
	}
	m := []byte(h)
	for i := range m {
		if r.Bool() {
			m[i] = bytes.ToUpper(m[i : i+1])[0]
		}
	}
	return string(m)
}

func init() {
	p := &Prop{
		ID: "C27", NoCold: true,
		Rule: "One case is one execution of the built tool (/repo/cmd) on one file or one argument with one version. Non-trivial: its whole output was cut at the echoed lines, in order, and every section compared row by row with the library's answer for that line alone. " +
			"The class \"lines reported\" counts the lines.",
		Check:  checkCLI,
		Assume: []string{"Output is compared row by row without regard to blank rows, letter case and runs of white space. The error row of a line that is not hexadecimal may have any text.", "What the library answers is judged by the other checks; here it is the reference."},
	}
	file := func(r *Rand, n int, eol string, emit func(Case), level, style int) {
		var b bytes.Buffer
		var old []string
		var fleet []int64
		for k := r.N(5); k > 0; k-- { // the same few aircraft all through the file
			fleet = append(fleet, int64(r.U64()&0xFFFFFF))
		}
		for k := 0; k < n; k++ {
			l := cliLine(r, false, fleet)
			if len(old) > 0 {
				switch r.N(24) {
				case 0, 1:
					l = old[r.N(len(old))] // again
				case 2:
					l = old[len(old)-1] // and at once
				case 3: // nearly the same as a line before
					if d, err := hex.DecodeString(old[len(old)-1-r.N(len(old)+1)/2]); err == nil && (len(d) == 7 || len(d) == 14) {
						over := crc24(d[:len(d)-3]) ^ uint32(Bits(d).U(8*len(d)-23, 8*len(d)))
						switch {
						case len(d) == 7 || r.N(3) == 0:
							d[1+r.N(3)] ^= 1 << uint(r.N(8))
						case r.Bool():
							d[4+r.N(7)] ^= 1 << uint(r.N(8))
						default: // the same content of another aircraft
							if df := d[0] >> 3; df == 16 || df == 20 || df == 21 {
								over ^= uint32(r.U64() & 0xFFFFFF)
							} else {
								copy(d[1:4], r.Bytes(3))
							}
						}
						seal(d, over)
						l = hex.EncodeToString(d)
					}
				}
			}
			old = append(old, l)
			b.WriteString(l)
			if k < n-1 || r.N(3) > 0 {
				b.WriteString(eol)
			}
		}
		emit(Case{K: "file", D: b.Bytes(), A: []int64{int64(level), int64(style)}})
	}
	p.Blocks = func(th bool) []Block {
		s := 1
		if th {
			s = 25
		}
		return []Block{
			{"edges", 24, func(r *Rand, i int, emit func(Case)) {
				good := hex.EncodeToString(fullFrame(r, nil))
				switch i % 8 {
				case 0:
					emit(Case{K: "none", A: []int64{0, 0}})
				case 1:
					emit(Case{K: "file", A: []int64{int64(r.N(3)), int64(r.N(6))}})
				case 2:
					emit(Case{K: "file", D: []byte("\n"), A: []int64{int64(r.N(3)), int64(r.N(6))}})
				case 3:
					emit(Case{K: "file", D: []byte("\n\n" + good + "\n\n\n" + good), A: []int64{int64(r.N(3)), int64(r.N(6))}})
				case 4:
					emit(Case{K: "file", D: []byte("\r\n" + good + "\r\n" + good + "\r\n"), A: []int64{int64(r.N(3)), int64(r.N(6))}})
				case 5: // a line longer than any buffer
					long := strings.Repeat("8D", []int{1 << 15, 1<<15 - 1, 1<<15 + 1, 1 << 16, 200000, 1<<19 + 7}[i/8*2%6+r.N(2)])
					emit(Case{K: "file", D: []byte(good + "\n" + long + "\n" + good + "\n"), A: []int64{int64(r.N(3)), int64(r.N(6))}})
				case 6:
					long := strings.Repeat("#", 70000+r.N(100000))
					emit(Case{K: "file", D: []byte(good + "\n" + long + "\n" + good), A: []int64{int64(r.N(3)), int64(r.N(6))}})
				case 7:
					emit(Case{K: "file", D: []byte(strings.Repeat(good+"\n", 300)), A: []int64{int64(r.N(3)), int64(r.N(6))}})
				}
			}},
			{"files", 300 * s, func(r *Rand, i int, emit func(Case)) {
				eol := "\n"
				if r.N(5) == 0 {
					eol = "\r\n"
				}
				file(r, 1+r.N(300), eol, emit, i%3, r.N(6))
			}},
			{"files through a pipe", 40 * s, func(r *Rand, i int, emit func(Case)) {
				file(r, 1+r.N(100), "\n", func(cs Case) {
					cs.K, cs.A = "pipe", append(cs.A, int64(r.U64()>>1))
					emit(cs)
				}, i%3, r.N(6))
			}},
			{"nothing to read", 24, func(r *Rand, i int, emit func(Case)) {
				emit(Case{K: "broken", A: []int64{int64(r.N(3)), int64(r.N(6)), int64(i % 4), int64(i)}})
			}},
			{"large files", 6 * s, func(r *Rand, i int, emit func(Case)) { file(r, 6000, "\n", emit, i%3, r.N(6)) }},
			{"very large file", s, func(r *Rand, i int, emit func(Case)) {
				var b bytes.Buffer
				for k := 0; k < 40; k++ { // mostly lines with a short report
					l := cliLine(r, false, nil)
					for t := 0; len(l) > 14 && len(l)%2 == 0 && t < 4; t++ {
						l = cliLine(r, false, nil)
					}
					b.WriteString(l + "\n")
				}
				emit(Case{K: "long", D: b.Bytes(), A: []int64{int64(r.N(3)), int64(r.N(6)), 1<<17 + 500, int64(r.U64() >> 1)}})
			}},
			{"single lines", 1600 * s, func(r *Rand, i int, emit func(Case)) {
				l := cliLine(r, true, nil)
				if strings.HasPrefix(l, "-") || strings.Contains(l, "\x00") {
					l = "zz" + l[1:]
				}
				emit(Case{K: "line", S: []string{l}, A: []int64{int64(i % 3), int64(r.N(6))}})
			}},
		}
	}
	p.NeedFn = func() []string {
		need := []string{"no argument", "single line", "file", "empty file", "file of more than 2^17 lines", "file with CR LF", "file without a final line end", "line above 64 KB", "default version",
			"file through a pipe", "a file that does not exist", "a directory given as the file", "a version that does not exist",
			"not hexadecimal", "refused as a Mode S reply", "extended squitter not decodable", "Comm-B of unknown format", "Comm-B with several readings",
			"air-air reply of unknown content", "resolution advisory", "DF18 ADS-B", "DF18 TIS-B", "DF18 of another kind"}
		for _, df := range allDF {
			need = append(need, fmt.Sprintf("DF%d", df))
		}
		for v := 0; v < 3; v++ {
			for _, t := range []string{"aircraft_identification_and_category.AircraftIdentificationAndCategory", "airborne_velocity.AirborneVelocity", "airborne_position.AirbornePositionType0", fmt.Sprintf("surface_position.SurfacePositionV%d", v), fmt.Sprintf("airborne_position.AirbornePositionV%d", v)} {
				need = append(need, fmt.Sprintf("version %d %s", v, t))
			}
		}
		return need
	}
	register(p)
}
