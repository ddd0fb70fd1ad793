package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/transcriptaze/midiasm/encoding/midi"
	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/context"
	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/lib"
	"github.com/transcriptaze/midiasm/ops/assemble"
	"github.com/transcriptaze/midiasm/ops/click"
	"github.com/transcriptaze/midiasm/ops/disassemble"
	"github.com/transcriptaze/midiasm/ops/export"
	"github.com/transcriptaze/midiasm/ops/notes"
	"github.com/transcriptaze/midiasm/ops/transpose"
)

type session struct {
	docs  [][]byte
	cache map[string]any
}

func sortStrings(s []string) { sort.Strings(s) }

func failed(err error) Result {
	return Result{"ok": false, "err": esc(err.Error())}
}

// While operations run at the same time the convention is fixed beforehand.
var conducted bool

func middleC(c4 bool) {
	if conducted {
		return
	}

	if c4 {
		context.SetMiddleC(lib.C4)
	} else {
		context.SetMiddleC(lib.C3)
	}
}

// decode reads document d. With 'shared' the object is decoded once per session and then reused.
func (s *session) decode(op Op) (*midi.SMF, error) {
	key := fmt.Sprintf("%d/%v", op.D, op.C4)
	if op.X == "shared" {
		if v, ok := s.cache[key]; ok {
			return v.(*midi.SMF), nil
		}
	}

	smf, err := midifile.NewDecoder().Decode(bytes.NewReader(s.docs[op.D-1]))
	if err != nil {
		return nil, err
	}
	if smf == nil {
		return nil, errors.New("no document")
	}
	if op.X == "shared" {
		s.cache[key] = smf
	}

	return smf, nil
}

// Forms are the binary form of an event (without the delta), and the events read back from its binary and JSON forms.
type Forms struct {
	Bin      Bytes  `json:"bin"`
	FromBin  Event  `json:"frombin"`
	FromJSON Event  `json:"fromjson"`
	Err      string `json:"err"`
}

func forms(e *events.Event) Forms {
	none := Event{Tag: "", Tick: "0", Ty: -1, Ch: -1, V: []int{}, S: Bytes{}, Bank: -1, Raw: Bytes{}}
	f := Forms{Bin: Bytes{}, FromBin: none, FromJSON: none}
	bad := func(what string, err any) { f.Err += what + ": " + esc(fmt.Sprint(err)) + " " }

	if m, ok := e.Event.(encoding.BinaryMarshaler); !ok {
		bad("binary", "no binary form")
	} else if b, err := m.MarshalBinary(); err != nil {
		bad("binary", err)
	} else if d, err := lib.Delta(e.Delta()).MarshalBinary(); err != nil {
		bad("binary", err)
	} else {
		f.Bin = append(f.Bin, b...)
		var x events.Event
		if err := x.UnmarshalBinary(append(append([]byte{}, d...), b...)); err != nil {
			bad("from binary", err)
		} else {
			f.FromBin = project(x.Event)
		}
	}

	if b, err := json.Marshal(map[string]any{"event": e.Event}); err != nil {
		bad("json", err)
	} else {
		var x events.Event
		if err := x.UnmarshalJSON(b); err != nil {
			bad("from json", err)
		} else {
			f.FromJSON = project(x.Event)
		}
	}

	return f
}

// The lines of a click track, without white space that only lays it out.
func clickLines(s string) []string {
	list := []string{}
	for _, line := range strings.Split(s, "\n") {
		if words := strings.Fields(line); len(words) > 0 {
			list = append(list, esc(strings.Join(words, " ")))
		}
	}
	return list
}

func (s *session) exec(op Op) Result {
	middleC(op.C4)

	switch op.Op {
	case "load":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		return Result{"ok": true, "h": header(smf.MThd), "tracks": tracks(smf)}

	case "load1": // through a reader that returns n (or one) bytes at a time, with "eof" reporting the end of file along with the last of them
		n := op.N
		if n < 1 {
			n = 1
		}
		smf, err := midifile.NewDecoder().Decode(&dribble{s.docs[op.D-1], n, op.X == "eof"})
		if err != nil {
			return failed(err)
		}
		return Result{"ok": true, "h": header(smf.MThd), "tracks": tracks(smf)}

	case "forms": // every event on its own: its binary and JSON forms, and what is read back from them
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		list := [][]Forms{}
		for _, t := range smf.Tracks {
			evs := []Forms{}
			for _, e := range t.Events {
				evs = append(evs, forms(e))
			}
			list = append(list, evs)
		}
		return Result{"ok": true, "forms": list}

	case "single": // the bytes as a single event
		var e events.Event
		if err := e.UnmarshalBinary(s.docs[op.D-1]); err != nil {
			return failed(err)
		}
		return Result{"ok": true, "ev": project(e.Event)}

	case "pieces": // the bytes from every (early enough) position on, read as a single event
		for i := 0; i < len(s.docs[op.D-1]) && i < 400; i++ {
			var e events.Event
			if err := e.UnmarshalBinary(s.docs[op.D-1][i:]); err == nil {
				project(e.Event)
			}
		}
		return Result{"ok": true}

	case "encode":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		var b bytes.Buffer
		if err := midifile.NewEncoder(&b).Encode(*smf); err != nil {
			return failed(err)
		}
		return Result{"ok": true, "out": Bytes(b.Bytes())}

	case "transpose":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		t := transpose.Transpose{}
		out, err := t.Execute(smf, op.N)
		if err != nil {
			return failed(err)
		}
		return Result{"ok": true, "out": Bytes(out)}

	case "export":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		out, err := exportJSON(smf)
		if err != nil {
			return failed(err)
		}
		kv, err := flatten(out)
		if err != nil {
			return failed(err)
		}
		return Result{"ok": true, "kv": kv}

	case "export+assemble":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		out, err := exportJSON(smf)
		if err != nil {
			return failed(err)
		}
		return assembled(assemble.NewJSONAssembler().Assemble(bytes.NewReader(out)))

	case "text":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		out, err := disassembly(smf)
		if err != nil {
			return failed(err)
		}
		return Result{"ok": true, "txt": esc(string(out))}

	case "layout":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		p, err := disassemble.NewDisassemble()
		if err != nil {
			return failed(err)
		}
		if err := p.LoadTemplates(bytes.NewReader(unesc(op.A))); err != nil {
			return failed(err)
		}
		var b bytes.Buffer
		if err := p.Print(smf, "document", &b); err != nil {
			return failed(err)
		}
		return Result{"ok": true, "txt": esc(b.String())}

	case "text+assemble":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		out, err := disassembly(smf)
		if err != nil {
			return failed(err)
		}
		return assembled(assemble.NewTextAssembler().Assemble(bytes.NewReader(out)))

	case "asmtext":
		return assembled(assemble.NewTextAssembler().Assemble(bytes.NewReader(s.docs[op.D-1])))

	case "asmjson":
		return assembled(assemble.NewJSONAssembler().Assemble(bytes.NewReader(s.docs[op.D-1])))

	case "validate":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		list := []string{}
		for _, e := range smf.Validate() {
			list = append(list, classify(fmt.Sprintf("%v", e)))
		}
		sort.Strings(list)
		return Result{"ok": true, "l": list}

	case "click":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		var b bytes.Buffer
		if err := (&click.ClickTrack{Writer: &b}).Execute(smf); err != nil {
			return failed(err)
		}
		return Result{"ok": true, "l": clickLines(b.String())}

	case "notes", "notes-json":
		smf, err := s.decode(op)
		if err != nil {
			return failed(err)
		}
		var b bytes.Buffer
		n := notes.Notes{Transpose: op.N, JSON: op.Op == "notes-json", Writer: &b}
		if err := n.Execute(smf); err != nil {
			return failed(err)
		}
		if op.Op == "notes" {
			return noteLines(b.String())
		}
		return noteJSON(b.Bytes())
	}

	if strings.HasPrefix(op.Op, "cli") {
		return s.cli(op)
	}

	panic("driver: unknown operation " + op.Op)
}

type dribble struct {
	b   []byte
	n   int
	eof bool
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	b := d.b
	if len(b) > d.n {
		b = b[:d.n]
	}
	n := copy(p, b)
	d.b = d.b[n:]
	if len(d.b) == 0 && d.eof {
		return n, io.EOF
	}
	return n, nil
}

func exportJSON(smf *midi.SMF) ([]byte, error) {
	x, err := export.NewExport()
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	if err := x.Export(smf, &b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func disassembly(smf *midi.SMF) ([]byte, error) {
	p, err := disassemble.NewDisassemble()
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	if err := p.Print(smf, "document", &b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func assembled(b []byte, err error) Result {
	if err != nil {
		return failed(err)
	}
	return Result{"ok": true, "out": Bytes(b)}
}

// classify reduces a validation message to the track and event numbers it is about and the kind of complaint.
var reTrack = regexp.MustCompile(`(?i)track\s*([0-9]+)`)
var reAt = regexp.MustCompile(`@([0-9]+)`)
var reEvent = regexp.MustCompile(`\(([A-Za-z]+)\)`)

func classify(msg string) string {
	get := func(re *regexp.Regexp) string {
		if m := re.FindStringSubmatch(msg); m != nil {
			return m[1]
		}
		return "-"
	}
	m := strings.ToLower(msg)
	kind := "?"
	switch {
	case strings.Contains(m, "lsb on another channel"):
		kind = "msb-other-channel"
	case strings.Contains(m, "msb on another channel"):
		kind = "lsb-other-channel"
	case strings.Contains(m, "missing lsb"):
		kind = "msb-without-lsb"
	case strings.Contains(m, "missing msb"):
		kind = "lsb-without-msb"
	case strings.Contains(m, "not last"):
		kind = "eot-not-last"
	case strings.Contains(m, "missing endoftrack"):
		kind = "eot-missing"
	case strings.Contains(m, "unexpected event"):
		kind = "unexpected"
	case strings.Contains(m, "format 0"):
		kind = "format0"
		return kind
	}
	return esc(fmt.Sprintf("%s %s %s %s", kind, get(reTrack), get(reAt), get(reEvent)))
}

// ---- notes ----------------------------------------------------------------------------------------

type Note struct {
	Name     string `json:"name"`
	Ch       int    `json:"ch"`
	Note     int    `json:"note"`
	Velocity int    `json:"vel"`
	Start    string `json:"start"` // milliseconds
	End      string `json:"end"`
	Duration string `json:"dur"`
}

var reNote = regexp.MustCompile(`^(\S+)\s+channel:([0-9]+)\s+note:([0-9A-F]{2})\s+velocity:([0-9]+)\s+start:(\S+)\s+end:(\S+)\s+duration:(\S+)\s*$`)

func ms(s string) string {
	d, err := time.ParseDuration(s)
	if err != nil {
		return esc("?" + s)
	}
	if d%time.Millisecond != 0 {
		return d.String()
	}
	return strconv.FormatInt(int64(d/time.Millisecond), 10)
}

func noteLines(s string) Result {
	list := []Note{}
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		m := reNote.FindStringSubmatch(l)
		if m == nil {
			list = append(list, Note{Name: esc("unparsable: " + l)})
			continue
		}
		ch, _ := strconv.Atoi(m[2])
		n, _ := strconv.ParseInt(m[3], 16, 32)
		v, _ := strconv.Atoi(m[4])
		list = append(list, Note{esc(m[1]), ch, int(n), v, ms(m[5]), ms(m[6]), ms(m[7])})
	}
	return Result{"ok": true, "notes": list}
}

func seconds(n json.Number) string {
	f, err := n.Float64()
	if err != nil {
		return esc("?" + n.String())
	}
	v := f * 1000
	r := int64(v + 0.5)
	if v < 0 {
		r = int64(v - 0.5)
	}
	if d := v - float64(r); d > 0.01 || d < -0.01 {
		return esc(n.String())
	}
	return strconv.FormatInt(r, 10)
}

func noteJSON(b []byte) Result {
	var doc map[string]json.RawMessage
	var arr []map[string]any
	if err := json.Unmarshal(b, &doc); err != nil {
		return Result{"ok": true, "notes": []Note{{Name: esc("unparsable: " + err.Error())}}}
	}
	d := json.NewDecoder(bytes.NewReader(doc["notes"]))
	d.UseNumber()
	if err := d.Decode(&arr); err != nil {
		return Result{"ok": true, "notes": []Note{{Name: esc("unparsable: " + err.Error())}}}
	}
	list := []Note{}
	num := func(m map[string]any, k string) int {
		if n, ok := m[k].(json.Number); ok {
			v, _ := strconv.Atoi(n.String())
			return v
		}
		return -1
	}
	sec := func(m map[string]any, k string) string {
		if n, ok := m[k].(json.Number); ok {
			return seconds(n)
		}
		return "?"
	}
	for _, m := range arr {
		name, _ := m["note"].(string)
		list = append(list, Note{esc(name), num(m, "channel"), num(m, "midi-note"), num(m, "velocity"), sec(m, "start"), sec(m, "end"), sec(m, "duration")})
	}
	return Result{"ok": true, "notes": list}
}

// ---- the command line program --------------------------------------------------------------------

// what the output file holds before the program is run: more than the program would write to it
var sentinel = strings.Repeat("the previous contents of the output file, which is longer than anything the program would write to it\n", 3000)

// cli runs the program. op.W says what it finds where it is to write:
//
//	""       a file that is longer than the output
//	new      nothing
//	self     the input file
//	nodir    a directory that does not exist
//	full     a device without space (standard output as well)
//	dir      a directory where the output file should be
//	missing  (the input file does not exist)
//	indir    (the input file is a directory)
func (s *session) cli(op Op) Result {
	dir, err := os.MkdirTemp(scratch, "cli")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)

	write := func(path string, b []byte) {
		if err := os.WriteFile(path, b, 0644); err != nil {
			fatal(err)
		}
	}

	ext := ".mid"
	if op.X == "json" || op.X == "txt" || op.X == "asm" {
		ext = "." + op.X
	}
	name := "in" // of the input, without extension
	if op.NM != "" {
		name = string(unesc(op.NM))
	}
	if op.X == "noext" {
		ext = ""
	}
	file := filepath.Join(dir, name+ext)
	argument := file // as the program is told
	if op.NM != "" {
		os.MkdirAll(filepath.Join(dir, "sub.d"), 0755)
		os.MkdirAll(filepath.Join(dir, "sub"), 0755)
		argument = name + ext
	}
	switch op.W {
	case "missing":
	case "indir":
		os.MkdirAll(file, 0755)
	default:
		write(file, s.docs[op.D-1])
	}

	out := filepath.Join(dir, "out.bin")
	previous := []byte(sentinel)
	place := func(path string) { // sets up the place to write to
		out = path
		switch op.W {
		case "new":
			previous = nil
		case "self":
			out = file
			previous = s.docs[op.D-1]
		case "nodir":
			out = filepath.Join(dir, "none", "out.bin")
			previous = nil
		case "full":
			out = "/dev/full"
			previous = nil
		case "dir":
			os.MkdirAll(out, 0755)
			previous = nil
		default:
			write(out, previous)
		}
	}
	place(out)

	opts := []string{}
	if op.C4 {
		opts = append(opts, "--C4")
	}
	switch op.X {
	case "verbose", "debug":
		opts = append(opts, "--"+op.X)
	case "both":
		opts = append(opts, "--debug", "--verbose")
	}

	midiasm := func(args ...string) (int, []byte, []byte) {
		cmd := exec.Command(binary, args...)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		var o, e bytes.Buffer
		cmd.Stdout = &o
		cmd.Stderr = &e
		if op.W == "full" {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				fatal(err)
			}
			defer f.Close()
			cmd.Stdout = f
		}
		if err := cmd.Start(); err != nil {
			fatal(err)
		}
		t := time.AfterFunc(opTimeout-2*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		if !t.Stop() {
			return -9, o.Bytes(), e.Bytes()
		}
		if err != nil {
			return cmd.ProcessState.ExitCode(), o.Bytes(), e.Bytes()
		}
		return 0, o.Bytes(), e.Bytes()
	}

	with := func(cmd string, more ...string) []string {
		a := []string{}
		if cmd != "" && op.A != "default" {
			a = append(a, cmd)
		}
		a = append(a, opts...)
		a = append(a, more...)
		return append(a, argument)
	}

	outcome := func(code int, stdout, stderr []byte) Result {
		r := Result{"ok": code == 0, "code": code, "err": esc(string(stdout)), "warnings": warnings(stderr), "kept": true}
		if previous != nil {
			b, err := os.ReadFile(out)
			r["kept"] = err == nil && bytes.Equal(b, previous)
		}
		if bytes.Contains(stderr, []byte("goroutine ")) && bytes.Contains(stderr, []byte("panic")) || code == 2 {
			r["fault"] = "panic"
		}
		if code == -9 {
			r["fault"] = "hang"
		}
		return r
	}

	read := func() []byte { // what the program wrote
		if out == "/dev/full" {
			return nil
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return []byte("no output file")
		}
		return b
	}

	// runs a command that writes its result to a file or to standard output
	result := func(cmd string, toFile bool, args ...string) (Result, []byte) {
		if toFile {
			args = append(args, "--out", out)
		}
		code, o, e := midiasm(with(cmd, args...)...)
		r := outcome(code, o, e)
		if code != 0 {
			return r, nil
		}
		if toFile {
			return r, read()
		}
		return r, o
	}

	switch op.Op {
	case "cli-text", "cli-text-out":
		cmd := "disassemble"
		if op.Op == "cli-text" && op.A == "" {
			cmd = ""
		}
		r, b := result(cmd, op.Op == "cli-text-out")
		r["txt"] = esc(string(b))
		return r

	case "cli-layout", "cli-layout-out", "cli-layout-split", "cli-layout-split-default":
		templates := filepath.Join(dir, "templates.json")
		if op.W != "nolayout" {
			write(templates, unesc(op.A))
		}
		op.A = ""
		if op.Op == "cli-layout-split" {
			od := filepath.Join(dir, "parts")
			code, o, e := midiasm(with("disassemble", "--templates", templates, "--split", "--out", od)...)
			r := outcome(code, o, e)
			r["files"] = parts(od, file)
			r["kept"] = code == 0 || len(parts(od, file)) == 0
			return r
		}
		if op.Op == "cli-layout-split-default" {
			od := filepath.Join(dir, "inputs")
			os.Mkdir(od, 0755)
			moved := filepath.Join(od, "in.mid")
			if err := os.Rename(file, moved); err != nil {
				fatal(err)
			}
			file, argument = moved, moved
			code, o, e := midiasm(with("disassemble", "--templates", templates, "--split")...)
			r := outcome(code, o, e)
			r["files"] = parts(od, file)
			r["kept"] = code == 0 || len(parts(od, file)) == 0
			return r
		}
		r, b := result("disassemble", op.Op == "cli-layout-out", "--templates", templates)
		r["txt"] = esc(string(b))
		return r

	case "cli-split", "cli-split-default": // twice: first into nothing, and then over longer files
		if previous != nil {
			os.Remove(out)
		}
		if op.W == "self" || op.W == "new" || op.W == "full" || op.W == "nodir" {
			previous = nil
		}
		od := filepath.Join(dir, "parts")
		stem := "" // what the files are named after, if that matters
		args := []string{"--split", "--out", od}
		if op.Op == "cli-split-default" {
			od = filepath.Join(dir, "inputs")
			os.Mkdir(od, 0755)
			moved := filepath.Join(od, filepath.Base(file))
			if op.W != "missing" {
				if err := os.Rename(file, moved); err != nil {
					fatal(err)
				}
			}
			file, argument = moved, moved
			if op.NM != "" {
				argument = filepath.Join("inputs", filepath.Base(file))
			}
			stem = filepath.Base(name)
			args = []string{"--split"}
		}
		if op.W == "nodir" { // a directory that cannot be made
			write(od+".file", nil)
			args = []string{"--split", "--out", filepath.Join(od+".file", "sub")}
		}
		code, o, e := midiasm(with("disassemble", args...)...)
		first := parts(od, file)
		if code == 0 && op.W != "new" {
			for _, f := range first {
				path := filepath.Join(od, f.path)
				if op.W == "full" {
					os.Remove(path)
					os.Symlink("/dev/full", path)
				} else {
					write(path, []byte(sentinel))
				}
			}
			code, o, e = midiasm(with("disassemble", args...)...)
		}
		previous = nil
		r := outcome(code, o, e)
		r["kept"] = code == 0 || len(first) == 0
		if op.W != "full" {
			list := parts(od, file)
			for i, f := range list {
				if stem != "" && f.path != stem+".MThd" && !(strings.HasPrefix(f.path, stem+"-") && !strings.Contains(f.path[len(stem)+1:], "-")) {
					list[i].Name = esc(f.path) // not named after the input
				}
			}
			r["files"] = list
		}
		return r

	case "cli-export", "cli-export-out":
		r, b := result("export", op.Op == "cli-export-out")
		if r["ok"] == true && op.W != "full" {
			if kv, err := flatten(b); err != nil {
				r["kv"] = []string{esc("not JSON: " + err.Error())}
			} else {
				r["kv"] = kv
			}
		}
		return r

	case "cli-transpose":
		n := strconv.Itoa(op.N)
		if op.N > 0 && op.N%2 == 1 {
			n = "+" + n
		}
		r, b := result("transpose", true, "--semitones", n)
		r["out"] = Bytes(b)
		return r

	case "cli-click", "cli-click-out":
		r, b := result("click", op.Op == "cli-click-out")
		r["l"] = clickLines(string(b))
		return r

	case "cli-notes", "cli-notes-json", "cli-notes-out", "cli-notes-json-out":
		args := []string{}
		if op.N != 0 {
			args = append(args, "--transpose", strconv.Itoa(op.N))
		}
		asJSON := strings.HasPrefix(op.Op, "cli-notes-json")
		if asJSON {
			args = append(args, "--json")
		}
		r, b := result("notes", strings.HasSuffix(op.Op, "-out"), args...)
		if r["ok"] == true && op.W != "full" {
			if asJSON {
				r["notes"] = noteJSON(b)["notes"]
			} else {
				r["notes"] = noteLines(string(b))["notes"]
			}
		}
		return r

	case "cli-tsv", "cli-tsv-table", "cli-tsv-stdout":
		args := []string{}
		comma := "\t"
		if op.A != "" {
			comma = string(unesc(op.A))
			args = append(args, "--delimiter", comma)
			if comma == `\t` {
				comma = "\t"
			}
		}
		if op.Op == "cli-tsv-table" {
			args = append(args, "--tabular")
		}
		r, b := result("tsv", op.Op != "cli-tsv-stdout", args...)
		if r["ok"] != true || op.W == "full" {
			return r
		}
		if op.Op == "cli-tsv" {
			r["rows"] = escaped(parseCSV(string(b), comma))
		} else {
			r["txt"] = esc(strings.ReplaceAll(string(b), " ", ""))
			r["cells"] = escaped(columns(string(b)))
		}
		return r

	case "cli-asm", "cli-asm-default":
		if op.Op == "cli-asm-default" {
			if out == filepath.Join(dir, "out.bin") && previous != nil {
				os.Remove(out)
			}
			place(filepath.Join(dir, name+".midi"))
		}
		r, b := result("assemble", op.Op == "cli-asm")
		if op.Op == "cli-asm-default" && r["ok"] == true {
			b = read()
		}
		r["out"] = Bytes(b)
		return r

	case "cli-roundtrip-text", "cli-roundtrip-json": // disassemble|export then assemble, all through files
		mid := filepath.Join(dir, "mid.txt")
		first := with("disassemble", "--out", mid)
		if op.Op == "cli-roundtrip-json" {
			mid = filepath.Join(dir, "mid.json")
			first = with("export", "--out", mid)
		}
		code, o, e := midiasm(first...)
		r := outcome(code, o, e)
		if code != 0 {
			return r
		}
		a := append([]string{"assemble"}, opts...)
		a = append(a, "--out", out, mid)
		code, o, e = midiasm(a...)
		r2 := outcome(code, o, e)
		r2["warnings"] = r["warnings"]
		r2["out"] = Bytes(read())
		return r2
	}

	panic("driver: unknown operation " + op.Op)
}

func escaped(rows [][]string) [][]string {
	list := [][]string{}
	for _, rec := range rows {
		row := []string{}
		for _, f := range rec {
			row = append(row, esc(f))
		}
		list = append(list, row)
	}
	return list
}

// columns splits a fixed width table at the places where the titles of its first line begin.
func columns(s string) [][]string {
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	starts := []int{}
	for i, c := range []byte(lines[0]) {
		if c != ' ' && (i == 0 || lines[0][i-1] == ' ') {
			starts = append(starts, i)
		}
	}
	table := [][]string{}
	for _, l := range lines {
		at := []int{} // byte offset of each character
		for i := 0; i < len(l); {
			at = append(at, i)
			_, n := utf8.DecodeRuneInString(l[i:])
			i += n
		}
		offset := func(k int) int {
			if k < len(at) {
				return at[k]
			}
			return len(l)
		}
		row := []string{}
		for i, k := range starts {
			end := len(l)
			if i+1 < len(starts) {
				end = offset(starts[i+1])
			}
			row = append(row, strings.Trim(l[offset(k):end], " "))
		}
		table = append(table, row)
	}
	return table
}

// warnings extracts the validation warnings from the standard error output.
func warnings(stderr []byte) []string {
	list := []string{}
	for _, l := range strings.Split(string(stderr), "\n") {
		if t := strings.TrimSpace(l); strings.HasPrefix(t, "**") {
			list = append(list, classify(strings.TrimSpace(strings.TrimPrefix(t, "**"))))
		}
	}
	sort.Strings(list)
	return list
}

// parseCSV reads delimited records; quoted fields are taken literally (encoding/csv would rewrite line ends).
func parseCSV(s string, comma string) [][]string {
	recs := [][]string{}
	for i := 0; i < len(s); {
		rec := []string{}
		for {
			var f strings.Builder
			if i < len(s) && s[i] == '"' {
				i++
				for i < len(s) {
					if s[i] == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							f.WriteByte('"')
							i += 2
							continue
						}
						break
					}
					f.WriteByte(s[i])
					i++
				}
				i++
			} else {
				for i < len(s) && !strings.HasPrefix(s[i:], comma) && s[i] != '\n' {
					f.WriteByte(s[i])
					i++
				}
			}
			rec = append(rec, f.String())
			if i >= len(s) {
				break
			}
			if s[i] == '\n' {
				i++
				break
			}
			if strings.HasPrefix(s[i:], comma) {
				i += len(comma)
			} else {
				i++
				rec = append(rec, "?unquoted")
			}
			if i >= len(s) {
				rec = append(rec, "")
				break
			}
		}
		if len(rec) > 1 || rec[0] != "" { // an empty line is no record
			recs = append(recs, rec)
		}
	}
	return recs
}

type File struct {
	Name string `json:"name"`
	Txt  string `json:"txt"`
	path string
}

// parts reads the files of a split disassembly; the part of a name that comes from the input file is dropped.
var rePart = regexp.MustCompile(`^.*-([0-9]+)\.MTrk$`)

func parts(dir string, except string) []File {
	list := []File{}
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		path := filepath.Join(dir, e.Name())
		if path == except {
			continue
		}
		name := e.Name()
		if m := rePart.FindStringSubmatch(name); m != nil {
			name = "MTrk " + m[1]
		} else if strings.HasSuffix(name, ".MThd") {
			name = "MThd"
		}
		b, err := []byte{}, error(nil)
		if fi, e := os.Lstat(path); e == nil && fi.Mode().IsRegular() {
			b, err = os.ReadFile(path)
		}
		if err != nil {
			list = append(list, File{esc(name), "unreadable", e.Name()})
		} else {
			list = append(list, File{esc(name), esc(string(b)), e.Name()})
		}
	}
	return list
}
