package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/transcriptaze/midiasm/midi"
	"github.com/transcriptaze/midiasm/midi/events"
	"github.com/transcriptaze/midiasm/midi/events/meta"
	"github.com/transcriptaze/midiasm/midi/events/midi"
	"github.com/transcriptaze/midiasm/midi/events/sysex"
)

// esc escapes every byte that is not plain printable ASCII, so that strings mean the same to Go, JSON and TLC.
func esc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 0x20 && c <= 0x7e && c != '"' && c != '\\' && c != '<' && c != '>' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "<%02X>", c)
		}
	}
	return b.String()
}

func unesc(s string) []byte {
	var b bytes.Buffer
	for i := 0; i < len(s); i++ {
		if s[i] == '<' && i+3 < len(s) && s[i+3] == '>' {
			if v, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
				b.WriteByte(byte(v))
				i += 3
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.Bytes()
}

type Event struct {
	Tag   string `json:"tag"`
	Delta uint32 `json:"delta"`
	Tick  string `json:"tick"`
	St    int    `json:"st"`
	Ty    int    `json:"ty"`
	Ch    int    `json:"ch"`
	V     []int  `json:"v"`
	S     Bytes  `json:"s"`
	F     bool   `json:"f"`
	Name  string `json:"name"`
	Alias string `json:"alias"`
	Bank  int    `json:"bank"`
	Raw   Bytes  `json:"raw"`
	XName string `json:"xname"` // name of the controller or manufacturer
	XReg  string `json:"xreg"`  // region of the manufacturer
}

type Header struct {
	Format   int  `json:"format"`
	Tracks   int  `json:"tracks"`
	Division int  `json:"division"`
	PPQN     int  `json:"ppqn"`
	SMPTE    bool `json:"smpte"`
	FPS      int  `json:"fps"`
	Sub      int  `json:"sub"`
	Drop     bool `json:"drop"`
}

type Track struct {
	N      int     `json:"n"`
	Length int     `json:"length"`
	Raw    Bytes   `json:"raw"`
	Evs    []Event `json:"evs"`
}

func header(h *midi.MThd) Header {
	return Header{int(h.Format), int(h.Tracks), int(h.Division), int(h.PPQN), h.SMPTETimeCode, int(h.FPS), int(h.SubFrames), h.DropFrame}
}

func tracks(smf *midi.SMF) []Track {
	list := []Track{}
	for _, t := range smf.Tracks {
		x := Track{N: int(t.TrackNumber), Length: int(t.Length), Raw: Bytes(t.Bytes), Evs: []Event{}}
		for _, e := range t.Events {
			x.Evs = append(x.Evs, project(e.Event))
		}
		list = append(list, x)
	}
	return list
}

func ints(b []byte) []int {
	v := []int{}
	for _, x := range b {
		v = append(v, int(x))
	}
	return v
}

// project maps an event of the program onto the record of the specification (Events.tla).
func project(e events.IEvent) Event {
	// events built by the assemblers are held by reference
	if v := reflect.ValueOf(e); v.Kind() == reflect.Pointer {
		if x, ok := v.Elem().Interface().(events.IEvent); ok {
			e = x
		}
	}

	x := Event{
		Tag: esc(e.Tag()), Delta: e.Delta(), Tick: strconv.FormatUint(e.Tick(), 10),
		Ty: -1, Ch: -1, V: []int{}, S: Bytes{}, Bank: -1, Raw: append(Bytes{}, e.Bytes()...),
	}

	text := func(s string) { x.S = Bytes(s) }

	switch v := e.(type) {
	case metaevent.SequenceNumber:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = []int{int(v.SequenceNumber)}
	case metaevent.Text:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Text)
	case metaevent.Copyright:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Copyright)
	case metaevent.TrackName:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Name)
	case metaevent.InstrumentName:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Name)
	case metaevent.Lyric:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Lyric)
	case metaevent.Marker:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Marker)
	case metaevent.CuePoint:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.CuePoint)
	case metaevent.ProgramName:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Name)
	case metaevent.DeviceName:
		x.St, x.Ty = int(v.Status), int(v.Type)
		text(v.Name)
	case metaevent.MIDIChannelPrefix:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = []int{int(v.Channel)}
	case metaevent.MIDIPort:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = []int{int(v.Port)}
	case metaevent.EndOfTrack:
		x.St, x.Ty = int(v.Status), int(v.Type)
	case metaevent.Tempo:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = []int{int(v.Tempo)}
	case metaevent.SMPTEOffset:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = []int{int(v.Hour), int(v.Minute), int(v.Second), int(v.FrameRate), int(v.Frames), int(v.FractionalFrames)}
	case metaevent.TimeSignature:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = []int{int(v.Numerator), int(v.Denominator), int(v.TicksPerClick), int(v.ThirtySecondsPerQuarter)}
	case metaevent.KeySignature:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = []int{int(v.Accidentals), int(v.KeyType)}
		x.Name = esc(v.Key)
	case metaevent.SequencerSpecificEvent:
		x.St, x.Ty = int(v.Status), int(v.Type)
		x.V = ints(v.Manufacturer.ID)
		x.S = append(x.S, v.Data...)
		x.XName, x.XReg = esc(v.Manufacturer.Name), esc(v.Manufacturer.Region)

	case midievent.NoteOff:
		x.St, x.Ch = int(v.Status), int(v.Channel)
		x.V = []int{int(v.Note.Value), int(v.Velocity)}
		x.Name, x.Alias = esc(v.Note.Name), esc(v.Note.Alias)
	case midievent.NoteOn:
		x.St, x.Ch = int(v.Status), int(v.Channel)
		x.V = []int{int(v.Note.Value), int(v.Velocity)}
		x.Name, x.Alias = esc(v.Note.Name), esc(v.Note.Alias)
	case midievent.PolyphonicPressure:
		x.St, x.Ch = int(v.Status), int(v.Channel)
		x.V = []int{int(v.Pressure)}
	case midievent.Controller:
		x.St, x.Ch = int(v.Status), int(v.Channel)
		x.V = []int{int(v.Controller.ID), int(v.Value)}
		x.XName = esc(v.Controller.Name)
	case midievent.ProgramChange:
		x.St, x.Ch = int(v.Status), int(v.Channel)
		x.V = []int{int(v.Program)}
		x.Bank = int(v.Bank)
	case midievent.ChannelPressure:
		x.St, x.Ch = int(v.Status), int(v.Channel)
		x.V = []int{int(v.Pressure)}
	case midievent.PitchBend:
		x.St, x.Ch = int(v.Status), int(v.Channel)
		x.V = []int{int(v.Bend)}

	case sysex.SysExMessage:
		x.St = int(v.Status)
		x.V = ints(v.Manufacturer.ID)
		x.S = append(x.S, v.Data...)
		x.F = v.Single
		x.XName, x.XReg = esc(v.Manufacturer.Name), esc(v.Manufacturer.Region)
	case sysex.SysExContinuationMessage:
		x.St = int(v.Status)
		x.S = append(x.S, v.Data...)
		x.F = v.End
	case sysex.SysExEscapeMessage:
		x.St = int(v.Status)
		x.S = append(x.S, v.Data...)

	default:
		x.Tag = esc(fmt.Sprintf("%T", e))
	}

	return x
}

// flatten turns a JSON document into path=value lines, in document order for arrays and sorted for objects.
func flatten(doc []byte) ([]string, error) {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data after JSON document")
	}
	return flat(v, "", []string{}), nil
}

func flat(v any, path string, out []string) []string {
	switch t := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sortStrings(keys)
		if len(keys) == 0 {
			out = append(out, path+"={}")
		}
		for _, k := range keys {
			out = flat(t[k], path+"/"+esc(k), out)
		}
	case []any:
		// arrays of numbers stay on one line
		num := true
		s := []string{}
		for _, x := range t {
			if n, ok := x.(json.Number); ok {
				s = append(s, n.String())
			} else {
				num = false
			}
		}
		if num {
			return append(out, path+"=["+strings.Join(s, " ")+"]")
		}
		for i, x := range t {
			out = flat(x, fmt.Sprintf("%s/%d", path, i), out)
		}
	case json.Number:
		out = append(out, path+"="+t.String())
	case string:
		out = append(out, path+"='"+esc(t)+"'")
	case bool:
		out = append(out, fmt.Sprintf("%s=%v", path, t))
	case nil: // no tracks and no events are as good as an empty list of them; everything else is what it is
		if path == "/tracks" || strings.HasSuffix(path, "/events") {
			out = append(out, path+"=[]")
		} else {
			out = append(out, path+"=null")
		}
	}
	return out
}
