#!/usr/bin/env python3
"""The list of properties. Running it rewrites properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEC = ['encoding/midi/decoder.go', 'midi/MThd.go', 'midi/MTrk.go', 'midi/reader.go', 'midi/lib/event.go', 'midi/lib/delta.go', 'midi/events/event.go',
       'midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/', 'midi/context/context.go']
ENC = ['encoding/midi/encoder.go', 'midi/events/binary.go', 'midi/MThd.go', 'midi/lib/delta.go', 'midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/']
ASM = ['ops/assemble/text.go', 'ops/assemble/json.go', 'ops/assemble/assemble.go', 'midi/events/text.go', 'midi/events/json.go', 'commands/assemble.go']

def m(*pairs):
    return [dict(name=a, where=b) for a, b in pairs]

# id, title, statement, quantifier.over, quantifier.text, why tests cannot, files, mechanism
P = [
 ('C01', 'Decoding a MIDI file yields exactly the events it contains',
  'Decoding any well-formed Standard MIDI File yields its header (format, track count, time division) and, track by track and in order, exactly the events it encodes: kind, status, delta time, absolute tick (the sum of the deltas so far), channel, values and payload bytes, as well as the raw bytes of every event and track. '
  'This holds for every legal encoding (running status or not, variable length quantities of one to four bytes, chunks of other types anywhere after the header, data arriving in reads of any size) and every value, including the extremes. '
  'No event is lost, invented, reordered or altered.',
  ['inputs'], 'every well-formed file: any sequence of events, any values, any legal encoding of it',
  'the tests decode four files and one hand-written byte string per event type; they never reach long payloads, padded quantities, extreme deltas, running status across other events, interleaved SysEx packets or foreign chunks',
  DEC, m(('chunk and header reader', 'encoding/midi/decoder.go'), ('track reader: running status, ticks', 'midi/MTrk.go'), ('event parsers', 'midi/events/event.go, midi/events/*/')),
 ),
 ('C02', 'Decoding and re-encoding a MIDI file loses nothing',
  'Decoding any well-formed file and encoding the result again produces a MIDI file that denotes the same document: the same format and time division, the same number of tracks, and the same events in the same order with the same delta times, values and payloads. '
  'The encoding may differ (running status, padding, foreign chunks), the meaning may not.',
  ['inputs'], 'every well-formed file, however it was encoded',
  'the tests encode a handful of hand-made events with small payloads and compare bytes; they cannot cover the product of payload lengths, status sequences and values',
  ENC + DEC[:3], m(('encoder with running status', 'encoding/midi/encoder.go'), ('binary form of every event', 'midi/events/*/ MarshalBinary')),
 ),
 ('C03', 'Every MIDI file the program writes is a complete, canonical MIDI file',
  'Whatever writes MIDI (re-encoding, transposing, assembling text, assembling JSON) either reports an error or produces a complete Standard MIDI File: an MThd chunk of length 6 whose track count is the number of MTrk chunks that follow, chunk lengths that are exactly the size of their data, every delta and length a shortest-form variable length quantity, and every event legal, with running status used only where it is in force. '
  'Nothing precedes, follows or lies between those chunks.',
  ['inputs'], 'every document the writers accept, whatever its origin',
  'tests compare the output of a few documents with expected bytes; the claim is about all documents, including long payloads and unusual successions of events',
  ENC + ['ops/transpose/transpose.go', 'ops/assemble/'], m(('chunk lengths and running status', 'encoding/midi/encoder.go'), ('variable length quantities', 'midi/lib/delta.go')),
 ),
 ('C04', 'Exporting to JSON and assembling the JSON restores the MIDI file',
  'For every well-formed file whose texts are valid UTF-8 and whose SysEx messages are all terminated, exporting it as JSON and assembling that JSON yields a MIDI file with the same format, time division, tracks, events, delta times, values and payloads. '
  'This holds for either middle C convention and through the command line as well as the library.',
  ['inputs', 'configurations'], 'every such file, every event type and value, both middle C conventions',
  'the tests assemble one JSON document; no test composes export with assembly',
  ASM + ['ops/export/export.go', 'midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/'],
  m(('JSON form of every event', 'midi/events/*/ MarshalJSON and UnmarshalJSON'), ('JSON assembler', 'ops/assemble/json.go')),
 ),
 ('C05', 'Disassembling to text and assembling the text restores the MIDI file',
  'For every well-formed file whose texts fit on a line (no line feed, no leading white space, no trailing carriage return), whose manufacturer ids are known to the program and whose SysEx messages are all terminated, the text that the disassembler prints is accepted by the assembler and yields a MIDI file with the same format, time division, tracks, events, delta times, values and payloads. '
  'This holds for either middle C convention (used for both steps), for texts that look like parts of a disassembly, and through the command line as well as the library.',
  ['inputs', 'configurations'], 'every such file, every event type, value and text, both middle C conventions',
  'the tests assemble one text document; no test composes disassembly with assembly',
  ASM + ['ops/disassemble/disassemble.go', 'ops/disassemble/template', 'midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/'],
  m(('text form of every event', 'ops/disassemble/template, midi/events/*/ UnmarshalText'), ('text assembler', 'ops/assemble/text.go')),
 ),
 ('C06', 'Assembly yields exactly the document the source describes',
  'Assembling a text or JSON source in which every value is one a MIDI file can hold succeeds and yields exactly the document it describes: format, time division, one track per track section, and the events in order with the stated delta times, values and payloads. '
  'In text, white space, comment and blank lines, lines before the header, leading zeros, the columns the disassembler prints before the delta and the stated track count and lengths make no difference; in JSON, the order of fields, white space and additional fields make none. '
  'Equivalent text and JSON sources assemble to the same document.',
  ['inputs', 'configurations'], 'every proper source, in every permitted style, both middle C conventions',
  'the tests assemble one text and one JSON document in one style, plus one line or object per event type',
  ASM + ['midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/'], m(('line parser', 'ops/assemble/text.go, midi/events/text.go'), ('object parser', 'ops/assemble/json.go, midi/events/json.go')),
 ),
 ('C07', 'Transposing moves every note and key signature and nothing else',
  'Transposing a document by n semitones writes a MIDI file in which every NoteOn and NoteOff is moved by exactly n (stopping at 0 and 127), every key signature keeps its mode and names the key whose tonic is n semitones away with at most six accidentals, and everything else is unchanged: header, tracks, order, delta times, channels, velocities and all other events. '
  'This holds for every n, positive, negative or zero, and for every document.',
  ['inputs', 'configurations'], 'every document and every number of semitones',
  'the tests transpose one file by one interval and a few single events',
  ['ops/transpose/transpose.go', 'commands/transpose.go', 'midi/events/midi/note_on.go', 'midi/events/midi/note_off.go', 'midi/events/meta/key_signature.go', 'midi/lib/scales.go', 'midi/lib/note.go'] + ENC[:2],
  m(('event transposition', 'ops/transpose/transpose.go'), ('key arithmetic', 'midi/events/meta/key_signature.go')),
 ),
 ('C08', 'The list of notes pairs every note with its end',
  'The notes extracted from a document (format 0 with one track, or format 1 with tempo changes only in the first track, whose own notes are not listed) are, for each track in turn and ordered by when they end, exactly one note for every NoteOn with non-zero velocity of a channel and pitch that is not already sounding, ended by the next NoteOff or zero velocity NoteOn of the same channel and pitch or else by the end of the track. '
  'Each is listed with its own channel, pitch, velocity and name, moved by the requested number of semitones (stopping at 0 and 127); repeated NoteOns and stray NoteOffs add nothing, and the text and JSON lists agree.',
  ['histories', 'inputs'], 'every interleaving of note events over channels and pitches, and every transposition',
  'the tests extract the notes of one file; pairing depends on the interleaving of overlapping notes',
  ['ops/notes/notes.go', 'commands/notes.go'], m(('note pairing', 'ops/notes/notes.go')),
 ),
 ('C10', 'The times of extracted notes follow the tempo map',
  'In the list of notes of a document (format 0 with one track, or format 1 with tempo changes only in the first track), the start and end time of every note are the times of its events in milliseconds (rounded to the nearest) (for times below 290 years) when every tick lasts (microseconds per quarter note in force at that tick) / (ticks per quarter note), starting at 500000 microseconds, and the duration is their difference. '
  'A document with SMPTE or zero time division has no such times, and extracting notes from it (if it has tracks) reports an error.',
  ['inputs', 'histories'], 'every tempo map and every placement of notes relative to the tempo changes',
  'the tests time one file with one tempo',
  ['ops/notes/notes.go', 'commands/notes.go'], m(('tempo map integration', 'ops/notes/notes.go')),
 ),
 ('C11', 'Validation reports exactly the structural problems of a document',
  'Validating a document reports exactly: a format 0 file that does not have one track; in a format 1 file, events other than track name, tempo, time signature, SMPTE offset, copyright and end of track in the first track, and tempo or SMPTE offset events in the others; a track without an EndOfTrack, or with one that is not last; and each bank select MSB and LSB controller that is not part of an adjacent pair (MSB before LSB) on one channel. '
  'Each report names the right track (and event where it says so), there are no others, and every command prints them as warnings without failing.',
  ['inputs', 'histories'], 'every document',
  'the tests validate a handful of tracks with at most one problem each',
  ['midi/smf.go', 'midi/MTrk.go', 'midi/events/', 'commands/'], m(('validation', 'midi/smf.go, midi/MTrk.go')),
 ),
 ('C12', 'No input crashes or hangs the program',
  'Whatever bytes are offered as a MIDI file, and whatever bytes are offered as a text or JSON source, every operation (decode, encode, disassemble, export, assemble, transpose, notes, click, TSV, validation) ends promptly with a result or a reported error; none panics, hangs, exhausts memory or leaves a part of itself running behind.',
  ['inputs', 'fault_sequences'], 'every byte string, in particular truncated, corrupted and spliced files and sources',
  'the tests hardly contain invalid input',
  DEC + ASM + ['ops/notes/notes.go', 'ops/transpose/transpose.go', 'ops/click/click.go', 'commands/tsv.go'], m(('bounds and range checks of the parsers', 'midi/events/, midi/MTrk.go, encoding/midi/decoder.go')),
 ),
 ('C13', 'A file is accepted exactly when it is a well-formed MIDI file',
  'Decoding succeeds exactly when the bytes are a Standard MIDI File: an MThd chunk of length 6 with format 0, 1 or 2 and a metrical or 24, 25, 29 or 30 frames per second division; chunks that are complete; as many MTrk chunks as the header says; and tracks made of whole, legal events (deltas and lengths of at most four bytes, status bytes or running status established by a voice message, data bytes below 128, known meta types with payloads of the right size and range, SysEx packets in order). '
  'Anything else (truncated, corrupted, with missing or surplus tracks or trailing bytes) is refused with an error, never silently repaired.',
  ['inputs', 'fault_sequences'], 'every byte string; every truncation and every corruption of every file',
  'the tests contain a few invalid headers and events; the boundary between accepted and refused is about all byte strings',
  DEC, m(('chunk framing', 'encoding/midi/decoder.go'), ('event validation', 'midi/events/*/')),
 ),
 ('C14', 'Notes, keys, controllers and manufacturers are named correctly',
  'Every NoteOn is named by the pitch class and octave of its number, sharps by default and flats while the key signature last seen in the track has flats, octaves counted so that note 0 is C-1 (C-2 with --C4); a NoteOff carries the name under which its note was last struck on that channel, or else its name in the current key. '
  'Every key signature carries the name of its key, every controller number its standard name, and every known manufacturer id its name and region, all others being named as unknown. '
  'These names do not depend on other tracks or documents.',
  ['histories', 'configurations', 'inputs'], 'every succession of key signatures and notes, every number, both conventions',
  'the tests check a few names in one key',
  ['midi/context/context.go', 'midi/lib/note.go', 'midi/lib/scales.go', 'midi/lib/controller.go', 'midi/lib/manufacturer.go', 'midi/events/midi/note_on.go', 'midi/events/midi/note_off.go', 'midi/events/meta/key_signature.go'],
  m(('per track naming context', 'midi/context/context.go'), ('name tables', 'midi/lib/')),
 ),
 ('C15', 'A disassembly shows every event, and all of it',
  'The disassembly of any well-formed file consists of one line for the header, and for each track one line followed by one line per event, in order; every line shows the (possibly abbreviated) bytes, and event lines show tick, delta, status or type, name and all values and payloads of the event in the documented layout. '
  'With --split the header and each track go to files of their own, together holding the same lines (without --out beside the input and named after it, whatever it is called: x.mid becomes x.MThd, x-0.MTrk, x-1.MTrk and so on); --out and standard output receive the same text.',
  ['inputs', 'configurations'], 'every well-formed file and every event and value in it',
  'the tests print one document',
  ['ops/disassemble/disassemble.go', 'ops/disassemble/template', 'commands/disassemble.go', 'midi/lib/hex.go'], m(('templates', 'ops/disassemble/template')),
 ),
 ('C16', 'The TSV table shows every event in its track and column',
  'The TSV form of any well-formed file has one block of seven columns (tick, delta, tag, channel, note, velocity, details) per track, a row of titles and then, in each block, one row per event of that track in order, every cell holding the value of that event and cells past the end of a track being blank. '
  'Any delimiter (with quoting where a value needs it), the fixed width form and standard output hold the same cells. A delimiter no such table can have (a double quote, a line end, invalid UTF-8) is an error, and nothing is written.',
  ['inputs', 'configurations'], 'every well-formed file, every delimiter and form',
  'the tests export one document and single events',
  ['commands/tsv.go'], m(('table layout', 'commands/tsv.go')),
 ),
 ('C17', 'A program change shows the bank selected before it',
  'The bank of a program change is 128 times the value of the last bank select MSB (controller 0) plus that of the last bank select LSB (controller 32) before it on the same channel of the same track, each zero if there was none; other controllers, channels and tracks have no influence.',
  ['histories'], 'every history of controllers and program changes over channels and tracks',
  'the tests have one program change after one pair of controllers',
  ['midi/events/midi/controller.go', 'midi/events/midi/program_change.go', 'midi/context/context.go'], m(('bank state of the track context', 'midi/context/context.go')),
 ),
 ('C18', 'The result of an operation does not depend on what was done before',
  'In one process, any sequence of operations (decode, encode, disassemble, export, notes, click, validate, transpose of a freshly decoded document, disassembly with user templates, assembly of sources proper and improper) on any documents (damaged ones among them), with the middle C convention switched in between and decoded documents used repeatedly, gives for each operation the result it has on its own. '
  'In particular no running status, SysEx, key signature, note name, bank or manufacturer leaks from one track or document to another, and printing, exporting, encoding, listing notes or validating does not change the document.',
  ['histories', 'configurations'], 'every sequence of operations over several documents and both conventions',
  'each test runs one operation on fresh state',
  ['midi/context/context.go', 'encoding/midi/decoder.go', 'encoding/midi/encoder.go', 'midi/lib/middlec.go', 'ops/'], m(('per track context', 'midi/context/context.go, encoding/midi/decoder.go')),
 ),
 ('C20', 'The JSON export says all there is to say about the file',
  'Exporting any well-formed file yields a JSON document with the header fields and, for every track and event in order, its tag, delta, status, type, channel and all of its values, payload bytes and names under the documented field names (text that is not valid UTF-8 appears with replacement characters); nothing is missing, misplaced or added. '
  'Standard output and --out receive the same document.',
  ['inputs', 'configurations'], 'every well-formed file and every event and value in it',
  'the tests export one document',
  ['ops/export/export.go', 'commands/export.go', 'midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/', 'midi/MThd.go'], m(('JSON form of every event', 'midi/events/*/ MarshalJSON')),
 ),
 ('C21', 'The assembler refuses sources that no MIDI file can represent',
  'Assembling a source with a value that does not fit (channel above 15, data value above 127, pitch bend above 16383, note outside 0 to 127, delta above 268435455, tempo, SMPTE offset, time or key signature or sequence number out of range, payload byte above 255, format other than 0, 1 or 2, time division out of range), or with a missing or malformed header, an unknown event, manufacturer or note name, or an event without one of its values, reports an error and produces no MIDI file. '
  'No value is silently truncated, wrapped, clamped or replaced by a default.',
  ['inputs'], 'every such error at every position of an otherwise proper source, in text and JSON',
  'the tests assemble proper sources only, apart from a few single events',
  ASM + ['midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/', 'midi/lib/'], m(('range checks in the text and JSON parsers', 'midi/events/*/ UnmarshalText and UnmarshalJSON')),
 ),
 ('C22', 'Commands succeed exactly when they should and write where they are told',
  'Every command on a well-formed input exits with status 0 and writes exactly its result to the file given with --out (for assembly without --out, to the input name with extension .midi), replacing what was there, or to standard output otherwise; --verbose and --debug do not change that result. '
  'On an input that is not a well-formed MIDI file or not a proper source it exits with a non-zero status and leaves an existing output file as it was. It also exits with a non-zero status when the input does not exist or is a directory, when the command has no result for it (notes of a file with SMPTE division, a delimiter that cannot be used; output left alone here, too) or when its result cannot be written. The name and place of the input do not matter.',
  ['inputs', 'configurations', 'fault_sequences'], 'every command, option and input, proper or damaged',
  'the tests do not run the program',
  ['cmd/midiasm/main.go', 'commands/'], m(('command line', 'cmd/midiasm/main.go'), ('commands', 'commands/')),
 ),
 ('C23', 'The binary and JSON forms of a single event stand on their own',
  'For every event of any well-formed file, the binary form of the event (MarshalBinary) is exactly its status, type, length and data bytes, and reading the delta time followed by those bytes with Event.UnmarshalBinary restores the same kind, delta, channel, values and payload; writing the event as JSON and reading that object with Event.UnmarshalJSON restores them too. '
  'Exceptions are only what a single event cannot tell: an F7 packet is read as a continuation, whether a continuation ends its message is decided by its neighbours when read from JSON, and JSON text is Unicode. '
  'Bytes that are not a whole, legal event (cut short, with an unknown status or meta type, a data byte above 127, a payload of the wrong size or with a value out of range, or a quantity of more than four bytes) are refused by Event.UnmarshalBinary with an error.',
  ['inputs'], 'every event with every value, taken alone',
  'the tests have one example per event type and form, with small payloads and deltas',
  ['midi/events/event.go', 'midi/events/binary.go', 'midi/events/json.go', 'midi/events/meta/', 'midi/events/midi/', 'midi/events/sysex/', 'midi/lib/'],
  m(('binary form of every event', 'midi/events/*/ MarshalBinary, UnmarshalBinary'), ('JSON form of every event', 'midi/events/*/ MarshalJSON, UnmarshalJSON')),
 ),
 ('C24', 'The click track lists tempo and time signature changes by bar',
  'For a metrical format 1 document whose second track has a time signature at its start, any others on bar lines and one EndOfTrack, the click track has one entry for each bar with a tempo change (first track) or time signature (second track), in order, with the bar number, the tempo in force after the changes in that bar in beats per minute (rounded to the nearest) and the time signature set in it, if any, '
  'and a closing entry for the last complete bar of the second track with the tempo and time signature in force, which includes changes made in the bar the track ends in. '
  'Bars are counted from 1; one of numerator/denominator lasts 4 * numerator / denominator quarter notes. The entries are followed by the spans from each entry to the bar before the next one. Standard output and --out receive the same lines.',
  ['inputs', 'histories'], 'every placement of tempo changes and time signatures',
  'there are no tests of the click track',
  ['ops/click/click.go', 'commands/click.go'], m(('bar counting', 'ops/click/click.go')),
 ),
 ('C25', 'User templates change the layout of what they name, and nothing else',
  'Disassembling with --templates <file>, a JSON object {"templates": {name: template}}, prints whatever the file names (an event kind, hex, event, MTrk, MThd) by the template given - literal text, the fields the built-in template of that name uses, in full, padded (pad), cut to size with an ellipsis (ellipsize) or aligned on the status byte (valign) - and everything else exactly as without --templates; '
  'names the listing does not use have no effect. It does so on standard output, with --out and with --split alike. A file that does not exist, is not such JSON, or holds a template that is malformed or cannot be applied, is an error, and nothing is written.',
  ['inputs', 'configurations'], 'every set of templates for every document',
  'there are no tests that load templates',
  ['ops/disassemble/disassemble.go', 'ops/disassemble/template', 'commands/disassemble.go'], m(('template lookup and formatting functions', 'ops/disassemble/disassemble.go')),
 ),
 ('C26', 'Operations carried out at the same time do not affect each other',
  'In one process, operations (decode, encode, disassemble with the built-in or with user templates, export, notes, click, validate, transpose, assembly of text and JSON, proper and improper, damaged files among them) that run at the same time in different goroutines, each on a document of its own and under one middle C convention, each give the result they have on their own, '
  'whatever the interleaving, and share no memory that one of them writes.',
  ['inputs', 'schedules'], 'every set of operations, every interleaving',
  'the tests run one operation at a time',
  ['midi/context/context.go', 'midi/MTrk.go', 'midi/lib/', 'encoding/midi/', 'ops/'], m(('state kept per track and per operation', 'midi/context/context.go'), ('assembler with a goroutine that reads the lines', 'ops/assemble/text.go')),
 ),
]

LEVEL_NOTE = ('TLC generates the cases from the TLA+ specification (seeded simulation plus exhaustive enumeration of small spaces), the driver runs them in the real code built from /repo, '
              'and TLC validates every recording step by step against the specification; a refused recording is reproduced before it is reported. '
              'Complete for the enumerated spaces, sampling beyond them; trusts TLC, the Go toolchain and the driver\'s projection of API objects to records.')

NOT_APPLICABLE = []

def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for (i, title, statement, over, text, why, files, mech) in P:
            f.write(json.dumps(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=mech, hook_needed=None))) + '\n')
    checks = [dict(property=p[0], quick_cmd='python3 tools/check.py %s --tier quick' % p[0], thorough_cmd='python3 tools/check.py %s --tier thorough' % p[0],
                   evidence_file='evidence/%s.json' % p[0],
                   technique='TLA+ specification, TLC-generated behaviours replayed in the program, recordings validated by TLC',
                   level='model_checking', level_note=LEVEL_NOTE) for p in P]
    doc = dict(version=1, setup_cmd='python3 tools/check.py --setup', checks=checks, not_applicable=NOT_APPLICABLE,
               notes='No hooks: the checks use the public API of the packages and the command line program, both built from /repo. Fixed and known defects: known-findings.txt.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')

if __name__ == '__main__':
    main()
