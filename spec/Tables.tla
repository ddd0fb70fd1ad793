------------------------------- MODULE Tables -------------------------------
(* Names of controllers and manufacturers (transcribed from the MIDI 1.0 tables the program documents). *)
EXTENDS Integers, Sequences

UNKNOWN == "<3C>unknown<3E>"

ControllerName(id) ==
  CASE id = 0 -> "Bank Select (MSB)"
    [] id = 1 -> "Modulation Wheel (MSB)"
    [] id = 2 -> "Breath Controller (MSB)"
    [] id = 4 -> "Foot Controller (MSB)"
    [] id = 5 -> "Portamento Time (MSB)"
    [] id = 6 -> "Data Entry (MSB)"
    [] id = 7 -> "Channel Volume (MSB)"
    [] id = 8 -> "Balance (MSB)"
    [] id = 10 -> "Pan (MSB)"
    [] id = 11 -> "Expression Controller (MSB)"
    [] id = 12 -> "Effect Control 1 (MSB)"
    [] id = 13 -> "Effect Control 2 (MSB)"
    [] id = 16 -> "General Purpose Controller 1 (MSB)"
    [] id = 17 -> "General Purpose Controller 2 (MSB)"
    [] id = 18 -> "General Purpose Controller 3 (MSB)"
    [] id = 19 -> "General Purpose Controller 4 (MSB)"
    [] id = 32 -> "Bank Select (LSB)"
    [] id = 33 -> "Modulation Wheel (LSB)"
    [] id = 34 -> "Breath Controller (LSB)"
    [] id = 36 -> "Foot Controller (LSB)"
    [] id = 37 -> "Portamento Time (LSB)"
    [] id = 38 -> "Data Entry (LSB)"
    [] id = 39 -> "Channel Volume (LSB)"
    [] id = 40 -> "Balance (LSB)"
    [] id = 42 -> "Pan (LSB)"
    [] id = 43 -> "Expression Controller (LSB)"
    [] id = 44 -> "Effect Control 1 (LSB)"
    [] id = 45 -> "Effect Control 2 (LSB)"
    [] id = 48 -> "General Purpose Controller 1 (LSB)"
    [] id = 49 -> "General Purpose Controller 2 (LSB)"
    [] id = 50 -> "General Purpose Controller 3 (LSB)"
    [] id = 51 -> "General Purpose Controller 4 (LSB)"
    [] id = 64 -> "Sustain On/Off"
    [] id = 65 -> "Portamento On/Off"
    [] id = 66 -> "Sostenuto On/Off"
    [] id = 67 -> "Soft Pedal On/Off"
    [] id = 68 -> "Legato On/Off"
    [] id = 69 -> "Hold 2 On/Off"
    [] id = 70 -> "Sound Controller 1  (TG: Sound Variation;  FX: Exciter On/Off)"
    [] id = 71 -> "Sound Controller 2  (TG: Harmonic Content; FX: Compressor On/Off)"
    [] id = 72 -> "Sound Controller 3  (TG: Release Time;     FX: Distortion On/Off)"
    [] id = 73 -> "Sound Controller 4  (TG: Attack Time;      FX: EQ On/Off)"
    [] id = 74 -> "Sound Controller 5  (TG: Brightness;       FX: Expander On/Off)"
    [] id = 75 -> "Sound Controller 6  (TG: Decay Time;       FX: Reverb On/Off)"
    [] id = 76 -> "Sound Controller 7  (TG: Vibrato Rate;     FX: Delay On/Off)"
    [] id = 77 -> "Sound Controller 8  (TG: Vibrato Depth;    FX: Pitch Transpose On/Off)"
    [] id = 78 -> "Sound Controller 9  (TG: Vibrato Delay;    FX: Flange/Chorus On/Off)"
    [] id = 79 -> "Sound Controller 10 (TG: Undefined;        FX: Special Effects On/Off)"
    [] id = 80 -> "General Purpose Controller 5"
    [] id = 81 -> "General Purpose Controller 6"
    [] id = 82 -> "General Purpose Controller 7"
    [] id = 83 -> "General Purpose Controller 8"
    [] id = 84 -> "Portamento Control"
    [] id = 88 -> "High Resolution Velocity Prefix"
    [] id = 91 -> "Effects 1 Depth (Reverb Send Level)"
    [] id = 92 -> "Effects 2 Depth (Tremelo Depth)"
    [] id = 93 -> "Effects 3 Depth (Chorus Send Level)"
    [] id = 94 -> "Effects 4 Depth (Celeste Depth)"
    [] id = 95 -> "Effects 5 Depth (Phaser Depth)"
    [] id = 96 -> "Data Increment"
    [] id = 97 -> "Data Decrement"
    [] id = 98 -> "Non-Registered Parameter Number (LSB)"
    [] id = 99 -> "Non-Registered Parameter Number (MSB)"
    [] id = 100 -> "Registered Parameter Number (LSB)"
    [] id = 101 -> "Registered Parameter Number (MSB)"
    [] id = 120 -> "All Sound Off"
    [] id = 121 -> "Reset All Controllers"
    [] id = 122 -> "Local Control On/Off"
    [] id = 123 -> "All Notes Off"
    [] id = 124 -> "Omni Mode Off"
    [] id = 125 -> "Omni Mode On "
    [] id = 126 -> "Mono Mode On"
    [] id = 127 -> "Poly Mode On"
    [] OTHER -> UNKNOWN

Manufacturers == <<
  [id |-> <<125>>, region |-> "Special Purpose", name |-> "Non-Commercial"],
  [id |-> <<126>>, region |-> "Special Purpose", name |-> "Non-RealTime Extensions"],
  [id |-> <<127>>, region |-> "Special Purpose", name |-> "RealTime Extensions"],
  [id |-> <<1>>, region |-> "American", name |-> "Sequential Circuits"],
  [id |-> <<4>>, region |-> "American", name |-> "Moog"],
  [id |-> <<5>>, region |-> "American", name |-> "Passport Designs"],
  [id |-> <<6>>, region |-> "American", name |-> "Lexicon"],
  [id |-> <<7>>, region |-> "American", name |-> "Kurzweil"],
  [id |-> <<8>>, region |-> "American", name |-> "Fender"],
  [id |-> <<10>>, region |-> "American", name |-> "AKG Acoustics"],
  [id |-> <<15>>, region |-> "American", name |-> "Ensoniq"],
  [id |-> <<16>>, region |-> "American", name |-> "Oberheim"],
  [id |-> <<17>>, region |-> "American", name |-> "Apple"],
  [id |-> <<19>>, region |-> "American", name |-> "Digidesign"],
  [id |-> <<24>>, region |-> "American", name |-> "Emu"],
  [id |-> <<26>>, region |-> "American", name |-> "ART"],
  [id |-> <<28>>, region |-> "American", name |-> "Eventide"],
  [id |-> <<34>>, region |-> "European", name |-> "Synthaxe"],
  [id |-> <<36>>, region |-> "European", name |-> "Hohner"],
  [id |-> <<41>>, region |-> "European", name |-> "PPG"],
  [id |-> <<43>>, region |-> "European", name |-> "SSL"],
  [id |-> <<45>>, region |-> "European", name |-> "Hinton Instruments"],
  [id |-> <<47>>, region |-> "European", name |-> "Elka / General Music"],
  [id |-> <<48>>, region |-> "European", name |-> "Dynacord"],
  [id |-> <<51>>, region |-> "European", name |-> "Clavia (Nord)"],
  [id |-> <<54>>, region |-> "European", name |-> "Cheetah"],
  [id |-> <<62>>, region |-> "European", name |-> "Waldorf Electronics Gmbh"],
  [id |-> <<64>>, region |-> "Japanese", name |-> "Kawai"],
  [id |-> <<65>>, region |-> "Japanese", name |-> "Roland"],
  [id |-> <<66>>, region |-> "Japanese", name |-> "Korg"],
  [id |-> <<67>>, region |-> "Japanese", name |-> "Yamaha"],
  [id |-> <<68>>, region |-> "Japanese", name |-> "Casio"],
  [id |-> <<71>>, region |-> "Japanese", name |-> "Akai"],
  [id |-> <<72>>, region |-> "Japanese", name |-> "Japan Victor (JVC)"],
  [id |-> <<76>>, region |-> "Japanese", name |-> "Sony"],
  [id |-> <<78>>, region |-> "Japanese", name |-> "Teac Corporation"],
  [id |-> <<81>>, region |-> "Japanese", name |-> "Fostex"],
  [id |-> <<82>>, region |-> "Japanese", name |-> "Zoom"],
  [id |-> <<0, 0, 7>>, region |-> "American", name |-> "Digital Music Corporation"],
  [id |-> <<0, 0, 9>>, region |-> "American", name |-> "New England Digital"],
  [id |-> <<0, 0, 14>>, region |-> "American", name |-> "Alesis"],
  [id |-> <<0, 0, 21>>, region |-> "American", name |-> "KAT"],
  [id |-> <<0, 0, 22>>, region |-> "American", name |-> "Opcode"],
  [id |-> <<0, 0, 26>>, region |-> "American", name |-> "Allen & Heath Brenell"],
  [id |-> <<0, 0, 27>>, region |-> "American", name |-> "Peavey Electronics"],
  [id |-> <<0, 0, 28>>, region |-> "American", name |-> "360 Systems"],
  [id |-> <<0, 0, 31>>, region |-> "American", name |-> "Zeta Systems"],
  [id |-> <<0, 0, 32>>, region |-> "American", name |-> "Axxes"],
  [id |-> <<0, 0, 59>>, region |-> "American", name |-> "Mark Of The Unicorn (MOTU)"],
  [id |-> <<0, 0, 77>>, region |-> "American", name |-> "Studio Electronics"],
  [id |-> <<0, 0, 80>>, region |-> "American", name |-> "MIDI Solutions Inc"],
  [id |-> <<0, 1, 55>>, region |-> "American", name |-> "Roger Linn Design"],
  [id |-> <<0, 1, 114>>, region |-> "American", name |-> "Kilpatrick Audio"],
  [id |-> <<0, 1, 115>>, region |-> "American", name |-> "iConnectivity"],
  [id |-> <<0, 2, 20>>, region |-> "American", name |-> "Intellijel Designs Inc"],
  [id |-> <<0, 32, 17>>, region |-> "European", name |-> "Forefront Technology"],
  [id |-> <<0, 32, 19>>, region |-> "European", name |-> "Kenton Electronics"],
  [id |-> <<0, 32, 31>>, region |-> "European", name |-> "TC Electronic"],
  [id |-> <<0, 32, 32>>, region |-> "European", name |-> "Doepfer"],
  [id |-> <<0, 32, 39>>, region |-> "European", name |-> "Acorn Computer"],
  [id |-> <<0, 32, 41>>, region |-> "European", name |-> "Focusrite / Novation"],
  [id |-> <<0, 32, 50>>, region |-> "European", name |-> "Behringer"],
  [id |-> <<0, 32, 51>>, region |-> "European", name |-> "Access Music Electronics"],
  [id |-> <<0, 32, 60>>, region |-> "European", name |-> "Elektron"],
  [id |-> <<0, 32, 77>>, region |-> "European", name |-> "Vermona"],
  [id |-> <<0, 32, 82>>, region |-> "European", name |-> "Analogue Systems"],
  [id |-> <<0, 32, 105>>, region |-> "European", name |-> "Elby Designs"],
  [id |-> <<0, 32, 107>>, region |-> "European", name |-> "Arturia"],
  [id |-> <<0, 32, 118>>, region |-> "European", name |-> "Teenage Engineering"],
  [id |-> <<0, 33, 2>>, region |-> "European", name |-> "Mutable Instruments"],
  [id |-> <<0, 33, 9>>, region |-> "European", name |-> "Native Instruments"],
  [id |-> <<0, 33, 16>>, region |-> "European", name |-> "ROLI Ltd"],
  [id |-> <<0, 33, 26>>, region |-> "European", name |-> "IK Multimedia"],
  [id |-> <<0, 33, 28>>, region |-> "European", name |-> "Modor Music"],
  [id |-> <<0, 33, 29>>, region |-> "European", name |-> "Ableton"],
  [id |-> <<0, 33, 39>>, region |-> "European", name |-> "Expert Sleepers"] >>

ManufacturerAt(id) == {i \in 1..Len(Manufacturers) : Manufacturers[i].id = id}

Manufacturer(id) ==
  IF ManufacturerAt(id) = {} THEN [id |-> id, region |-> UNKNOWN, name |-> UNKNOWN]
  ELSE Manufacturers[CHOOSE i \in ManufacturerAt(id) : TRUE]

KnownManufacturer(id) == ManufacturerAt(id) # {}
=============================================================================
