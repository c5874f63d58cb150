package props

import (
	"encoding/binary"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
)

// Tags of audio files, written from the formats' specifications.

// tagFrame is one frame, atom or comment beside title, artist and album.
type tagFrame struct {
	Name  string `json:"name"`
	Data  []byte `json:"data"`
	Flags int    `json:"flags,omitempty"`
	Size  int    `json:"size,omitempty"` // added to the size declared
}

// tagSpec describes the tag of a file.
type tagSpec struct {
	Kind   string      `json:"kind"` // "", v22, v23, v24, v1, mp4, flac, ogg, dsf
	Enc    int         `json:"enc"`
	Title  string      `json:"title"`
	Artist string      `json:"artist"`
	Album  string      `json:"album"`
	Bytes  [][]byte    `json:"bytes,omitempty"` // raw title, artist and album (any bytes)
	Extra  []tagFrame  `json:"extra,omitempty"` // before the texts
	Flags  int         `json:"flags,omitempty"` // of the header
	Pad    int         `json:"pad,omitempty"`
	Order  int         `json:"order,omitempty"`
	Cut    int         `json:"cut,omitempty"`    // 1+position at which the file ends
	Set    [][2]int    `json:"set,omitempty"`    // bytes overwritten: position (modulo the size), value
	Absent int         `json:"absent,omitempty"` // bits: no title, artist, album
	Others [][2]string `json:"others,omitempty"` // well-formed texts of other names
	Front  bool        `json:"front,omitempty"`  // these come before the title, artist and album
}

// exact reports whether the tag is well-formed, so that its texts are known.
func (s *tagSpec) exact() bool {
	return s.Kind != "" && s.Bytes == nil && s.Extra == nil && s.Flags == 0 && s.Cut == 0 && s.Set == nil
}

func (s *tagSpec) texts() []string {
	l := []string{s.Title, s.Artist, s.Album}
	for i := range l {
		if s.Absent>>uint(i)&1 != 0 {
			l[i] = ""
		}
	}
	return l
}

func (s *tagSpec) encode(i int) []byte {
	if s.Bytes != nil {
		return s.Bytes[i]
	}
	return s.encodeText(s.texts()[i])
}

func (s *tagSpec) encodeText(txt string) []byte {
	switch s.Enc {
	case 0:
		var b []byte
		for _, r := range txt {
			b = append(b, byte(r))
		}
		return b
	case 1, 2, 4: // 4: little endian with byte order mark
		var b []byte
		order := binary.ByteOrder(binary.BigEndian)
		u := utf16.Encode([]rune(txt))
		if s.Enc == 4 {
			order = binary.LittleEndian
		}
		if s.Enc != 2 {
			u = append([]uint16{0xfeff}, u...)
		}
		for _, x := range u {
			var w [2]byte
			order.PutUint16(w[:], x)
			b = append(b, w[:]...)
		}
		return b
	}
	return []byte(txt)
}

func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
func le32(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }
func safe32(n int) []byte {
	return []byte{byte(n >> 21 & 127), byte(n >> 14 & 127), byte(n >> 7 & 127), byte(n & 127)}
}

// wrap puts the tag around the audio data.
func (s *tagSpec) wrap(audio []byte) []byte {
	b := s.whole(audio)
	for _, p := range s.Set {
		if len(b) > 0 {
			b[p[0]%len(b)] = byte(p[1])
		}
	}
	if s.Cut > 0 && s.Cut-1 < len(b) {
		b = b[:s.Cut-1]
	}
	return b
}

var tagNames = map[string][]string{
	"v22": {"TT2", "TP1", "TAL"}, "v23": {"TIT2", "TPE1", "TALB"}, "v24": {"TIT2", "TPE1", "TALB"}, "dsf": {"TIT2", "TPE1", "TALB"},
	"mp4": {"\xa9nam", "\xa9ART", "\xa9alb"}, "flac": {"TITLE", "artist", "Album"}, "ogg": {"title", "ARTIST", "album"},
}

// otherNames are texts that are neither title nor artist nor album.
var otherNames = map[string][]string{
	"v22":  {"TP2", "TCM", "TCO", "TYE", "TT1", "TT3", "TP3", "TOT", "TOA"},
	"v23":  {"TPE2", "TCOM", "TCON", "TYER", "TIT1", "TIT3", "TPE3", "TOAL", "TOPE"},
	"v24":  {"TPE2", "TCOM", "TCON", "TDRC", "TIT1", "TIT3", "TPE3", "TOAL", "TOPE", "TSOT", "TSOP", "TSOA"},
	"dsf":  {"TPE2", "TCOM", "TCON", "TYER", "TIT1", "TIT3", "TPE3", "TOAL", "TOPE"},
	"mp4":  {"aART", "©wrt", "©gen", "©day", "©grp", "©cmt"},
	"flac": {"ALBUMARTIST", "composer", "Genre", "titlesort", "DESCRIPTION", "artistsort"},
	"ogg":  {"albumartist", "COMPOSER", "genre", "titlesort", "description", "artistsort"},
}

func (s *tagSpec) whole(audio []byte) []byte {
	frames := append([]tagFrame{}, s.Extra...)
	others := func() {
		for _, o := range s.Others {
			frames = append(frames, tagFrame{Name: o[0], Data: s.encodeText(o[1])})
		}
	}
	if s.Front {
		others()
	}
	for k := 0; k < 3; k++ {
		i := (k + s.Order) % 3
		d := s.encode(i)
		if n := tagNames[s.Kind]; n != nil && s.Absent>>uint(i)&1 == 0 {
			frames = append(frames, tagFrame{Name: n[i], Data: d})
		}
	}
	if !s.Front {
		others()
	}
	audio = append([]byte{}, audio...)
	switch s.Kind {
	case "v22", "v23", "v24":
		return append(s.id3(s.Kind, frames), audio...)
	case "dsf":
		h := append([]byte("DSD "), make([]byte, 24)...)
		b := append(h, audio...)
		binary.LittleEndian.PutUint64(b[20:], uint64(len(b)))
		return append(b, s.id3("v23", frames)...)
	case "v1":
		b := append(audio, "TAG"...)
		for i := 0; i < 3; i++ {
			f := make([]byte, 30)
			copy(f, s.encode(i))
			b = append(b, f...)
		}
		return append(append(b, "2018a comment that has 28 chars."[:34-2]...), make([]byte, 3)...)
	case "mp4":
		var l []byte
		for _, f := range frames {
			f.Name = strings.ReplaceAll(f.Name, "©", "\xa9")
			d := append(append([]byte{}, be32(16+len(f.Data)+f.Size)...), "data"...)
			d = append(d, 0, 0, 0, byte(1+f.Flags), 0, 0, 0, 0)
			d = append(d, f.Data...)
			l = append(append(append(l, be32(8+len(d)+f.Size)...), f.Name...), d...)
		}
		atom := func(n string, pre int, d []byte) []byte {
			return append(append(append(be32(8+pre+len(d)), n...), make([]byte, pre)...), d...)
		}
		b := atom("ftyp", 8, nil)
		if s.Order%2 == 0 {
			b = append(b, atom("mdat", 0, audio)...)
			return append(b, atom("moov", 0, atom("udta", 0, atom("meta", 4, atom("ilst", 0, l))))...)
		}
		// nothing may follow: the audio precedes the list within moov
		return append(b, atom("moov", 0, append(atom("free", 0, audio), atom("udta", 0, atom("meta", 4, atom("ilst", 0, l)))...))...)
	case "flac", "ogg":
		v := append(le32(6), "vendor"...)
		v = append(v, le32(len(frames))...)
		for _, f := range frames {
			v = append(append(append(append(v, le32(len(f.Name)+1+len(f.Data)+f.Size)...), f.Name...), '='), f.Data...)
		}
		if s.Kind == "flac" {
			b := append([]byte("fLaC"), 0, 0, 0, 34)
			b = append(b, make([]byte, 34)...)
			b = append(append(append(b, 4), be32(len(v))[1:]...), v...)
			b = append(append(b, 0x81), be32(s.Pad)[1:]...)
			return append(append(b, make([]byte, s.Pad)...), audio...)
		}
		page := func(flag byte, d []byte) []byte {
			p := append([]byte("OggS"), 0, flag)
			p = append(p, make([]byte, 20)...)
			var seg []byte
			n := len(d)
			for ; n >= 255; n -= 255 {
				seg = append(seg, 255)
			}
			seg = append(seg, byte(n))
			return append(append(append(p, byte(len(seg))), seg...), d...)
		}
		id := append([]byte("\x01vorbis"), make([]byte, 23)...)
		return append(append(append(page(2, id), page(0, append([]byte("\x03vorbis"), v...))...), page(4, nil)...), audio...)
	}
	return audio
}

func (s *tagSpec) id3(v string, frames []tagFrame) []byte {
	var l []byte
	for _, f := range frames {
		d := f.Data
		if isText(f.Name) && f.Flags == 0 && f.Size == 0 {
			enc := byte(s.Enc)
			if enc == 4 {
				enc = 1
			}
			d = append([]byte{enc}, d...)
		}
		n := len(d) + f.Size
		if n < 0 {
			n = 0
		}
		l = append(l, f.Name...)
		switch v {
		case "v22":
			l = append(l, be32(n)[1:]...)
		case "v23":
			l = append(append(l, be32(n)...), byte(f.Flags>>8), byte(f.Flags))
		case "v24":
			l = append(append(l, safe32(n)...), byte(f.Flags>>8), byte(f.Flags))
		}
		l = append(l, d...)
	}
	l = append(l, make([]byte, s.Pad)...)
	if s.Pad == 0 { // an audio file always follows; keep it from being read as a frame
		l = append(l, make([]byte, 12)...)
	}
	h := append([]byte("ID3"), v[2]-'0', 0, byte(s.Flags))
	return append(append(h, safe32(len(l))...), l...)
}

func isText(n string) bool { return len(n) > 0 && n[0] == 'T' && n != "TXXX" && n != "TXX" }

// genTag draws a tag; wild ones may be malformed in any way.
func genTag(t *rapid.T, wild bool) (s tagSpec) {
	s.Kind = rapid.SampledFrom([]string{"v23", "v24", "v22", "v1", "mp4", "flac", "ogg", "dsf"}).Draw(t, "kind")
	if !wild && (s.Kind == "mp4" || s.Kind == "flac" || s.Kind == "ogg" || s.Kind == "dsf") && rapid.Bool().Draw(t, "common") {
		s.Kind = "v23"
	}
	var texts [3]string
	switch s.Kind {
	case "v22", "v23", "v24", "dsf":
		s.Enc = rapid.SampledFrom([]int{0, 1, 2, 3, 4}).Draw(t, "enc")
	case "v1":
		s.Enc = 3
	default:
		s.Enc = 3
	}
	for i := range texts {
		max := 20
		var txt []rune
		for _, r := range genText(t, "text", max) {
			switch {
			case s.Enc == 0 && r > 255, r == 0:
				r = 'x'
			}
			txt = append(txt, r)
		}
		if s.Kind == "v1" {
			txt = v1Text(txt)
		}
		if len(txt) > 0 && (s.Enc == 1 || s.Enc == 2) && (txt[0] == 0xfeff || txt[0] == 0xfffe) {
			txt[0] = 'x'
		}
		texts[i] = string(txt)
	}
	s.Title, s.Artist, s.Album = texts[0], texts[1], texts[2]
	s.Order = rapid.IntRange(0, 2).Draw(t, "order")
	s.Pad = rapid.SampledFrom([]int{0, 20, 500}).Draw(t, "pad")
	if names := otherNames[s.Kind]; names != nil {
		if rapid.IntRange(0, 3).Draw(t, "absent?") == 0 {
			s.Absent = rapid.IntRange(1, 7).Draw(t, "absent")
		}
		s.Front = rapid.Bool().Draw(t, "front")
		for _, k := range rapid.SliceOfNDistinct(rapid.IntRange(0, len(names)-1), 0, 3, rapid.ID).Draw(t, "others") {
			s.Others = append(s.Others, [2]string{names[k], rapid.SampledFrom([]string{"Another", "1999", "17", "B", "somebody else"}).Draw(t, "other")})
		}
	}
	if !wild {
		return
	}
	if rapid.IntRange(0, 2).Draw(t, "raw") == 0 {
		for i := 0; i < 3; i++ {
			s.Bytes = append(s.Bytes, rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 40),
				rapid.SampledFrom([][]byte{{}, {0}, {0xe9}, []byte("caf\xe9"), {0xff}, {0xff, 0xfe}, {0xfe, 0xff, 0xd8, 0}, {0xc3}, {0xed, 0xa0, 0x80}, []byte("\xf4\x90\x80\x80"), []byte("a\x00b")})).Draw(t, "bytes"))
		}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
		var names []string
		switch s.Kind {
		case "v22":
			names = []string{"COM", "ULT", "TXX", "WXX", "PIC", "UFI", "WAF", "TCO", "XYZ", "TT2", "TP1"}
		case "mp4":
			names = []string{"©nam", "©ART", "©art", "©alb", "trkn", "disk", "covr", "----", "tmpo", "abcd", "meta", "moov", "cpil"}
		case "flac", "ogg":
			names = []string{"metadata_block_picture", "performer", "title", "", "date", "x"}
		default:
			names = []string{"COMM", "USLT", "TXXX", "WXXX", "APIC", "UFID", "WOAF", "TCON", "XYZZ", "TIT2", "TPE1", "PRIV", "\x00\x00\x00\x00"}
		}
		f := tagFrame{Name: rapid.SampledFrom(names).Draw(t, "name"), Data: rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 3), rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 1, 2, 3, 'a', 'z', 255, 254, 4}), 0, 30)).Draw(t, "data")}
		if rapid.IntRange(0, 2).Draw(t, "flagged") == 0 {
			f.Flags = rapid.SampledFrom([]int{0x80, 0x40, 0x20, 0xc0, 8, 4, 2, 1, 9, 5, 13, 12, 20}).Draw(t, "flags")
		}
		if rapid.IntRange(0, 2).Draw(t, "sized") == 0 {
			f.Size = rapid.IntRange(-10, 10).Draw(t, "size")
		}
		s.Extra = append(s.Extra, f)
	}
	if rapid.IntRange(0, 4).Draw(t, "header flags") == 0 {
		s.Flags = rapid.SampledFrom([]int{0x80, 0x40, 0x20, 0xc0}).Draw(t, "hflags")
	}
	if rapid.IntRange(0, 3).Draw(t, "cut?") == 0 {
		s.Cut = rapid.IntRange(1, 300).Draw(t, "cut")
	}
	if rapid.IntRange(0, 2).Draw(t, "set?") == 0 {
		for i := rapid.IntRange(1, 4).Draw(t, "sets"); i > 0; i-- {
			s.Set = append(s.Set, [2]int{rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 5000)).Draw(t, "at"), int(rapid.Byte().Draw(t, "to"))})
		}
	}
	return
}

// v1Text makes a text fit into a field of 30 bytes that may be padded with blanks.
func v1Text(txt []rune) (r []rune) {
	n := 0
	for _, x := range txt {
		l := len(string(x))
		if n+l > 30 {
			break
		}
		n += l
		r = append(r, x)
	}
	blank := func(x rune) bool {
		switch x {
		case ' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
			return true
		}
		return x >= 0x2000 && x <= 0x200a
	}
	for len(r) > 0 && blank(r[0]) {
		r = r[1:]
	}
	for len(r) > 0 && blank(r[len(r)-1]) {
		r = r[:len(r)-1]
	}
	return
}
