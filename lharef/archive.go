package lharef

import (
	"encoding/binary"
	"fmt"
	"time"
)

// ExtHdr is one extended header record (levels 1, 2 and 3).
type ExtHdr struct {
	Type byte
	Data []byte
}

// Member describes one archive member at the level of the on-disk format.
type Member struct {
	Level  int
	Method string // five bytes, "-lh5-"
	Packed []byte
	Far    int // packed size announced for data that is not held in Packed
	Orig   int
	CRC    uint16
	Attr   byte
	DOS    uint32 // levels 0 and 1
	Unix   uint32 // levels 2 and 3
	OS     byte
	Name   []byte // base-header name (levels 0 and 1)
	Tail   []byte // level 0: what follows the file CRC; level 1: what sits between OS id and next-size
	NoCRC  bool   // level 0 only: the CRC field is absent
	Exts   []ExtHdr
	Pad    bool // level 2: a padding byte is added
	PadVal byte // its value
	Extra  int  // written: size of the whole header in bytes (filled by Header)
}

// FindExt returns the first extended header of the type.
func (m *Member) FindExt(t byte) ([]byte, bool) {
	for _, e := range m.Exts {
		if e.Type == t {
			return e.Data, true
		}
	}
	return nil, false
}

// Path is the slash separated path the member stands for.
func (m *Member) Path() string {
	name := m.Name
	if b, ok := m.FindExt(1); ok {
		name = b
	}
	var out []byte
	if d, ok := m.FindExt(2); ok {
		for _, c := range d {
			if c == 0xff {
				c = '/'
			}
			out = append(out, c)
		}
	}
	for _, c := range name {
		if c == 0xff || (c == '\\' && m.Level == 0) {
			c = '/'
		}
		out = append(out, c)
	}
	return string(out)
}

// Header builds the header bytes, checksums included.
func (m *Member) Header() []byte {
	le := binary.LittleEndian
	var h []byte
	u16 := func(v int) { h = le.AppendUint16(h, uint16(v)) }
	u32 := func(v uint32) { h = le.AppendUint32(h, v) }
	if len(m.Method) != 5 {
		panic("method")
	}
	szf := 2
	if m.Level == 3 {
		szf = 4
	}
	extTotal := 0
	for _, e := range m.Exts {
		extTotal += 1 + len(e.Data) + szf
	}
	putExts := func() (crcAt int) {
		crcAt = -1
		size := func(v int) {
			if szf == 2 {
				u16(v)
			} else {
				u32(uint32(v))
			}
		}
		for _, e := range m.Exts {
			size(1 + len(e.Data) + szf)
			h = append(h, e.Type)
			if e.Type == 0 && crcAt < 0 && len(e.Data) >= 2 {
				crcAt = len(h)
			}
			h = append(h, e.Data...)
		}
		size(0)
		return crcAt
	}
	switch m.Level {
	case 0, 1:
		h = append(h, 0, 0)
		h = append(h, m.Method...)
		if m.Level == 1 {
			u32(uint32(m.PackedSize() + extTotal))
		} else {
			u32(uint32(m.PackedSize()))
		}
		u32(uint32(m.Orig))
		u32(m.DOS)
		h = append(h, m.Attr, byte(m.Level), byte(len(m.Name)))
		h = append(h, m.Name...)
		base := 0
		if m.Level == 0 {
			if !m.NoCRC {
				u16(int(m.CRC))
				h = append(h, m.Tail...)
			}
			base = len(h)
		} else {
			u16(int(m.CRC))
			h = append(h, m.OS)
			h = append(h, m.Tail...)
			base = len(h) + 2
			putExts()
		}
		if base-2 > 255 {
			panic("header too long for the level")
		}
		h[0] = byte(base - 2)
		sum := 0
		for _, c := range h[2:base] {
			sum += int(c)
		}
		h[1] = byte(sum)
	case 2, 3:
		if m.Level == 3 {
			u16(4)
		} else {
			u16(0)
		}
		h = append(h, m.Method...)
		u32(uint32(m.PackedSize()))
		u32(uint32(m.Orig))
		u32(m.Unix)
		h = append(h, m.Attr, byte(m.Level))
		u16(int(m.CRC))
		h = append(h, m.OS)
		if m.Level == 3 {
			u32(0)
		}
		crcAt := putExts()
		if crcAt >= 0 {
			h[crcAt], h[crcAt+1] = 0, 0
		}
		if m.Level == 2 {
			// a size whose low byte is 0 would read as the end mark
			if len(h)&0xff == 0 || m.Pad && (len(h)+1)&0xff != 0 {
				h = append(h, m.PadVal)
			}
			le.PutUint16(h, uint16(len(h)))
		} else {
			le.PutUint32(h[24:], uint32(len(h)))
		}
		if crcAt >= 0 {
			le.PutUint16(h[crcAt:], CRC16(h))
		}
	default:
		panic("level")
	}
	m.Extra = len(h)
	return h
}

// Bytes is the header followed by the packed data.
// PackedSize is the packed size the header announces.
func (m *Member) PackedSize() int {
	if m.Far > 0 {
		return m.Far
	}
	return len(m.Packed)
}

func (m *Member) Bytes() []byte { return append(m.Header(), m.Packed...) }

// Archive concatenates members and the end mark.
func Archive(ms ...*Member) []byte {
	var out []byte
	for _, m := range ms {
		out = append(out, m.Bytes()...)
	}
	return append(out, 0)
}

// ParseHeader strictly parses a header alone, and returns its size and the
// packed size it announces.
func ParseHeader(data []byte) (*Member, int, int, error) {
	m, skip, err := parseHeader(data, 0)
	if err != nil {
		return nil, 0, 0, err
	}
	return m, m.Extra, skip, nil
}

// ParseMember strictly parses one member at data[off:].
func ParseMember(data []byte, off int) (*Member, int, error) {
	m, skip, err := parseHeader(data, off)
	if err != nil {
		return nil, 0, err
	}
	d := data[off:]
	if m.Extra+skip > len(d) {
		return nil, 0, fmt.Errorf("offset %d: data of %d bytes overruns the file", off, skip)
	}
	m.Packed = append([]byte{}, d[m.Extra:m.Extra+skip]...)
	return m, off + m.Extra + skip, nil
}

func parseHeader(data []byte, off int) (*Member, int, error) {
	le := binary.LittleEndian
	d := data[off:]
	if len(d) < 22 {
		return nil, 0, fmt.Errorf("offset %d: truncated base header (%d bytes left)", off, len(d))
	}
	m := &Member{Level: int(d[20]), Method: string(d[2:7])}
	if m.Method[0] != '-' || m.Method[4] != '-' {
		return nil, 0, fmt.Errorf("offset %d: %q is not a method id", off, m.Method)
	}
	skip := int(le.Uint32(d[7:]))
	m.Orig = int(le.Uint32(d[11:]))
	m.Attr = d[19]
	readExts := func(pos, szf int, limit int) (int, int, error) {
		total, crcAt := 0, -1
		for {
			if pos+szf > len(d) || (limit >= 0 && pos+szf > limit) {
				return 0, 0, fmt.Errorf("offset %d: truncated extended headers", off)
			}
			sz := 0
			if szf == 2 {
				sz = int(le.Uint16(d[pos:]))
			} else {
				sz = int(le.Uint32(d[pos:]))
			}
			pos += szf
			if sz == 0 {
				break
			}
			if sz < 1+szf {
				return 0, 0, fmt.Errorf("offset %d: extended header of %d bytes", off, sz)
			}
			if pos+sz > len(d) || (limit >= 0 && pos+sz > limit) {
				return 0, 0, fmt.Errorf("offset %d: extended header of %d bytes overruns", off, sz)
			}
			if d[pos] == 0 && crcAt < 0 {
				crcAt = pos + 1
				if sz < 3+szf {
					return 0, 0, fmt.Errorf("offset %d: common header too short", off)
				}
			}
			m.Exts = append(m.Exts, ExtHdr{d[pos], append([]byte{}, d[pos+1:pos+sz-szf]...)})
			total += sz
			pos += sz - szf
		}
		_ = total
		return pos, crcAt, nil
	}
	hdr := 0
	switch m.Level {
	case 0, 1:
		size := int(d[0])
		base := size + 2
		if base > len(d) {
			return nil, 0, fmt.Errorf("offset %d: truncated header", off)
		}
		if base < 22 {
			return nil, 0, fmt.Errorf("offset %d: header size %d too small", off, size)
		}
		sum := 0
		for _, c := range d[2:base] {
			sum += int(c)
		}
		if byte(sum) != d[1] {
			return nil, 0, fmt.Errorf("offset %d: header checksum %02x, stored %02x", off, byte(sum), d[1])
		}
		m.DOS = le.Uint32(d[15:])
		nl := int(d[21])
		p := 22 + nl
		if p > base {
			return nil, 0, fmt.Errorf("offset %d: name of %d bytes overruns the header", off, nl)
		}
		m.Name = append([]byte{}, d[22:p]...)
		if m.Level == 0 {
			switch {
			case p == base:
				m.NoCRC = true
			case p+2 > base:
				return nil, 0, fmt.Errorf("offset %d: half a CRC field", off)
			default:
				m.CRC = le.Uint16(d[p:])
				m.Tail = append([]byte{}, d[p+2:base]...)
				if len(m.Tail) > 0 {
					m.OS = m.Tail[0]
				}
			}
			hdr = base
		} else {
			if p+5 > base {
				return nil, 0, fmt.Errorf("offset %d: level 1 base header too short", off)
			}
			m.CRC = le.Uint16(d[p:])
			m.OS = d[p+2]
			m.Tail = append([]byte{}, d[p+3:base-2]...)
			end, _, err := readExts(base-2, 2, -1)
			if err != nil {
				return nil, 0, err
			}
			hdr = end
			skip -= end - base
			if skip < 0 {
				return nil, 0, fmt.Errorf("offset %d: skip size smaller than the extended headers", off)
			}
		}
	case 2, 3:
		szf, base := 2, 26
		if m.Level == 3 {
			szf, base = 4, 32
			if le.Uint16(d) != 4 {
				return nil, 0, fmt.Errorf("offset %d: level 3 size field length %d", off, le.Uint16(d))
			}
		}
		if base > len(d) {
			return nil, 0, fmt.Errorf("offset %d: truncated header", off)
		}
		m.Unix = le.Uint32(d[15:])
		m.CRC = le.Uint16(d[21:])
		m.OS = d[23]
		total := int(le.Uint16(d))
		if m.Level == 3 {
			total = int(le.Uint32(d[24:]))
		}
		if total < base || total > len(d) {
			return nil, 0, fmt.Errorf("offset %d: total header size %d", off, total)
		}
		end, crcAt, err := readExts(base-szf, szf, total)
		if err != nil {
			return nil, 0, err
		}
		switch {
		case total == end:
		case total == end+1 && m.Level == 2:
			m.Pad = true
		default:
			return nil, 0, fmt.Errorf("offset %d: header says %d bytes, extended headers end at %d", off, total, end)
		}
		if crcAt >= 0 {
			h := append([]byte{}, d[:total]...)
			want := le.Uint16(h[crcAt:])
			h[crcAt], h[crcAt+1] = 0, 0
			if got := CRC16(h); got != want {
				return nil, 0, fmt.Errorf("offset %d: header CRC %04x, stored %04x", off, got, want)
			}
		}
		hdr = total
	default:
		return nil, 0, fmt.Errorf("offset %d: header level %d", off, m.Level)
	}
	m.Extra = hdr
	return m, skip, nil
}

// ParseArchive strictly parses a whole archive: members, end mark, nothing after.
func ParseArchive(data []byte) ([]*Member, error) {
	var ms []*Member
	off := 0
	for {
		if off >= len(data) {
			return ms, fmt.Errorf("no end mark: file ends at %d after %d members", off, len(ms))
		}
		if data[off] == 0 {
			if off+1 != len(data) {
				return ms, fmt.Errorf("%d bytes after the end mark (offset %d, %d members)", len(data)-off-1, off, len(ms))
			}
			return ms, nil
		}
		m, next, err := ParseMember(data, off)
		if err != nil {
			return ms, err
		}
		ms = append(ms, m)
		off = next
	}
}

// DecodeMember expands the packed data of a member in the methods the
// library can write.
func DecodeMember(m *Member) ([]byte, Stats, error) {
	switch m.Method {
	case "-lh0-", "-lz4-", "-pm0-":
		if len(m.Packed) != m.Orig {
			return nil, Stats{}, fmt.Errorf("stored member of %d bytes, original size %d", len(m.Packed), m.Orig)
		}
		return m.Packed, Stats{}, nil
	case "-lhd-":
		return nil, Stats{}, nil
	case "-lh1-":
		t, st, err := DecodeLh1(m.Packed, m.Orig)
		if err != nil {
			return nil, st, err
		}
		return Expand(t, 4096), st, nil
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		mm := int(m.Method[3] - '0')
		t, st, err := DecodeSt1(mm, m.Packed, m.Orig)
		if err != nil {
			return nil, st, err
		}
		return Expand(t, St1Params(mm).Dict), st, nil
	}
	return nil, Stats{}, fmt.Errorf("method %q", m.Method)
}

// DOSTime packs a local time in the MS-DOS representation.
func DOSTime(t time.Time) uint32 {
	return uint32((t.Year()-1980)<<25 | int(t.Month())<<21 | t.Day()<<16 | t.Hour()<<11 | t.Minute()<<5 | t.Second()/2)
}
