// Package lharef is an independent implementation of the LHA archive format:
// header writer and strict parser, encoders for every method the tool under
// test can read, decoders for every method it can write. It shares no code
// with /repo and follows the published format descriptions.
package lharef

import "errors"

// Chooser supplies the free choices of an encoder (several encodings of the
// same data are valid). nil means: always the canonical choice.
type Chooser interface{ Intn(n int) int }

func choose(c Chooser, n int) int {
	if c == nil || n <= 1 {
		return 0
	}
	return c.Intn(n)
}

// CRC16 is CRC-16/ARC, computed bit by bit.
func CRC16(b []byte) uint16 { return CRC16Update(0, b) }

func CRC16Update(crc uint16, b []byte) uint16 {
	for _, c := range b {
		crc ^= uint16(c)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0xA001
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

type BitWriter struct {
	Buf  []byte
	nbit uint
}

func (w *BitWriter) Bit(b int) {
	if w.nbit%8 == 0 {
		w.Buf = append(w.Buf, 0)
	}
	if b != 0 {
		w.Buf[len(w.Buf)-1] |= 0x80 >> (w.nbit % 8)
	}
	w.nbit++
}

// Bits writes the low n bits of v, most significant first.
func (w *BitWriter) Bits(n int, v int) {
	for i := n - 1; i >= 0; i-- {
		w.Bit(v >> uint(i) & 1)
	}
}

func (w *BitWriter) Len() uint { return w.nbit }

var ErrShort = errors.New("lharef: bit stream exhausted")

type BitReader struct {
	Buf []byte
	pos int
}

func (r *BitReader) Bit() (int, error) {
	if r.pos >= len(r.Buf)*8 {
		return 0, ErrShort
	}
	b := int(r.Buf[r.pos/8]>>(7-uint(r.pos%8))) & 1
	r.pos++
	return b, nil
}

func (r *BitReader) Bits(n int) (int, error) {
	v := 0
	for i := 0; i < n; i++ {
		b, err := r.Bit()
		if err != nil {
			return 0, err
		}
		v = v<<1 | b
	}
	return v, nil
}

// BytesUsed is the number of bytes the bits read so far occupy.
func (r *BitReader) BytesUsed() int { return (r.pos + 7) / 8 }

// Token is a literal (Len == 0) or a copy of Len bytes from Dist bytes back
// (Dist >= 1).
type Token struct {
	Lit  byte
	Len  int
	Dist int
}

// Expand applies tokens to a dictionary of `dict` bytes that starts out as
// spaces, the LZ77 semantics of every -lh?- method.
func Expand(tokens []Token, dict int) []byte {
	out := []byte{}
	for _, t := range tokens {
		if t.Len == 0 {
			out = append(out, t.Lit)
			continue
		}
		for i := 0; i < t.Len; i++ {
			p := len(out) - t.Dist
			if p < 0 {
				out = append(out, ' ')
			} else {
				out = append(out, out[p])
			}
		}
	}
	return out
}
