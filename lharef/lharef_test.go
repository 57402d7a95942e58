package lharef

import (
	"math/rand"
	"os"
	"reflect"
	"testing"
)

type rc struct{ *rand.Rand }

func (r rc) Intn(n int) int { return r.Rand.Intn(n) }

func randTokens(r *rand.Rand, n, maxDist, maxLen int) []Token {
	var ts []Token
	total := 0
	alpha := 1 + r.Intn(256)
	for i := 0; i < n; i++ {
		if r.Intn(3) > 0 || total == 0 {
			ts = append(ts, Token{Lit: byte(r.Intn(alpha))})
			total++
		} else {
			d := 1 + r.Intn(maxDist)
			if r.Intn(2) == 0 {
				d = 1 + r.Intn(20)
			}
			ts = append(ts, Token{Len: 3 + r.Intn(maxLen-2), Dist: d})
			total += ts[len(ts)-1].Len
		}
	}
	return ts
}

func tlen(ts []Token) int {
	n := 0
	for _, t := range ts {
		if t.Len > 0 {
			n += t.Len
		} else {
			n++
		}
	}
	return n
}

func TestSt1RoundTrip(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 3000; i++ {
		m := 4 + r.Intn(4)
		ts := randTokens(r, 1+r.Intn(400), St1Params(m).Dict, 256)
		var sizes []int
		for left := len(ts); left > 0; {
			k := 1 + r.Intn(left)
			sizes = append(sizes, k)
			left -= k
		}
		data := EncodeSt1(m, ts, sizes, rc{r}, r.Intn(2) == 0)
		got, _, err := DecodeSt1(m, data, tlen(ts))
		if err != nil || !reflect.DeepEqual(got, ts) {
			t.Fatalf("case %d: %v", i, err)
		}
	}
}

func TestLh1RoundTrip(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300; i++ {
		n := 1 + r.Intn(400)
		if i%100 == 0 {
			n = 70000
		}
		ts := randTokens(r, n, 4096, 60)
		data, _, _ := EncodeLh1(ts)
		got, _, err := DecodeLh1(data, tlen(ts))
		if err != nil || !reflect.DeepEqual(got, ts) {
			t.Fatalf("case %d: %v", i, err)
		}
	}
}

func TestRealArchive(t *testing.T) {
	b, err := os.ReadFile("/repo/Deep_Space.ym")
	if err != nil {
		t.Skip()
	}
	ms, err := ParseArchive(b)
	if len(ms) != 1 { // the file has no end mark
		t.Fatal(len(ms), err)
	}
	out, st, err := DecodeMember(ms[0])
	if err != nil {
		t.Fatal(err)
	}
	if CRC16(out) != ms[0].CRC {
		t.Fatal("crc")
	}
	t.Logf("%+v level %d os %q exts %d", st, ms[0].Level, ms[0].OS, len(ms[0].Exts))
	if string(ms[0].Bytes()) != string(b) {
		t.Fatal("rebuild differs")
	}
}

// TestLibarchive writes archives for a development cross-check (LIBARCHIVE_OUT set).
func TestLibarchive(t *testing.T) {
	dir := os.Getenv("LIBARCHIVE_OUT")
	if dir == "" {
		t.Skip()
	}
	r := rand.New(rand.NewSource(7))
	for i := 0; i < 200; i++ {
		m := 5 + r.Intn(3)
		n := 1 + r.Intn(600)
		ts := randTokens(r, n, 200, 256)
		var sizes []int
		for left := len(ts); left > 0; {
			k := 1 + r.Intn(left)
			sizes = append(sizes, k)
			left -= k
		}
		out := Expand(ts, St1Params(m).Dict)
		mb := &Member{Level: i % 4, Method: "-lh" + string(rune('0'+m)) + "-", Orig: len(out), CRC: CRC16(out), Attr: 0x20, OS: 'U', Unix: 1000000000}
		mb.Packed = EncodeSt1(m, ts, sizes, rc{r}, i%8 >= 4)
		switch mb.Level {
		case 0:
			mb.Name = []byte("abc.txt")
			mb.Tail = []byte{'U', 0, 0, 0xca, 0x9a, 0x3b, 0xa4, 0x81, 0, 0, 0, 0}
		case 1:
			mb.Name = []byte("abc.txt")
			mb.Exts = []ExtHdr{{0, []byte{0, 0}}, {2, []byte("d1\xffd2\xff")}, {0x50, []byte{0xa4, 0x81}}, {0x54, []byte{0, 0xca, 0x9a, 0x3b}}}
			mb.Exts = mb.Exts[1:]
		default:
			mb.Exts = []ExtHdr{{0, []byte{0, 0}}, {1, []byte("abc.txt")}, {2, []byte("d1\xffd2\xff")}, {0x50, []byte{0xa4, 0x81}}}
		}
		os.WriteFile(dir+"/"+string(rune('a'+i/26))+string(rune('a'+i%26))+".lzh", Archive(mb), 0644)
		os.WriteFile(dir+"/"+string(rune('a'+i/26))+string(rune('a'+i%26))+".out", out, 0644)
	}
}
