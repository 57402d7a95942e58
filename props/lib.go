package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

// methodNum maps a method id to the library's number.
var methodNum = map[string]int{"-lh0-": 0, "-lh1-": 1, "-lh2-": 2, "-lh3-": 3, "-lh4-": 4, "-lh5-": 5, "-lh6-": 6, "-lh7-": 7,
	"-lzs-": 8, "-lz5-": 9, "-lz4-": 10, "-lhd-": 11, "-pm0-": 12, "-pm2-": 13}

var errPanic = errors.New("panic")

// cname is a name up to its NUL.
func cname(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func setup() {
	lha.Quiet = true
}

// fresh starts a case: the switches as they are by default, and messages on or
// off, which may make no difference to what is done.
func fresh(t *pbt.T) {
	resetGlobals()
	lha.Quiet = !t.OneIn(3)
	zone := "UTC"
	if t.OneIn(4) {
		zone = zones[t.Intn(len(zones))]
		t.Label("time zone %s", zone)
	}
	setZone(zone)
}

// zones are east and west of Greenwich, some by odd amounts, some with summer time.
var zones = []string{"Asia/Tokyo", "America/New_York", "Europe/Paris", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Kiritimati", "Pacific/Pago_Pago", "America/St_Johns"}

// setZone sets the time zone of this process and of the programs it starts.
func setZone(name string) {
	loc, err := time.LoadLocation(name)
	if err != nil {
		name, loc = "UTC", time.UTC
	}
	time.Local = loc
	if !steady(time.Now().Unix()) { // the night the clock is set
		name, time.Local = "UTC", time.UTC
	}
	os.Setenv("TZ", name)
}

// steady tells whether the clock is not set back or forth near a time, so that
// a local time means one instant.
func steady(unix int64) bool {
	_, a := tm(unix - 4*3600).Zone()
	_, b := tm(unix + 4*3600).Zone()
	return a == b
}

// resetGlobals puts the package's exported switches back.
func resetGlobals() {
	lha.Quiet = true
	lha.VerifyMode = false
	lha.TextMode = false
	lha.GenericFormat = false
	lha.ConvertCase = false
}

// sawReader hands out data in the pieces the case chose and counts what was taken.
type sawReader struct {
	data  []byte
	pos   int
	piece int  // 0: as asked
	early bool // io.EOF comes with the last bytes
	lazy  int  // every lazy-th call gives nothing
	calls int
}

func (s *sawReader) Read(p []byte) (int, error) {
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	if s.calls++; s.lazy > 0 && s.calls%s.lazy == 0 {
		return 0, nil
	}
	n := len(p)
	if s.piece > 0 && n > s.piece {
		n = s.piece
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	if s.early && s.pos == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

// decodeStream runs the library's stream decoder on packed followed by junk.
func decodeStream(t *pbt.T, method string, packed []byte, orig int, junk []byte, piece int) (out []byte, crc int, read int, consumed int) {
	sr := &sawReader{data: append(append([]byte{}, packed...), junk...), piece: piece, early: len(junk)%2 == 0}
	if piece == 7 {
		sr.lazy = 3
	}
	var w bytes.Buffer
	t.Lib("DecodeLzhuf "+method, func() {
		crc = lha.NewLha("").DecodeLzhuf(sr, &w, orig, len(packed), "x", methodNum[method], &read)
	})
	return w.Bytes(), crc, read, sr.pos
}

// encodeStream runs the library's stream encoder over a reader of some kind.
func encodeStream(t *pbt.T, method int, body []byte) (packed []byte, osize, psize int, mid string, crc uint, err error) {
	var r io.Reader = bytes.NewReader(body)
	if k := t.Weighted(4, 1, 1, 1, 1); k > 0 {
		r = &sawReader{data: body, piece: []int{0, 0, 1, 1000, 8191}[k], early: k != 3, lazy: []int{0, 0, 5, 4, 0}[k]}
		t.Label("reader gives pieces")
	}
	var buf bytes.Buffer
	var w io.Writer = &buf
	m := make([]byte, 5)
	t.Lib(fmt.Sprintf("EncodeLzhuf method %d", method), func() {
		l := lha.NewLha("")
		l.CompressMethod = method
		crc, err = l.EncodeLzhuf(&r, &w, len(body), &osize, &psize, []byte("x"), m)
	})
	return buf.Bytes(), osize, psize, string(m), crc, err
}

func writeFile(t *pbt.T, name string, b []byte) {
	if err := os.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
}

func readFile(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return b
}

// capture runs f with standard output going to a file and returns what it wrote.
func capture(f func()) []byte {
	tmp, err := os.CreateTemp("", "out")
	if err != nil {
		panic(err)
	}
	os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	if _, err := tmp.Seek(0, io.SeekStart); err != nil {
		panic(err)
	}
	b, err := io.ReadAll(tmp)
	if err != nil {
		panic(err)
	}
	return b
}

// headers lists an archive with a fresh instance.
func headers(t *pbt.T, archive string) (hs []*lha.LzHeader, err error) {
	t.Lib("Headers", func() { hs, err = lha.NewLha(archive).Headers() })
	return
}

// bytesOf extracts a member to memory with a fresh instance.
func bytesOf(t *pbt.T, archive string, h *lha.LzHeader) (b []byte, err error) {
	t.Lib("DecompresBytes", func() { b, err = lha.NewLha(archive).DecompresBytes(h) })
	return
}

// unpackAll lists and extracts a whole archive through the public API.
func unpackAll(t *pbt.T, archive string) ([]string, [][]byte) {
	hs, err := headers(t, archive)
	if err != nil {
		t.Fatalf("Headers: %v", err)
	}
	var names []string
	var bodies [][]byte
	for _, h := range hs {
		b, err := bytesOf(t, archive, h)
		if err != nil {
			t.Fatalf("DecompresBytes(%q): %v", cname(h.Name), err)
		}
		names = append(names, cname(h.Name))
		bodies = append(bodies, b)
	}
	return names, bodies
}

// Packed is a generated foreign stream.
type Packed struct {
	Method string
	Data   []byte
	Body   []byte
}

// ForeignStream builds packed data of the method with the reference encoder.
func ForeignStream(t *pbt.T, method string, big bool) Packed {
	p := Packed{Method: method}
	large := 3000
	if big {
		large = 80000
	}
	switch method {
	case "-lh0-", "-lz4-", "-pm0-":
		p.Body = Content(t, big)
		p.Data = p.Body
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		m := int(method[3] - '0')
		prm := lharef.St1Params(m)
		toks := Tokens(t, NTokens(t, large), TokParam{MinLen: 3, MaxLen: 256, Dict: prm.Dict})
		random := t.Bool()
		sizes := Sizes(t, len(toks))
		var ch lharef.Chooser
		if random {
			ch = t.Sub()
		}
		p.Data = lharef.EncodeSt1(m, toks, sizes, ch, random)
		p.Body = lharef.Expand(toks, prm.Dict)
		if _, st, err := lharef.DecodeSt1(m, p.Data, len(p.Body)); err != nil {
			panic(err)
		} else {
			labelStats(t, st)
		}
		t.Describe("%s: %d tokens in %d blocks, random code lengths %v", method, len(toks), len(sizes), random)
	case "-lh1-":
		var toks []lharef.Token
		if big && t.OneIn(8) {
			toks = SkewTokens(t, 60, 314)
		} else if t.OneIn(10) {
			toks = CoverTokens(t, 60, 314)
			t.Label("every code used")
		} else {
			toks = Tokens(t, NTokens(t, large), TokParam{MinLen: 3, MaxLen: 60, Dict: 4096})
		}
		var rec, longest int
		p.Data, rec, longest = lharef.EncodeLh1(toks)
		if longest > 16 {
			t.Label("adaptive code longer than 16 bits")
		}
		p.Body = lharef.Expand(toks, 4096)
		if rec > 0 {
			t.Label("lh1 tree rebuilt")
		}
		t.Describe("%s: %d tokens, tree rebuilt %d times", method, len(toks), rec)
	case "-lh2-":
		var toks []lharef.Token
		if big && t.OneIn(8) {
			toks = SkewTokens(t, 256, 286)
		} else if t.OneIn(10) {
			toks = CoverTokens(t, 256, 286)
			t.Label("every code used")
		} else {
			toks = Tokens(t, NTokens(t, large), TokParam{MinLen: 3, MaxLen: 256, Dict: 8192, Dist: func(c int) int { return 64 * lharef.Lh2Avail(c) }})
		}
		var rc, rp, longest int
		p.Data, rc, rp, longest = lharef.EncodeLh2(toks)
		if longest > 16 {
			t.Label("adaptive code longer than 16 bits")
		}
		p.Body = lharef.Expand(toks, 8192)
		if rc > 0 {
			t.Label("lh2 character tree rebuilt")
		}
		if rp > 0 {
			t.Label("lh2 position tree rebuilt")
		}
		t.Describe("%s: %d tokens, trees rebuilt %d/%d times", method, len(toks), rc, rp)
	case "-lh3-":
		toks := Tokens(t, NTokens(t, large), TokParam{MinLen: 3, MaxLen: 256, Dict: 8192})
		sizes := Sizes(t, len(toks))
		random := t.Bool()
		var st lharef.Lh3Stats
		p.Data, st = lharef.EncodeLh3(toks, sizes, t.Sub(), random)
		p.Body = lharef.Expand(toks, 8192)
		if st.Fixed > 0 {
			t.Label("lh3 fixed position codes")
		}
		if st.SingleC+st.SingleP > 0 {
			t.Label("single-code table")
		}
		if st.MaxC > 12 || st.MaxP > 8 {
			t.Label("code longer than the lookup table")
		}
		t.Describe("%s: %d tokens in %d blocks %+v", method, len(toks), len(sizes), st)
	case "-lzs-", "-lz5-":
		n := NTokens(t, large)
		ring, lo, hi := 2048, 2, 17
		if method == "-lz5-" {
			ring, lo, hi = 4096, 3, 18
		}
		var toks []lharef.RingToken
		for _, k := range Tokens(t, n, TokParam{MinLen: lo, MaxLen: hi, Dict: ring}) {
			toks = append(toks, lharef.RingToken{Lit: k.Lit, Len: k.Len, Pos: k.Dist % ring})
		}
		if method == "-lzs-" {
			p.Data, p.Body = lharef.EncodeLzs(toks), lharef.ExpandLzs(toks)
		} else {
			p.Data, p.Body = lharef.EncodeLz5(toks), lharef.ExpandLz5(toks)
		}
		t.Describe("%s: %d tokens", method, len(toks))
	case "-pm2-":
		if large > 20000 {
			large = 20000
		}
		var toks []lharef.Token
		count := 0
		for _, k := range Tokens(t, NTokens(t, large), TokParam{MinLen: 2, MaxLen: 256, Dict: 8192}) {
			k = lharef.Pm2Fix(k, count)
			toks = append(toks, k)
			if k.Len > 0 {
				count += k.Len
			} else {
				count++
			}
		}
		var st lharef.Pm2Stats
		p.Data, st = lharef.EncodePm2(toks, t.Sub(), t.Bool())
		p.Body = lharef.Expand(toks, 8192)
		t.Label("pm2 epochs %d", min(st.Epochs, 5))
		t.Describe("%s: %d tokens %+v", method, len(toks), st)
	default:
		panic(method)
	}
	return p
}

func labelStats(t *pbt.T, st lharef.Stats) {
	if st.Single > 0 {
		t.Label("single-code table")
	}
	if st.MaxCLen > 12 || st.MaxPLen > 8 {
		t.Label("code longer than the lookup table")
	}
	if st.MaxCLen == 16 {
		t.Label("16-bit character code")
	}
	if st.Blocks > 1 {
		t.Label("several blocks")
	}
	if st.MaxLen == 256 {
		t.Label("longest copy")
	}
	if st.MaxDist > 4096 {
		t.Label("distance > 4K")
	}
	if st.MaxDist > 32768 {
		t.Label("distance > 32K")
	}
}

var _ = errPanic

// runCLI runs the program built from the tree in the current directory.
func runCLI(t *pbt.T, stdin []byte, args ...string) (code int, stdout, stderr []byte) {
	return runProg(stdin, os.Getenv("VERIF_CLI"), args...)
}

func runProg(stdin []byte, prog string, args ...string) (code int, stdout, stderr []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, prog, args...)
	cmd.Stdin = bytes.NewReader(stdin)
	cmd.WaitDelay = time.Minute // for a busy machine: the pipes are read after the end of the program
	var o, e capped
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		return -9, o.b, []byte("the program did not end")
	}
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			panic(err)
		}
		code = x.ExitCode()
	}
	return code, o.b, e.b
}

// capped keeps what is written, up to a limit.
type capped struct{ b []byte }

func (c *capped) Write(p []byte) (int, error) {
	if len(c.b) > 64<<20 {
		return 0, errors.New("too much output")
	}
	c.b = append(c.b, p...)
	return len(p), nil
}

func tm(unix int64) time.Time { return time.Unix(unix, 0) }
