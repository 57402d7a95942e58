package props

import (
	"bytes"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	var secs []pbt.Section
	counts := map[string][2]int{
		"-lh0-": {600, 3000}, "-lz4-": {400, 1500}, "-pm0-": {400, 1500},
		"-lh1-": {2000, 8000}, "-lh2-": {2000, 8000}, "-lh3-": {2000, 8000},
		"-lh4-": {2000, 8000}, "-lh5-": {3200, 12000}, "-lh6-": {2400, 12000}, "-lh7-": {2400, 12000},
		"-lzs-": {1600, 6000}, "-lz5-": {1600, 6000}, "-pm2-": {2000, 8000},
	}
	for _, m := range []string{"-lh0-", "-lz4-", "-pm0-", "-lh1-", "-lh2-", "-lh3-", "-lh4-", "-lh5-", "-lh6-", "-lh7-", "-lzs-", "-lz5-", "-pm2-"} {
		m := m
		secs = append(secs, pbt.Section{Name: "stream" + m, Quick: counts[m][0], Thorough: counts[m][1], Run: func(t *pbt.T) { decodeCase(t, m) }})
	}
	pbt.Register(&pbt.Prop{
		ID:       "C03",
		Rule:     "Packed streams of every method made by an independent reference encoder from generated literal/copy tokens (canonical or random complete code lengths, single-code tables, block cuts, window-sized distances), decoded by the library and compared byte for byte with the reference expansion. Non-trivial: the body is not empty and the stream holds at least one copy or is a stored body.",
		Setup:    setup,
		Sections: secs,
	})
}

func decodeCase(t *pbt.T, method string) {
	fresh(t)
	p := ForeignStream(t, method, true)
	junk := make([]byte, t.Intn(5))
	for i := range junk {
		junk[i] = 0xa5
	}
	piece := []int{0, 0, 1, 7}[t.Intn(4)]
	t.Describe("packed %d bytes, body %s, read piece %d", len(p.Data), Show(p.Body), piece)
	if len(p.Body) > 0 {
		t.NonTrivial()
	}
	out, crc, read, used := decodeStream(t, method, p.Data, len(p.Body), junk, piece)
	if !bytes.Equal(out, p.Body) {
		t.Fatalf("%s: decoded body differs: %s", method, Diff(p.Body, out))
	}
	if want := int(lharef.CRC16(p.Body)); crc != want {
		t.Fatalf("%s: CRC %04x reported for a body with CRC %04x", method, crc, want)
	}
	if used > len(p.Data) {
		t.Fatalf("%s: %d bytes taken from the input, the packed data has %d", method, used, len(p.Data))
	}
	if read != used {
		t.Fatalf("%s: %d bytes reported as read, %d were", method, read, used)
	}
}
