package lharef

// Parse cuts body into literals and copies the plain way: the longest copy
// within the dictionary at each place, put off by one byte when the next place
// has a longer one.
func Parse(body []byte, dict, maxMatch int) []Token {
	head := map[[3]byte]int{}
	prev := make([]int, len(body))
	insert := func(i int) {
		if i+3 > len(body) {
			return
		}
		k := [3]byte{body[i], body[i+1], body[i+2]}
		p, ok := head[k]
		if !ok {
			p = -1
		}
		prev[i] = p
		head[k] = i
	}
	find := func(i int) (length, dist int) {
		if i+3 > len(body) {
			return 0, 0
		}
		max := len(body) - i
		if max > maxMatch {
			max = maxMatch
		}
		p, ok := head[[3]byte{body[i], body[i+1], body[i+2]}]
		if !ok {
			p = -1
		}
		for tries := 0; p >= 0 && i-p <= dict && tries < 2000; tries++ {
			if p+length < len(body) && i+length < len(body) && body[p+length] == body[i+length] {
				n := 0
				for n < max && body[p+n] == body[i+n] {
					n++
				}
				if n > length {
					length, dist = n, i-p
					if n == max {
						break
					}
				}
			}
			p = prev[p]
		}
		if length < 3 {
			return 0, 0
		}
		return
	}
	var out []Token
	for i := 0; i < len(body); {
		l, d := find(i)
		insert(i)
		if l > 0 && l < maxMatch {
			if l2, _ := find(i + 1); l2 > l {
				l = 0
			}
		}
		if l == 0 {
			out = append(out, Token{Lit: body[i]})
			i++
			continue
		}
		out = append(out, Token{Len: l, Dist: d})
		for k := 1; k < l; k++ {
			insert(i + k)
		}
		i += l
	}
	return out
}

// PlainSizeAt is the packed size of the tokens toks of a plain encoder
// (method 5 to 7) in blocks that end where those of another encoder do, with
// the tokens other in blocks of sizes.
func PlainSizeAt(method int, toks, other []Token, sizes []int) int {
	length := func(t Token) int {
		if t.Len > 0 {
			return t.Len
		}
		return 1
	}
	var cuts []int
	i, at, k, end := 0, 0, 0, 0
	for b, n := range sizes {
		for ; n > 0 && k < len(other); n-- {
			end += length(other[k])
			k++
		}
		from := i
		for i < len(toks) && (at < end || b == len(sizes)-1) {
			at += length(toks[i])
			i++
		}
		if i > from {
			cuts = append(cuts, i-from)
		}
	}
	return len(EncodeSt1(method, toks, cuts, nil, false))
}

// PlainSize is the packed size a plain encoder of the method (1, 5, 6 or 7)
// reaches.
func PlainSize(method int, body []byte) (int, []Token) {
	if method == 1 {
		toks := Parse(body, 4095, 60)
		data, _, _ := EncodeLh1(toks)
		return len(data), toks
	}
	toks := Parse(body, St1Params(method).Dict-1, 256) // no copy reaches back a whole dictionary, as in LHa for UNIX
	worst := 0
	for _, size := range []int{16000, 65000} { // few or many blocks: either is plain
		var cuts []int
		for n := len(toks); n > 0; {
			k := n
			if k > size {
				k = size
			}
			cuts = append(cuts, k)
			n -= k
		}
		if n := len(EncodeSt1(method, toks, cuts, nil, false)); n > worst {
			worst = n
		}
	}
	return worst, toks
}
