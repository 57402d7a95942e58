From 5d748408ee75bf69a0857c07baf14913dfa532ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:33 +0000
Subject: [PATCH 01/37] fix: decode -lh7- members larger than the 64 KB window

The window position was a uint16, so it wrapped to 0 before it could equal
the 65536 byte dictionary size and the full window was never written out.
---
 larc.go  | 4 ++--
 lha.go   | 2 +-
 pm.go    | 2 +-
 slide.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/larc.go b/larc.go
index ddbd739..bce6253 100644
--- a/larc.go
+++ b/larc.go
@@ -30,7 +30,7 @@ func (l *Lha) decodeCLzs( /*void*/ ) uint16 {
 /* lzs */
 
 func (l *Lha) decodePLzs( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
 }
 
 /* ------------------------------------------------------------------------ */
@@ -78,7 +78,7 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic5)) & 0xfff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic5)) & 0xfff
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/lha.go b/lha.go
index a387124..80f2061 100644
--- a/lha.go
+++ b/lha.go
@@ -60,7 +60,7 @@ type Lha struct {
 	HeaderLevel                    int
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
-	loc                            uint16
+	loc                            uint
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
diff --git a/pm.go b/pm.go
index 880211f..a9f9a46 100644
--- a/pm.go
+++ b/pm.go
@@ -61,7 +61,7 @@ var (
 
 func (l *Lha) decodeCPm2() uint16 {
 	/* various admin: */
-	for lastupdate != uint(l.loc) {
+	for lastupdate != l.loc {
 		histUpdate(dtext[lastupdate])
 		lastupdate = (lastupdate + 1) & dicsiz1
 	}
diff --git a/slide.go b/slide.go
index dd65397..c22712a 100644
--- a/slide.go
+++ b/slide.go
@@ -165,7 +165,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 			match.len = int(c - adjust)
 			match.off = uint(l.decodeMethodP(inter.method)) + 1
-			matchpos = (uint(l.loc) - match.off) & dicsiz1
+			matchpos = (l.loc - match.off) & dicsiz1
 			if l.DumpLzss {
 				fmt.Printf("%d <%d %d>\n",
 					decodeCount, match.len, decodeCount-int(match.off))
-- 
2.43.0


From 17c556880b85a5ac70216a1e048825cd0731b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 02/37] fix: set the position code size for the 4 KB dictionary
 of -lh4-

A Go switch case does not fall through, so for -lh4- np and pbit kept
whatever the previous method had left in them.
---
 huf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/huf.go b/huf.go
index 9b0bcd1..4d7a657 100644
--- a/huf.go
+++ b/huf.go
@@ -283,8 +283,7 @@ func (l *Lha) encodeStartSt1( /* void */ ) {
 	var i int
 
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
@@ -521,8 +520,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 /* lh4, 5, 6, 7 */
 func (l *Lha) decodeStartSt1( /* void */ ) {
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
-- 
2.43.0


From ac6af72b68fd27f67007e1d1e92c3851c1540900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:41 +0000
Subject: [PATCH 03/37] fix: walk the -pm2- code tree one step per bit

The left branch was looked up from the right child instead of from the
current node.
---
 pmtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmtree.go b/pmtree.go
index 9c76653..557d88f 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -93,11 +93,11 @@ func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
 	for i < 0x80 {
-		i = int((*t).rightarr[i])
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
+		} else {
+			i = int((*t).rightarr[i])
 		}
-
 	}
 	return i & 0x7F
 }
-- 
2.43.0


From 35d6ef5e832ca3ecc351db48a2eb62f229301070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:59 +0000
Subject: [PATCH 04/37] fix: give the dynamic Huffman tree its own escape code

startCDyn chose the escape code the wrong way round (so -lh1- and -lh2-
members did not decode) and kept it in the variable that holds the -lh3-
alphabet size, which a later -lh3- member then read.
---
 dhuf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dhuf.go b/dhuf.go
index 06069c2..e735aaa 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -18,6 +18,7 @@ var (
 	dicbit      uint16
 	maxmatch    uint16
 	decodeCount int
+	dynN1       int /* last code of the dynamic tree, the escape for longer matches */
 )
 
 const (
@@ -33,9 +34,9 @@ const (
 
 func (l *Lha) startCDyn( /* void */ ) {
 	var i, j, f int
-	n1 = 512
+	dynN1 = int(nMax) - 1
 	if nMax >= uint(256+maxmatch-uint16(threshold)+1) {
-		n1 = int(nMax) - 1
+		dynN1 = 512
 	}
 
 	for i = 0; i < treesizeC; i++ {
@@ -277,9 +278,9 @@ func (l *Lha) encodeCDyn(c uint) {
 	var bits uint
 	var p, d, cnt int
 
-	d = int(c) - n1
+	d = int(c) - dynN1
 	if d >= 0 {
-		c = uint(n1)
+		c = uint(dynN1)
 	}
 	bits = 0
 	cnt = int(bits)
@@ -334,7 +335,7 @@ func (l *Lha) decodeCDyn( /* void */ ) uint16 {
 	_ = l.fillbuf(byte(cnt))
 	c = ^c
 	updateC(c)
-	if c == n1 {
+	if c == dynN1 {
 		c += int(l.getbits(8))
 	}
 	return uint16(c)
-- 
2.43.0


From af888d8da82ae76591fd006684a08f9233046cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 05/37] fix: decode -lh3- members

The tree walk tested the sign of a bit buffer that had been widened and so
was never negative, the position table was built for 17 codes instead of
128, and the block counter of a previous member was carried over.
---
 shuf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shuf.go b/shuf.go
index e70a516..9278533 100644
--- a/shuf.go
+++ b/shuf.go
@@ -22,6 +22,7 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	_ = l.initGetbits()
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
+	blocksize = 0
 }
 
 /* ------------------------------------------------------------------------ */
@@ -144,7 +145,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np), &ptLen, 8, &ptTable)
+		_ = makeTable(int16(Np_), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
@@ -152,14 +153,14 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(cLen[j])
 	} else {
 		_ = l.fillbuf(12)
-		i = int(l.bitbuf)
+		i = int(int16(l.bitbuf))
 		for {
 			if i < 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
 			}
-			i <<= 1
+			i = int(int16(i << 1))
 			if j < n1 {
 				break
 			}
@@ -184,14 +185,14 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(ptLen[j])
 	} else {
 		_ = l.fillbuf(8)
-		i = int(l.bitbuf)
+		i = int(int16(l.bitbuf))
 		for {
 			if i < 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
 			}
-			i <<= 1
+			i = int(int16(i << 1))
 			if j < int(np) {
 				break
 			}
-- 
2.43.0


From dd0f3015d7308f191ad5842a764189b8f2f8be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:29 +0000
Subject: [PATCH 06/37] fix: decode -lz5- members within their packed size

The last part of the preset window was not filled with blanks, and the
packed bytes taken were not counted, so the reported read size was 0 and
nothing stopped the decoder from reading into the next member.
---
 larc.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/larc.go b/larc.go
index bce6253..3fb3be2 100644
--- a/larc.go
+++ b/larc.go
@@ -40,33 +40,31 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 	initCodeCache()
 }
 
+/* ------------------------------------------------------------------------ */
+/* lz5 */
+/* next byte of the packed data, 0 after its end */
+func (l *Lha) getcLz5( /*void*/ ) byte {
+	b := make([]byte, 1)
+	if l.compsize > 0 {
+		l.compsize--
+		_, _ = io.ReadFull(l.infile, b)
+	}
+	return b[0]
+}
+
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	var c int
-	b := make([]byte, 1)
 	if l.flagcnt == 0 {
 		l.flagcnt = 8
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		l.mFlag = int(b[0])
+		l.mFlag = int(l.getcLz5())
 	}
 	l.flagcnt--
-	_, _ = l.infile.Read(b)
-	c = int(b[0])
+	c = int(l.getcLz5())
 	if (l.mFlag & 1) == 0 {
 		l.matchpos = c
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		c = int(b[0]) //@TODO add EOF handler
+		c = int(l.getcLz5())
 		l.matchpos += (c & 0xf0) << 4
 		c &= 0x0f
 		c += 0x100
@@ -104,7 +102,7 @@ func (l *Lha) decodeStartLz5( /*void*/ ) {
 	}
 
 	for j := 0; j < (128 - 18); j++ {
-		dtext[256*13+512+128+18] = ' '
+		dtext[256*13+512+128+18+j] = ' '
 	}
 
 	//memset(&dtext[256*13+512+18], 0, 128)
-- 
2.43.0


From 49ee8c68c768ef5e14fe3edbc68f9c85278e993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:59 +0000
Subject: [PATCH 07/37] fix: copy stored data exactly and with its CRC

copyfile wrote its whole 2 KB buffer whatever had been read, went past the
requested size into the next member, never computed the CRC it was asked
for, and wrote the data out even when only verifying. Stored members
(-lh0-, -lz4-, -pm0-) could be neither written nor read.
---
 extract.go |  6 +++++-
 util.go    | 27 +++++++++++++--------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/extract.go b/extract.go
index 1cf021a..6cbdb23 100644
--- a/extract.go
+++ b/extract.go
@@ -83,7 +83,11 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 			fmt.Printf("no use slide\n")
 		}
 
-		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
+		outp := &outfp
+		if VerifyMode {
+			outp = nil
+		}
+		*read_sizep, _ = copyfile(&infp, outp, min(original_size, packed_size), 2, &crc)
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/util.go b/util.go
index 9c2ee72..d78bb88 100644
--- a/util.go
+++ b/util.go
@@ -31,7 +31,7 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	if !TextMode {
 		text_flg = 0
 	}
-	if *crcp != 0 {
+	if crcp != nil {
 		initializeCrc(crcp)
 	}
 	if text_flg != 0 {
@@ -39,27 +39,26 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	}
 	for size > 0 {
 		/* read */
-		var err error
-		xsize, err = (*f1).Read(buf)
-
-		if xsize == 0 {
-			break
-		}
-		if err != nil && err != io.EOF {
-			return 0, fmt.Errorf("file read error :%v", err.Error())
-		}
+		xsize = min(size, buffersize)
+		n, rerr := io.ReadFull(*f1, buf[:xsize])
+		xsize = n
 
 		/* write */
-		_, err = (*f2).Write(buf)
-		if err != nil {
-			return 0, fmt.Errorf("file write error :%v", err.Error())
+		if f2 != nil {
+			if _, err := (*f2).Write(buf[:xsize]); err != nil {
+				return rsize, fmt.Errorf("file write error :%v", err.Error())
+			}
 		}
 
 		/* calculate crc */
-		if *crcp != 0 {
+		if crcp != nil {
 			*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
 		}
 		rsize += xsize
+		size -= xsize
+		if rerr != nil {
+			return rsize, fmt.Errorf("file read error :%v", rerr.Error())
+		}
 	}
 	return rsize, nil
 }
-- 
2.43.0


From 26758724edb2fde37caebdf12ebed6773acf96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:56 +0000
Subject: [PATCH 08/37] fix: keep the first hash within the hash table

& binds tighter than ^ in Go, so only the last term was masked and the
index ran past the table (a panic) for a first byte of 0x20 or more with
bit 15 set after the shifts.
---
 slide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slide.go b/slide.go
index c22712a..285f6d8 100644
--- a/slide.go
+++ b/slide.go
@@ -262,7 +262,7 @@ func insertHash(token, pos uint) { /* associate position with token */
 }
 
 func initHash(pos uint) uint {
-	return uint((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])&uint16(hshsiz-1))
+	return uint(((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])) & uint16(hshsiz-1))
 }
 
 func nextHash(token, pos uint) uint {
-- 
2.43.0


From 3a6deb6719a65f555844cfc1ca1b2003cc1a0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:57 +0000
Subject: [PATCH 09/37] fix: size the compression window for the method in use

The text buffer was allocated once, for the first method used in the
process; compressing with -lh6- or -lh7- after -lh5- then panicked.
---
 append.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 56372c7..f98bd1f 100644
--- a/append.go
+++ b/append.go
@@ -82,6 +82,10 @@ func encodeAlloc(method int) (int, error) {
 	dicsiz = int(uint(1) << uint(dicbit))
 	txtsiz = dicsiz*2 + int(maxmatch)
 
+	if len(text) < txtsiz+1 {
+		text = make([]byte, txtsiz+1)
+	}
+
 	if len(hash) != 0 {
 		return method, nil
 	}
@@ -90,7 +94,6 @@ func encodeAlloc(method int) (int, error) {
 
 	hash = make([]Hash, hshsiz)
 	prevs = make([]uint, maxDicsiz)
-	text = make([]byte, txtsiz+1)
 
 	return method, nil
 }
-- 
2.43.0


From c0cee45092582971596d5570eeadef24f6be62b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:58 +0000
Subject: [PATCH 10/37] fix: compress -lh1- members with the -lh1- coder

Method 1 was routed to the static Huffman coder of -lh4- and later, so
members labelled -lh1- could not be decoded as such.
---
 slide.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/slide.go b/slide.go
index 285f6d8..bec60b3 100644
--- a/slide.go
+++ b/slide.go
@@ -194,10 +194,8 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 func (l *Lha) encodeStart(method int) {
 	switch method {
-	case 0:
-		l.encodeStartFix()
 	case 1:
-		l.encodeStartSt1()
+		l.encodeStartFix()
 	case 2:
 		l.encodeStartSt1()
 	case 3:
@@ -215,10 +213,8 @@ func (l *Lha) encodeStart(method int) {
 
 func (l *Lha) encodeEnd(method int) {
 	switch method {
-	case 0:
-		l.encodeEndDyn()
 	case 1:
-		l.encodeEndSt1()
+		l.encodeEndDyn()
 	case 2:
 		l.encodeEndSt1()
 	case 3:
@@ -236,10 +232,8 @@ func (l *Lha) encodeEnd(method int) {
 
 func (l *Lha) encodeOuput(method int, code, pos uint16) {
 	switch method {
-	case 0:
-		l.outputDyn(int(code), int(pos))
 	case 1:
-		l.outputSt1(code, pos)
+		l.outputDyn(int(code), int(pos))
 	case 2:
 		l.outputSt1(code, pos)
 	case 3:
-- 
2.43.0


From 5c40850844436f4cda267a41f19bd33c55a1f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:13 +0000
Subject: [PATCH 11/37] fix: compress an empty file

Reading an empty file ended with an ignored EOF error and then a division
by the original size of 0 (a panic). Errors of the coder, an unknown method
and a failing read among them, are now returned instead of dropped.
---
 append.go | 23 +++++++++++++++++++----
 slide.go  |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/append.go b/append.go
index f98bd1f..529e000 100644
--- a/append.go
+++ b/append.go
@@ -29,7 +29,11 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 	if method < 0 {
 		method = l.CompressMethod
 		if method > 0 {
-			method, _ = encodeAlloc(method)
+			var err error
+			method, err = encodeAlloc(method)
+			if err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -40,17 +44,28 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 		inter.outfile = *outfp
 		inter.original = size
 		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
-		crc, _ = l.encode(inter)
+		var err error
+		crc, err = l.encode(inter)
+		if err != nil {
+			return 0, err
+		}
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
 	} else {
-		*original_size_var, _ = copyfile(infp, outfp, size, 0, &crc)
+		var err error
+		*original_size_var, err = copyfile(infp, outfp, size, 0, &crc)
+		if err != nil {
+			return 0, err
+		}
 		*packed_size_var = *original_size_var
 	}
 	copy(hdr_method, "-lh -")
 	hdr_method[3] = byte(inter.method) + '0'
 
-	indice := ((*packed_size_var * 100) / *original_size_var)
+	indice := 100
+	if *original_size_var != 0 {
+		indice = (*packed_size_var * 100) / *original_size_var
+	}
 	finishIndicator2(string(name), "Frozen", &indice)
 	return crc, nil
 }
diff --git a/slide.go b/slide.go
index bec60b3..1088a7e 100644
--- a/slide.go
+++ b/slide.go
@@ -407,7 +407,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	var v int
 
 	v, err = l.freadCrc(&crc, &text, uint(dicsiz), txtsiz-dicsiz, l.infile)
-	if err != nil {
+	if err != nil && err != io.EOF {
 		return 0, err
 	}
 	l.remainder = uint(v)
-- 
2.43.0


From 10bf57e1e8bbdb5a1600dd55b992acf34187d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 12/37] fix: stop at bad or missing packed data instead of
 going on

Read and write errors, impossible code tables and the end of the packed
data were all ignored while a member was decoded or encoded. Damaged data
made the decoder index outside its tables (a panic), walk a tree without
end (a hang), or turn out invented bytes up to whatever original size the
header claimed. The first error now ends the member and is kept, so that
the callers can report it.
---
 bitio.go   | 26 ++++++++++++++++++--------
 extract.go | 16 ++++++++++++----
 huf.go     | 24 +++++++++++++++++++++---
 larc.go    | 15 +++++++++++----
 lha.go     |  2 ++
 maketbl.go |  8 ++++----
 pm.go      |  9 ++++-----
 pmtree.go  | 20 ++++++++++++++++----
 shuf.go    | 18 ++++++++++++++++--
 slide.go   | 37 ++++++++++++++++++++++++++++++-------
 10 files changed, 134 insertions(+), 41 deletions(-)

diff --git a/bitio.go b/bitio.go
index caa3a96..e8ccb3c 100644
--- a/bitio.go
+++ b/bitio.go
@@ -2,7 +2,7 @@ package lha
 
 import (
 	"fmt"
-	"os"
+	"io"
 )
 
 /* ------------------------------------------------------------------------ */
@@ -15,6 +15,14 @@ import (
 /*              Separated from crcio.c          2002.10.26  Koji Arai       */
 /* ------------------------------------------------------------------------ */
 
+/* codecError keeps the first error met in a member */
+func (l *Lha) codecError(err error) error {
+	if l.codecErr == nil {
+		l.codecErr = err
+	}
+	return err
+}
+
 func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits */
 
 	for n > l.bitcount {
@@ -23,13 +31,17 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 		if l.compsize != 0 {
 			l.compsize--
 			c := make([]byte, 1)
-			_, err := l.infile.Read(c)
+			_, err := io.ReadFull(l.infile, c)
 			if err != nil {
-				return fmt.Errorf("cannot read stream")
+				return l.codecError(fmt.Errorf("cannot read stream"))
 			}
 			l.subbitbuf = c[0]
 		} else {
 			l.subbitbuf = 0
+			/* the bit buffer looks two bytes ahead of the decoder */
+			if l.overrun++; l.overrun > 2 {
+				return l.codecError(fmt.Errorf("packed data ends too early"))
+			}
 		}
 		l.bitcount = charBit
 	}
@@ -42,10 +54,7 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 func (l *Lha) getbits(n byte) uint16 {
 	var x uint16 = l.bitbuf >> (2*charBit - n)
 
-	err := l.fillbuf(n)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "fillbuf error :%v\n", err.Error())
-	}
+	_ = l.fillbuf(n)
 	return x
 }
 
@@ -62,7 +71,7 @@ func (l *Lha) putcode(n byte, x uint16) error { /* Write leftmost n bits of x */
 			b = append(b, l.subbitbuf)
 			_, err := l.outfile.Write(b)
 			if err != nil {
-				return fmt.Errorf("write error in bitio.c(putcode)")
+				return l.codecError(fmt.Errorf("write error in bitio.c(putcode)"))
 			}
 			l.compsize++
 		} else {
@@ -85,6 +94,7 @@ func (l *Lha) initGetbits( /* void */ ) error {
 	l.bitbuf = 0
 	l.subbitbuf = 0
 	l.bitcount = 0
+	l.overrun = 0
 	return l.fillbuf(2 * charBit)
 }
 
diff --git a/extract.go b/extract.go
index 6cbdb23..8d72152 100644
--- a/extract.go
+++ b/extract.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 )
 
 /* ------------------------------------------------------------------------ */
@@ -68,8 +67,9 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 		inter.dicbit = pmarc2Dicbit
 
 	default:
-		fmt.Fprintf(os.Stdout, "unknown method %d", method)
-		inter.dicbit = lzhuff5Dicbit /* for backward compatibility */
+		l.codecErr = fmt.Errorf("unknown method %d", method)
+		*read_sizep = 0
+		return 0
 	}
 
 	if inter.dicbit == 0 { /* LZHUFF0_DICBIT or LARC4_DICBIT or PMARC0_DICBIT*/
@@ -87,7 +87,15 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 		if VerifyMode {
 			outp = nil
 		}
-		*read_sizep, _ = copyfile(&infp, outp, min(original_size, packed_size), 2, &crc)
+		var err error
+		l.codecErr = nil
+		*read_sizep, err = copyfile(&infp, outp, min(original_size, packed_size), 2, &crc)
+		if err == nil && original_size > packed_size {
+			err = fmt.Errorf("packed data ends too early")
+		}
+		if err != nil {
+			_ = l.codecError(err)
+		}
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/huf.go b/huf.go
index 4d7a657..c16c85c 100644
--- a/huf.go
+++ b/huf.go
@@ -347,6 +347,10 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 	n = int(l.getbits(byte(nbit)))
 	if n == 0 {
 		c = int(l.getbits(byte(nbit)))
+		if c >= int(nn) {
+			_ = l.codecError(fmt.Errorf("bad table"))
+			return
+		}
 		for i = 0; i < int(nn); i++ {
 			ptLen[i] = 0
 		}
@@ -384,7 +388,9 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 			ptLen[i] = 0
 			i++
 		}
-		_ = makeTable(nn, &ptLen, 8, &ptTable)
+		if err := makeTable(nn, &ptLen, 8, &ptTable); err != nil {
+			_ = l.codecError(err)
+		}
 	}
 }
 
@@ -395,6 +401,10 @@ func (l *Lha) readCLen( /* void */ ) {
 	n = int16(l.getbits(cbit))
 	if n == 0 {
 		c = int16(l.getbits(cbit))
+		if c >= int16(Nc) {
+			_ = l.codecError(fmt.Errorf("bad table"))
+			return
+		}
 		for i = 0; i < int16(Nc); i++ {
 			cLen[i] = 0
 		}
@@ -433,7 +443,7 @@ func (l *Lha) readCLen( /* void */ ) {
 					}
 				}
 				c--
-				for c >= 0 {
+				for c >= 0 && i < int16(Nc) {
 					cLen[i] = 0
 					i++
 					c--
@@ -447,7 +457,9 @@ func (l *Lha) readCLen( /* void */ ) {
 			cLen[i] = 0
 			i++
 		}
-		_ = makeTable(int16(Nc), &cLen, 12, &cTable)
+		if err := makeTable(int16(Nc), &cLen, 12, &cTable); err != nil {
+			_ = l.codecError(err)
+		}
 	}
 }
 
@@ -459,8 +471,14 @@ func (l *Lha) decodeCSt1( /*void*/ ) uint16 {
 	if blocksize == 0 {
 		blocksize = l.getbits(16)
 		l.readPtLen(int16(Nt), int16(tbit), 3)
+		if l.codecErr != nil {
+			return 0
+		}
 		l.readCLen()
 		l.readPtLen(int16(np), int16(pbit), -1)
+		if l.codecErr != nil {
+			return 0
+		}
 	}
 	blocksize--
 	j = cTable[l.peekbits(12)]
diff --git a/larc.go b/larc.go
index 3fb3be2..63ee162 100644
--- a/larc.go
+++ b/larc.go
@@ -1,6 +1,9 @@
 package lha
 
-import "io"
+import (
+	"fmt"
+	"io"
+)
 
 /* ------------------------------------------------------------------------ */
 /* LHa for UNIX                                                             */
@@ -45,9 +48,13 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 /* next byte of the packed data, 0 after its end */
 func (l *Lha) getcLz5( /*void*/ ) byte {
 	b := make([]byte, 1)
-	if l.compsize > 0 {
-		l.compsize--
-		_, _ = io.ReadFull(l.infile, b)
+	if l.compsize <= 0 {
+		_ = l.codecError(fmt.Errorf("packed data ends too early"))
+		return 0
+	}
+	l.compsize--
+	if _, err := io.ReadFull(l.infile, b); err != nil {
+		_ = l.codecError(fmt.Errorf("cannot read stream"))
 	}
 	return b[0]
 }
diff --git a/lha.go b/lha.go
index 80f2061..96b44b4 100644
--- a/lha.go
+++ b/lha.go
@@ -37,6 +37,8 @@ type Lha struct {
 	unpackable                     bool
 	compsize                       int
 	origsize                       int
+	overrun                        int   /* bytes asked for after the end of the packed data */
+	codecErr                       error /* first error met while coding or decoding a member */
 	bitbuf                         uint16
 	skipFlg                        bool /* FALSE..No Skip , TRUE..Skip */
 	dirinfo                        *LzHeaderList
diff --git a/maketbl.go b/maketbl.go
index e9d06bd..83278b4 100644
--- a/maketbl.go
+++ b/maketbl.go
@@ -15,7 +15,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 		count             [17]uint16 /* count of bitlen */
 		weight            [17]uint16 /* 0x10000ul >> bitlen */
 		start             [17]uint16 /* first code of bitlen */
-		total             uint16
+		total             uint32
 		i, l              uint
 		j, k, m, n, avail int
 		pIndex            int
@@ -43,10 +43,10 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* calculate first code */
 	total = 0
 	for i = 1; i <= 16; i++ {
-		start[i] = total
-		total += weight[i] * count[i]
+		start[i] = uint16(total)
+		total += uint32(weight[i]) * uint32(count[i])
 	}
-	if (total&0xffff) != 0 || tablebits > 16 { /* 16 for weight below */
+	if total != 0x10000 || tablebits > 16 { /* 16 for weight below */
 		return fmt.Errorf("make_table(): Bad table (case b)")
 	}
 
diff --git a/pm.go b/pm.go
index a9f9a46..a46e0ba 100644
--- a/pm.go
+++ b/pm.go
@@ -1,9 +1,6 @@
 package lha
 
-import (
-	"fmt"
-	"os"
-)
+import "fmt"
 
 /***********************************************************
 	pm2.c -- extract pmext2 coding
@@ -49,6 +46,8 @@ func (l *Lha) decodeStartPm2() {
 	histInit()
 	nextcount = 0
 	lastupdate = 0
+	tree1 = newTree(32)
+	tree2 = newTree(8)
 	l.getbits(1) /* discard bit */
 }
 
@@ -105,7 +104,7 @@ func (l *Lha) decodeCPm2() uint16 {
 	}
 	gettree1 = byte(l.tree1Get()) /* value preserved for decode_p */
 	if gettree1 >= 29 {
-		fmt.Fprintf(os.Stderr, "Bad table")
+		_ = l.codecError(fmt.Errorf("bad table"))
 		return 0
 	}
 
diff --git a/pmtree.go b/pmtree.go
index 557d88f..da328d5 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -13,12 +13,16 @@ var (
 		tree1right [32]byte
 		tree2left  [8]byte
 		tree2right [8]byte */
-	tree1      = tree{root: 0, leftarr: make([]byte, 32), rightarr: make([]byte, 32)}
-	tree2      = tree{root: 0, leftarr: make([]byte, 8), rightarr: make([]byte, 8)}
+	tree1      = newTree(32)
+	tree2      = newTree(8)
 	tree1bound byte
 	mindepth   byte
 )
 
+func newTree(n int) tree {
+	return tree{root: 0, leftarr: make([]byte, n), rightarr: make([]byte, n)}
+}
+
 func (l *Lha) maketree1() {
 	var i, nbits, x int
 	var table1 [32]byte
@@ -39,7 +43,9 @@ func (l *Lha) maketree1() {
 				table1[i] = 0
 			}
 		}
-		_ = treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:])
+		if err := treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:]); err != nil {
+			_ = l.codecError(err)
+		}
 	}
 }
 
@@ -81,7 +87,9 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 		treeSetsingle(&tree2, byte(index))
 	} else {
 		if count > 1 {
-			_ = treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:])
+			if err := treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:]); err != nil {
+				_ = l.codecError(err)
+			}
 		}
 	}
 	// Note: count == 0 is possible!
@@ -98,6 +106,10 @@ func (l *Lha) treeGet(t *tree) int {
 		} else {
 			i = int((*t).rightarr[i])
 		}
+		if i == 0 { /* no such code */
+			_ = l.codecError(fmt.Errorf("bad table"))
+			return 0
+		}
 	}
 	return i & 0x7F
 }
diff --git a/shuf.go b/shuf.go
index 9278533..e5c366e 100644
--- a/shuf.go
+++ b/shuf.go
@@ -1,5 +1,7 @@
 package lha
 
+import "fmt"
+
 const (
 	Np_      = (8 * 1024 / 64)
 	Np2_     = (Np_*2 - 1)
@@ -83,6 +85,10 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 		i++
 		if i == 3 && cLen[0] == 1 && cLen[1] == 1 && cLen[2] == 1 {
 			c = int(l.getbits(cbit))
+			if c >= n1 {
+				_ = l.codecError(fmt.Errorf("bad table"))
+				return
+			}
 			for i = 0; i < n1; i++ {
 				cLen[i] = 0
 			}
@@ -92,7 +98,9 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
-	_ = makeTable(int16(n1), &cLen, 12, &cTable)
+	if err := makeTable(int16(n1), &cLen, 12, &cTable); err != nil {
+		_ = l.codecError(err)
+	}
 }
 
 /* ------------------------------------------------------------------------ */
@@ -114,6 +122,9 @@ func (l *Lha) readTreeP( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
+	if err := makeTable(int16(Np_), &ptLen, 8, &ptTable); err != nil {
+		_ = l.codecError(err)
+	}
 }
 
 /* ------------------------------------------------------------------------ */
@@ -144,8 +155,11 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 			l.readTreeP()
 		} else {
 			l.readyMade(1)
+			_ = makeTable(int16(Np_), &ptLen, 8, &ptTable)
+		}
+		if l.codecErr != nil {
+			return 0
 		}
-		_ = makeTable(int16(Np_), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
diff --git a/slide.go b/slide.go
index 1088a7e..3b878c5 100644
--- a/slide.go
+++ b/slide.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 	"strconv"
 )
 
@@ -101,6 +100,13 @@ func (l *Lha) decodeMethodC(method int) uint16 {
 	}
 }
 
+/* write n bytes of the window out */
+func (l *Lha) flushText(crc *uint, n int) {
+	if err := l.fwriteCrc(crc, dtext, n, &l.outfile); err != nil {
+		_ = l.codecError(err)
+	}
+}
+
 func (l *Lha) decode(inter *interfacing) uint {
 	var (
 		i, c            uint
@@ -113,8 +119,12 @@ func (l *Lha) decode(inter *interfacing) uint {
 	dicbit = uint16(inter.dicbit)
 	l.origsize = inter.original
 	l.compsize = inter.packed
+	l.codecErr = nil
 
 	initializeCrc(&crc)
+	if l.origsize == 0 {
+		return crc
+	}
 	dicsiz = int(1) << dicbit
 	dtext = make([]byte, dicsiz)
 
@@ -141,8 +151,11 @@ func (l *Lha) decode(inter *interfacing) uint {
 	}
 	decodeCount = 0
 	l.loc = 0
-	for decodeCount < l.origsize {
+	for decodeCount < l.origsize && l.codecErr == nil {
 		c = uint(l.decodeMethodC(inter.method))
+		if l.codecErr != nil {
+			break
+		}
 		if c < 256 {
 			if l.DumpLzss {
 				b := c
@@ -155,7 +168,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 			dtext[l.loc] = byte(c)
 			l.loc++
 			if int(l.loc) == dicsiz {
-				_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+				l.flushText(&crc, dicsiz)
 				l.loc = 0
 			}
 			decodeCount++
@@ -165,6 +178,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 			match.len = int(c - adjust)
 			match.off = uint(l.decodeMethodP(inter.method)) + 1
+			if l.codecErr != nil {
+				break
+			}
 			matchpos = (l.loc - match.off) & dicsiz1
 			if l.DumpLzss {
 				fmt.Printf("%d <%d %d>\n",
@@ -177,14 +193,17 @@ func (l *Lha) decode(inter *interfacing) uint {
 				dtext[l.loc] = byte(c)
 				l.loc++
 				if int(l.loc) == dicsiz {
-					_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+					l.flushText(&crc, dicsiz)
 					l.loc = 0
 				}
 			}
 		}
 	}
 	if l.loc != 0 {
-		_ = l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile)
+		l.flushText(&crc, int(l.loc))
+	}
+	if decodeCount > l.origsize {
+		_ = l.codecError(fmt.Errorf("packed data holds more than the original size"))
 	}
 	/* usually read size is interface->packed */
 	inter.readSize = inter.packed - l.compsize
@@ -270,7 +289,7 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 
 	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
 	if err != nil && io.EOF != err {
-		fmt.Fprintf(os.Stderr, "error while freadCrc : %v\n", err)
+		_ = l.codecError(err)
 	}
 
 	l.remainder += uint(n)
@@ -391,6 +410,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	l.outfile = inter.outfile
 	l.origsize = inter.original
 	l.compsize = 0
+	l.codecErr = nil
 	count = 0
 	l.unpackable = false
 
@@ -422,7 +442,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	token = initHash(pos)
 	insertHash(token, pos) /* associate token and pos */
 
-	for l.remainder > 0 && !l.unpackable {
+	for l.remainder > 0 && !l.unpackable && l.codecErr == nil {
 		last = match
 
 		l.nextToken(&token, &pos, &crc)
@@ -453,6 +473,9 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 		}
 	}
 	l.encodeEnd(inter.method)
+	if l.codecErr != nil {
+		return 0, l.codecErr
+	}
 
 	inter.packed = l.compsize
 	inter.original = count
-- 
2.43.0


From c1c3616e9186308693ebb9e4fdbe0754f8fd8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 13/37] fix: read extended headers, and each header afresh

The extended header loop tested and sliced with the size of the whole
header, took the size of the next one from the wrong place, cut the last
character off names, knew the 0x51 and 0x52 headers by the wrong layout,
dropped the directory part, and computed the header CRC of level 2 and 3
over nothing (or never ended on a padded level 2 header). Short reads were
taken for whole headers, impossible sizes indexed out of range, and fields
of the previous member leaked into the next header read with the same
LzHeader. Level 0 headers without an extended area were counted 2 bytes
short.
---
 header.go | 112 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 69 insertions(+), 43 deletions(-)

diff --git a/header.go b/header.go
index 67517d3..9024a87 100644
--- a/header.go
+++ b/header.go
@@ -297,26 +297,29 @@ func wintimeToUnixStamp() uint64 {
 
 func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint) (error, int) {
 	data := make([]byte, lzheaderStorage)
-	var nameLength int
-	dirname := make([]byte, FilenameLength)
-	var dirLength, i int
+	var dirname []byte
 	wholeSize := headerSize
 	var extType int
-	n := i + l.SizeFieldLength /* `ext-type' + `next-header size' */
+	n := 1 + l.SizeFieldLength /* `ext-type' + `next-header size' */
 	if l.HeaderLevel == 0 {
 		return nil, 0
 	}
 
-	for l.HeaderSize != 0 {
+	for headerSize != 0 {
 		setupGet(&data, 0, len(data))
-		if len(data) < l.HeaderSize {
-			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
+		if len(data) < headerSize {
+			return fmt.Errorf("header size (%d) too large", headerSize), 0
+		}
+		if headerSize < n {
+			return fmt.Errorf("invalid extended header size (%d)", headerSize), 0
 		}
-		nb, err := (*fp).Read(data[:l.HeaderSize])
-		if err != nil || nb == 0 {
+		if _, err := io.ReadFull(*fp, data[:headerSize]); err != nil {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
 		extType = int(getByte())
+		if headerSize-n < extendedHeaderSize[extType] {
+			return fmt.Errorf("invalid extended header size (%d)", headerSize), 0
+		}
 		switch extType {
 		case 0:
 			l.HeaderCrc = uint(getWord())
@@ -324,14 +327,13 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* clear buffer for CRC calculation. */
 			data[1] = 0
 			data[2] = 0
-			skipBytes(l.HeaderSize - n - 2)
+			skipBytes(headerSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(l.HeaderSize-n, len(l.Name))
-			l.Name[nameLength-1] = 0
+			l.Name, _ = getBytes(headerSize-n, headerSize-n)
+			l.Name = append(l.Name, 0)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, len(dirname))
-			dirname[dirLength-1] = 0
+			dirname, _ = getBytes(headerSize-n, headerSize-n)
 		case 0x40:
 			/* MS-DOS attribute */
 			l.Attribute = byte(getWord())
@@ -355,13 +357,17 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* UNIX permission */
 			l.UnixMode = uint16(getWord())
 		case 0x51:
+			/* UNIX gid and uid */
+			l.UnixGid = uint16(getWord())
+			l.UnixUID = uint16(getWord())
+		case 0x52:
 			/* UNIX group name */
-			l.Group, i = getBytes(headerSize-n, len(l.Group))
-			l.Group[i-1] = 0
+			l.Group, _ = getBytes(headerSize-n, headerSize-n)
+			l.Group = append(l.Group, 0)
 		case 0x53:
 			/* UNIX user name */
-			l.User, i = getBytes(headerSize-n, len(l.User))
-			l.User[i-1] = 0
+			l.User, _ = getBytes(headerSize-n, headerSize-n)
+			l.User = append(l.User, 0)
 		case 0x54:
 			/* UNIX last modified time */
 			l.UnixLastModifiedStamp = int64(getLongword())
@@ -387,10 +393,12 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			         (level 3 on UNLHA32) */
 			skipBytes(headerSize - n)
 		}
-		if *hcrc != 0 {
-			*hcrc = calcCrc(*hcrc, &data, uint(getPtr), uint(headerSize))
+		if hcrc != nil {
+			*hcrc = calcCrc(*hcrc, &data, 0, uint(headerSize))
 		}
 
+		/* the size of the next header ends this one, whatever was used of it */
+		getPtr = headerSize - l.SizeFieldLength
 		if l.SizeFieldLength == 2 {
 			headerSize = getWord()
 			wholeSize += headerSize
@@ -400,9 +408,17 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		}
 	}
 
+	/* concatenate dirname and filename */
+	if len(dirname) > 0 {
+		l.Name = append(dirname, l.Name...)
+	}
+
 	return nil, wholeSize
 }
 
+/* bytes used of the extended headers of a fixed layout */
+var extendedHeaderSize = [256]int{0x00: 2, 0x40: 2, 0x41: 24, 0x42: 16, 0x50: 2, 0x51: 4, 0x54: 4}
+
 const (
 	iHeaderSize     = 0  /* level 0,1,2   */
 	iHeaderChecksum = 1  /* level 0,1     */
@@ -492,11 +508,12 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 
-	if err != nil || nb == 0 {
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
+	l.HeaderSize += 2
 
 	if calcSum(&data, iMethod, headerSize) != checksum {
 		return fmt.Errorf("checksum error (LHarc file?)"), false
@@ -557,7 +574,6 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		skipBytes(extendSize)
 	}
 
-	l.HeaderSize += 2
 	return nil, true
 }
 
@@ -598,7 +614,7 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	var extendSize int
 	var checksum int
 	var nameLength int
-	var i, dummy int
+	var dummy int
 
 	l.SizeFieldLength = 2 /* in bytes */
 	l.HeaderSize = int(getByte())
@@ -611,8 +627,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -630,8 +646,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 
 	nameLength = int(getByte())
 
-	l.Name, i = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
-	l.Name[i-1] = 0
+	l.Name, _ = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
+	l.Name = append(l.Name, 0)
 
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
@@ -643,14 +659,16 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	l.ExtendType = getByte()
 
 	dummy = headerSize + 2 - nameLength - iLevel1HeaderSize
+	if dummy < 0 {
+		return fmt.Errorf("invalid header size (LHarc file ?)"), false
+	}
 	if dummy > 0 {
 		skipBytes(dummy) /* skip old style extend header */
 	}
 
 	extendSize = getWord()
-	var trash uint
 	if extendSize > 0 {
-		err, extendSize = l.getExtendedHeader(fp, extendSize, &trash)
+		err, extendSize = l.getExtendedHeader(fp, extendSize, nil)
 		if err != nil || extendSize == -1 {
 			return err, false
 		}
@@ -660,6 +678,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	/* the `packed_size' field contains the extended header size. */
 	/* the `headerSize' field does not. */
 	l.PackedSize -= extendSize
+	if l.PackedSize < 0 {
+		return fmt.Errorf("invalid packed size (LHarc file ?)"), false
+	}
 	l.HeaderSize += extendSize + 2
 
 	return nil, true
@@ -711,8 +732,8 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
-	if err != nil || n == 0 {
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel2HeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -735,7 +756,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 
 	initializeCrc(&hcrc)
 
-	hcrc = calcCrc(hcrc, &data, 0, uint(n-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(getPtr))
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
 		return err, false
@@ -746,12 +767,11 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if padding != 0 && padding != 1 {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
-	padding--
-	for padding != 0 {
+	for ; padding != 0; padding-- {
 		buf := make([]byte, 1)
-		_, err := (*fp).Read(buf)
+		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
-			return err, false
+			return fmt.Errorf("invalid header (LHarc file ?)"), false
 		}
 		hcrc = updateCrc(hcrc, buf[0])
 	}
@@ -798,8 +818,11 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
-	if err != nil || nb == 0 {
+	if l.SizeFieldLength != 4 {
+		return fmt.Errorf("invalid size field length (%d)", l.SizeFieldLength), false
+	}
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel3HeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -827,7 +850,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	extendSize = getLongword()
 
 	initializeCrc(&hcrc)
-	hcrc = calcCrc(hcrc, &data, 0, uint(nb-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(getPtr))
 
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
@@ -858,9 +881,12 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	var filenameCase int = none
 	var endMark byte
 
+	/* keep nothing of the header read before */
+	*l = *NewLzHeader()
+
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
-	_, err := (*fp).Read(buf)
+	_, err := io.ReadFull(*fp, buf)
 
 	endMark = buf[0]
 	if err != nil || endMark == 0 {
@@ -868,8 +894,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	}
 	data[0] = endMark
 
-	nb, err := (*fp).Read(data[1:commonHeaderSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[1:commonHeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
-- 
2.43.0


From 360c2ab2fbbface5b95f72a6b39b751f554484bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:54 +0000
Subject: [PATCH 14/37] fix: convert MS-DOS time stamps

The year was counted from 80 instead of 1980 when written, and the packed
date was taken as seconds since 1970 when read.
---
 header.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/header.go b/header.go
index 9024a87..fb195f5 100644
--- a/header.go
+++ b/header.go
@@ -216,13 +216,26 @@ func putBytes(buf []byte, len int) {
 	}
 }
 
-// nolint: unused, deadcode
 func subbits(n, off, len int) int {
 	return (((n) >> (off)) & ((1 << (len)) - 1))
 }
 
 func genericToUnixStamp(t int64) int64 {
-	return time.Unix(t, 0).Unix()
+	/*
+	 * special case:  if MSDOS format date and time were zero, then we
+	 * set time to be zero here too.
+	 */
+	if t == 0 {
+		return 0
+	}
+	n := int(t)
+	return time.Date(subbits(n, 25, 7)+1980,
+		time.Month(subbits(n, 21, 4)),
+		subbits(n, 16, 5),
+		subbits(n, 11, 5),
+		subbits(n, 5, 6),
+		subbits(n, 0, 5)*2,
+		0, time.Local).Unix()
 }
 
 func setupGet(p *[]byte, index, size int) {
@@ -239,7 +252,7 @@ func setupPut(p *[]byte, index int) {
 
 func unixToGenericStamp(t int64) int {
 	tm := time.Unix(t, 0)
-	us := ((tm.Year() - 80) << 25) +
+	us := (((tm.Year() - 1980) & 0x7f) << 25) +
 		(int(tm.Month()) << 21) +
 		(tm.Day() << 16) +
 		(tm.Hour() << 11) +
-- 
2.43.0


From 64c19e4fa199cacd7ed84a98f062aa2678ee389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:18 +0000
Subject: [PATCH 15/37] fix: write level 1 and level 2 headers that can be read
 back

Level 1 panicked (the separator search returned -1, and slices ran past the
buffer) and level 2 wrote the file name header without its type byte and
with the wrong size, so neither this program nor any other LHA read the
names. The path separator 0xff was searched for as the two bytes of its
UTF-8 form, directory parts were split at the wrong end, and user and group
names were written with the zeroes of their whole buffer.
---
 header.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/header.go b/header.go
index fb195f5..5f070a6 100644
--- a/header.go
+++ b/header.go
@@ -1,6 +1,7 @@
 package lha
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -1025,7 +1026,7 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 		}
 	}
 	for i = 0; i < len; i++ {
-		index := strings.Index(fromDelim, string((name)[i]))
+		index := strings.IndexByte(fromDelim, (name)[i])
 		if index != -1 {
 			//s := len(fromDelim)
 			(name)[i] = toDelim[index] //name[i] = to_delim[ptr - from_delim];
@@ -1242,15 +1243,15 @@ func writeUnixInfo(l *LzHeader) {
 	putWord(int(l.UnixGid))
 	putWord(int(l.UnixUID))
 
-	if l.Group[0] != 0 {
-		length := len(l.Group)
+	if lengthOfStringInByte(l.Group) != 0 {
+		length := lengthOfStringInByte(l.Group)
 		putWord(length + 3) /* size */
 		putByte(0x52)       /* group name */
 		putBytes(l.Group[:], length)
 	}
 
-	if l.User[0] != 0 {
-		length := len(l.User)
+	if lengthOfStringInByte(l.User) != 0 {
+		length := lengthOfStringInByte(l.User)
 		putWord(length + 3) /* size */
 		putByte(0x53)       /* user name */
 		putBytes(l.User[:], length)
@@ -1323,16 +1324,16 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	var nameLength, dirLength, limit int
 	var basename, dirname []byte
 	var headerSize int
-	var extendHeaderTop []byte
+	var extendHeaderTop int
 	var extendHeaderSize int
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
 
-	if index != 0 {
-		basename = pathname[0:index]
+	if index != -1 {
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1369,9 +1370,8 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	}
 
 	/* write extend header from here. */
-	extendHeaderTop = append(extendHeaderTop, data[putPtr+2:len(data)-(putPtr+2)]...)
-	//extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
-	headerSize = putPtr // - data - 2
+	extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
+	headerSize = putPtr          // - data - 2
 
 	/* write filename and dirname */
 
@@ -1393,12 +1393,11 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	putWord(0x0000) /* next header size */
 
-	extendHeaderSize = len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
+	extendHeaderSize = putPtr - extendHeaderTop
 	/* On level 1 header, the packed size field is contains the ext-header */
-	l.PackedSize += len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
 	/* put `skip size' */
 	setupPut(&data, iPackedSize)
-	putLongWord(l.PackedSize)
+	putLongWord(l.PackedSize + extendHeaderSize)
 
 	data[iHeaderSize] = byte(headerSize)
 	data[iHeaderChecksum] = byte(calcSum(&data, iMethod, headerSize))
@@ -1422,14 +1421,14 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 	//extendHeaderTop := make([]byte, 0)
 	headercrcPtr := 0
 	var hcrc uint
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
 
 	if index != -1 {
-		basename = pathname[0:index]
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1472,8 +1471,8 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 
 	/* write filename and dirname */
 	/* must have this header, even if the nameLength is 0. */
-	putWord(nameLength) /* size */
-	//putByte(0x01)           /* filename */
+	putWord(nameLength + 3) /* size */
+	putByte(0x01)           /* filename */
 	putBytes(basename, nameLength)
 
 	if dirLength > 0 {
-- 
2.43.0


From c4d019397d128b2e16af9f0c480c7e96ed93fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 16/37] fix: store and read symbolic link names

The test for a '|' in a link name was the wrong way round, so no link could
be written; reading kept the '|' and the target in the name and put the '|'
in front of the target.
---
 header.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/header.go b/header.go
index 5f070a6..86b6515 100644
--- a/header.go
+++ b/header.go
@@ -997,12 +997,14 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	if l.UnixMode&uint16(UnixFileSymlink) == uint16(UnixFileSymlink) {
 
 		/* split symbolic link */
-		p := strings.Index(string(l.Name[:]), "|")
+		p := bytes.IndexByte(l.Name[:lengthOfStringInByte(l.Name)], '|')
 
 		if p != -1 {
 			/* l.name is symbolic link name */
 			/* l.realname is real name */
-			copy(l.Realname[:], l.Name[p:len(l.Name)-1])
+			l.Realname = append([]byte(nil), l.Name[p+1:]...)
+			l.Name = append([]byte(nil), l.Name[:p+1]...)
+			l.Name[p] = 0
 			/* ok */
 		} else {
 			return fmt.Errorf("unknown symlink name \"%s\"", l.Name), false
@@ -1189,19 +1191,17 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
-		p := strings.LastIndex(string(hdr.Name), "|")
-
-		if p == -1 {
-			return fmt.Errorf("symlink name \"%s\" contains '|' char. change it into '_'", hdr.Name)
+		name := hdr.Name[:lengthOfStringInByte(hdr.Name)]
+		if bytes.IndexByte(name, '|') != -1 {
+			fmt.Fprintf(os.Stderr, "symlink name \"%s\" contains '|' char. change it into '_'", name)
 		}
-		pathname = append(pathname, hdr.Name...)
+		pathname = append(pathname, bytes.ReplaceAll(name, []byte("|"), []byte("_"))...)
 		pathname = append(pathname, '|')
-		pathname = append(pathname, hdr.Realname...)
+		pathname = append(pathname, hdr.Realname[:lengthOfStringInByte(hdr.Realname)]...)
 	} else {
-		pathname = append(pathname, hdr.Name...)
-		//	copy(pathname, hdr.Name)
-		pathname = append(pathname, 0)
+		pathname = append(pathname, hdr.Name[:lengthOfStringInByte(hdr.Name)]...)
 	}
+	pathname = append(pathname, 0)
 
 	convertFilename(pathname,
 		len(pathname),
-- 
2.43.0


From 0574217c4b9a19fde7d21015552e5f1ce351d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:37 +0000
Subject: [PATCH 17/37] fix: record the file type and permission bits of added
 files

The type was added as a decimal number (33000, 40000), which set wrong
permission bits and, through carries, wrong types.
---
 header.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/header.go b/header.go
index 86b6515..d42cc25 100644
--- a/header.go
+++ b/header.go
@@ -106,7 +106,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	// but maybe you want to log warnings
 	hdr.UnixUID = uint16(os.Geteuid())
 	hdr.UnixGid = uint16(os.Getgid())
-	hdr.UnixMode = uint16(info.Mode().Perm()) + 33000
+	hdr.UnixMode = uint16(info.Mode().Perm()) | uint16(UnixFileRegular)
 
 	if vStat.IsDir() {
 		copy(hdr.Method, []byte(LzhdirsMethod))
@@ -115,12 +115,13 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		if name[len(name)-1] != '/' {
 			name += "/"
 		}
-		hdr.UnixMode += 40000
+		hdr.UnixMode = uint16(info.Mode().Perm()) | uint16(UnixFileDirectory)
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
+		hdr.UnixMode = uint16(vStat.Mode().Perm()) | uint16(UnixFileSymlink)
 		realname, err := os.Readlink(name)
 		if err == nil {
 			copy(hdr.Realname, []byte(realname))
@@ -961,7 +962,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	case ExtendAmiga:
 		{
 			/* workaround */
-			lenName := len(l.Name)
+			lenName := lengthOfStringInByte(l.Name)
 			if lenName > 0 && l.Name[lenName-1] == lhaPathsep && string(l.Method[:]) == Lzhuff0Method {
 				/* replace with "-lhd-" */
 				copy(l.Method[:], LzhdirsMethod)
-- 
2.43.0


From 37b4055581366762b795c978e2ede51283e0988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:16 +0000
Subject: [PATCH 18/37] fix: find the first header of a self-extracting archive

---
 header.go | 37 ++++++++++++++++++++-----------------
 lha.go    |  3 +++
 lhext.go  |  4 ++++
 util.go   |  2 +-
 4 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/header.go b/header.go
index d42cc25..7e4c04f 100644
--- a/header.go
+++ b/header.go
@@ -1052,15 +1052,18 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 /* skip SFX header */
 func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 	buffer := make([]byte, 64*1024) /* max seek size */
-	var p [64 * 1024]byte
 	var n int
-	n, err := (*fp).Read(buffer)
-	if err != nil {
-		return err, 0
+	seeker, ok := (*fp).(io.Seeker)
+	if !ok {
+		return fmt.Errorf("cannot seek header"), -1
+	}
+	n, err := io.ReadFull(*fp, buffer)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		return err, -1
 	}
 
-	for i := 0; i < n; i++ {
-		copy(p[:], buffer[i:len(buffer)-1-i])
+	for i := 0; i+commonHeaderSize <= n; i++ {
+		p := buffer[i:n]
 
 		if !(p[iMethod] == '-' && (p[iMethod+1] == 'l' || p[iMethod+1] == 'p') && p[iMethod+4] == '-') {
 			continue
@@ -1068,26 +1071,26 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 		/* found "-[lp]??-" keyword (as METHOD type string) */
 
 		/* level 0 or 1 header */
-		var calcSum byte //calcSum(p+2, p[I_HEADER_SIZE])
-		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 && p[iHeaderChecksum] == calcSum {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
+		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 &&
+			len(p) >= int(p[iHeaderSize])+2 && p[iHeaderChecksum] == byte(calcSum(&p, 2, int(p[iHeaderSize]))) {
+			if _, err := seeker.Seek(int64(i-n), io.SeekCurrent); err != nil {
+				return fmt.Errorf("cannot seek header"), -1
+			}
 			return nil, 0
 		}
 
 		/* level 2 header */
 		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
+			if _, err := seeker.Seek(int64(i-n), io.SeekCurrent); err != nil {
+				return fmt.Errorf("cannot seek header"), -1
+			}
 			return nil, 0
 		}
 	}
 
-	//	if fseeko(fp, -n, SEEK_CUR) == -1 {
-	//		return fmt.Errorf("cannot seek header"), 1
-	//	}
+	if _, err := seeker.Seek(int64(-n), io.SeekCurrent); err != nil {
+		return fmt.Errorf("cannot seek header"), -1
+	}
 	return nil, -1
 }
 
diff --git a/lha.go b/lha.go
index 96b44b4..883f780 100644
--- a/lha.go
+++ b/lha.go
@@ -100,6 +100,9 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	}
 	defer fr.Close()
 	var or io.Reader = fr
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = NewLzHeader().SeekLhaHeader(&or)
+	}
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
diff --git a/lhext.go b/lhext.go
index 97ac92d..00703f6 100644
--- a/lhext.go
+++ b/lhext.go
@@ -958,6 +958,10 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	}
 	afp = f
 
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = hdr.SeekLhaHeader(&afp)
+	}
+
 	/* print header message */
 	if !Quiet {
 		listHeader(l)
diff --git a/util.go b/util.go
index d78bb88..06899cc 100644
--- a/util.go
+++ b/util.go
@@ -93,7 +93,7 @@ func archiveIsMsdosSfx1(name []byte) bool {
 
 	if length >= 2 {
 		extension := strings.ToUpper(filepath.Ext(string(name)))
-		if extension == ".x" {
+		if extension == ".X" {
 			return true
 		}
 	}
-- 
2.43.0


From bcfd0df78cbae8aa9222f7b48d82482aa4461807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:52 +0000
Subject: [PATCH 19/37] fix: go from one member to the next at the end of its
 packed data

---
 lha.go   | 17 +++++-----
 lhext.go | 99 +++++++++++++++++++++++---------------------------------
 2 files changed, 49 insertions(+), 67 deletions(-)

diff --git a/lha.go b/lha.go
index 883f780..96997d7 100644
--- a/lha.go
+++ b/lha.go
@@ -86,7 +86,6 @@ func NewLha(archivename string) *Lha {
 }
 
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
-	var pos int
 	// verify mode here, no extraction
 	VerifyMode = true
 	defer func() {
@@ -106,16 +105,18 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
-		if !hasHeader {
+		if err == io.EOF {
 			break
 		}
 		if err != nil {
+			return headers, err
+		}
+		if !hasHeader {
 			break
 		}
 		headers = append(headers, h)
-		pos = 0
 		// seek io.reader to + file size
-		if l.needFile(string(h.Name[:])) {
+		if l.needFile(cutNul(h.Name)) {
 			readSize, err := l.extractOne(&or, h)
 			if err != nil {
 				return headers, err
@@ -123,13 +124,13 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 			if readSize != h.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&or, pos, h.PackedSize, readSize); err != nil {
-					return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
+				if err := skipToNextpos(&or, h.PackedSize, readSize); err != nil {
+					return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(h.Name))
 				}
 			}
 		} else {
-			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err == nil {
-				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
+			if err := skipToNextpos(&or, h.PackedSize, 0); err != nil {
+				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(h.Name))
 			}
 		}
 	}
diff --git a/lhext.go b/lhext.go
index 00703f6..6787a80 100644
--- a/lhext.go
+++ b/lhext.go
@@ -942,7 +942,6 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
-	var i int
 
 	var packedSizeTotal int
 	var originalSizeTotal int
@@ -956,6 +955,7 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -971,24 +971,26 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	var hasHeader bool
 	for {
 		err, hasHeader = hdr.GetHeader(&afp)
-		if !hasHeader {
+		if err == io.EOF {
+			err = nil
 			break
 		}
-		if l.needFile(string(hdr.Name[:])) {
+		if err != nil || !hasHeader {
+			break
+		}
+		if l.needFile(cutNul(hdr.Name)) {
 			l.listOne(hdr)
 			listFiles++
 			packedSizeTotal += hdr.PackedSize
 			originalSizeTotal += hdr.OriginalSize
 		}
 
-		i = hdr.PackedSize
-		v := make([]byte, i)
-		_, _ = afp.Read(v)
+		if err = skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+			err = fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(hdr.Name))
+			break
+		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* print tailer message */
 	if !Quiet {
 		listTailer(listFiles, packedSizeTotal, originalSizeTotal, l)
@@ -1057,7 +1059,6 @@ func CommadDelete(archiveFilepath string, l *Lha) error {
 
 func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 	var outputData []byte
 
@@ -1066,6 +1067,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	if err != nil {
 		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1082,11 +1084,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			return outputData, err
 		}
 		if !hasHeader {
-			return outputData, nil
+			break
 		}
-		pos = 0
-
-		if string(hdr.Name) == string(header.Name) {
+		if cutNul(hdr.Name) == cutNul(header.Name) {
 			var readSize int
 			readSize, outputData, err = l.extractOneStream(&afp, hdr)
 			if err != nil {
@@ -1095,20 +1095,17 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			if readSize != hdr.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
+				if err := skipToNextpos(&afp, hdr.PackedSize, readSize); err != nil {
+					return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(hdr.Name))
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+				return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(hdr.Name))
 			}
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1117,7 +1114,6 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 
 func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 
 	/* open archive file */
@@ -1125,6 +1121,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1141,11 +1138,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
-		pos = 0
-
-		if string(hdr.Name) == string(header.Name) {
+		if cutNul(hdr.Name) == cutNul(header.Name) {
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -1153,20 +1148,17 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			if readSize != hdr.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
+				if err := skipToNextpos(&afp, hdr.PackedSize, readSize); err != nil {
+					return fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(hdr.Name))
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(hdr.Name))
 			}
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1175,7 +1167,6 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 
 func CommandExtract(archiveFilepath string, l *Lha) error {
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 	//var read_size int
 
@@ -1186,6 +1177,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1202,10 +1194,9 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
-		pos = 0
-		if l.needFile(string(hdr.Name[:])) {
+		if l.needFile(cutNul(hdr.Name)) {
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -1213,20 +1204,17 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			if readSize != hdr.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
+				if err := skipToNextpos(&afp, hdr.PackedSize, readSize); err != nil {
+					return fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(hdr.Name))
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", cutNul(hdr.Name))
 			}
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1265,21 +1253,9 @@ func (l *Lha) adjustDirinfo() {
 	}
 }
 
-func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
-	if pos != -1 {
-		b := make([]byte, pos+off)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	} else {
-		b := make([]byte, off-readSize)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+func skipToNextpos(fp *io.Reader, off, readSize int) error {
+	_, err := io.CopyN(io.Discard, *fp, int64(off-readSize))
+	return err
 }
 
 func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
@@ -1641,6 +1617,11 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 
 }
 
+/* the string up to its terminating NUL */
+func cutNul(b []byte) string {
+	return string(b[:lengthOfStringInByte(b)])
+}
+
 func (l *Lha) needFile(name string) bool {
 	if l.CmdFilec == 0 {
 		return true
-- 
2.43.0


From 4cb873fd381cba40c184e871197dcbe5a2b788d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:10 +0000
Subject: [PATCH 20/37] fix: ask before overwriting a file, and heed the answer

---
 lhext.go | 61 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/lhext.go b/lhext.go
index 6787a80..3418329 100644
--- a/lhext.go
+++ b/lhext.go
@@ -79,21 +79,37 @@ func isDirectoryTraversal(path string) bool {
 }
 
 func inquire(msg string, name string, selective string) int {
-	reader := bufio.NewReader(os.Stdin)
-
 	for {
 		fmt.Fprintf(os.Stdout, "%s %s ", name, msg)
-		response, _ := reader.ReadString('\n')
+		response := readAnswer()
 
-		for i := 0; i <= len(selective); i++ {
-			if response[0] == selective[0] {
-				return i - len(selective)
+		for i := 0; i < len(selective); i++ {
+			if response[0] == selective[i] {
+				return i
 			}
 		}
 	}
 	/* NOTREACHED */
 }
 
+/* read one line, leaving what follows it to the next question */
+func readAnswer() []byte {
+	var response []byte
+	c := make([]byte, 1)
+	for {
+		n, err := os.Stdin.Read(c)
+		if n > 0 {
+			response = append(response, c[0])
+		}
+		if err != nil {
+			return append(response[:0], '\n') /* no answer */
+		}
+		if n > 0 && c[0] == '\n' {
+			return response
+		}
+	}
+}
+
 func inquireExtract(name string, l *Lha) (bool, error) {
 
 	l.skipFlg = false
@@ -112,24 +128,20 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 	}
 
 	if l.Noexec {
-		return false, fmt.Errorf("EXTRACT %s but file is exist", name)
+		fmt.Printf("EXTRACT %s but file is exist\n", name)
+		return false, nil
 	} else {
 		if !l.Force {
 
 			switch inquire("OverWrite ?(Yes/[No]/All/Skip)", name, "YyNnAaSs\n") {
-			case 0:
-			case 1: /* Y/y */
-
-			case 2:
-			case 3: /* N/n */
-			case 8: /* Return */
-				return false, fmt.Errorf("skip no response")
-			case 4:
-			case 5: /* A/a */
+			case 0, 1: /* Y/y */
+
+			case 2, 3, 8: /* N/n, Return */
+				return false, nil
+			case 4, 5: /* A/a */
 				l.Force = true
 
-			case 6:
-			case 7: /* S/s */
+			case 6, 7: /* S/s */
 				l.skipFlg = true
 
 			}
@@ -1509,18 +1521,15 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		} else {
 			if !l.skipFlg {
 
-				upFlag, _ = inquireExtract(string(name[:]), l)
+				upFlag, err = inquireExtract(string(name[:]), l)
 				if !upFlag && !l.Force {
-					return readSize, nil
+					return readSize, err
 				}
 			}
 
 			if l.skipFlg {
 				_, err := os.Lstat(string(name[:]))
-				if err != nil && os.IsExist(err) {
-					return 0, err
-				}
-				if !l.Force {
+				if err == nil && !l.Force {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
 					}
@@ -1564,9 +1573,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
 					var lcode int
 					if !l.skipFlg {
-						upFlag, _ = inquireExtract(string(name[:]), l)
+						upFlag, err = inquireExtract(string(name[:]), l)
 						if !upFlag && !l.Force {
-							return readSize, nil
+							return readSize, err
 						}
 					}
 
-- 
2.43.0


From dfcff6a0b1a690564168c6a0eb544b54b6d94dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:05 +0000
Subject: [PATCH 21/37] fix: report failed extractions, and extract to the
 right place and with the member's attributes

---
 lhext.go | 244 +++++++++++++++++++++++--------------------------------
 1 file changed, 101 insertions(+), 143 deletions(-)

diff --git a/lhext.go b/lhext.go
index 3418329..8395e05 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1244,14 +1244,14 @@ func adjustInfo(name string, hdr *LzHeader) {
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileTypemask) {
+		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {
 			_ = os.Chmod(name, os.FileMode(hdr.UnixMode))
 		}
 
 		uid := hdr.UnixUID
 		gid := hdr.UnixGid
 
-		_ = os.Chown(name, int(uid), int(gid))
+		_ = os.Lchown(name, int(uid), int(gid))
 
 	}
 
@@ -1260,7 +1260,7 @@ func adjustInfo(name string, hdr *LzHeader) {
 func (l *Lha) adjustDirinfo() {
 	for l.dirinfo != nil && l.dirinfo.Hdr != nil {
 		/* message("adjusting [%s]", dirinfo->hdr.Name); */
-		adjustInfo(string((*l.dirinfo).Hdr.Name[:]), (*l.dirinfo).Hdr)
+		adjustInfo(cutNul((*l.dirinfo).Hdr.Name), (*l.dirinfo).Hdr)
 		l.dirinfo = l.dirinfo.Next
 	}
 }
@@ -1270,45 +1270,20 @@ func skipToNextpos(fp *io.Reader, off, readSize int) error {
 	return err
 }
 
-func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
-
-	var offset int
+func makeName(q string, l *Lha) string {
 	if len(l.ExtractDirectory) > 0 {
-		name = l.ExtractDirectory + "/"
-		offset += len(name)
-	}
-	var p int
-	p = strings.Index(q, "/")
-	for p != -1 {
-		name += q[p:]
-		offset += len(q) - p
-
-		_, err := os.Lstat(name)
-		if err != nil {
-			return false, []byte(name), err
-		}
-		_, err = filepath.EvalSymlinks(name)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "this not a symlink [%s] : %v\n ", name, err)
-			return false, []byte(name), nil
-		}
-		p = strings.Index(q[p:], "/")
-	}
-	last := namesz - offset
-	if offset == 0 {
-		last = len(q) - 1
+		return filepath.Join(l.ExtractDirectory, q)
 	}
-	name = q[offset:last]
-	return true, []byte(name), nil
+	return q
 }
 
 func makeParentPath(name string) (bool, error) {
 	st, err := os.Lstat(name)
-	if err != nil {
-		return false, err
+	if err == nil {
+		return st.IsDir(), nil
 	}
-	if st.IsDir() {
-		return true, nil
+	if !os.IsNotExist(err) {
+		return false, err
 	}
 	err = os.MkdirAll(name, 0777)
 	if err != nil {
@@ -1317,8 +1292,21 @@ func makeParentPath(name string) (bool, error) {
 	return true, nil
 }
 
+/* a link is removed, not followed */
+func removeFile(name string) error {
+	st, err := os.Lstat(name)
+	if err != nil || st.IsDir() {
+		return nil
+	}
+	return os.Remove(name)
+}
+
 func openWithMakePath(name string) (io.Writer, error) {
 	f, err := os.Create(name)
+	if err != nil {
+		_, _ = makeParentPath(filepath.Dir(name))
+		f, err = os.Create(name)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
 	}
@@ -1327,28 +1315,12 @@ func openWithMakePath(name string) (io.Writer, error) {
 }
 
 func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
-	var p, tmp, top *LzHeaderList
-
-	(*p) = LzHeaderList{}
 	if string((*hdr).Method[:]) != LzhdirsMethod {
 		return
 	}
-	(*p).Hdr = &LzHeader{}
-	(*p).Hdr.Name = (*hdr).Name
-	top.Next = l.dirinfo
-	for tmp = top; tmp.Next != nil; tmp = tmp.Next {
-		if string((*p).Hdr.Name) == string((*tmp).Next.Hdr.Name) {
-			(*p).Next = (*tmp).Next
-			(*tmp).Next = p
-			break
-		}
-	}
-
-	if (*tmp).Next == nil {
-		(*p).Next = nil
-		(*tmp).Next = p
-	}
-	l.dirinfo = (*top).Next
+	dir := *hdr
+	dir.Name = []byte(name)
+	l.dirinfo = &LzHeaderList{Hdr: &dir, Next: l.dirinfo}
 }
 
 func symlinkWithMakePath(realname string, name string) int {
@@ -1356,7 +1328,7 @@ func symlinkWithMakePath(realname string, name string) int {
 
 	err := os.Symlink(realname, name)
 	if err != nil {
-		_, _ = makeParentPath(name)
+		_, _ = makeParentPath(filepath.Dir(name))
 		err = os.Symlink(realname, name)
 		if err != nil {
 			lCode = 1
@@ -1368,7 +1340,7 @@ func symlinkWithMakePath(realname string, name string) int {
 
 func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
+	name := cutNul(hdr.Name)
 	var crc uint
 	var method int
 	var readSize int
@@ -1390,7 +1362,7 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
 		//	extractRegular:
 		l.readingFilename = l.archiveName
-		l.writingFilename = string(name[:])
+		l.writingFilename = name
 
 		if l.Noexec {
 			return readSize, outputData.Bytes(), nil
@@ -1401,10 +1373,13 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			fp,
 			hdr.OriginalSize,
 			hdr.PackedSize,
-			string(name[:]),
+			name,
 			method,
 			&readSize))
 
+		if l.codecErr != nil {
+			return 0, outputData.Bytes(), fmt.Errorf("cannot extract \"%s\": %v", name, l.codecErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", name)
 		}
@@ -1418,53 +1393,20 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 
 func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
 	var crc uint
 	var method int
-	var saveQuiet, saveVerbose, upFlag bool
-	var q = hdr.Name
-	var c byte
+	var saveQuiet, saveVerbose, extracted bool
 	var readSize int
 
-	p := strings.LastIndex(string(hdr.Name[:]), "/")
-	if p == -1 {
-		p = 0
-	}
-	if l.IgnoreDirectory {
-		p++
-	} else {
-
-		if isDirectoryTraversal(string(hdr.Name[p:])) {
-			return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name[p:])
-		}
-
-		if hdr.Name[p] == '/' {
-			for hdr.Name[p] == '/' {
-				p++
-			}
-
-			/*
-			 * if OSK then strip device name
-			 */
-			if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
-				for {
-					c = hdr.Name[p]
-					p++
-					if p >= len(hdr.Name) || c == '/' {
-						break
-					}
-				}
-				if c != 0 || hdr.Name[p] != 0 {
-					hdr.Name[p] = '.' /* if device name only */
-				}
-			}
-		}
+	/* the directories of the name are left out, as is the slash
+	   at the end of the name of a directory */
+	q := strings.TrimRight(cutNul(hdr.Name), "/")
+	p := strings.LastIndex(q, "/") + 1
 
+	if isDirectoryTraversal(q[p:]) {
+		return 0, fmt.Errorf("possible directory traversal hack attempt in %s", q)
 	}
-	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(hdr.Name[p:]), l)
-	if err != nil || !ok {
-		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
-	}
+	name := makeName(q[p:], l)
 
 	/* LZHDIRS_METHODを持つヘッダをチェックする */
 	/* 1999.4.30 t.okamoto */
@@ -1477,14 +1419,26 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		}
 	}
 
-	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
-		//	extractRegular:
+	fileType := int(hdr.UnixMode) & UnixFileTypemask
+	regular := fileType == UnixFileRegular
+	if fileType != UnixFileDirectory && fileType != UnixFileSymlink && l.Force { /* force extract */
+		regular = true
+	}
+
+	if !l.OutputToStdout && !VerifyMode && !l.Noexec && (q[p:] == "" || q[p:] == ".") {
+		if method == LzhdirsMethodNum {
+			return readSize, nil
+		}
+		return 0, fmt.Errorf("cannot extract a file without a name \"%s\"", q)
+	}
+
+	if regular && method != LzhdirsMethodNum {
 		l.readingFilename = l.archiveName
-		l.writingFilename = string(name[:])
+		l.writingFilename = name
 		if l.OutputToStdout || VerifyMode {
 			/* "Icon\r" should be a resource fork file encoded in MacBinary
 			   format, so that it should be skipped. */
-			if hdr.ExtendType == ExtendMacos && l.DecodeMacbinaryContents && filepath.Base(string(name[:])) == "Icon\r" {
+			if hdr.ExtendType == ExtendMacos && l.DecodeMacbinaryContents && filepath.Base(name) == "Icon\r" {
 				return readSize, nil
 			}
 
@@ -1500,7 +1454,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			saveQuiet = Quiet
 			saveVerbose = l.Verbose
 			if !Quiet && l.OutputToStdout {
-				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", string(name[:]))
+				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", name)
 				Quiet = true
 				l.Verbose = false
 			} else {
@@ -1513,7 +1467,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				os.Stdout,
 				hdr.OriginalSize,
 				hdr.PackedSize,
-				string(name[:]),
+				name,
 				method,
 				&readSize))
 			Quiet = saveQuiet
@@ -1521,17 +1475,17 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		} else {
 			if !l.skipFlg {
 
-				upFlag, err = inquireExtract(string(name[:]), l)
+				upFlag, err := inquireExtract(name, l)
 				if !upFlag && !l.Force {
 					return readSize, err
 				}
 			}
 
 			if l.skipFlg {
-				_, err := os.Lstat(string(name[:]))
+				_, err := os.Lstat(name)
 				if err == nil && !l.Force {
 					if !Quiet {
-						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
+						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", name)
 					}
 					return readSize, nil
 				}
@@ -1539,23 +1493,31 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			if l.Noexec {
 				return readSize, nil
 			}
+			if err := removeFile(name); err != nil {
+				return 0, err
+			}
 			var err error
-			fp, err = openWithMakePath(string(name[:]))
-			if err == nil {
-				crc = uint(l.DecodeLzhuf(
-					*afp,
-					fp,
-					hdr.OriginalSize,
-					hdr.PackedSize,
-					string(name[:]),
-					method,
-					&readSize))
-				fp.(*os.File).Close()
+			fp, err = openWithMakePath(name)
+			if err != nil {
+				return 0, err
 			}
-
-			return readSize, nil
+			crc = uint(l.DecodeLzhuf(
+				*afp,
+				fp,
+				hdr.OriginalSize,
+				hdr.PackedSize,
+				name,
+				method,
+				&readSize))
+			if err := fp.(*os.File).Close(); err != nil {
+				_ = l.codecError(err)
+			}
+			extracted = true
 		}
 
+		if l.codecErr != nil {
+			return 0, fmt.Errorf("cannot extract \"%s\": %v", name, l.codecErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, fmt.Errorf("CRC error: \"%s\"", name)
 		}
@@ -1565,7 +1527,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			if !l.IgnoreDirectory && !VerifyMode && !l.OutputToStdout {
 				if l.Noexec {
 					if !Quiet {
-						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", string(name[:]))
+						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", name)
 					}
 					return readSize, nil
 				}
@@ -1573,53 +1535,49 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
 					var lcode int
 					if !l.skipFlg {
-						upFlag, err = inquireExtract(string(name[:]), l)
+						upFlag, err := inquireExtract(name, l)
 						if !upFlag && !l.Force {
 							return readSize, err
 						}
 					}
 
 					if l.skipFlg {
-						_, err := os.Lstat(string(name[:]))
+						_, err := os.Lstat(name)
 						if err == nil && !l.Force {
 							if !Quiet {
-								fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
+								fmt.Fprintf(os.Stderr, "%s : Skipped...\n", name)
 							}
 							return readSize, nil
 						}
 					}
 
-					lcode = symlinkWithMakePath(string(hdr.Realname[:]), string(name[:]))
-					if lcode < 0 {
-						if !Quiet {
-							fmt.Fprintf(os.Stderr, "Can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
-						}
+					if err := removeFile(name); err != nil {
+						return 0, err
 					}
+					lcode = symlinkWithMakePath(cutNul(hdr.Realname), name)
+					if lcode != 0 {
+						return 0, fmt.Errorf("can't make Symbolic Link \"%s\" -> \"%s\"", name, cutNul(hdr.Realname))
+					}
+					extracted = true
 					if !Quiet {
-						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
+						fmt.Printf("Symbolic Link %s -> %s\n", name, cutNul(hdr.Realname))
 					}
 				} else { /* make directory */
-					ok, err := makeParentPath(string(name[:]))
+					ok, err := makeParentPath(name)
 					if err != nil || !ok {
-						return readSize, nil
+						return 0, fmt.Errorf("cannot make directory \"%s\"", name)
 					}
 					/* save directory information */
-					l.addDirinfo(string(name[:]), hdr)
+					l.addDirinfo(name, hdr)
 				}
 			}
 		} else {
-			if l.Force { /* force extract */
-				//goto extractRegular
-			} else {
-				return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
-			}
+			return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
 		}
 	}
 
-	if !l.OutputToStdout && !VerifyMode {
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileDirectory) {
-			adjustInfo(string(name[:]), hdr)
-		}
+	if extracted {
+		adjustInfo(name, hdr)
 	}
 
 	return readSize, nil
-- 
2.43.0


From 051c5b4f6a65ff5f060eb23de78e5db3a4e8fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:13 +0000
Subject: [PATCH 22/37] fix: add to an existing archive, keeping or replacing
 its members

---
 header.go |  15 +-
 lha.go    |  36 ++--
 lhext.go  | 550 +++++++++++++++++++++++++++++++++---------------------
 util.go   |   2 +-
 4 files changed, 371 insertions(+), 232 deletions(-)

diff --git a/header.go b/header.go
index 7e4c04f..1d10f3a 100644
--- a/header.go
+++ b/header.go
@@ -80,6 +80,15 @@ func NewLzHeader() *LzHeader {
 	}
 }
 
+/* the name of the file in the archive */
+func memberName(name string, vStat os.FileInfo) string {
+	filename := filepath.Base(name)
+	if vStat.IsDir() && filename[len(filename)-1] != '/' {
+		filename += "/"
+	}
+	return filename
+}
+
 func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	//var len int
 	n := copy(hdr.Method[:], []byte(Lzhuff0Method))
@@ -90,8 +99,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	hdr.OriginalSize = int(vStat.Size())
 	hdr.Attribute = genericAttribute
 	hdr.HeaderLevel = byte(l.HeaderLevel)
-	filename := filepath.Base(name)
-	copy(hdr.Name[:], filename)
+	copy(hdr.Name[:], memberName(name, vStat))
 	hdr.Crc = 0x0000
 	hdr.ExtendType = ExtendUnix
 	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()
@@ -112,9 +120,6 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
-		if name[len(name)-1] != '/' {
-			name += "/"
-		}
 		hdr.UnixMode = uint16(info.Mode().Perm()) | uint16(UnixFileDirectory)
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
diff --git a/lha.go b/lha.go
index 96997d7..f7d595f 100644
--- a/lha.go
+++ b/lha.go
@@ -73,6 +73,9 @@ type Lha struct {
 	newArchiveNameBuffer []byte
 	temporaryName        string
 	backupArchiveName    []byte
+	pending              map[string]int64 /* members to be written, and their time stamps */
+	kept                 map[string]bool  /* members not updated, being the newer ones */
+	archived             []string         /* files put in the archive */
 }
 
 func NewLha(archivename string) *Lha {
@@ -153,33 +156,34 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, filename)
-	l.CmdFilec++
+	defer l.setFiles([]string{filename})()
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
 
 	return compressBytes(l.archiveName, body, l)
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, fileToAdd)
-	l.CmdFilec++
+	defer l.setFiles([]string{fileToAdd})()
 	return CommandAdd(l.archiveName, l)
 }
+
+/* give the command its files, until the function returned is called */
+func (l *Lha) setFiles(files []string) func() {
+	filev, filec := l.CmdFilev, l.CmdFilec
+	l.CmdFilev, l.CmdFilec = files, len(files)
+	return func() {
+		l.CmdFilev, l.CmdFilec = filev, filec
+	}
+}
diff --git a/lhext.go b/lhext.go
index 8395e05..3db030e 100644
--- a/lhext.go
+++ b/lhext.go
@@ -160,8 +160,9 @@ func lhaExit(status int) {
 	os.Exit(status)
 }
 
-func writeArchiveTail(nafp *io.Writer) {
-	_, _ = (*nafp).Write([]byte{0x00})
+func writeArchiveTail(nafp *io.Writer) error {
+	_, err := (*nafp).Write([]byte{0x00})
+	return err
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
@@ -175,20 +176,28 @@ func modifyFilenameExtenstion(buffer, ext []byte, size int) []byte {
 }
 
 func buildStandardArchiveName(buffer, original []byte, size int) []byte {
-	copy(buffer, original[:size])
+	ext := filepath.Ext(string(original[:size]))
+	buffer = append(buffer[:0], original[:size-len(ext)]...)
 	return modifyFilenameExtenstion(buffer, []byte(archiveNameExtension), size)
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
-	f, err := os.CreateTemp("./", "lh")
+	f, err := os.CreateTemp(filepath.Dir(l.newArchiveName), "lh")
 	if err != nil {
 		return nil, err
 	}
 	l.temporaryName = f.Name()
 	return f, nil
 }
-func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
-	if !l.Noexec {
+
+/* copy the old member with its header, unless the command replaces it */
+func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, oldHeader int64, l *Lha) error {
+	if l.Noexec || l.superseded(hdr) {
+		return skipToNextpos(oafp, hdr.PackedSize, 0)
+	} else {
+		if _, err := (*oafp).(io.Seeker).Seek(oldHeader, io.SeekStart); err != nil {
+			return err
+		}
 		var v uint
 		l.readingFilename = l.archiveName
 		l.writingFilename = l.temporaryName
@@ -198,14 +207,91 @@ func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
 		}
 
 		/* directory and symlink are ignored for time-stamp archiving */
-		copy(hdr.Method, "-lhd-")
-		if l.mostRecent < hdr.UnixLastModifiedStamp {
-			l.mostRecent = hdr.UnixLastModifiedStamp
+		if string(hdr.Method) != LzhdirsMethod {
+			if l.mostRecent < hdr.UnixLastModifiedStamp {
+				l.mostRecent = hdr.UnixLastModifiedStamp
+			}
 		}
 	}
 	return nil
 }
 
+/* read the next header of the old archive, which is nil after the last one */
+func getOldHeader(oafp *io.Reader, ahdr *LzHeader) (int64, error) {
+	oldHeader, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	err, hasHeader := ahdr.GetHeader(oafp)
+	if err != nil && err != io.EOF {
+		return 0, err
+	}
+	if !hasHeader {
+		*oafp = nil
+	}
+	return oldHeader, nil
+}
+
+/* note which members the command is going to write */
+func (l *Lha) addPending(name string) {
+	stbuf, err := os.Lstat(name)
+	if err != nil || l.isArchive(stbuf) {
+		return
+	}
+	if stbuf.Mode().IsRegular() {
+		f, err := os.Open(name)
+		if err != nil {
+			return
+		}
+		f.Close()
+	}
+	l.pending[memberName(name, stbuf)] = stbuf.ModTime().Unix()
+	if stbuf.IsDir() && l.RecursiveArchiving {
+		var filec int
+		var filev []string
+		if findFiles(name, &filec, &filev, l) {
+			for i := 0; i < filec; i++ {
+				l.addPending(filev[i])
+			}
+		}
+	}
+}
+
+/* TRUE if the command writes a member to be kept in place of the old one */
+func (l *Lha) superseded(ahdr *LzHeader) bool {
+	name := cutNul(ahdr.Name)
+	stamp, ok := l.pending[name]
+	if ok && l.UpdateIfNewer && ahdr.UnixLastModifiedStamp >= stamp {
+		delete(l.pending, name)
+		l.kept[name] = true
+		return false
+	}
+	return ok
+}
+
+/* TRUE for the archive itself, old or new */
+func (l *Lha) isArchive(stbuf os.FileInfo) bool {
+	for _, name := range []string{l.archiveName, l.temporaryName} {
+		st, err := os.Stat(name)
+		if err == nil && os.SameFile(st, stbuf) {
+			return true
+		}
+	}
+	return false
+}
+
+/* TRUE if the file is excluded by -x option */
+func (l *Lha) excluded(name string) bool {
+	for j := 0; j < len(l.ExcludeFiles); j++ {
+		a := strings.ToUpper(l.ExcludeFiles[j])
+		b := strings.ToUpper(filepath.Base(name))
+		if a == b {
+			return true
+		}
+	}
+	return false
+}
+
 func initSP(sp *stringPool) {
 	sp.Size = 1024 - 0
 	sp.Used = 0
@@ -217,7 +303,7 @@ func addSP(sp *stringPool, name []byte, size int) {
 	for sp.Used+size > sp.Size {
 		sp.Size *= 2
 	}
-	sp.Buffer[sp.N] = make([]byte, size)
+	sp.Buffer = append(sp.Buffer, make([]byte, size))
 	copy(sp.Buffer[sp.N], name)
 	sp.Used += size
 	sp.N++
@@ -227,6 +313,7 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	for i := 0; i < sp.N; i++ {
 		(*vVector) = append((*vVector), string(sp.Buffer[i]))
 	}
+	*vCount = len(*vVector)
 }
 
 func findUpdateFiles(oafp *io.Reader, l *Lha) {
@@ -235,11 +322,12 @@ func findUpdateFiles(oafp *io.Reader, l *Lha) {
 	hdr := NewLzHeader()
 	var lenName int
 
+	pos, _ := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
 	initSP(&sp)
 
 	for {
 		err, hasHeader := hdr.GetHeader(oafp)
-		if err != nil {
+		if err != nil && err != io.EOF {
 			fmt.Fprintf(os.Stderr, "error while getting header : %v\n", err.Error())
 			break
 		}
@@ -247,30 +335,33 @@ func findUpdateFiles(oafp *io.Reader, l *Lha) {
 			break
 		}
 		if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileRegular {
-			_, err = os.Lstat(string(name))
+			lenName = lengthOfStringInByte(hdr.Name)
+			_, err = os.Lstat(cutNul(hdr.Name))
 
-			if os.IsExist(err) { /* exist ? */
-				addSP(&sp, hdr.Name, len(hdr.Name)+1)
+			if err == nil { /* exist ? */
+				addSP(&sp, hdr.Name, lenName)
 			}
 		} else {
 			if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileDirectory {
 				copy(name, hdr.Name) /* ok */
-				lenName = len(name)
+				lenName = lengthOfStringInByte(name)
 				if lenName > 0 && name[lenName-1] == '/' {
 					lenName--
 					name[lenName] = 0 /* strip tail '/' */
 				}
-				_, err = os.Lstat(string(name))
+				_, err = os.Lstat(string(name[:lenName]))
 
-				if os.IsExist(err) { /* exist ? */
-					addSP(&sp, name, lenName+1)
+				if err == nil { /* exist ? */
+					addSP(&sp, name, lenName)
 				}
 			}
 		}
-		//	fseeko(oafp, hdr.packed_size, SEEK_CUR)
+		if err := skipToNextpos(oafp, hdr.PackedSize, 0); err != nil {
+			break
+		}
 	}
 
-	//fseeko(oafp, pos, SEEK_SET)
+	_, _ = (*oafp).(io.Seeker).Seek(pos, io.SeekStart)
 
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
 
@@ -281,6 +372,7 @@ func buildBackupName(buffer, original string) []byte {
 	return modifyFilenameExtenstion([]byte(original), []byte(backupNameExtension), len(original))
 }
 func buildBackupFile(l *Lha) error {
+	l.backupArchiveName = buildBackupName("", l.archiveName)
 	return os.Rename(l.archiveName, string(l.backupArchiveName))
 }
 
@@ -291,7 +383,7 @@ func reportArchiveNameIfDifferent(l *Lha) {
 }
 
 func removeFiles(filec int, filev []string) {
-	for i := 0; i < filec; i++ {
+	for i := filec - 1; i >= 0; i-- { /* the files of a directory before it */
 		os.Remove(filev[i])
 	}
 }
@@ -304,17 +396,23 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	l.writingFilename = l.temporaryName
 
 	/* directory and symlink are ignored for time-stamp archiving */
-	if string(hdr.Method) == "-lhd-" {
+	if string(hdr.Method) != LzhdirsMethod {
 		if l.mostRecent < hdr.UnixLastModifiedStamp {
 			l.mostRecent = hdr.UnixLastModifiedStamp
 		}
 	}
 
-	_ = WriteHeader(nafp, hdr) /* DUMMY */
+	headerPos, err := (*nafp).(*os.File).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err := WriteHeader(nafp, hdr); err != nil { /* DUMMY */
+		return err
+	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
-			fmt.Printf("%s -> %s\t- Symbolic Link\n", hdr.Name, hdr.Realname)
+			fmt.Printf("%s -> %s\t- Symbolic Link\n", cutNul(hdr.Name), cutNul(hdr.Realname))
 		}
 	}
 
@@ -324,33 +422,46 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-	hdr.Crc, _ = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
-		&vOriginalSize, &vPackedSize, hdr.Name, hdr.Method)
+	dataPos, err := (*nafp).(*os.File).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	hdr.Crc, err = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
+		&vOriginalSize, &vPackedSize, []byte(cutNul(hdr.Name)), hdr.Method)
+	if err != nil {
+		return err
+	}
 
 	if vPackedSize < vOriginalSize {
 		//	next_pos = 0 //ftello(nafp)
 	} else { /* retry by stored method */
-		var err error
+		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
+			return err
+		}
+		if _, err = (*nafp).(*os.File).Seek(dataPos, io.SeekStart); err != nil {
+			return err
+		}
+		if err = (*nafp).(*os.File).Truncate(dataPos); err != nil {
+			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+		}
 		hdr.Crc, err = encodeStoredCrc(fp, nafp, hdr.OriginalSize, &vOriginalSize, &vPackedSize)
-		//if ftruncate(fileno(nafp), next_pos) == -1 {
 		if err != nil {
-			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			return err
 		}
-		//}
-
-		//if chsize(fileno(nafp), next_pos) == -1 {
-		//	return fmt.Errorf("cannot truncate archive")
-		//}
 
 		copy(hdr.Method, []byte(Lzhuff0Method))
 	}
 	hdr.OriginalSize = vOriginalSize
 	hdr.PackedSize = vPackedSize
 	// go back to the beginning to set the new header
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekStart)
-	_ = WriteHeader(nafp, hdr)
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekEnd)
-	return nil
+	if _, err = (*nafp).(*os.File).Seek(headerPos, io.SeekStart); err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil {
+		return err
+	}
+	_, err = (*nafp).(*os.File).Seek(0, io.SeekEnd)
+	return err
 }
 
 func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
@@ -363,71 +474,81 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	var i int
 	var stbuf os.FileInfo
 	var err error
+	var oldHeader int64
 
 	var directory, symlink bool
 
 	stbuf, err = os.Lstat(name)
 	if err != nil {
-		return oafp, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
+		fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
+		return oafp, nil
+	}
+	if l.isArchive(stbuf) {
+		fmt.Printf("specified file \"%s\" is the generating archive. skip\n", name)
+		return oafp, nil
 	}
 
 	directory = stbuf.IsDir()
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
 
 	if !directory && !symlink && !l.Noexec {
-		fp, err = os.Open(name)
+		f, err := os.Open(name)
 		if err != nil {
-			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
+			fmt.Fprintf(os.Stderr, "cannot open file \"%s\": %s\n", name, err.Error())
+			return oafp, nil
 		}
+		defer f.Close()
+		fp = f
 	}
 
 	l.initHeader(name, stbuf, hdr)
 
 	cmp = 0 /* avoid compiler warnings `uninitialized' */
 	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
+		oldHeader, err = getOldHeader(oafp, ahdr)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
+			return oafp, err
 		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
+		if *oafp == nil {
+			break
 		}
 
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
+		cmp = strings.Compare(cutNul(ahdr.Name), cutNul(hdr.Name))
+		if !l.SortContents && cmp != 0 {
+			cmp = -1 /* to be -1 always */
 		}
 		if cmp < 0 { /* SKIP */
 			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
+			if err = copyOldOne(oafp, nafp, ahdr, oldHeader, l); err != nil {
+				return oafp, err
 			}
 
 		} else {
 			if cmp == 0 { /* REPLACE */
 				/* drop old archive's */
-
+				if err = skipToNextpos(oafp, ahdr.PackedSize, 0); err != nil {
+					return oafp, err
+				}
 				break
 			} else { /* cmp > 0, INSERT */
-
+				if _, err = (*oafp).(io.Seeker).Seek(oldHeader, io.SeekStart); err != nil {
+					return oafp, err
+				}
 				break
 			}
 		}
 	}
 
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
+	if *oafp == nil || cmp > 0 { /* not in archive */
+		if l.kept[cutNul(hdr.Name)] {
+			/* the archive has a newer one */
+		} else if l.Noexec {
 			fmt.Printf("ADD %s\n", name)
 		} else {
-			_ = l.addOne(&fp, nafp, hdr)
+			if err = l.addOne(&fp, nafp, hdr); err != nil {
+				return oafp, err
+			}
+			l.archived = append(l.archived, name)
 		}
 	} else { /* cmp == 0 */
 		if !l.UpdateIfNewer ||
@@ -436,18 +557,21 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 			if l.Noexec {
 				fmt.Printf("REPLACE %s\n", name)
 			} else {
-				_ = l.addOne(&fp, nafp, hdr)
+				if err = l.addOne(&fp, nafp, hdr); err != nil {
+					return oafp, err
+				}
+				l.archived = append(l.archived, name)
 			}
 		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
+			if _, err = (*oafp).(io.Seeker).Seek(-int64(ahdr.PackedSize), io.SeekCurrent); err != nil {
+				return oafp, err
+			}
+			if err = copyOldOne(oafp, nafp, ahdr, oldHeader, l); err != nil {
+				return oafp, err
 			}
 		}
 	}
 
-	fp.(*os.File).Close()
-	//fp.Close()
-
 	if directory && l.RecursiveArchiving { /* recursive call */
 		if findFiles(name, &filec, &filev, l) {
 			for i = 0; i < filec; i++ {
@@ -482,8 +606,12 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
+		defer fr.Close()
 		oldArchiveExist = true
 		oafp = fr
 	}
@@ -495,12 +623,13 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
+	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+		oafp = nil
 	}
 
-	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
+	if oafp != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = ahdr.SeekLhaHeader(&oafp)
+		l.newArchiveNameBuffer = buildStandardArchiveName(
 			l.newArchiveNameBuffer,
 			[]byte(l.archiveName),
 			len(l.archiveName))
@@ -517,22 +646,31 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		if err != nil {
 			return err
 		}
+		defer func() {
+			fw.Close()
+			os.Remove(l.temporaryName)
+		}()
 		nafp = fw
 	}
 
 	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
+	if l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil {
 		findUpdateFiles(&oafp, l)
 	}
 
+	l.pending = make(map[string]int64)
+	l.kept = make(map[string]bool)
+	l.archived = nil
+	for i = 0; i < l.CmdFilec; i++ {
+		if !l.excluded(l.CmdFilev[i]) {
+			l.addPending(l.CmdFilev[i])
+		}
+	}
+
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
 		return nil
 	}
 
@@ -551,43 +689,37 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 
 		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-			oafp = *pf
+		if l.excluded(l.CmdFilev[i]) {
+			continue
 		}
+		pf, err := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
+		if err != nil {
+			return err
+		}
+		oafp = *pf
 
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
+	for oafp != nil {
+		oldHeader, err := getOldHeader(&oafp, ahdr)
+		if err != nil {
+			return err
+		}
+		if oafp == nil {
+			break
+		}
+		if err := copyOldOne(&oafp, &nafp, ahdr, oldHeader, l); err != nil {
+			return err
 		}
-		fr.Close()
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err := writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -596,13 +728,20 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if oldArchiveExist {
+			if err := setArchiveFileMode(fr, fw); err != nil {
+				return err
+			}
+		}
+		if err := fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
@@ -618,14 +757,11 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
 		}
-
-		/* set new archive file mode/group */
-		setArchiveFileMode()
 	}
 
 	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
+	if l.DeleteAfterAppend && !l.Noexec {
+		removeFiles(len(l.archived), l.archived)
 	}
 
 	return nil
@@ -668,9 +804,7 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	hdr := NewLzHeader()
 	var fp io.Reader
 	var cmp int
-	var filec int
-	var filev []string
-	var i int
+	var oldHeader int64
 	stbuf := &StreamFileInfo{
 		name:    name,
 		size:    int64(len(body)),
@@ -684,48 +818,50 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 
 	cmp = 0 /* avoid compiler warnings `uninitialized' */
 	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
+		oldHeader, err = getOldHeader(oafp, ahdr)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
+			return oafp, err
 		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
+		if *oafp == nil {
+			break
 		}
 
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
+		cmp = strings.Compare(cutNul(ahdr.Name), cutNul(hdr.Name))
+		if !l.SortContents && cmp != 0 {
+			cmp = -1 /* to be -1 always */
 		}
 		if cmp < 0 { /* SKIP */
 			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
+			if err = copyOldOne(oafp, nafp, ahdr, oldHeader, l); err != nil {
+				return oafp, err
 			}
 
 		} else {
 			if cmp == 0 { /* REPLACE */
 				/* drop old archive's */
-
+				if err = skipToNextpos(oafp, ahdr.PackedSize, 0); err != nil {
+					return oafp, err
+				}
 				break
 			} else { /* cmp > 0, INSERT */
+				if _, err = (*oafp).(io.Seeker).Seek(oldHeader, io.SeekStart); err != nil {
+					return oafp, err
+				}
 				break
 			}
 		}
 	}
 
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
+	if *oafp == nil || cmp > 0 { /* not in archive */
+		if l.kept[cutNul(hdr.Name)] {
+			/* the archive has a newer one */
+		} else if l.Noexec {
 			fmt.Printf("ADD %s\n", name)
 		} else {
-			_ = l.addOne(&fp, nafp, hdr)
+			if err = l.addOne(&fp, nafp, hdr); err != nil {
+				return oafp, err
+			}
+			l.archived = append(l.archived, name)
 		}
 	} else { /* cmp == 0 */
 		if !l.UpdateIfNewer ||
@@ -734,26 +870,21 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 			if l.Noexec {
 				fmt.Printf("REPLACE %s\n", name)
 			} else {
-				_ = l.addOne(&fp, nafp, hdr)
+				if err = l.addOne(&fp, nafp, hdr); err != nil {
+					return oafp, err
+				}
+				l.archived = append(l.archived, name)
 			}
 		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
+			if _, err = (*oafp).(io.Seeker).Seek(-int64(ahdr.PackedSize), io.SeekCurrent); err != nil {
+				return oafp, err
 			}
-		}
-	}
-
-	if l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendBytes(filev[i], oafp, nafp, body)
-				if err != nil {
-					return oafp, err
-				}
+			if err = copyOldOne(oafp, nafp, ahdr, oldHeader, l); err != nil {
+				return oafp, err
 			}
-			freeFiles(filec, &filev)
 		}
 	}
+
 	return oafp, nil
 }
 
@@ -777,8 +908,12 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
+		defer fr.Close()
 		oldArchiveExist = true
 		oafp = fr
 	}
@@ -790,12 +925,13 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
+	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+		oafp = nil
 	}
 
-	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
+	if oafp != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = ahdr.SeekLhaHeader(&oafp)
+		l.newArchiveNameBuffer = buildStandardArchiveName(
 			l.newArchiveNameBuffer,
 			[]byte(l.archiveName),
 			len(l.archiveName))
@@ -812,77 +948,67 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		if err != nil {
 			return err
 		}
+		defer func() {
+			fw.Close()
+			os.Remove(l.temporaryName)
+		}()
 		nafp = fw
 	}
 
 	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
+	if l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil {
 		findUpdateFiles(&oafp, l)
 	}
 
+	l.pending = make(map[string]int64)
+	l.kept = make(map[string]bool)
+	l.archived = nil
+	for i = 0; i < l.CmdFilec; i++ {
+		if !l.excluded(l.CmdFilev[i]) {
+			l.pending[filepath.Base(l.CmdFilev[i])] = time.Now().Unix()
+		}
+	}
+
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
 		return nil
 	}
 
 	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
+		/* exclude files specified by -x option */
+		if l.excluded(l.CmdFilev[i]) {
 			continue
 		}
-
-		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-			oafp = *pf
+		pf, err := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
+		if err != nil {
+			return err
 		}
+		oafp = *pf
 
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
+	for oafp != nil {
+		oldHeader, err := getOldHeader(&oafp, ahdr)
+		if err != nil {
+			return err
+		}
+		if oafp == nil {
+			break
+		}
+		if err := copyOldOne(&oafp, &nafp, ahdr, oldHeader, l); err != nil {
+			return err
 		}
-		fr.Close()
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err := writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -891,13 +1017,20 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if oldArchiveExist {
+			if err := setArchiveFileMode(fr, fw); err != nil {
+				return err
+			}
+		}
+		if err := fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
@@ -913,14 +1046,6 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
 		}
-
-		/* set new archive file mode/group */
-		setArchiveFileMode()
-	}
-
-	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
 	}
 
 	return nil
@@ -946,8 +1071,13 @@ func Copy(src, dst string) error {
 	return out.Close()
 }
 
-func setArchiveFileMode() {
-
+/* give the new archive the file mode of the old one */
+func setArchiveFileMode(fr, fw *os.File) error {
+	stbuf, err := fr.Stat()
+	if err != nil {
+		return err
+	}
+	return fw.Chmod(stbuf.Mode().Perm())
 }
 
 func CommandList(archiveFilepath string, l *Lha) error {
diff --git a/util.go b/util.go
index 06899cc..28fcf76 100644
--- a/util.go
+++ b/util.go
@@ -70,12 +70,12 @@ func encodeStoredCrc(ifp *io.Reader, ofp *io.Writer, size int, original_size_var
 	save_quiet = Quiet
 	Quiet = true
 	size, err := copyfile(ifp, ofp, size, 1, &crc)
+	Quiet = save_quiet
 	if err != nil {
 		return 0, err
 	}
 	*original_size_var = size
 	*write_size_var = size
-	Quiet = save_quiet
 	return crc, nil
 }
 
-- 
2.43.0


From 5a116676494a3fbf87b66e118fe37446930e4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:42 +0000
Subject: [PATCH 23/37] fix: list names without their NUL padding

---
 lhext.go | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/lhext.go b/lhext.go
index 3db030e..d0d6640 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1739,9 +1739,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	if l.Verbose {
 		if (int(hdr.UnixMode) & UnixFileSymlink) != UnixFileSymlink {
-			fmt.Printf("%s\n", hdr.Name)
+			fmt.Printf("%s\n", cutNul(hdr.Name))
 		} else {
-			fmt.Printf("%s -> %s\n", hdr.Name, hdr.Realname)
+			fmt.Printf("%s -> %s\n", cutNul(hdr.Name), cutNul(hdr.Realname))
 		}
 	}
 	copy(method[:], hdr.Method[:])
@@ -1802,11 +1802,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 		}
 		modebits[10] = 0
 
-		fmt.Printf("%s ", modebits)
+		fmt.Printf("%s ", cutNul(modebits[:]))
 
-	case ExtendOs68k:
-		/**/
-	case ExtendXosk: /**/
+	case ExtendOs68k, ExtendXosk: /**/
 		mode = int(hdr.UnixMode)
 		if mode&oskDirectoryPerm != 0 {
 			modebits[0] = 'd'
@@ -1876,38 +1874,38 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	switch hdr.ExtendType {
 	case ExtendUnix:
-		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+		if cutNul(hdr.User) != "" {
+			fmt.Printf("%5.5s/", cutNul(hdr.User))
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
-		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+		if cutNul(hdr.Group) != "" {
+			fmt.Printf("%-5.5s ", cutNul(hdr.Group))
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
 	case ExtendOs68k:
-		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+		if cutNul(hdr.User) != "" {
+			fmt.Printf("%5.5s/", cutNul(hdr.User))
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
-		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+		if cutNul(hdr.Group) != "" {
+			fmt.Printf("%-5.5s ", cutNul(hdr.Group))
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
 	case ExtendXosk:
-		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+		if cutNul(hdr.User) != "" {
+			fmt.Printf("%5.5s/", cutNul(hdr.User))
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
-		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+		if cutNul(hdr.Group) != "" {
+			fmt.Printf("%-5.5s ", cutNul(hdr.Group))
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
@@ -1921,9 +1919,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	if l.VerboseListing {
 		if hdr.HasCrc {
-			fmt.Printf(" %s %04x", method, hdr.Crc)
+			fmt.Printf(" %s %04x", cutNul(method[:]), hdr.Crc)
 		} else {
-			fmt.Printf(" %s ****", method)
+			fmt.Printf(" %s ****", cutNul(method[:]))
 		}
 	}
 
@@ -1932,9 +1930,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	if !l.Verbose {
 		if (hdr.UnixMode & uint16(UnixFileSymlink)) != uint16(UnixFileSymlink) {
-			fmt.Printf(" %s", hdr.Name)
+			fmt.Printf(" %s", cutNul(hdr.Name))
 		} else {
-			fmt.Printf(" %s -> %s", hdr.Name, hdr.Realname)
+			fmt.Printf(" %s -> %s", cutNul(hdr.Name), cutNul(hdr.Realname))
 		}
 	}
 	if l.Verbose {
-- 
2.43.0


From 246c40846c2ee050eae8b1b31f573bc4d291e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:42 +0000
Subject: [PATCH 24/37] fix: heed the command line options -c, -f, -m, -n, -u
 and -v

---
 cmd/lharc.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index e59cd72..b89665b 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -44,12 +44,6 @@ var (
 	// nolint: unused, deadcode
 	quietMode int
 	// nolint: unused, deadcode
-	newArchive bool
-	// nolint: unused, deadcode
-	updateIfNewer bool
-	// nolint: unused, deadcode
-	deleteAfterAppend bool
-	// nolint: unused, deadcode
 	backupOldArchive bool
 	// nolint: unused, deadcode
 	getFilenameFromStdin bool
@@ -107,6 +101,10 @@ func main() {
 Parse LHA command and options.
 */
 func parseOption() {
+	l.Force = *forceoption
+	l.Noexec = *nonexecuteoption
+	l.Verbose = *verbosemodeoption
+
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
@@ -124,7 +122,7 @@ func parseOption() {
 	}
 
 	if *createfile != "" {
-		newArchive = true
+		l.NewArchive = true
 		cmd = lha.CmdAdd
 		l.CmdFilev = append(l.CmdFilev, *createfile)
 		l.CmdFilec++
@@ -143,13 +141,13 @@ func parseOption() {
 
 	if *updatefile {
 		cmd = lha.CmdAdd
-		updateIfNewer = true
+		l.UpdateIfNewer = true
 
 	}
 
 	if *movefile {
 		cmd = lha.CmdAdd
-		deleteAfterAppend = true
+		l.DeleteAfterAppend = true
 
 	}
 
-- 
2.43.0


From 2631b4206b2485fd20da8f49cc613b123aa36170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:19 +0000
Subject: [PATCH 25/37] fix: add to the archive an earlier call of the same
 instance made

---
 lha.go   | 3 ---
 lhext.go | 4 ++--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/lha.go b/lha.go
index f7d595f..0999d1a 100644
--- a/lha.go
+++ b/lha.go
@@ -52,7 +52,6 @@ type Lha struct {
 	NewArchive                     bool
 	UpdateIfNewer                  bool
 	BackupOldArchive               bool
-	newArchive                     bool
 	DeleteAfterAppend              bool
 	SortContents                   bool
 	RecursiveArchiving             bool
@@ -161,7 +160,6 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
-	l.newArchive = err != nil
 
 	return compressBytes(l.archiveName, body, l)
 }
@@ -171,7 +169,6 @@ func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (e
 	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
-	l.newArchive = err != nil
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
diff --git a/lhext.go b/lhext.go
index d0d6640..86bc468 100644
--- a/lhext.go
+++ b/lhext.go
@@ -623,7 +623,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+	if l.NewArchive && oldArchiveExist {
 		oafp = nil
 	}
 
@@ -925,7 +925,7 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		}
 	}
 
-	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+	if l.NewArchive && oldArchiveExist {
 		oafp = nil
 	}
 
-- 
2.43.0


From bff96386d7bda7029b3ade1fa2d3aa4947443dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:55 +0000
Subject: [PATCH 26/37] fix: keep a newer member once, wherever it is in the
 archive

---
 lhext.go | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/lhext.go b/lhext.go
index 86bc468..b53499c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -259,16 +259,38 @@ func (l *Lha) addPending(name string) {
 
 /* TRUE if the command writes a member to be kept in place of the old one */
 func (l *Lha) superseded(ahdr *LzHeader) bool {
-	name := cutNul(ahdr.Name)
-	stamp, ok := l.pending[name]
-	if ok && l.UpdateIfNewer && ahdr.UnixLastModifiedStamp >= stamp {
-		delete(l.pending, name)
-		l.kept[name] = true
-		return false
-	}
+	_, ok := l.pending[cutNul(ahdr.Name)]
 	return ok
 }
 
+/* note which members of the old archive are newer than the files given */
+func (l *Lha) findKept(oafp *io.Reader) error {
+	ahdr := NewLzHeader()
+	pos, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	for {
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if err != nil && err != io.EOF {
+			return err
+		}
+		if !hasHeader {
+			break
+		}
+		name := cutNul(ahdr.Name)
+		if stamp, ok := l.pending[name]; ok && ahdr.UnixLastModifiedStamp >= stamp {
+			delete(l.pending, name)
+			l.kept[name] = true
+		}
+		if err := skipToNextpos(oafp, ahdr.PackedSize, 0); err != nil {
+			return err
+		}
+	}
+	_, err = (*oafp).(io.Seeker).Seek(pos, io.SeekStart)
+	return err
+}
+
 /* TRUE for the archive itself, old or new */
 func (l *Lha) isArchive(stbuf os.FileInfo) bool {
 	for _, name := range []string{l.archiveName, l.temporaryName} {
@@ -667,6 +689,12 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
+	if l.UpdateIfNewer && oafp != nil {
+		if err := l.findKept(&oafp); err != nil {
+			return err
+		}
+	}
+
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
@@ -969,6 +997,12 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		}
 	}
 
+	if l.UpdateIfNewer && oafp != nil {
+		if err := l.findKept(&oafp); err != nil {
+			return err
+		}
+	}
+
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
-- 
2.43.0


From 839341c3da32873068cbea806cb34587dcf15c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:27 +0000
Subject: [PATCH 27/37] fix: put the verify mode back as it was after reading
 the headers

---
 lha.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lha.go b/lha.go
index 0999d1a..24cb555 100644
--- a/lha.go
+++ b/lha.go
@@ -89,9 +89,10 @@ func NewLha(archivename string) *Lha {
 
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	// verify mode here, no extraction
+	verifyMode := VerifyMode
 	VerifyMode = true
 	defer func() {
-		VerifyMode = false
+		VerifyMode = verifyMode
 	}()
 	MakeCrcTable()
 	headers = make([]*LzHeader, 0)
-- 
2.43.0


From c617420f686065ae823d93b1e898b79ce3b54a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:12 +0000
Subject: [PATCH 28/37] fix: write the tail of a code longer than 16 bits from
 its high end

---
 dhuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhuf.go b/dhuf.go
index e735aaa..ef4f0e8 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -300,7 +300,7 @@ func (l *Lha) encodeCDyn(c uint) {
 		_ = l.putcode(byte(cnt), uint16(bits>>16))
 	} else {
 		_ = l.putcode(16, uint16(bits>>16))
-		_ = l.putbits(byte(cnt-16), uint16(bits))
+		_ = l.putcode(byte(cnt-16), uint16(bits))
 	}
 	if d >= 0 {
 		_ = l.putbits(8, uint16(d))
-- 
2.43.0


From 86d1ebf0331d03b0f58e9208e75f177fb96b1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:43 +0000
Subject: [PATCH 29/37] fix: make the CRC table when the package is loaded

The Command functions, the stream coders and the header functions gave
wrong CRCs until some call of Headers, Compress or Decompress had made it.
---
 crcio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crcio.go b/crcio.go
index 134446d..d1059d8 100644
--- a/crcio.go
+++ b/crcio.go
@@ -28,6 +28,10 @@ func calcCrc(crc uint, p *[]byte, pIndex, n uint) uint {
 	return crc
 }
 
+func init() {
+	MakeCrcTable()
+}
+
 func MakeCrcTable() {
 	var i, j, r uint
 	for i = 0; i <= ucharMax; i++ {
-- 
2.43.0


From 6652191bca8c377b2f3ac05a8a335cf7ef946459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:17 +0000
Subject: [PATCH 30/37] fix: set the attributes of extracted directories when a
 later member fails, too

They were kept in the instance instead, and the next extraction with it
changed the directories of these names wherever it ran.
---
 lhext.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lhext.go b/lhext.go
index b53499c..e60aecd 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1250,6 +1250,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		_, _ = hdr.SeekLhaHeader(&afp)
 	}
 
+	/* adjust directory information, also when a later member fails */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1282,9 +1285,6 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		}
 	}
 
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	return outputData, nil
 }
 
@@ -1304,6 +1304,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		_, _ = hdr.SeekLhaHeader(&afp)
 	}
 
+	/* adjust directory information, also when a later member fails */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1335,9 +1338,6 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		}
 	}
 
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	return nil
 }
 
@@ -1360,6 +1360,9 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		_, _ = hdr.SeekLhaHeader(&afp)
 	}
 
+	/* adjust directory information, also when a later member fails */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1391,9 +1394,6 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	return nil
 }
 
-- 
2.43.0


From 4b887832e0d47bb33dabf830af249dd2b873aeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:52 +0000
Subject: [PATCH 31/37] fix: leave the header level of the instance alone when
 reading

Decompress and DecompresBytes set it to 2 without using it, so that a later
addition with the same instance did not write the level its caller asked for.
---
 lha.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lha.go b/lha.go
index 24cb555..9690f3c 100644
--- a/lha.go
+++ b/lha.go
@@ -141,13 +141,11 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 }
 
 func (l *Lha) Decompress(header *LzHeader) (err error) {
-	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractWithHeader(header, l)
 }
 
 func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
-	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractBytesWithHeader(header, l)
 }
-- 
2.43.0


From e62c1b0352d2d8609637a8debc4d3bc487a423b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:15 +0000
Subject: [PATCH 32/37] fix: leave the list of files of the instance alone when
 adding

An automatic update left the files it found in the instance, so that a later
listing or test with it showed only these, and the archive among the files
was taken out of the caller's slice.
---
 lhext.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/lhext.go b/lhext.go
index e60aecd..121ebf0 100644
--- a/lhext.go
+++ b/lhext.go
@@ -677,6 +677,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 && oafp != nil {
+		defer l.setFiles(nil)()
 		findUpdateFiles(&oafp, l)
 	}
 
@@ -703,16 +704,9 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
 		if l.CmdFilev[i] == l.archiveName {
 			/* exclude target archive */
 			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
 			continue
 		}
 
-- 
2.43.0


From 09eb12116686e974fefe51ab22e8fbe1b8e64965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:38 +0000
Subject: [PATCH 33/37] fix: put the old archive back when the new one cannot
 take its place after a backup

---
 lhext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lhext.go b/lhext.go
index 121ebf0..deb0504 100644
--- a/lhext.go
+++ b/lhext.go
@@ -775,6 +775,9 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		if len(l.newArchiveName) >= 0 {
 			err := os.Rename(l.temporaryName, l.newArchiveName)
 			if err != nil {
+				if oldArchiveExist && l.BackupOldArchive {
+					_ = os.Rename(string(l.backupArchiveName), l.archiveName)
+				}
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
@@ -1070,6 +1073,9 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		if len(l.newArchiveName) >= 0 {
 			err := os.Rename(l.temporaryName, l.newArchiveName)
 			if err != nil {
+				if oldArchiveExist && l.BackupOldArchive {
+					_ = os.Rename(string(l.backupArchiveName), l.archiveName)
+				}
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
-- 
2.43.0


From 041c690313f47c68de5c482790093d68cb10e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:56 +0000
Subject: [PATCH 34/37] fix: archive the whole target of a symbolic link, up to
 the 4095 bytes it may have

---
 header.go | 2 +-
 macro.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 1d10f3a..db89f08 100644
--- a/header.go
+++ b/header.go
@@ -129,7 +129,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		hdr.UnixMode = uint16(vStat.Mode().Perm()) | uint16(UnixFileSymlink)
 		realname, err := os.Readlink(name)
 		if err == nil {
-			copy(hdr.Realname, []byte(realname))
+			hdr.Realname = []byte(realname)
 		} else {
 			fmt.Fprintf(os.Stderr, "error while reading symlink error : %v\n", err.Error())
 		}
diff --git a/macro.go b/macro.go
index 771a00e..aeee53d 100644
--- a/macro.go
+++ b/macro.go
@@ -7,7 +7,7 @@ const (
 	methodTypeStorage = 5
 	FilenameLength    = 1024
 
-	lzheaderStorage      = 4096
+	lzheaderStorage      = 8192 /* a link's target alone may take 4095 bytes */
 	ucharMax             = (0x7F*2 + 1)
 	charBit         byte = 8
 	/*      #if nt > np  npt nt #else  npt np #endif  */
-- 
2.43.0


From 2ac7d71c959cbba5f93b970446eff9455faaa770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:56 +0000
Subject: [PATCH 35/37] fix: refuse a symbolic link that does not fit a level 0
 header

---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index db89f08..8960758 100644
--- a/header.go
+++ b/header.go
@@ -1224,6 +1224,11 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	switch hdr.HeaderLevel {
 	case 0:
 		headerSize = hdr.writeHeaderLevel0(data, pathname)
+		if (hdr.UnixMode&uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) &&
+			int(data[iHeaderLevel+1]) < lengthOfStringInByte(pathname) {
+			/* half a target leads nowhere, and a link without one cannot be read */
+			return fmt.Errorf("symbolic link \"%s\" too long for a level 0 header", hdr.Name[:lengthOfStringInByte(hdr.Name)])
+		}
 	case 1:
 		headerSize = hdr.writeHeaderLevel1(data, pathname)
 	case 2:
-- 
2.43.0


From a0c53d3e025adc393d708e133b0ed2c08e8c9602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:30 +0000
Subject: [PATCH 36/37] fix: find a level 2 header of any size, and a level 3
 one, behind a self-extractor

---
 header.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 8960758..cf6881c 100644
--- a/header.go
+++ b/header.go
@@ -1084,8 +1084,9 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 			return nil, 0
 		}
 
-		/* level 2 header */
-		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
+		/* level 2 or 3 header */
+		size := int(p[iHeaderSize]) + int(p[iHeaderSize+1])<<8
+		if (p[iHeaderLevel] == 2 && size >= 24 || p[iHeaderLevel] == 3 && size == 4) && p[iAttribute] == 0x20 {
 			if _, err := seeker.Seek(int64(i-n), io.SeekCurrent); err != nil {
 				return fmt.Errorf("cannot seek header"), -1
 			}
-- 
2.43.0


From 5456d396f46af3d84a87ece65f755dcf93aaba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:16 +0000
Subject: [PATCH 37/37] fix: leave pipes, sockets and devices out of the
 archive instead of waiting for them or losing the member of that name

---
 lhext.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index deb0504..2d49e4c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -232,10 +232,15 @@ func getOldHeader(oafp *io.Reader, ahdr *LzHeader) (int64, error) {
 	return oldHeader, nil
 }
 
+/* TRUE for a file, a directory and a symbolic link, but no pipe, socket or device */
+func archivable(stbuf os.FileInfo) bool {
+	return stbuf.Mode().IsRegular() || stbuf.IsDir() || stbuf.Mode()&os.ModeSymlink != 0
+}
+
 /* note which members the command is going to write */
 func (l *Lha) addPending(name string) {
 	stbuf, err := os.Lstat(name)
-	if err != nil || l.isArchive(stbuf) {
+	if err != nil || l.isArchive(stbuf) || !archivable(stbuf) {
 		return
 	}
 	if stbuf.Mode().IsRegular() {
@@ -509,6 +514,10 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 		fmt.Printf("specified file \"%s\" is the generating archive. skip\n", name)
 		return oafp, nil
 	}
+	if !archivable(stbuf) {
+		fmt.Fprintf(os.Stderr, "cannot archive \"%s\". skip\n", name)
+		return oafp, nil
+	}
 
 	directory = stbuf.IsDir()
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
-- 
2.43.0

