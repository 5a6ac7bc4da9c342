From 7d08a18591b94106caeddb7001f63097d5751609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 01/23] fix: split incompressible data longer than 65535 bytes
 into several stored blocks

---
 writer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index c268002..0547b40 100644
--- a/writer.go
+++ b/writer.go
@@ -1010,7 +1010,7 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	storedLength := (uint64(len(data)) << 3) + 35
 	if storedLength < dynamicCounter.length() {
-		return writeStoredBlock(bw, data, isFinal)
+		return writeStoredBlocks(bw, data, isFinal)
 	}
 	if staticCounter.length() <= dynamicCounter.length() {
 		return writeStaticBlock(bw, tokens, isFinal)
@@ -1018,6 +1018,18 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 	return writeDynamicBlock(bw, &hLL, &hD, tokens, isFinal)
 }
 
+// writeStoredBlocks writes data using as many stored blocks as it takes, given
+// that no stored block can hold more than math.MaxUint16 bytes.
+func writeStoredBlocks(bw bitwriter, data []byte, isFinal bool) bool {
+	for len(data) > math.MaxUint16 {
+		if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
+			return false
+		}
+		data = data[math.MaxUint16:]
+	}
+	return writeStoredBlock(bw, data, isFinal)
+}
+
 func writeStoredBlock(bw bitwriter, data []byte, isFinal bool) bool {
 	assert.Assertf(uint(len(data)) <= uint(math.MaxUint16), "uncompressed block length %d exceeds uint16_t", uint(len(data)))
 
-- 
2.43.0


From a3422ea415ee510cd827b556ffb790468f06845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 02/23] fix: limit Huffman codes to the lengths which DEFLATE
 can represent

---
 huffman.go | 17 +++++++++++++++++
 writer.go  |  6 +++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/huffman.go b/huffman.go
index e920bc7..be8e1a5 100644
--- a/huffman.go
+++ b/huffman.go
@@ -14,6 +14,10 @@ const (
 	physicalNumLLCodes = 288
 	physicalNumDCodes  = 32
 	physicalNumXCodes  = 19
+
+	// https://www.rfc-editor.org/rfc/rfc1951.html — Section 3.2.7
+	maxLLDCodeSize = 15
+	maxXCodeSize   = 7
 )
 
 var scramble = [physicalNumXCodes]byte{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
@@ -67,6 +71,19 @@ func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
 	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
 }
 
+// initLimitedEncoder initializes a Huffman encoder for the given symbol
+// frequencies, flattening the frequencies for as long as any code is longer
+// than maxSize bits.  It may modify freqs.
+func initLimitedEncoder(h *huffman.Encoder, numCodes int, freqs []uint32, maxSize byte) {
+	h.Init(numCodes, freqs)
+	for h.MaxSize() > maxSize {
+		for i, freq := range freqs {
+			freqs[i] = (freq + 1) / 2
+		}
+		h.Init(numCodes, freqs)
+	}
+}
+
 // SizeList represents a list of symbol sizes in a Canonical Huffman Code.
 type SizeList []byte
 
diff --git a/writer.go b/writer.go
index 0547b40..424e898 100644
--- a/writer.go
+++ b/writer.go
@@ -997,10 +997,10 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
-	hLL.Init(physicalNumLLCodes, freqLL)
+	initLimitedEncoder(&hLL, physicalNumLLCodes, freqLL, maxLLDCodeSize)
 
 	var hD huffman.Encoder
-	hD.Init(physicalNumDCodes, freqD)
+	initLimitedEncoder(&hD, physicalNumDCodes, freqD, maxLLDCodeSize)
 
 	var dynamicCounter bitcounter
 	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
@@ -1168,7 +1168,7 @@ func writeDynamicBlock(bw bitwriter, hLL *huffman.Encoder, hD *huffman.Encoder,
 	freqX := studyFrequenciesX(*xtokens)
 
 	var hX huffman.Encoder
-	hX.Init(physicalNumXCodes, freqX)
+	initLimitedEncoder(&hX, physicalNumXCodes, freqX, maxXCodeSize)
 
 	sX := hX.SizeBySymbol()
 	numX := uint(physicalNumXCodes)
-- 
2.43.0


From 526bc748f29d0594a5b28d1f321500401f3324d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 03/23] fix: do not read match bytes from the window while
 overwriting it

---
 reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 52b638c..b2b8356 100644
--- a/reader.go
+++ b/reader.go
@@ -80,6 +80,8 @@ type Reader struct {
 
 	tmp [4]byte
 
+	match [258]byte
+
 	// fields below are protected by mu2
 
 	outputError  error
@@ -853,8 +855,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
 			return false
 		}
-		fr.decodeBufferWrite(p)
-		length -= uint(len(p))
+
+		// p aliases the window, which decodeBufferWrite modifies.
+		n := copy(fr.match[:], p)
+		fr.decodeBufferWrite(fr.match[:n])
+		length -= uint(n)
 
 		for length != 0 {
 			ch, err := fr.window.LookupByte(distance)
-- 
2.43.0


From 22be2096d902e4c467cad15f79422bb2c2885735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 04/23] fix: decode concatenated streams which are already
 buffered at end of input

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index b2b8356..42342dc 100644
--- a/reader.go
+++ b/reader.go
@@ -330,7 +330,7 @@ func (fr *Reader) readThread() {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
-	for fr.inputError == nil {
+	for !fr.stopIsForced && (fr.inputError == nil || !fr.inputBuffer.IsEmpty()) {
 		if !fr.readHeader() {
 			break
 		}
-- 
2.43.0


From 6beb25e113615075aa776a5f119c9cccc0e820d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 05/23] fix: refill the input buffer before auto-detecting the
 format from 1 byte

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 42342dc..de0948b 100644
--- a/reader.go
+++ b/reader.go
@@ -452,6 +452,10 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
+	if fr.inputBuffer.Len() < 2 {
+		fr.inputBufferFill()
+	}
+
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
 		return fr.readHeaderRaw()
-- 
2.43.0


From 3a4d556e46bc532be03c920b15456042dcf8782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 06/23] fix: do not deadlock when a Reader is Reset in the
 middle of a stream

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index de0948b..46ce1f2 100644
--- a/reader.go
+++ b/reader.go
@@ -201,11 +201,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
+	fr.stopReadThreadLocked()
+
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	fr.stopReadThreadLocked()
-
 	fr.r = r
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
-- 
2.43.0


From 62eb67e379cf32bf6937b40b359ae6fa9ddee1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 07/23] fix: discard buffered bits and counters on Reset

---
 reader.go | 7 +++++++
 writer.go | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/reader.go b/reader.go
index 46ce1f2..85b5c29 100644
--- a/reader.go
+++ b/reader.go
@@ -213,7 +213,14 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.outputErrorWasSet = false
 	fr.stopIsForced = false
 
+	fr.inputBytesTotal = 0
+	fr.inputBytesStream = 0
+	fr.outputBytesTotal = 0
+	fr.outputBytesStream = 0
+	fr.numStreams = 0
+
 	fr.inputBuffer.Clear()
+	fr.inputBitsDiscard()
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
 
diff --git a/writer.go b/writer.go
index 424e898..d2c4e44 100644
--- a/writer.go
+++ b/writer.go
@@ -238,8 +238,16 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 	fw.err = nil
 	fw.state = noStreamWriterState
 
+	fw.inputBytesTotal = 0
+	fw.inputBytesStream = 0
+	fw.outputBytesTotal = 0
+	fw.outputBytesStream = 0
+	fw.numStreams = 0
+
 	fw.hybrid.Clear()
 	fw.output.Clear()
+	fw.obBlock = 0
+	fw.obLen = 0
 
 	if len(opts) == 0 {
 		return
-- 
2.43.0


From 72a906bf246efcc2c329a49cdb52382f096c8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 08/23] fix: report truncated input or an I/O error inside a
 Huffman code as such

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index 85b5c29..7fa6926 100644
--- a/reader.go
+++ b/reader.go
@@ -1142,6 +1142,7 @@ func (fr *Reader) readSymbol(hdec *huffman.Decoder) (symbol huffman.Symbol, ok b
 	numBits := min
 	for numBits <= max {
 		if ok := fr.inputBitsFill(numBits); !ok {
+			fr.propagateError(true)
 			return huffman.InvalidSymbol, false
 		}
 
-- 
2.43.0


From d96834b8bb12ee9d0bf742bc2f3ecb3119103767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 09/23] fix: stop decoding after an invalid HLIT or HDIST

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 7fa6926..1a1003d 100644
--- a/reader.go
+++ b/reader.go
@@ -992,9 +992,11 @@ func (fr *Reader) readDynamicTrees(isFinal bool) bool {
 
 	if numLL > logicalNumLLCodes {
 		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)
+		return false
 	}
 	if numD > logicalNumDCodes {
 		fr.corruptf("HDIST %d > %d", numD, logicalNumDCodes)
+		return false
 	}
 
 	const numCodes = 19
-- 
2.43.0


From 71445b03435aa982e24ef4ff867db6dd3e13e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 10/23] fix: stop reading at the first error, after delivering
 all data before it

---
 reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 1a1003d..48f8e03 100644
--- a/reader.go
+++ b/reader.go
@@ -351,7 +351,7 @@ func (fr *Reader) readThread() {
 
 		fr.decodeBufferMustFlush()
 
-		if !fr.readFooter() {
+		if fr.outputErrorWasSet || !fr.readFooter() {
 			break
 		}
 	}
@@ -1393,6 +1393,12 @@ func (fr *Reader) closeWithError(err error) {
 		return
 	}
 
+	// Everything decoded so far comes before the error.
+	fr.decodeBufferMustFlush()
+	if fr.outputErrorWasSet {
+		return
+	}
+
 	fr.mu2.Lock()
 	fr.outputError = err
 	fr.cv1.Broadcast()
-- 
2.43.0


From 42ece0b40043e50ad6711110d3a444eee28c186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 11/23] fix: reject matches which reach before the start of the
 stream

---
 reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reader.go b/reader.go
index 48f8e03..b2ac3be 100644
--- a/reader.go
+++ b/reader.go
@@ -53,6 +53,7 @@ type Reader struct {
 	inputBuffer          buffer.Buffer
 	decodeBuffer         buffer.Buffer
 	window               buffer.Window
+	historyBytes         uint64
 	inputBytesTotal      uint64
 	inputBytesStream     uint64
 	outputBytesTotal     uint64
@@ -381,8 +382,10 @@ func (fr *Reader) readHeader() bool {
 	fr.numStreams++
 
 	fr.window.Clear()
+	fr.historyBytes = 0
 	if fr.dict != nil {
 		_, _ = fr.window.Write(fr.dict)
+		fr.historyBytes = uint64(len(fr.dict))
 	}
 
 	fr.actualFormat = DefaultFormat
@@ -861,6 +864,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 		length := uint(t.literalOrLength)
 		distance := uint(t.distance)
 
+		if uint64(distance) > fr.historyBytes {
+			fr.corruptf("distance %d > %d bytes of history", distance, fr.historyBytes)
+			return false
+		}
+
 		p, err := fr.window.LookupSlice(distance, length)
 		if err != nil {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
@@ -1304,6 +1312,7 @@ func (fr *Reader) decodeBufferWrite(p []byte) bool {
 		fr.decodeBufferTryFlush()
 		nn, _ := fr.decodeBuffer.Write(p)
 		_, _ = fr.window.Write(p[:nn])
+		fr.historyBytes += uint64(nn)
 		p = p[nn:]
 		length -= uint(nn)
 	}
@@ -1315,6 +1324,7 @@ func (fr *Reader) decodeBufferWriteByte(ch byte) bool {
 	err := fr.decodeBuffer.WriteByte(ch)
 	if err == nil {
 		_ = fr.window.WriteByte(ch)
+		fr.historyBytes++
 	}
 	return (err == nil)
 }
-- 
2.43.0


From d23e65f915325b840b4c39d58aaf655e368b5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 12/23] fix: do not panic on a truncated gzip extra data record

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index cc12f7b..554f497 100644
--- a/header.go
+++ b/header.go
@@ -41,6 +41,9 @@ func (xd *ExtraData) Parse(raw []byte) {
 		rec.ID[1] = raw[index+1]
 		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
 		index += 4
+		if recLen > (length - index) {
+			break
+		}
 		rec.Bytes = raw[index : index+recLen]
 		index += recLen
 		xd.Records = append(xd.Records, rec)
-- 
2.43.0


From 0db180e04ca2fe3a8068f44cfba779bbe7dc129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 13/23] fix: recognize a pre-set dictionary which consists of
 zero bytes

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index b2ac3be..7910802 100644
--- a/reader.go
+++ b/reader.go
@@ -530,7 +530,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 
-		if fr.window.IsZero() {
+		if fr.dict == nil {
 			fr.corruptf("zlib stream was compressed with a pre-set dictionary -- Adler-32 checksum of the dictionary required to decompress this stream is %#08x", expectedAdler32)
 			return false
 		}
@@ -541,7 +541,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 	} else {
-		if !fr.window.IsZero() {
+		if fr.dict != nil {
 			computedAdler32 := adler32.Checksum(fr.dict)
 			fr.corruptf("zlib stream was not compressed with a pre-set dictionary -- Adler-32 checksum of the supplied dictionary is %#08x", computedAdler32)
 			return false
-- 
2.43.0


From ea182b74900c4b1793158650caa2be8734c5f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 14/23] fix: write out all complete bytes on PartialFlush

---
 writer.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/writer.go b/writer.go
index d2c4e44..64db8bb 100644
--- a/writer.go
+++ b/writer.go
@@ -537,6 +537,9 @@ func (fw *Writer) flushGuts(flushType FlushType) bool {
 		if !writeStaticBlock(fw, tokens, false) {
 			return false
 		}
+		if !fw.outputBitsFlushWholeBytes() {
+			return false
+		}
 
 	case SyncFlush:
 		if !writeStoredBlock(fw, nil, false) {
@@ -920,6 +923,28 @@ func (fw *Writer) outputBitsFlush() bool {
 	return fw.outputBufferWrite(tmp[:n])
 }
 
+// outputBitsFlushWholeBytes writes out all complete bytes, without padding the
+// last incomplete byte.
+func (fw *Writer) outputBitsFlushWholeBytes() bool {
+	n := (fw.obLen / 8)
+	if n == 0 {
+		return true
+	}
+
+	var tmp [bytesPerBlock]byte
+	bytesFromBlock(binary.LittleEndian, tmp[:], fw.obBlock)
+	restBlock := fw.obBlock >> (n * 8)
+	restLen := fw.obLen - (n * 8)
+	fw.obLen = 0
+	fw.obBlock = 0
+	if !fw.outputBufferWrite(tmp[:n]) {
+		return false
+	}
+	fw.obLen = restLen
+	fw.obBlock = restBlock
+	return true
+}
+
 func (fw *Writer) sendEvent(event Event) {
 	event.InputBytesTotal = fw.inputBytesTotal
 	event.InputBytesStream = fw.inputBytesStream
-- 
2.43.0


From 83757883a3f63474e7a2f399a8e9a37bc82cddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 15/23] fix: do not use dynamic Huffman codes with
 FixedStrategy

---
 writer.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index 64db8bb..06420f2 100644
--- a/writer.go
+++ b/writer.go
@@ -1023,10 +1023,21 @@ func compressSlow(fw *Writer, consumeAll bool, good, lazy, nice, chain uint) boo
 
 	data := bb.Bytes()
 	*tokens = append(*tokens, makeStopToken())
-	return compressTokens(fw, data, *tokens, false)
+	return compressTokens(fw, data, *tokens, false, fw.strategy == FixedStrategy)
 }
 
-func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) bool {
+func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool, onlyStatic bool) bool {
+	if onlyStatic {
+		var staticCounter bitcounter
+		writeStaticBlock(&staticCounter, tokens, isFinal)
+
+		storedLength := (uint64(len(data)) << 3) + 35
+		if storedLength < staticCounter.length() {
+			return writeStoredBlocks(bw, data, isFinal)
+		}
+		return writeStaticBlock(bw, tokens, isFinal)
+	}
+
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
-- 
2.43.0


From 08de62e146a79a190aec59fa1486aff4869110f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 16/23] fix: do not apply the detected data type of one stream
 to later streams

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 06420f2..8305805 100644
--- a/writer.go
+++ b/writer.go
@@ -577,6 +577,8 @@ func (fw *Writer) writeHeader() bool {
 	})
 
 	if fw.header.DataType == UnknownData {
+		// The detected DataType applies to this stream only.
+		defer func() { fw.header.DataType = UnknownData }()
 		fw.header.DataType = BinaryData
 		if buf := fw.hybrid.PrepareBulkRead(4096); isText(buf) {
 			fw.header.DataType = TextData
-- 
2.43.0


From dae073e5b22747cf9b7a378b0c13ca15a98e2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 17/23] fix: report an I/O error during format auto-detection

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 7910802..30ad1ed 100644
--- a/reader.go
+++ b/reader.go
@@ -464,6 +464,10 @@ func (fr *Reader) readFooter() bool {
 func (fr *Reader) readHeaderAuto() bool {
 	if fr.inputBuffer.Len() < 2 {
 		fr.inputBufferFill()
+		if fr.inputBuffer.Len() < 2 && fr.inputError != nil && fr.inputError != io.EOF {
+			fr.propagateError(false)
+			return false
+		}
 	}
 
 	p := fr.inputBuffer.PrepareBulkRead(2)
-- 
2.43.0


From 83ebf287ef9b7e338231ee8d2bb6bb99b8e073f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 18/23] fix: do not start reading after Close

---
 reader.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 30ad1ed..60a0bab 100644
--- a/reader.go
+++ b/reader.go
@@ -301,7 +301,17 @@ func (fr *Reader) Read(p []byte) (int, error) {
 //
 func (fr *Reader) Close() error {
 	fr.mu1.Lock()
-	fr.stopReadThreadLocked()
+	if fr.readThreadWasStarted {
+		fr.stopReadThreadLocked()
+	} else {
+		// Make sure that a later (or concurrent) Read does not start it.
+		fr.readThreadWasStarted = true
+		fr.readThreadWasStopped = true
+		fr.outputErrorWasSet = true
+		fr.mu2.Lock()
+		fr.outputError = context.Canceled // FIXME
+		fr.mu2.Unlock()
+	}
 	fr.mu1.Unlock()
 	return nil
 }
-- 
2.43.0


From d1718f4283e3a0ccc37d31776133cfd796372033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 19/23] fix: do not go on reading from the source once Close or
 Reset was called

readThread holds mu1 while it fills the input buffer, so Close and Reset
had to wait for the buffer to fill and for output to be produced, which
takes forever with a source that delivers little and then waits.
---
 reader.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 60a0bab..b66b8c7 100644
--- a/reader.go
+++ b/reader.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/chronos-tachyon/assert"
@@ -28,6 +29,11 @@ type Reader struct {
 	// mu2 protects outputError & outputBuffer
 	mu2 sync.Mutex
 
+	// stopRequests counts the calls to Close and Reset which are waiting for
+	// readThread to stop.  It is accessed atomically, because readThread
+	// holds mu1 while it reads from r.
+	stopRequests int32
+
 	// cv1 announces "please drain outputBuffer".
 	// - Wait'ed by Read callers to block until outputBuffer is non-empty.
 	// - Signal'ed by Read callers when outputBuffer still has more data after reading.
@@ -199,6 +205,9 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 		assert.NotNil(&opt)
 	}
 
+	atomic.AddInt32(&fr.stopRequests, 1)
+	defer atomic.AddInt32(&fr.stopRequests, -1)
+
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
@@ -300,6 +309,9 @@ func (fr *Reader) Read(p []byte) (int, error) {
 // Close is Reset, which will return the Reader to a non-closed state.
 //
 func (fr *Reader) Close() error {
+	atomic.AddInt32(&fr.stopRequests, 1)
+	defer atomic.AddInt32(&fr.stopRequests, -1)
+
 	fr.mu1.Lock()
 	if fr.readThreadWasStarted {
 		fr.stopReadThreadLocked()
@@ -1196,10 +1208,22 @@ func (fr *Reader) inputBufferFill() {
 		return
 	}
 
-	_, err := fr.inputBuffer.ReadFrom(fr.r)
+	_, err := fr.inputBuffer.ReadFrom(stoppableReader{fr})
 	fr.inputError = err
 }
 
+// stoppableReader reads from fr.r until Close or Reset is called.
+type stoppableReader struct {
+	fr *Reader
+}
+
+func (sr stoppableReader) Read(p []byte) (int, error) {
+	if atomic.LoadInt32(&sr.fr.stopRequests) != 0 {
+		return 0, context.Canceled
+	}
+	return sr.fr.r.Read(p)
+}
+
 func (fr *Reader) inputBufferRead(p []byte) ([]byte, bool) {
 	fr.inputBitsDiscard()
 
-- 
2.43.0


From 0dcefe9bcd05886baf96339cb2dd5fa866fb1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 20/23] fix: keep a copy of the extra data given to SetHeader,
 not the caller's slices

---
 header.go | 12 ++++++++++++
 writer.go |  1 +
 2 files changed, 13 insertions(+)

diff --git a/header.go b/header.go
index 554f497..c3ca12f 100644
--- a/header.go
+++ b/header.go
@@ -67,3 +67,15 @@ func (xd *ExtraData) AsBytes() []byte {
 	}
 	return out
 }
+
+// clone returns a copy which shares no memory with the original.
+func (xd ExtraData) clone() ExtraData {
+	if xd.Records == nil {
+		return xd
+	}
+	records := make([]ExtraDataRecord, len(xd.Records))
+	for i, rec := range xd.Records {
+		records[i] = ExtraDataRecord{ID: rec.ID, Bytes: append([]byte(nil), rec.Bytes...)}
+	}
+	return ExtraData{Records: records}
+}
diff --git a/writer.go b/writer.go
index 8305805..bf3bbf5 100644
--- a/writer.go
+++ b/writer.go
@@ -301,6 +301,7 @@ func (fw *Writer) SetHeader(header Header) error {
 	errlist = checkHeaderExtraData(header, errlist)
 
 	if len(errlist) == 0 {
+		header.ExtraData = header.ExtraData.clone()
 		fw.mu.Lock()
 		fw.header = header
 		fw.mu.Unlock()
-- 
2.43.0


From 02912b090021faa2be0ea05ba89682adb4f45da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 21/23] fix: deliver what was received so far before waiting
 for more input

---
 reader.go | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/reader.go b/reader.go
index b66b8c7..9b057f6 100644
--- a/reader.go
+++ b/reader.go
@@ -91,8 +91,9 @@ type Reader struct {
 
 	// fields below are protected by mu2
 
-	outputError  error
-	outputBuffer buffer.Buffer
+	readThreadIsKnown bool
+	outputError       error
+	outputBuffer      buffer.Buffer
 }
 
 // NewReader constructs and returns a new Reader with the given io.Reader and
@@ -234,6 +235,7 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
 
+	fr.readThreadIsKnown = false
 	fr.outputError = nil
 	fr.outputBuffer.Clear()
 
@@ -274,11 +276,16 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 // Read reads from the compressed stream into the provided slice of bytes.
 // Conforms to the io.Reader interface.
 func (fr *Reader) Read(p []byte) (int, error) {
-	fr.startReadThread()
-
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
+	// readThread holds mu1 while it waits for the source.
+	if !fr.readThreadIsKnown {
+		fr.mu2.Unlock()
+		fr.startReadThread()
+		fr.mu2.Lock()
+	}
+
 	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
 		fr.cv2.Signal()
 		for fr.outputError == nil && fr.outputBuffer.IsEmpty() {
@@ -335,6 +342,9 @@ func (fr *Reader) startReadThread() {
 		fr.wg.Add(1)
 		go fr.readThread()
 	}
+	fr.mu2.Lock()
+	fr.readThreadIsKnown = true
+	fr.mu2.Unlock()
 	fr.mu1.Unlock()
 }
 
@@ -484,12 +494,12 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
-	if fr.inputBuffer.Len() < 2 {
+	for fr.inputBuffer.Len() < 2 && fr.inputError == nil {
 		fr.inputBufferFill()
-		if fr.inputBuffer.Len() < 2 && fr.inputError != nil && fr.inputError != io.EOF {
-			fr.propagateError(false)
-			return false
-		}
+	}
+	if fr.inputBuffer.Len() < 2 && fr.inputError != io.EOF {
+		fr.propagateError(false)
+		return false
 	}
 
 	p := fr.inputBuffer.PrepareBulkRead(2)
@@ -1203,13 +1213,30 @@ func (fr *Reader) inputBufferFill() {
 		return
 	}
 
+	// The source may not have more for a long time.
+	fr.decodeBufferMustFlush()
+
 	if fr.stopIsForced {
 		fr.inputError = io.EOF
 		return
 	}
 
-	_, err := fr.inputBuffer.ReadFrom(stoppableReader{fr})
-	fr.inputError = err
+	size := fr.inputBuffer.Size()
+	for fr.inputError == nil {
+		p := fr.inputBuffer.PrepareBulkWrite(size)
+		if len(p) == 0 {
+			return
+		}
+
+		nn, err := stoppableReader{fr}.Read(p)
+		assert.Assertf(nn >= 0, "Read() returned %d, which is < 0", nn)
+		assert.Assertf(nn <= len(p), "Read() returned %d, which is > len(p) %d", nn, len(p))
+		fr.inputBuffer.CommitBulkWrite(uint(nn))
+		fr.inputError = err
+		if nn != 0 {
+			return
+		}
+	}
 }
 
 // stoppableReader reads from fr.r until Close or Reset is called.
-- 
2.43.0


From 9d99f1be4a698c674048bc7302593c59ae52e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 22/23] fix: deliver the part of a stored block that was
 received

---
 reader.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/reader.go b/reader.go
index 9b057f6..32d663f 100644
--- a/reader.go
+++ b/reader.go
@@ -826,13 +826,26 @@ func (fr *Reader) readFlateBlockStored() bool {
 		return false
 	}
 
-	p, ok := fr.inputBufferRead(make([]byte, len0))
-	if !ok {
-		fr.propagateError(true)
-		return false
-	}
+	// Take what there is, without waiting for the whole block.
+	rest := uint(len0)
+	for rest != 0 {
+		if fr.inputBuffer.IsEmpty() {
+			fr.inputBufferFill()
+		}
 
-	fr.decodeBufferWrite(p)
+		n := fr.inputBuffer.Len()
+		if n == 0 {
+			fr.propagateError(true)
+			return false
+		}
+		if n > rest {
+			n = rest
+		}
+
+		p, _ := fr.inputBufferRead(make([]byte, n))
+		fr.decodeBufferWrite(p)
+		rest -= n
+	}
 
 	return true
 }
-- 
2.43.0


From 0e0d92e2fa0a43b6f876f01a44d67155e134e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:02 +0000
Subject: [PATCH 23/23] fix: answer configuration queries while source,
 destination or tracers are being called

---
 reader.go | 35 ++++++++++++++++++++++++-----------
 writer.go | 47 +++++++++++++++++++++++++++++------------------
 2 files changed, 53 insertions(+), 29 deletions(-)

diff --git a/reader.go b/reader.go
index 32d663f..40db746 100644
--- a/reader.go
+++ b/reader.go
@@ -23,6 +23,11 @@ type Reader struct {
 	// wg keeps track of any spawned background threads.
 	wg sync.WaitGroup
 
+	// mu0 protects the options and r, together with mu1: both are held to
+	// change them, either one to look at them.  Unlike mu1, it is never held
+	// while anything else is waited for.
+	mu0 sync.Mutex
+
 	// mu1 protects most Reader fields
 	mu1 sync.Mutex
 
@@ -146,25 +151,25 @@ func (fr *Reader) windowNumBits() uint {
 
 // Format returns the Format which this Reader uses.
 func (fr *Reader) Format() Format {
-	fr.mu1.Lock()
+	fr.mu0.Lock()
 	format := fr.format
-	fr.mu1.Unlock()
+	fr.mu0.Unlock()
 	return format
 }
 
 // MemoryLevel returns the MemoryLevel which this Reader uses.
 func (fr *Reader) MemoryLevel() MemoryLevel {
-	fr.mu1.Lock()
+	fr.mu0.Lock()
 	mlevel := fr.mlevel
-	fr.mu1.Unlock()
+	fr.mu0.Unlock()
 	return mlevel
 }
 
 // WindowBits returns the WindowBits which this Reader uses.
 func (fr *Reader) WindowBits() WindowBits {
-	fr.mu1.Lock()
+	fr.mu0.Lock()
 	wbits := fr.wbits
-	fr.mu1.Unlock()
+	fr.mu0.Unlock()
 	return wbits
 }
 
@@ -172,30 +177,33 @@ func (fr *Reader) WindowBits() WindowBits {
 // if no such dictionary is in use.
 func (fr *Reader) Dict() []byte {
 	var dict []byte
-	fr.mu1.Lock()
+	fr.mu0.Lock()
 	if len(fr.dict) != 0 {
 		dict = make([]byte, len(fr.dict))
 		copy(dict, fr.dict)
 	}
-	fr.mu1.Unlock()
+	fr.mu0.Unlock()
 	return dict
 }
 
 // Tracers returns the Tracers which this Reader uses.
 func (fr *Reader) Tracers() []Tracer {
 	var tracers []Tracer
-	fr.mu1.Lock()
+	fr.mu0.Lock()
 	if len(fr.tracers) != 0 {
 		tracers = make([]Tracer, len(fr.tracers))
 		copy(tracers, fr.tracers)
 	}
-	fr.mu1.Unlock()
+	fr.mu0.Unlock()
 	return tracers
 }
 
 // UnderlyingReader returns the io.Reader which this Reader uses.
 func (fr *Reader) UnderlyingReader() io.Reader {
-	return fr.r
+	fr.mu0.Lock()
+	r := fr.r
+	fr.mu0.Unlock()
+	return r
 }
 
 // Reset re-initializes this Reader with the given io.Reader and options.  Any
@@ -217,7 +225,10 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
+	fr.mu0.Lock()
 	fr.r = r
+	fr.mu0.Unlock()
+
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
 	fr.readThreadWasStopped = false
@@ -253,11 +264,13 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	o.apply(opts)
 	o.populateReaderDefaults()
 
+	fr.mu0.Lock()
 	fr.format = o.format
 	fr.mlevel = o.mlevel
 	fr.wbits = o.wbits
 	fr.dict = o.dict
 	fr.tracers = o.tracers
+	fr.mu0.Unlock()
 
 	if numBits := fr.inputBufferNumBits(); fr.inputBuffer.NumBits() != numBits {
 		fr.inputBuffer.Init(numBits)
diff --git a/writer.go b/writer.go
index bf3bbf5..87ef061 100644
--- a/writer.go
+++ b/writer.go
@@ -33,6 +33,12 @@ type syncWriter interface {
 
 // Writer wraps an io.Writer and compresses the data which flows through it.
 type Writer struct {
+	// mu0 protects the options and w, together with mu: both are held to
+	// change them, either one to look at them.  Unlike mu, it is never held
+	// while anything else is waited for.
+	mu0 sync.Mutex
+
+	// mu protects all other fields, and is held while w is written to.
 	mu sync.Mutex
 
 	format   Format
@@ -140,49 +146,49 @@ func (fw *Writer) compressConfig() compressConfig {
 
 // Format returns the Format which this Writer uses.
 func (fw *Writer) Format() Format {
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	format := fw.format
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return format
 }
 
 // Method returns the Method which this Writer uses.
 func (fw *Writer) Method() Method {
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	method := fw.method
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return method
 }
 
 // Strategy returns the Strategy which this Writer uses.
 func (fw *Writer) Strategy() Strategy {
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	strategy := fw.strategy
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return strategy
 }
 
 // CompressLevel returns the CompressLevel which this Writer uses.
 func (fw *Writer) CompressLevel() CompressLevel {
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	clevel := fw.clevel
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return clevel
 }
 
 // MemoryLevel returns the MemoryLevel which this Writer uses.
 func (fw *Writer) MemoryLevel() MemoryLevel {
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	mlevel := fw.mlevel
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return mlevel
 }
 
 // WindowBits returns the WindowBits which this Writer uses.
 func (fw *Writer) WindowBits() WindowBits {
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	wbits := fw.wbits
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return wbits
 }
 
@@ -190,32 +196,32 @@ func (fw *Writer) WindowBits() WindowBits {
 // if no such dictionary is in use.
 func (fw *Writer) Dict() []byte {
 	var dict []byte
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	if len(fw.dict) != 0 {
 		dict = make([]byte, len(fw.dict))
 		copy(dict, fw.dict)
 	}
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return dict
 }
 
 // Tracers returns the Tracers which this Writer uses.
 func (fw *Writer) Tracers() []Tracer {
 	var tracers []Tracer
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	if len(fw.tracers) != 0 {
 		tracers = make([]Tracer, len(fw.tracers))
 		copy(tracers, fw.tracers)
 	}
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return tracers
 }
 
 // UnderlyingWriter returns the io.Writer which this Writer uses.
 func (fw *Writer) UnderlyingWriter() io.Writer {
-	fw.mu.Lock()
+	fw.mu0.Lock()
 	w := fw.w
-	fw.mu.Unlock()
+	fw.mu0.Unlock()
 	return w
 }
 
@@ -234,7 +240,10 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 		assert.Raisef("invalid state %#v -- cannot Reset in the middle of a stream", fw.state)
 	}
 
+	fw.mu0.Lock()
 	fw.w = w
+	fw.mu0.Unlock()
+
 	fw.err = nil
 	fw.state = noStreamWriterState
 
@@ -266,6 +275,7 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 	o.apply(opts)
 	o.populateWriterDefaults()
 
+	fw.mu0.Lock()
 	fw.format = o.format
 	fw.method = o.method
 	fw.strategy = o.strategy
@@ -274,6 +284,7 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 	fw.wbits = o.wbits
 	fw.dict = o.dict
 	fw.tracers = o.tracers
+	fw.mu0.Unlock()
 
 	oldHO := fw.hybrid.Options()
 	newHO := fw.hybridOptions()
-- 
2.43.0

