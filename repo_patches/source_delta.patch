From f99295dd243f7c1aae553a024fdd922169278b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:27 +0000
Subject: [PATCH 01/20] fix: keep U+FFFD whole when it starts an unknown word

A well-formed U+FFFD (3 bytes) was treated as a 1-byte invalid sequence, so an
unknown word starting with it got the surface "\xef" when the character
category is not grouped, and two bytes of the input disappeared.
---
 tokenizer/lattice/lattice.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..91d0598 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -137,12 +137,9 @@ func (la *Lattice) Build(inp string) {
 		// (3) UNKNOWN DIC
 		class := la.dic.CharacterCategory(ch)
 		if !anyMatches || la.dic.InvokeList[int(class)] {
-			var endPos int
-			if ch != utf8.RuneError {
-				endPos = pos + utf8.RuneLen(ch)
-			} else {
-				endPos = pos + 1
-			}
+			// ch may be utf8.RuneError either because of an invalid byte or because of a well-formed U+FFFD.
+			_, size := utf8.DecodeRuneInString(inp[pos:])
+			endPos := pos + size
 			unkWordLen := 1
 			if la.dic.GroupList[int(class)] {
 				for i, w, size := endPos, 0, len(inp); i < size; i += w {
-- 
2.43.0


From 478696b2efc3a49f7942760dd587edf0de47f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 02/20] fix: keep invalid bytes in the surfaces of extended
 mode

Splitting an unknown word into single characters replaced every byte that is
not valid UTF-8 with U+FFFD, so the surfaces no longer spelled the input.
---
 tokenizer/lattice/lattice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 91d0598..f39108a 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -251,12 +251,13 @@ func (la *Lattice) Backward(m TokenizeMode) {
 		runeLen := utf8.RuneCountInString(p.Surface)
 		stack := make([]*Node, 0, runeLen)
 		i := 0
-		for k, r := range p.Surface {
+		for k := range p.Surface {
+			_, size := utf8.DecodeRuneInString(p.Surface[k:])
 			stack = append(stack, &Node{
 				ID:       p.ID,
 				Start:    p.Start + i,
 				Class:    DUMMY,
-				Surface:  string(r),
+				Surface:  p.Surface[k : k+size],
 				Position: p.Position + k,
 			})
 			i++
-- 
2.43.0


From e38ff40dc0875c8521fb84db8597a98ffecf1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 03/20] fix: never route the best path through nodes that BOS
 cannot reach

Nodes starting at an unreachable position got the maximum cost but stayed
eligible as predecessors. On long inputs whose accumulated cost saturates, such
a node could beat the real path, and everything before it was dropped.
---
 tokenizer/lattice/lattice.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index f39108a..863f49b 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -212,11 +212,11 @@ func (la *Lattice) Forward(m TokenizeMode) {
 		currentList := la.list[i]
 		for index, target := range currentList {
 			prevList := la.list[target.Start]
-			if len(prevList) == 0 {
-				la.list[i][index].Cost = maximumCost
-				continue
-			}
+			la.list[i][index].Cost, la.list[i][index].prev = maximumCost, nil
 			for j, n := range prevList {
+				if n.prev == nil && target.Start > 0 {
+					continue // n is not connected to BOS.
+				}
 				var c int16
 				if n.Class != USER && target.Class != USER {
 					c = la.dic.Connection.At(int(n.Right), int(target.Left))
@@ -228,7 +228,7 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				if totalCost > maximumCost {
 					totalCost = maximumCost
 				}
-				if j == 0 || int32(totalCost) < la.list[i][index].Cost {
+				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
 					la.list[i][index].Cost = int32(totalCost)
 					la.list[i][index].prev = la.list[target.Start][j]
 				}
-- 
2.43.0


From 4280d066b9c7f4db2a4315cc3df521a387a192b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:24 +0000
Subject: [PATCH 04/20] fix: escape quotes and backslashes in the dot output

A surface or a part-of-speech containing a double quote ended the label early:
graphviz rejected the graph, and the sentence could add attributes to it.
---
 tokenizer/lattice/lattice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 863f49b..2fb889c 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -304,6 +304,9 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 	return strings.Join(ret, "/")
 }
 
+// dotEscaper escapes a string to be put in a double-quoted string of the dot format.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Dot outputs a lattice in the graphviz dot format.
 //
 //nolint:gocyclo
@@ -359,7 +362,8 @@ func (la *Lattice) Dot(w io.Writer) {
 					surf = "EOS"
 				}
 			}
-			pos := posFeature(la.dic, la.udic, n)
+			surf = dotEscaper.Replace(surf)
+			pos := dotEscaper.Replace(posFeature(la.dic, la.udic, n))
 			if _, ok := bests[n]; ok {
 				fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\",shape=ellipse, peripheries=2];\n", n, surf, pos, n.Weight)
 			} else if n.Class != UNKNOWN {
-- 
2.43.0


From d62abad9200f3136125cd35ccf143edba4434f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:31 +0000
Subject: [PATCH 05/20] fix: return the same tokens from AnalyzeGraph as from
 Analyze

AnalyzeGraph left Index and Position zero and ignored the OmitBosEos option.
---
 tokenizer/tokenizer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tokenizer/tokenizer.go b/tokenizer/tokenizer.go
index 4feb38f..7359f50 100644
--- a/tokenizer/tokenizer.go
+++ b/tokenizer/tokenizer.go
@@ -150,14 +150,19 @@ func (t Tokenizer) AnalyzeGraph(w io.Writer, input string, mode TokenizeMode) []
 	tokens := make([]Token, 0, size)
 	for i := range la.Output {
 		n := la.Output[size-1-i]
+		if t.omitBosEos && n.ID == BosEosID {
+			continue
+		}
 		tok := Token{
-			ID:      n.ID,
-			Class:   TokenClass(n.Class),
-			Start:   n.Start,
-			End:     n.Start + utf8.RuneCountInString(n.Surface),
-			Surface: n.Surface,
-			dict:    t.dict,
-			udict:   t.userDict,
+			Index:    len(tokens),
+			ID:       n.ID,
+			Class:    TokenClass(n.Class),
+			Position: n.Position,
+			Start:    n.Start,
+			End:      n.Start + utf8.RuneCountInString(n.Surface),
+			Surface:  n.Surface,
+			dict:     t.dict,
+			udict:    t.userDict,
 		}
 		if tok.ID == lattice.BosEosID {
 			if i == 0 {
-- 
2.43.0


From 74732a6eab23f2b36b7db2d39378c3a82ceef459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 06/20] fix: keep unknown words in the JSON output of extended
 mode

Extended mode emits unknown words as single-character dummy tokens. The JSON
output dropped them, although the plain output and the server keep them.
---
 cmd/tokenize/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index a288a9b..8dc211b 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -201,7 +201,7 @@ func printTokensJSON(tokens []tokenizer.Token) error {
 	}
 	var array [][]byte
 	for _, v := range tokens {
-		if v.Class == tokenizer.DUMMY {
+		if v.ID == tokenizer.BosEosID {
 			continue
 		}
 		r := tokenizer.NewTokenData(v)
-- 
2.43.0


From b4cdda6aa5788340710a47ce8c31a53520ebd536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 07/20] fix: escape the error message of the tokenize API

Error messages may quote the request (invalid character '"' ...), which made the
error response itself invalid JSON.
---
 cmd/server/api.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/server/api.go b/cmd/server/api.go
index 50cce3a..212f096 100644
--- a/cmd/server/api.go
+++ b/cmd/server/api.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"encoding/json"
-	"fmt"
 	"net/http"
 
 	"github.com/ikawaha/kagome/v2/tokenizer"
@@ -25,11 +24,16 @@ type TokenizerResponseBody struct {
 	Tokens []tokenizer.TokenData `json:"tokens"`
 }
 
+func writeError(w http.ResponseWriter, err error, code int) {
+	msg, _ := json.Marshal(err.Error())
+	http.Error(w, `{"status":false,"error":`+string(msg)+`}`, code)
+}
+
 func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	var req TokenizerRequestBody
 	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusBadRequest)
+		writeError(w, err, http.StatusBadRequest)
 		return
 	}
 	if req.Input == "" {
@@ -56,7 +60,7 @@ func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		Tokens: tokenData,
 	})
 	if err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusInternalServerError)
+		writeError(w, err, http.StatusInternalServerError)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From ba7e8fd7ea0d9ebbef04cf8bfffc31809839eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:24 +0000
Subject: [PATCH 08/20] fix: match a features filter against each of its
 patterns

Any and concrete features at the same depth were merged: adding {"a", "y"}
after {Any, "x"} also accepted {"b", "y"}, and adding {Any, "x"} after
{"a", "y"} rejected {"a", "x"}.
---
 filter/feature.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/filter/feature.go b/filter/feature.go
index 0be5376..c181037 100644
--- a/filter/feature.go
+++ b/filter/feature.go
@@ -31,7 +31,7 @@ func (n filterNode) isLeaf() bool {
 
 func (n filterNode) has(s Feature) int {
 	for i, v := range n.fanout {
-		if v.val == Any || v.val == s {
+		if v.val == s {
 			return i
 		}
 	}
@@ -77,16 +77,20 @@ func (f *FeaturesFilter) add(fs Features) {
 
 // Match returns true if a filter matches given features.
 func (f *FeaturesFilter) Match(fs Features) bool {
-	n := &f.root
-	for _, v := range fs {
-		if k := n.has(v); k >= 0 {
-			n = n.fanout[k].to
-			if n.isLeaf() {
-				return true
-			}
+	return f.root.match(fs)
+}
+
+func (n filterNode) match(fs Features) bool {
+	if len(fs) == 0 {
+		return false
+	}
+	for _, v := range n.fanout {
+		if v.val != Any && v.val != fs[0] {
 			continue
 		}
-		return false
+		if v.to.isLeaf() || v.to.match(fs[1:]) {
+			return true
+		}
 	}
 	return false
 }
-- 
2.43.0


From 3c89cc96941172638a10bacafbbc3b2b9b8b4167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 09/20] fix: split sentences only at two successive line feeds

A single line feed was remembered until the next one, whatever came in between,
so every second line ended a sentence even though no line was blank.
---
 filter/sentence_splitter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..c0edd16 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -91,6 +91,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				return p, data[start:end], nil
 			}
 			nn = true
+		} else {
+			nn = false
 		}
 		if !s.isDelim(r) && rcount < s.MaxRuneLen {
 			continue
@@ -106,8 +108,11 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 						return p, data[start:end], nil
 					}
 					nn = true
+				} else {
+					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
+				nn = false
 				if end != p {
 					for i := 0; i < size; i++ {
 						data[end+i] = data[p+i]
-- 
2.43.0


From e355618c377f449c1a5cc719a7ffe921aaa064fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 10/20] fix: split sentences independently of how the input is
 buffered

At the end of the buffered data a character could be cut in half when the
sentence reached its maximum length, characters following a delimiter started
a new sentence, the first of two line feeds was forgotten, the white space
filled in could act as a delimiter, and trailing white space could yield an
empty sentence.
---
 filter/sentence_splitter.go | 51 +++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index c0edd16..9babff0 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -47,6 +47,10 @@ func (s SentenceSplitter) isFollower(r rune) bool {
 	return false
 }
 
+// maxLookahead limits how many bytes after the end of a sentence are held back
+// to decide whether they still belong to it.
+const maxLookahead = 4096
+
 // ScanSentences is a split function for a Scanner that returns each sentence of text.
 // nolint: gocyclo
 func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -54,22 +58,25 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		return 0, nil, nil
 	}
 	var (
-		start, end, rcount int
-		head, nn           bool // nn indicates \n\n
+		start, rcount int
+		head, nn      bool // nn indicates \n\n
 	)
 	head = true
 	for p := 0; p < len(data); {
+		if !atEOF && !utf8.FullRune(data[p:]) {
+			break
+		}
 		r, size := utf8.DecodeRune(data[p:])
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
 			p += size
 			switch {
 			case head:
-				start, end = p, p
+				start = p
 			case s.isDelim(r):
-				return p, data[start:end], nil
+				return p, token, nil
 			case s.DoubleLineFeedSplit && r == '\n':
 				if nn {
-					return p, data[start:end], nil
+					return p, token, nil
 				}
 				nn = true
 			case nn:
@@ -78,17 +85,12 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 			continue
 		}
 		head = false
-		if end != p {
-			for i := 0; i < size; i++ {
-				data[end+i] = data[p+i]
-			}
-		}
+		token = append(token, data[p:p+size]...)
 		p += size
-		end += size
 		rcount++
 		if s.DoubleLineFeedSplit && r == '\n' {
 			if nn {
-				return p, data[start:end], nil
+				return p, token, nil
 			}
 			nn = true
 		} else {
@@ -99,13 +101,20 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		}
 		// split
 		nn = false
-		for p < len(data) {
+		for q := p; ; {
+			if !atEOF && !utf8.FullRune(data[p:]) && p-q < maxLookahead {
+				// Request more data
+				return start, nil, nil
+			}
+			if p >= len(data) {
+				break
+			}
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
 				if s.DoubleLineFeedSplit && r == '\n' {
 					if nn {
-						return p, data[start:end], nil
+						return p, token, nil
 					}
 					nn = true
 				} else {
@@ -113,26 +122,18 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
 				nn = false
-				if end != p {
-					for i := 0; i < size; i++ {
-						data[end+i] = data[p+i]
-					}
-				}
+				token = append(token, data[p:p+size]...)
 				p += size
-				end += size
 			} else {
 				break
 			}
 		}
-		return p, data[start:end], nil
+		return p, token, nil
 	}
 	if !atEOF {
 		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
 		return start, nil, nil
 	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
-	return len(data), data[start:end], nil
+	return len(data), token, nil
 }
-- 
2.43.0


From 5308562fa5f3cbb7250897a0003cb1d2dd3eb676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 11/20] fix: let the demo handler return when graphviz stops
 reading

The graph was written to a pipe while graphviz was running. When it exited or
was killed before reading everything, the write never returned.
---
 cmd/server/demo.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index d022d74..83a425f 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"html/template"
-	"io"
 	"net/http"
 	"os/exec"
 	"strings"
@@ -85,20 +84,13 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	}
 	ctx, cancel := context.WithTimeout(ctx, cmdTimeout)
 	defer cancel()
-	var b bytes.Buffer
+	var b, graph bytes.Buffer
+	tokens := h.tokenizer.AnalyzeGraph(&graph, sen, mode)
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	r0, w0 := io.Pipe()
-	cmd.Stdin = r0
+	cmd.Stdin = &graph
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Start(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
-	}
-	tokens := h.tokenizer.AnalyzeGraph(w0, sen, mode)
-	if err := w0.Close(); err != nil {
-		return nil, "", fmt.Errorf("pipe close error, %w", err)
-	}
-	if err := cmd.Wait(); err != nil {
+	if err := cmd.Run(); err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From abecb1d24768bb83e2bdcce64e2adc6cbb70daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:27 +0000
Subject: [PATCH 12/20] fix: server keeps listening after its context has been
 cancelled

Run returned although the HTTP server went on serving, so the address could
not be used again by the process. Shut the server down and wait for it.
---
 cmd/server/cmd.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index cb7b7a9..1899d77 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -28,6 +28,9 @@ var (
 	usageMessage = "%s [-http=:6060] [-userdict userdic_file] [-dict (ipa|uni)]"
 )
 
+// shutdownTimeout is the time requests in progress have to finish when the server stops.
+const shutdownTimeout = 5 * time.Second
+
 // options
 type option struct {
 	http    string
@@ -124,6 +127,15 @@ func command(ctx context.Context, opt *option) error {
 	}
 	log.Printf("shutting down HTTP server at %q", opt.http)
 
+	// wait for the requests in progress, but not forever.
+	sctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := srv.Shutdown(sctx); err != nil {
+		if err := srv.Close(); err != nil {
+			log.Printf("server close error, %v", err)
+		}
+	}
+	<-ch // ListenAndServe has returned, nothing is listening anymore.
 	return nil
 }
 
-- 
2.43.0


From 592a31d06f3c697636c2735619194928fd38f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 13/20] fix: server leaves a goroutine waiting for signals
 behind

Every Run left a goroutine and its signal handler, which went on swallowing
interrupts after Run had returned.
---
 cmd/server/cmd.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index 1899d77..6ca81e9 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -147,14 +147,8 @@ func Run(ctx context.Context, args []string) error {
 		PrintDefaults(flag.ContinueOnError)
 		return fmt.Errorf("option parse error: %w", err)
 	}
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
-	go func() {
-		c := make(chan os.Signal, 1)
-		signal.Notify(c, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
-		<-c
-		cancel()
-	}()
+	ctx, stop := signal.NotifyContext(ctx, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
+	defer stop()
 	return command(ctx, opt)
 }
 
-- 
2.43.0


From 0ff16e161d68e21a2f0366b55f1eacb4bef00308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:14 +0000
Subject: [PATCH 14/20] fix: lattice succeeds although its graph cannot be
 written

Errors of the output, such as a full disk, were ignored and the rest of the
graph was lost without a word.
---
 cmd/lattice/cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index dee8c70..a97e20f 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -1,6 +1,7 @@
 package lattice
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"flag"
@@ -132,7 +133,11 @@ func command(_ context.Context, opt *option) error {
 	}
 
 	mode := selectMode(opt.mode)
-	tokens := t.AnalyzeGraph(out, opt.input, mode)
+	w := bufio.NewWriter(out)
+	tokens := t.AnalyzeGraph(w, opt.input, mode)
+	if err := w.Flush(); err != nil {
+		return err
+	}
 	if opt.verbose {
 		for i, size := 1, len(tokens); i < size; i++ {
 			tok := tokens[i]
-- 
2.43.0


From 07165acffaef6c6f879b89c69627052e6563c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:33 +0000
Subject: [PATCH 15/20] fix: demo page keeps the chosen mode

---
 cmd/server/asset/demo.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 7d7ce44..8484e6e 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -93,8 +93,8 @@
               placeholder="Enter Japanese text below.">{{.Sentence}}</textarea>
       <div id="rbox">
         <div><label><input type="radio" name="r" value="Normal" checked>Normal</label></div>
-        <div><label><input type="radio" name="r" value="Search" {{if eq .RadioOpt "search"}}checked{{end}}>Search</label></div>
-        <div><label><input type="radio" name="r" value="Extended" {{if eq .RadioOpt "extended"}}checked{{end}}>Extended</label></div>
+        <div><label><input type="radio" name="r" value="Search" {{if eq .RadioOpt "Search"}}checked{{end}}>Search</label></div>
+        <div><label><input type="radio" name="r" value="Extended" {{if eq .RadioOpt "Extended"}}checked{{end}}>Extended</label></div>
       </div>
       <p><input class="btn" type="submit" name="lattice" value="Lattice"/></p>
     </div>
-- 
2.43.0


From 3a6d3307aa9144e757805b3885397db84062cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:23 +0000
Subject: [PATCH 16/20] fix: demo page shows token texts as text, not as markup

---
 cmd/server/asset/demo.html | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 8484e6e..2e2b6f8 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -120,17 +120,18 @@
         if(status == "success" && Array.isArray(data.tokens)){
             $("#morphs").empty();
             $.each(data.tokens, function(i, val) {
-                pos = (val.pos == null) ? "*" : val.pos;
+                pos = (val.pos == null) ? "*" : val.pos.join(",");
                 base = val.base_form != "" ? val.base_form : "*";
                 reading = val.reading != "" ? val.reading : "*";
                 pronoun = val.pronunciation!= "" ? val.pronunciation : "*";
                 $("#morphs").append(
-                    "<tr>"+"<td>" + val.surface + "</td>" +
-                    "<td>" + pos + "</td>"+
-                    "<td>" + base + "</td>"+
-                    "<td>" + reading + "</td>"+
-                    "<td>" + pronoun + "</td>"+
-                    "</tr>"
+                    $("<tr></tr>").append(
+                        $("<td></td>").text(val.surface),
+                        $("<td></td>").text(pos),
+                        $("<td></td>").text(base),
+                        $("<td></td>").text(reading),
+                        $("<td></td>").text(pronoun)
+                    )
                 );
             });
         }
-- 
2.43.0


From da75dfd4e7b1f70b40685997239dd8d0779c1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 17/20] fix: demo page shows the analysis of the latest text
 whatever the order of the answers

---
 cmd/server/asset/demo.html | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 2e2b6f8..c439a16 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -137,11 +137,18 @@
         }
     }
 
+    var latest = 0; // number of the latest request
+
     function tokenize() {
+        var n = ++latest;
         var s = document.getElementById("inp").value;
         var m = $('input[name="r"]').filter(':checked').val();
         var o = {"sentence" : s, "mode" : m};
-        $.post('./tokenize', JSON.stringify(o), cb, 'json');
+        $.post('./tokenize', JSON.stringify(o), function(data, status) {
+            if (n == latest) { // answers may arrive in any order
+                cb(data, status);
+            }
+        }, 'json');
     }
 
     $('input[name="r"]:radio').change( function() {
-- 
2.43.0


From ef16399a8ce75dab24e75639fafd7a433f0f5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 18/20] fix: demo page keeps a line feed at the start of the
 text

---
 cmd/server/asset/demo.html | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index c439a16..ad23b6b 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -90,7 +90,8 @@
   <form class="frm" action="/_demo" method="POST" oninput="tokenize()" target="_blank">
     <div id="box">
     <textarea id="inp" class="txar" rows="3" name="s"
-              placeholder="Enter Japanese text below.">{{.Sentence}}</textarea>
+              placeholder="Enter Japanese text below.">
+{{.Sentence}}</textarea>
       <div id="rbox">
         <div><label><input type="radio" name="r" value="Normal" checked>Normal</label></div>
         <div><label><input type="radio" name="r" value="Search" {{if eq .RadioOpt "Search"}}checked{{end}}>Search</label></div>
-- 
2.43.0


From 0153a73bcc01e47f5b4f1cd775031411affe7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 19/20] fix: WebAssembly demo pages show token texts as text,
 not as markup

---
 _examples/wasm/kagome.html | 13 +++++++------
 docs/index.html            | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/_examples/wasm/kagome.html b/_examples/wasm/kagome.html
index 00d1900..b05022e 100644
--- a/_examples/wasm/kagome.html
+++ b/_examples/wasm/kagome.html
@@ -124,12 +124,13 @@
             console.log(val);
             var pos = "*", base = "*", reading = "*", pronoun = "*";
             $("#morphs").append(
-                "<tr>"+"<td>" + val.surface_form + "</td>" +
-                "<td>" + val.pos + "</td>"+
-                "<td>" + val.base_form + "</td>"+
-                "<td>" + val.reading + "</td>"+
-                "<td>" + val.pronunciation + "</td>"+
-                "</tr>"
+                $("<tr></tr>").append(
+                    $("<td></td>").text(val.surface_form),
+                    $("<td></td>").text(val.pos),
+                    $("<td></td>").text(val.base_form),
+                    $("<td></td>").text(val.reading),
+                    $("<td></td>").text(val.pronunciation)
+                )
             );
         });
     }
diff --git a/docs/index.html b/docs/index.html
index 00d1900..b05022e 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -124,12 +124,13 @@
             console.log(val);
             var pos = "*", base = "*", reading = "*", pronoun = "*";
             $("#morphs").append(
-                "<tr>"+"<td>" + val.surface_form + "</td>" +
-                "<td>" + val.pos + "</td>"+
-                "<td>" + val.base_form + "</td>"+
-                "<td>" + val.reading + "</td>"+
-                "<td>" + val.pronunciation + "</td>"+
-                "</tr>"
+                $("<tr></tr>").append(
+                    $("<td></td>").text(val.surface_form),
+                    $("<td></td>").text(val.pos),
+                    $("<td></td>").text(val.base_form),
+                    $("<td></td>").text(val.reading),
+                    $("<td></td>").text(val.pronunciation)
+                )
             );
         });
     }
-- 
2.43.0


From e4e33572c13d10b88b0725abe1992e9cb1a90fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 20/20] fix: demo page shows * for a token without part of
 speech

---
 cmd/server/asset/demo.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index ad23b6b..a205dff 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -121,7 +121,7 @@
         if(status == "success" && Array.isArray(data.tokens)){
             $("#morphs").empty();
             $.each(data.tokens, function(i, val) {
-                pos = (val.pos == null) ? "*" : val.pos.join(",");
+                pos = (val.pos == null || val.pos.length == 0) ? "*" : val.pos.join(",");
                 base = val.base_form != "" ? val.base_form : "*";
                 reading = val.reading != "" ? val.reading : "*";
                 pronoun = val.pronunciation!= "" ? val.pronunciation : "*";
-- 
2.43.0

