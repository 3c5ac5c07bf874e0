From 45fc077e2e46034d725c539b890b4c846596e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:06 +0000
Subject: [PATCH 01/38] fix: undo of a transposition at the end of the line

The undo record pointed behind the two swapped characters, so undo after
Ctrl-T at the end of the line panicked.
---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index 165599a..7845c47 100644
--- a/gommand.go
+++ b/gommand.go
@@ -362,7 +362,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 			return CONTINUE
 		}
 		u := &_Undo{
-			pos:  this.Cursor,
+			pos:  this.Cursor - 2,
 			del:  2,
 			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
-- 
2.43.0


From e98ced9627ac8cafc71900374375f91dcedc708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:08 +0000
Subject: [PATCH 02/38] fix: undo restores the same characters that were
 removed

Undo records kept the removed text as a string and split it into characters
again. Neighbouring joiners or variation selectors could then combine
differently, so later undo records no longer fitted the line and undo panicked.
Undo records now keep the removed cells themselves.
---
 buffer.go  | 12 ++++++++----
 gommand.go | 15 +++++++--------
 isearch.go |  2 +-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/buffer.go b/buffer.go
index 00418e4..6b10555 100644
--- a/buffer.go
+++ b/buffer.go
@@ -13,7 +13,7 @@ const forbiddenWidth WidthT = 3 // = lastcolumn(1) and FULLWIDTHCHAR-SIZE(2)
 type _Undo struct {
 	pos  int
 	del  int
-	text string
+	text []Cell
 }
 
 type Cell struct {
@@ -138,7 +138,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 	}
 	u := &_Undo{
 		pos:  pos,
-		text: cell2string(B.Buffer[pos : pos+n]),
+		text: copyCells(B.Buffer[pos : pos+n]),
 	}
 	B.undoes = append(B.undoes, u)
 
@@ -224,13 +224,13 @@ func (B *Buffer) joinUndo() {
 	if u1.pos != u2.pos {
 		return
 	}
-	if u1.text != "" && u2.text != "" {
+	if len(u1.text) > 0 && len(u2.text) > 0 {
 		return
 	}
 	if u1.del != 0 && u2.del != 0 {
 		return
 	}
-	if u1.text == "" {
+	if len(u1.text) <= 0 {
 		u1.text = u2.text
 	}
 	if u1.del == 0 {
@@ -274,6 +274,10 @@ func (s _Range) Width() (w WidthT) {
 	return
 }
 
+func copyCells(cells []Cell) []Cell {
+	return append([]Cell(nil), cells...)
+}
+
 func cell2string(m []Cell) string {
 	var buffer strings.Builder
 	for _, m1 := range m {
diff --git a/gommand.go b/gommand.go
index 7845c47..f54819d 100644
--- a/gommand.go
+++ b/gommand.go
@@ -237,7 +237,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	this.eraseline()
 	u := &_Undo{
 		pos:  this.Cursor,
-		text: cell2string(this.Buffer[this.Cursor:]),
+		text: copyCells(this.Buffer[this.Cursor:]),
 	}
 	this.undoes = append(this.undoes, u)
 	this.Buffer = this.Buffer[:this.Cursor]
@@ -250,7 +250,7 @@ var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
 	u := &_Undo{
 		pos:  0,
-		text: cell2string(this.Buffer),
+		text: copyCells(this.Buffer),
 	}
 	this.undoes = append(this.undoes, u)
 	this.GotoHead()
@@ -364,7 +364,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 2,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
+			text: copyCells(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
@@ -378,7 +378,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 1,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-1 : this.Cursor+1]),
+			text: copyCells(this.Buffer[this.Cursor-1 : this.Cursor+1]),
 		}
 		this.undoes = append(this.undoes, u)
 
@@ -451,10 +451,9 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	if u.del > 0 {
 		this.Buffer = sliceDelete(this.Buffer, u.pos, u.del)
 	}
-	if u.text != "" {
-		cells := mojis2cells(StringToMoji(u.text))
-		this.Buffer = sliceInsert(this.Buffer, u.pos, cells...)
-		this.Cursor = u.pos + len(cells)
+	if len(u.text) > 0 {
+		this.Buffer = sliceInsert(this.Buffer, u.pos, u.text...)
+		this.Cursor = u.pos + len(u.text)
 	} else {
 		this.Cursor = u.pos
 	}
diff --git a/isearch.go b/isearch.go
index e983554..6f1f11d 100644
--- a/isearch.go
+++ b/isearch.go
@@ -74,7 +74,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.ViewStart = 0
 			u := &_Undo{
 				pos:  0,
-				text: cell2string(this.Buffer),
+				text: copyCells(this.Buffer),
 			}
 			this.undoes = append(this.undoes, u)
 			this.Buffer = this.Buffer[:0]
-- 
2.43.0


From ef512c3c9e6b086a837e9b28c7764e710e4e9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:10 +0000
Subject: [PATCH 03/38] fix: no panic on terminals that are too narrow for the
 text

ResetViewStart could move the first visible character behind the cursor, and
the end-of-line command indexed an empty line.
---
 buffer.go  |  4 ++--
 gommand.go | 16 ++--------------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/buffer.go b/buffer.go
index 6b10555..e5c4ed9 100644
--- a/buffer.go
+++ b/buffer.go
@@ -155,8 +155,8 @@ func (B *Buffer) ResetViewStart() {
 	for i := 0; i <= B.Cursor && i < len(B.Buffer); i++ {
 		w += B.Buffer[i].Moji.Width()
 		for w >= B.ViewWidth() {
-			if B.ViewStart >= len(B.Buffer) {
-				// When standard output is redirected.
+			if B.ViewStart >= B.Cursor {
+				// The terminal is too narrow or standard output is redirected.
 				return
 			}
 			w -= B.Buffer[B.ViewStart].Moji.Width()
diff --git a/gommand.go b/gommand.go
index f54819d..a179482 100644
--- a/gommand.go
+++ b/gommand.go
@@ -96,21 +96,9 @@ func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
 		this.Cursor = len(this.Buffer)
 	} else {
 		this.GotoHead()
-		this.ViewStart = len(this.Buffer) - 1
-		w := this.Buffer[this.ViewStart].Moji.Width()
-		for {
-			if this.ViewStart <= 0 {
-				break
-			}
-			_w := w + this.Buffer[this.ViewStart-1].Moji.Width()
-			if _w >= this.ViewWidth() {
-				break
-			}
-			w = _w
-			this.ViewStart--
-		}
-		this.puts(this.Buffer[this.ViewStart:])
 		this.Cursor = len(this.Buffer)
+		this.ResetViewStart()
+		this.puts(this.Buffer[this.ViewStart:])
 	}
 	this.eraseline()
 	return CONTINUE
-- 
2.43.0


From a3e7826dfef5be7494be4ea0a78ecdf1ecab93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:37 +0000
Subject: [PATCH 04/38] fix: accept the prediction for the line as it is now

Commands that do not repaint (kill-line, recall, transpose, ...) left the
prediction of the previous text behind, and forward-char appended it.
---
 gommand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gommand.go b/gommand.go
index a179482..2dbf1f4 100644
--- a/gommand.go
+++ b/gommand.go
@@ -109,6 +109,7 @@ var CmdForwardChar = NewGoCommand("FORWARD_CHAR", cmdForwardChar)
 
 func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 	if this.Cursor >= len(this.Buffer) {
+		this.updateSuffix()
 		if len(this.suffix) > 0 {
 			var s strings.Builder
 			for _, c := range this.suffix {
-- 
2.43.0


From 398b866a2ff86920251e1be1e9182129367c84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:39 +0000
Subject: [PATCH 05/38] fix: history entry edited back to its original text

The earlier modification was kept and reappeared on the next visit.
---
 history.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/history.go b/history.go
index fda3c69..3061f5c 100644
--- a/history.go
+++ b/history.go
@@ -25,6 +25,7 @@ var CmdPreviousHistory = NewGoCommand("PREVIOUS_HISTORY", cmdPreviousHistory)
 func (B *Buffer) saveModifiedHistory() {
 	s := B.String()
 	if B.historyPointer < B.History.Len() && B.History.At(B.historyPointer) == s {
+		delete(B.modifiedHistory, B.historyPointer)
 		return
 	}
 	if B.modifiedHistory == nil {
-- 
2.43.0


From 03a688886b6815614cc2cde512e5b6e141acf468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:42 +0000
Subject: [PATCH 06/38] fix: keep the edited oldest entry when history recall
 wraps around

The edit was saved for a position behind the end of the history and lost.
---
 history.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/history.go b/history.go
index 3061f5c..e9b1882 100644
--- a/history.go
+++ b/history.go
@@ -53,10 +53,12 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 		if !this.HistoryCycling {
 			return CONTINUE
 		}
-		this.historyPointer = this.History.Len() + 1
+		this.saveModifiedHistory()
+		this.historyPointer = this.History.Len()
+	} else {
+		this.saveModifiedHistory()
+		this.historyPointer--
 	}
-	this.saveModifiedHistory()
-	this.historyPointer--
 	CmdKillWholeLine.Func(ctx, this)
 	if s := this.getHistory(); s != "" {
 		this.InsertString(0, s)
-- 
2.43.0


From 5452581d70077f5aa7def5e55539ca73e1c0a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:44 +0000
Subject: [PATCH 07/38] fix: zero width non-joiner is not a joiner

U+200C was joined with its neighbours and turned into U+200D.
---
 internal/moji/moji.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 8b5a5bd..9dd3bb3 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,7 +2,6 @@ package moji
 
 import (
 	"io"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -138,7 +137,7 @@ func (s _VariationSequence) PrintTo(w io.Writer) {
 const zeroWidthJoinRune = '\u200D'
 
 func isZeroWidthJoin(r rune) bool {
-	return ZeroWidthJoinSequenceOk && unicode.Is(unicode.Join_Control, r)
+	return ZeroWidthJoinSequenceOk && r == zeroWidthJoinRune
 }
 
 func AreZeroWidthJoin(s string) bool {
-- 
2.43.0


From 5412d0e5f6b7d751530b3d103c5f5f708d6cbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:46 +0000
Subject: [PATCH 08/38] fix: only characters printed as they are form sequences

A joiner at the end of the text appended U+FFFD. Control characters followed
by a variation selector, or following a joiner, were sent to the terminal as
they are instead of in their visible form.
---
 internal/moji/moji.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 9dd3bb3..49e75e2 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -148,6 +148,23 @@ func AreZeroWidthJoin(s string) bool {
 	return isZeroWidthJoin(r)
 }
 
+// isPrintedAsIs is false for the characters displayed in another form.
+// (Tab, ^X and <XXXX>) They can not be a part of any sequences.
+func isPrintedAsIs(m Moji) bool {
+	switch m.(type) {
+	case *Tab, _CtrlCodePoint, _EscCodePoint:
+		return false
+	default:
+		return true
+	}
+}
+
+// canJoin reports whether the top of s can follow ZERO WIDTH JOINER.
+func canJoin(s string) bool {
+	r, _ := utf8.DecodeRuneInString(s)
+	return len(s) > 0 && isPrintedAsIs(rune2moji(r, 0))
+}
+
 func StringToMoji(s string) []Moji {
 	mojis := make([]Moji, 0, len(s))
 	var last Moji
@@ -156,8 +173,8 @@ func StringToMoji(s string) []Moji {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) {
+		if last != nil && isPrintedAsIs(last) {
+			if isZeroWidthJoin(r) && canJoin(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
@@ -190,8 +207,8 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) {
+		if last != nil && isPrintedAsIs(last) {
+			if isZeroWidthJoin(r) && canJoin(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
-- 
2.43.0


From 1335fe84fca282efc93e6e149b1071f56b1fcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:49 +0000
Subject: [PATCH 09/38] fix: tab stops behind composed characters

The column of a tab ignored the columns added by joined, variation and
modifier sequences before it.
---
 internal/moji/moji.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 49e75e2..6b15856 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -178,17 +178,23 @@ func StringToMoji(s string) []Moji {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
+				pos -= int(last.Width())
 				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
 			if isVariationSelectorLike(r) {
+				pos -= int(last.Width())
 				last = _VariationSequence([...]Moji{last, _RawCodePoint(r)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
 			if isEmojiModifier(r) {
+				pos -= int(last.Width())
 				last = _ModifierSequence([...]Moji{last, _RawCodePoint(r)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
-- 
2.43.0


From 23c88cc0f092287bcb5fe58f092f24fce23ec0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:51 +0000
Subject: [PATCH 10/38] fix: tabs behind column 32767

The column overflowed to a negative number and printing the tab panicked.
---
 internal/moji/codepoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index cbb3c04..c921610 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -12,11 +12,11 @@ type Tab struct {
 }
 
 func (t *Tab) Width() WidthT {
-	return WidthT(4 - t.pos%4)
+	return WidthT(4 - t.pos&3)
 }
 
 func (t *Tab) PrintTo(w io.Writer) {
-	io.WriteString(w, "    "[t.pos%4:])
+	io.WriteString(w, "    "[t.pos&3:])
 }
 
 func (t *Tab) WriteTo(w io.Writer) (int64, error) {
-- 
2.43.0


From 0033f138df8545320476705afe4ba7ab0d10b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:14 +0000
Subject: [PATCH 11/38] fix: a tab separates words

Word motion and word deletion treated a tab as part of a word.
---
 internal/moji/codepoint.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index c921610..22fe091 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -147,6 +147,8 @@ func rune2moji(ch rune, pos int) Moji {
 
 func MojiToRune(m Moji) (rune, bool) {
 	switch r := m.(type) {
+	case *Tab:
+		return '\t', true
 	case _RawCodePoint:
 		return rune(r), true
 	case _CtrlCodePoint:
-- 
2.43.0


From a5b945ef38a63e2aa817d55163ec977439c4e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:17 +0000
Subject: [PATCH 12/38] fix: a word can start with a composed character

Joined, variation and modifier sequences at the start of a word were not
counted as part of it.
---
 buffer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buffer.go b/buffer.go
index e5c4ed9..7de1719 100644
--- a/buffer.go
+++ b/buffer.go
@@ -201,6 +201,8 @@ func (B *Buffer) CurrentWordTop() (wordTop int) {
 			} else if wordTop < 0 {
 				wordTop = i
 			}
+		} else if wordTop < 0 {
+			wordTop = i
 		}
 	}
 	if wordTop < 0 {
-- 
2.43.0


From 76bca975095a6939762d0e3c82a35862caa11f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:19 +0000
Subject: [PATCH 13/38] fix: pass the text of composed characters to Coloring

Coloring received the cursor control sequences used for painting them.
---
 repaints.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repaints.go b/repaints.go
index 36151a8..dd7d8b4 100644
--- a/repaints.go
+++ b/repaints.go
@@ -27,7 +27,7 @@ func (B *Buffer) refreshColor() ColorSequence {
 		} else if codepoint, ok := moji.MojiToRune(cell.Moji); ok {
 			B.Buffer[i].color = ColorSequence(B.Coloring.Next(codepoint))
 		} else {
-			cell.Moji.PrintTo(&tmpbuf)
+			cell.Moji.WriteTo(&tmpbuf)
 			var cs ColorSequence
 			for _, c := range tmpbuf.String() {
 				cs = ColorSequence(B.Coloring.Next(c))
-- 
2.43.0


From 004ad426e95f6de30d34bb2396e1b3bf7c153508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:22 +0000
Subject: [PATCH 14/38] fix: do not lose the character before a typed joiner

When a zero width joiner was typed, the character before it was set aside to be
joined with the next one. It was lost when the next key was a command or another
joiner, and a variation selector was attached to the wrong character.
---
 buffer.go  | 12 ++++++++++++
 gommand.go |  8 ++++----
 main.go    |  3 +++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/buffer.go b/buffer.go
index 7de1719..9775a54 100644
--- a/buffer.go
+++ b/buffer.go
@@ -129,6 +129,18 @@ func (B *Buffer) InsertString(pos int, s string) int {
 	return len(B.insertString(pos, s))
 }
 
+// flushPending inserts the character waiting for its joined counterpart.
+func (B *Buffer) flushPending() {
+	if B.pending == "" {
+		return
+	}
+	s := B.pending
+	B.pending = ""
+	B.Cursor += B.InsertString(B.Cursor, s)
+	B.ResetViewStart()
+	B.repaint()
+}
+
 // Delete remove Buffer[pos:pos+n].
 // It returns the width to clear the end of line.
 // It does not update screen.
diff --git a/gommand.go b/gommand.go
index 2dbf1f4..a88d04c 100644
--- a/gommand.go
+++ b/gommand.go
@@ -189,7 +189,10 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 	if len(keys) == 2 && keys[0] == '\x1B' { // for AltGr-shift
 		keys = keys[1:]
 	}
-	if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
+	if len(this.pending) > 0 {
+		keys = this.pending + keys
+		this.pending = ""
+	} else if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
 		this.pending = mojiAndStringToString(
 			this.Buffer[this.Cursor-1].Moji,
 			keys)
@@ -198,9 +201,6 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 		baseMoji := this.Buffer[this.Cursor-1].Moji
 		CmdBackwardDeleteChar.Func(ctx, this)
 		keys = mojiAndStringToString(baseMoji, keys)
-	} else if len(this.pending) > 0 {
-		keys = this.pending + keys
-		this.pending = ""
 	}
 
 	mojis := this.insertString(this.Cursor, keys)
diff --git a/main.go b/main.go
index 93af8e4..6ee1e0c 100644
--- a/main.go
+++ b/main.go
@@ -219,6 +219,9 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 
 		io.WriteString(buffer.Out, ansiCursorOff)
 
+		if _, ok := f.(SelfInserter); !ok {
+			buffer.flushPending()
+		}
 		rc := f.Call(ctx, &buffer)
 
 		io.WriteString(buffer.Out, ansiCursorOn)
-- 
2.43.0


From 50f90c3f6628c36b0f784790fb9ddfc5990e0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:24 +0000
Subject: [PATCH 15/38] fix: do not merge a paste with the deletion before it
 in undo

Inserting text right after a deletion at the same place joined both into one
undo record, although only the deletion made by the replacement itself belongs
to it.
---
 isearch.go  | 8 +-------
 repaints.go | 6 +++++-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/isearch.go b/isearch.go
index 6f1f11d..aabd523 100644
--- a/isearch.go
+++ b/isearch.go
@@ -72,13 +72,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			update()
 		case "\r":
 			this.ViewStart = 0
-			u := &_Undo{
-				pos:  0,
-				text: copyCells(this.Buffer),
-			}
-			this.undoes = append(this.undoes, u)
-			this.Buffer = this.Buffer[:0]
-			this.Cursor = 0
+			this.Cursor = len(this.Buffer)
 			this.ReplaceAndRepaint(0, foundStr)
 			return CONTINUE
 		case "\x03", "\x07", "\x1B":
diff --git a/repaints.go b/repaints.go
index dd7d8b4..e20072c 100644
--- a/repaints.go
+++ b/repaints.go
@@ -88,11 +88,15 @@ func (B *Buffer) DrawFromHead() {
 // ReplaceAndRepaint replaces the string between `pos` and cursor's position to `str`
 func (B *Buffer) ReplaceAndRepaint(pos int, str string) {
 	// Replace Buffer
+	undoCount := len(B.undoes)
 	B.Delete(pos, B.Cursor-pos)
+	deleted := len(B.undoes) > undoCount
 
 	// Define ViewStart , Cursor
 	B.Cursor = pos + B.InsertString(pos, str)
-	B.joinUndo() // merge delete and insert
+	if deleted {
+		B.joinUndo() // merge delete and insert
+	}
 	B.ResetViewStart()
 	B.repaint()
 }
-- 
2.43.0


From eeb383a74fce4741c58facaeeca0dab0de8ac26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:45 +0000
Subject: [PATCH 16/38] fix: scroll far enough when the cursor moves right

Moving over a character wider than two columns scrolled by two characters at
most, so the text was painted over the right edge.
---
 gommand.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gommand.go b/gommand.go
index a88d04c..fb11e79 100644
--- a/gommand.go
+++ b/gommand.go
@@ -126,10 +126,10 @@ func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 	} else {
 		// Right Scroll
 		this.GotoHead()
-		if this.Buffer[this.Cursor].Moji.Width() > this.Buffer[this.ViewStart].Moji.Width() {
+		for w >= this.ViewWidth() && this.ViewStart <= this.Cursor {
+			w -= this.Buffer[this.ViewStart].Moji.Width()
 			this.ViewStart++
 		}
-		this.ViewStart++
 		this.puts(this.Buffer[this.ViewStart : this.Cursor+1])
 		this.eraseline()
 	}
-- 
2.43.0


From 9b1a64ce24f7444b4a006a0669436ef7d6c519a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:48 +0000
Subject: [PATCH 17/38] fix: use the current tab stops when choosing the
 visible part

Inserted tabs kept the columns they had in the inserted text until the next
repaint, so the text could be painted over the right edge.
---
 buffer.go  | 13 +++++++++++++
 gommand.go |  1 +
 2 files changed, 14 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9775a54..f19ee35 100644
--- a/buffer.go
+++ b/buffer.go
@@ -99,8 +99,20 @@ func (B *Buffer) getView2() (all _Range, before _Range, w WidthT) {
 	return v, v[:x], w
 }
 
+// resetTabs tells the tabs the columns they start at.
+func (B *Buffer) resetTabs() {
+	w := WidthT(0)
+	for _, c := range B.Buffer {
+		if tab, ok := c.Moji.(*moji.Tab); ok {
+			tab.SetPosition(int16(w))
+		}
+		w += c.Moji.Width()
+	}
+}
+
 func (B *Buffer) insert(csrPos int, insStr []Cell) {
 	B.Buffer = sliceInsert(B.Buffer, csrPos, insStr...)
+	B.resetTabs()
 
 	u := &_Undo{
 		pos: csrPos,
@@ -156,6 +168,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 
 	delw := B.GetWidthBetween(pos, pos+n)
 	B.Buffer = sliceDelete(B.Buffer, pos, n)
+	B.resetTabs()
 	return delw
 }
 
diff --git a/gommand.go b/gommand.go
index fb11e79..ec7596d 100644
--- a/gommand.go
+++ b/gommand.go
@@ -446,6 +446,7 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	} else {
 		this.Cursor = u.pos
 	}
+	this.resetTabs()
 	this.ResetViewStart()
 	this.repaint()
 	return CONTINUE
-- 
2.43.0


From 7feaa28103a1d2c5361aadac91b707c2a0a8ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:51 +0000
Subject: [PATCH 18/38] fix: repaint the whole row after a transposition

Only the part before the cursor was painted. Shifted tab stops, a scrolled view
and the prediction of the previous text were left on the screen.
---
 gommand.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/gommand.go b/gommand.go
index ec7596d..33a491c 100644
--- a/gommand.go
+++ b/gommand.go
@@ -357,9 +357,6 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
-
-		this.GotoHead()
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	} else {
 		if this.Cursor < 1 {
 			return CONTINUE
@@ -371,15 +368,14 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 
-		w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
 		this.Buffer[this.Cursor-1], this.Buffer[this.Cursor] = this.Buffer[this.Cursor], this.Buffer[this.Cursor-1]
-		this.GotoHead()
-		if w >= this.ViewWidth() {
-			this.ViewStart++
-		}
 		this.Cursor++
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	}
+	this.resetTabs()
+	if this.GetWidthBetween(this.ViewStart, this.Cursor) >= this.ViewWidth() {
+		this.ResetViewStart()
+	}
+	this.repaint()
 	return CONTINUE
 }
 
-- 
2.43.0


From 3db2301c45256f0b62b7b953e699a41c219640d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:29 +0000
Subject: [PATCH 19/38] fix: full repaint with a prompt that leaves too little
 room

Starting to edit on a fresh row was only done for the first paint. After
clear-screen the text was painted over the right edge. The visible part is also
chosen again because the width of the prompt may have changed.
---
 repaints.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repaints.go b/repaints.go
index e20072c..836fd1b 100644
--- a/repaints.go
+++ b/repaints.go
@@ -111,7 +111,12 @@ func (B *Buffer) RepaintAfterPrompt() {
 func (B *Buffer) RepaintAll() {
 	B.Out.Flush()
 	B.topColumn, _ = B.callPromptWriter()
-	B.repaint()
+	if B.topColumn >= B.termWidth-3 {
+		// ViewWidth is too narrow to edit.
+		io.WriteString(B.Out, "\n")
+		B.topColumn = 0
+	}
+	B.RepaintAfterPrompt()
 }
 
 // RepaintLastLine repaints the last line of the prompt and input-line.
-- 
2.43.0


From 6e2f78afbb8faf440be960fca312cc25e26308c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:31 +0000
Subject: [PATCH 20/38] fix: resizing while a line is set up, edited or
 finished

The resize callback ran concurrently with the set-up of the line and with the
flush before waiting for a key. It repainted lines that were not ready or
already finished, and its output was not flushed before the next key. A panic
in a command left the editor locked. Now the line is locked except while
waiting for a key, and notifications outside editing only keep the width.
---
 main.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 6ee1e0c..c920055 100644
--- a/main.go
+++ b/main.go
@@ -172,12 +172,21 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		suffix:         nil, // moji.StringToMoji("$"),
 	}
 
+	// They are guarded by editor.mutex
+	editing := false  // true while the line can be repainted
+	resizedWidth := 0 // the last width notified before editing starts
+
 	onResize := func(w int) {
 		editor.mutex.Lock()
+		defer editor.mutex.Unlock()
+		if !editing {
+			resizedWidth = w
+			return
+		}
 		buffer.termWidth = w
 		buffer.ResetViewStart()
 		buffer.RepaintLastLine()
-		editor.mutex.Unlock()
+		buffer.Out.Flush()
 	}
 
 	if err := editor.Tty.Open(onResize); err != nil {
@@ -185,12 +194,25 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	}
 	defer editor.Tty.Close()
 
+	editor.mutex.Lock()
+	resizedWidth = 0
+	editor.mutex.Unlock()
+
 	var err error
 	buffer.termWidth, _, err = editor.Tty.Size()
 	if err != nil {
 		return "", err
 	}
 
+	editor.mutex.Lock()
+	defer func() {
+		editing = false
+		editor.mutex.Unlock()
+	}()
+	if resizedWidth > 0 {
+		buffer.termWidth = resizedWidth
+	}
+
 	buffer.topColumn, err = editor.callPromptWriter()
 	if err != nil {
 		// unable to get prompt-string.
@@ -208,12 +230,20 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	buffer.RepaintAfterPrompt()
 
 	io.WriteString(buffer.Out, ansiCursorOn)
+	editing = true
+
+	// Resizing is accepted only while waiting for a key.
+	getKey := func() (string, error) {
+		buffer.Out.Flush()
+		editor.mutex.Unlock()
+		defer editor.mutex.Lock()
+		return editor.Tty.GetKey()
+	}
 	for {
-		key, err := buffer.GetKey()
+		key, err := getKey()
 		if err != nil {
 			return "", err
 		}
-		editor.mutex.Lock()
 
 		f := editor.LookupCommand(key)
 
@@ -239,7 +269,6 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 			buffer.Out.Flush()
 
 			result := buffer.String()
-			editor.mutex.Unlock()
 			if rc == ENTER {
 				return result, nil
 			} else if rc == INTR {
@@ -248,6 +277,5 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 				return result, io.EOF
 			}
 		}
-		editor.mutex.Unlock()
 	}
 }
-- 
2.43.0


From 90a2e9ed88c16ce45cb2bdb1129649ee083a4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:55 +0000
Subject: [PATCH 21/38] fix: concurrent access to the cache of character widths

Editors running at the same time, or a resize during a key, crashed with
concurrent map access.
---
 internal/moji/width.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/moji/width.go b/internal/moji/width.go
index 834581b..57eacd4 100644
--- a/internal/moji/width.go
+++ b/internal/moji/width.go
@@ -1,6 +1,7 @@
 package moji
 
 import (
+	"sync"
 	"unicode"
 	"unicode/utf8"
 )
@@ -10,17 +11,25 @@ type WidthT int
 
 var widthCache = map[rune]WidthT{}
 
+var widthCacheMutex sync.Mutex
+
 // ResetCharWidth resets the cache for the width of characters.
 func ResetCharWidth() {
+	widthCacheMutex.Lock()
+	defer widthCacheMutex.Unlock()
 	widthCache = map[rune]WidthT{}
 }
 
 // SetCharWidth sets the width of the character into the cache.
 func SetCharWidth(c rune, width int) {
+	widthCacheMutex.Lock()
+	defer widthCacheMutex.Unlock()
 	widthCache[c] = WidthT(width)
 }
 
 func getWidth(r rune) WidthT {
+	widthCacheMutex.Lock()
+	defer widthCacheMutex.Unlock()
 	w, ok := widthCache[r]
 	if !ok {
 		w = WidthT(runeWidth(r))
-- 
2.43.0


From 7c21e005e53b59310b4ad6f617cbda3f52055ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:57 +0000
Subject: [PATCH 22/38] fix: number of bytes reported by ColorSequence.WriteTo

The first two bytes were not counted.
---
 color.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/color.go b/color.go
index 642dd0f..8777c84 100644
--- a/color.go
+++ b/color.go
@@ -102,8 +102,11 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 	if c <= 0 {
 		return 0, nil
 	}
-	n := int64(0)
-	io.WriteString(w, "\x1B[")
+	_n, err := io.WriteString(w, "\x1B[")
+	n := int64(_n)
+	if err != nil {
+		return n, err
+	}
 	count := c & colorCodeMask
 	for {
 		c >>= colorCodeBitSize
@@ -122,7 +125,7 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 			break
 		}
 	}
-	_n, err := w.Write([]byte{'m'})
+	_n, err = w.Write([]byte{'m'})
 	n += int64(_n)
 	return n, err
 }
-- 
2.43.0


From 077bcfb8c64cccb311fab1e2991c228fa584177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:59 +0000
Subject: [PATCH 23/38] fix: BindKeySymbol looks up the function by its name

It looked for a function called like the key and always failed.
---
 nameutils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nameutils/main.go b/nameutils/main.go
index cf31273..2699bb2 100644
--- a/nameutils/main.go
+++ b/nameutils/main.go
@@ -25,7 +25,7 @@ func GetFunc(name string) (readline.Command, error) {
 }
 
 func BindKeySymbol(km *readline.KeyMap, key, funcName string) error {
-	f, err := GetFunc(key)
+	f, err := GetFunc(funcName)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4ee43c466ddfc63a5bee79f6432230ad2357273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:01 +0000
Subject: [PATCH 24/38] fix: common prefix of candidates that differ in case

The prefix of one candidate was cut at the byte length of another one, which
cuts a character or panics when upper and lower case differ in length.
---
 completion/main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 541ccaf..e2a75be 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
 	rl "github.com/nyaosorg/go-readline-ny"
@@ -55,7 +56,15 @@ func commonPrefix(list []string) string {
 			minimumIndex = index + 1
 		}
 	}
-	return list[minimumIndex][:len(common)]
+	// The same characters in another case may have another length in bytes.
+	n := utf8.RuneCountInString(common)
+	for i := range list[minimumIndex] {
+		if n <= 0 {
+			return list[minimumIndex][:i]
+		}
+		n--
+	}
+	return list[minimumIndex]
 }
 
 func removeQuotes(s, q string) string {
-- 
2.43.0


From da3e9a63a804acd3ceae1df5ffcdb295a156f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:03 +0000
Subject: [PATCH 25/38] fix: file name completion of an empty word

It panicked, for example after a single quotation mark.
---
 completion/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index e5e0ff9..2c4e44a 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -29,7 +29,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 	}
 	target := field[len(field)-1]
 	var dir, base string
-	if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
+	if target == "" || target[len(target)-1] == os.PathSeparator || target[len(target)-1] == '/' {
 		base = ""
 		dir = target
 	} else {
-- 
2.43.0


From fa261edf13a1bd52727971118e54c318146767f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:05 +0000
Subject: [PATCH 26/38] fix: file name completion of an empty directory

The empty directory was read again and again.
---
 completion/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index 2c4e44a..820d0e6 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -79,7 +79,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			fullnames = append(fullnames, full)
 			basenames = append(basenames, name)
 		}
-		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) {
+		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) || fullnames[0] == dir {
 			return
 		}
 		base = ""
-- 
2.43.0


From 3f2f175d5ac680f75f6bae4bf02afe6a53aaee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:36 +0000
Subject: [PATCH 27/38] fix: ignore case in the common prefix the same way as
 in matching

Candidates whose letters fold to the typed ones, but have another upper case,
matched the word while having no prefix in common, and the word was removed.
---
 completion/main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/completion/main.go b/completion/main.go
index e2a75be..e0f9169 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -3,7 +3,6 @@ package completion
 import (
 	"context"
 	"strings"
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
@@ -44,7 +43,7 @@ func commonPrefix(list []string) string {
 				break
 			}
 			fh, _, err := fr.ReadRune()
-			if err != nil || unicode.ToUpper(ch) != unicode.ToUpper(fh) {
+			if err != nil || !strings.EqualFold(string(ch), string(fh)) {
 				break
 			}
 			buffer.WriteRune(ch)
-- 
2.43.0


From 5b5d50be1fd99fe4fa798ff9da89de9f27000f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:51 +0000
Subject: [PATCH 28/38] fix: tty10: characters split between two reads

The first bytes of a multi-byte character at the end of a read were taken for a
key of their own.
---
 tty10/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tty10/main.go b/tty10/main.go
index 9b46d6d..1ed84d7 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -67,6 +67,14 @@ func (M *Tty) GetKey() (string, error) {
 			return "", err
 		}
 	}
+	for !utf8.FullRune(M.buf) {
+		// the rest of the character has not arrived yet.
+		rest, err := M.getKey()
+		if err != nil || len(rest) <= 0 {
+			break
+		}
+		M.buf = append(M.buf, rest...)
+	}
 	var result string
 	r, size := utf8.DecodeRune(M.buf)
 	if r == '\x1B' {
-- 
2.43.0


From cf73d116be8f9f18e947eae64fc0e21897440a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 29/38] fix: restore the terminal mode when its size is not
 available

The opened terminal was left in its changed mode.
---
 tty8.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tty8.go b/tty8.go
index 2365ac7..9c34fa0 100644
--- a/tty8.go
+++ b/tty8.go
@@ -19,6 +19,7 @@ func (m *_Tty) Open(onResize func(int)) error {
 	}
 	_lastw, _, err := m.TTY.Size()
 	if err != nil {
+		m.Close()
 		return fmt.Errorf("go-tty.Size: %w", err)
 	}
 	ws := m.TTY.SIGWINCH()
-- 
2.43.0


From bda01fd380bbfdcebb8d0cf0fdf9eba6d9c65c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:04 +0000
Subject: [PATCH 30/38] fix: Coloring sees the cursor where it has moved to

Moving right painted only the passed characters and told Coloring the old
cursor position, while moving left repaints the line for the new one.
---
 gommand.go | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/gommand.go b/gommand.go
index 33a491c..038014b 100644
--- a/gommand.go
+++ b/gommand.go
@@ -91,16 +91,11 @@ var CmdEndOfLine = NewGoCommand("END_OF_LINE", cmdEndOfLine)
 
 func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
 	allength := this.GetWidthBetween(this.ViewStart, len(this.Buffer))
-	if allength < this.ViewWidth() {
-		this.puts(this.Buffer[this.Cursor:])
-		this.Cursor = len(this.Buffer)
-	} else {
-		this.GotoHead()
-		this.Cursor = len(this.Buffer)
+	this.Cursor = len(this.Buffer)
+	if allength >= this.ViewWidth() {
 		this.ResetViewStart()
-		this.puts(this.Buffer[this.ViewStart:])
 	}
-	this.eraseline()
+	this.repaint()
 	return CONTINUE
 }
 
@@ -120,20 +115,13 @@ func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 		return CONTINUE
 	}
 	w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
-	if w < this.ViewWidth() {
-		// No Scroll
-		this.puts(this.Buffer[this.Cursor : this.Cursor+1])
-	} else {
-		// Right Scroll
-		this.GotoHead()
-		for w >= this.ViewWidth() && this.ViewStart <= this.Cursor {
-			w -= this.Buffer[this.ViewStart].Moji.Width()
-			this.ViewStart++
-		}
-		this.puts(this.Buffer[this.ViewStart : this.Cursor+1])
-		this.eraseline()
+	// Right Scroll
+	for w >= this.ViewWidth() && this.ViewStart <= this.Cursor {
+		w -= this.Buffer[this.ViewStart].Moji.Width()
+		this.ViewStart++
 	}
 	this.Cursor++
+	this.repaint()
 	return CONTINUE
 }
 
@@ -410,14 +398,11 @@ func cmdForwardWord(ctx context.Context, this *Buffer) Result {
 		newPos++
 	}
 	w := this.GetWidthBetween(this.ViewStart, newPos)
-	if w < this.ViewWidth() {
-		this.puts(this.Buffer[this.Cursor:newPos])
-		this.Cursor = newPos
-	} else {
-		this.Cursor = newPos
+	this.Cursor = newPos
+	if w >= this.ViewWidth() {
 		this.ResetViewStart()
-		this.repaint()
 	}
+	this.repaint()
 	return CONTINUE
 }
 
-- 
2.43.0


From d5d7abbe0908b7847dbad795817c3466fefb1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:07 +0000
Subject: [PATCH 31/38] fix: names M_BACKSPACE and CTRL_DOWN stand for their
 own keys

---
 keys/naming.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys/naming.go b/keys/naming.go
index f01d15d..d177246 100644
--- a/keys/naming.go
+++ b/keys/naming.go
@@ -9,7 +9,7 @@ var NameToCode = map[string]Code{
 	"CLEAR":       Clear,
 	"CTRL":        Ctrl,
 	"CTRL_BREAK":  CtrlBreak,
-	"CTRL_DOWN":   Down,
+	"CTRL_DOWN":   CtrlDown,
 	"C_A":         CtrlA,
 	"C_B":         CtrlB,
 	"C_C":         CtrlC,
@@ -77,7 +77,7 @@ var NameToCode = map[string]Code{
 	"LEFT":        Left,
 	"M_A":         AltA,
 	"M_B":         AltB,
-	"M_BACKSPACE": Backspace,
+	"M_BACKSPACE": ALTBackspace,
 	"M_C":         AltC,
 	"M_D":         AltD,
 	"M_E":         AltE,
-- 
2.43.0


From b1a3b55dace991fb27402ef8b441b5e77fd894f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:07 +0000
Subject: [PATCH 32/38] fix: negative Editor.Cursor is the beginning of the
 line

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index c920055..0843554 100644
--- a/main.go
+++ b/main.go
@@ -227,6 +227,9 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	if buffer.Cursor > len(buffer.Buffer) {
 		buffer.Cursor = len(buffer.Buffer)
 	}
+	if buffer.Cursor < 0 {
+		buffer.Cursor = 0
+	}
 	buffer.RepaintAfterPrompt()
 
 	io.WriteString(buffer.Out, ansiCursorOn)
-- 
2.43.0


From dc22fdf2516097ae10922bd6b4ddcee641ea222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:12 +0000
Subject: [PATCH 33/38] fix: completion behind a space starts a new word

With the cursor behind a space the word before the space was completed
and the space was removed. Complete an empty word at the cursor instead.
---
 completion/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/completion/main.go b/completion/main.go
index e0f9169..1bd977a 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -89,6 +89,8 @@ func split(quotes, del string, B *rl.Buffer) (fields []string, lastWordStart int
 			}
 			i++
 			if i >= B.Cursor {
+				fields = append(fields, "")
+				lastWordStart = i
 				return
 			}
 		}
-- 
2.43.0


From 164c72e3eb52efa83f06eb4482c428a3136ac77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:19 +0000
Subject: [PATCH 34/38] fix: single candidate with a space is quoted without
 delimiters too

Several candidates were quoted whenever there are enclosures. A single
one was quoted only if delimiters are defined as well.
---
 completion/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 1bd977a..fa3d0cb 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -164,7 +164,7 @@ func complete(quotes, del string, B *rl.Buffer, C Completion, postfix string) []
 		if strings.EqualFold(fields[len(fields)-1], str) {
 			B.Out.WriteByte('\a')
 		} else {
-			if len(quotes) > 0 && len(del) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
+			if len(quotes) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
 				str = string(quotes[0]) + str + string(quotes[0])
 			}
 			B.ReplaceAndRepaint(lastWordStart, str+postfix)
-- 
2.43.0


From 7af6327f6a5e34adc2a98743f99a8646ce1938b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 35/38] fix: size changes during onResize are not lost

go-tty drops the notifications nobody is receiving. While a repaint or a
command kept onResize busy, the last size of the window could be missed.
Keep the latest size until onResize is ready for it.
---
 tty8.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/tty8.go b/tty8.go
index 9c34fa0..6853a46 100644
--- a/tty8.go
+++ b/tty8.go
@@ -23,15 +23,24 @@ func (m *_Tty) Open(onResize func(int)) error {
 		return fmt.Errorf("go-tty.Size: %w", err)
 	}
 	ws := m.TTY.SIGWINCH()
-	go func(lastw int) {
-		for {
-			wh, ok := <-ws
-			if !ok {
-				break
+	// go-tty drops the sizes nobody is waiting for. Keep the last one
+	// while onResize is running.
+	latest := make(chan int, 1)
+	go func() {
+		defer close(latest)
+		for wh := range ws {
+			select {
+			case <-latest:
+			default:
 			}
-			if lastw != wh.W {
-				onResize(wh.W)
-				lastw = wh.W
+			latest <- wh.W
+		}
+	}()
+	go func(lastw int) {
+		for w := range latest {
+			if lastw != w {
+				onResize(w)
+				lastw = w
 			}
 		}
 	}(_lastw)
-- 
2.43.0


From 76c553745bbca2f94405806b0b1cf06b2e3c49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:39 +0000
Subject: [PATCH 36/38] fix: count the characters of the prompt with the width
 they are printed with

Emoji and other characters the line shows as <XXXX> are printed as they are in
the prompt, so the editable area started too far to the right.
---
 internal/moji/moji.go | 17 +++++++++++++++++
 main.go               |  3 +--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 6b15856..d5c0c6c 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -246,3 +246,20 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 	}
 	return
 }
+
+// RawWidthInString returns the width of s printed as it is.
+// The characters PrintTo shows in another form (^X and <XXXX>) are counted
+// with the width of the characters themselves.
+func RawWidthInString(s string) (width WidthT) {
+	for _, m := range StringToMoji(s) {
+		switch c := m.(type) {
+		case _CtrlCodePoint:
+			// The cursor does not move.
+		case _EscCodePoint:
+			width += getWidth(rune(c))
+		default:
+			width += m.Width()
+		}
+	}
+	return
+}
diff --git a/main.go b/main.go
index 0843554..6159393 100644
--- a/main.go
+++ b/main.go
@@ -122,8 +122,7 @@ func (editor *Editor) callPromptWriter() (int, error) {
 	editor.PromptWriter(&buffer)
 	prompt := buffer.String()
 	_, err := editor.Out.WriteString(prompt)
-	w, _ := moji.MojiWidthAndCountInString(cutEscapeSequenceAndOldLine(prompt))
-	return int(w), err
+	return int(moji.RawWidthInString(cutEscapeSequenceAndOldLine(prompt))), err
 }
 
 // Init replaces nil fields to default values.
-- 
2.43.0


From d3b19188cd8a0e389b2ef165450dc67450d711ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:39 +0000
Subject: [PATCH 37/38] fix: a backspace in the prompt takes back one column of
 a wide character

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 6159393..f4abe0f 100644
--- a/main.go
+++ b/main.go
@@ -104,6 +104,10 @@ func cutEscapeSequenceAndOldLine(s string) string {
 			} else if r == '\b' {
 				if lastRune, siz := utf8.DecodeLastRune(buffer); lastRune != utf8.RuneError {
 					buffer = buffer[:len(buffer)-siz]
+					// The cursor goes back one column only.
+					for w := moji.RawWidthInString(string(lastRune)); w > 1; w-- {
+						buffer = append(buffer, ' ')
+					}
 				}
 			} else {
 				buffer = append(buffer, r)
-- 
2.43.0


From c1d8d142a27abf0295f55f5c8bb5a675e9f055c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:43 +0000
Subject: [PATCH 38/38] fix: report an error of the writer while a colour
 sequence is written

An error in the middle of the sequence was forgotten when the closing
character could be written.
---
 color.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/color.go b/color.go
index 8777c84..9df8acc 100644
--- a/color.go
+++ b/color.go
@@ -113,7 +113,7 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 		_n, err := fmt.Fprintf(w, "%d", c&colorCodeMask)
 		n += int64(_n)
 		if err != nil {
-			break
+			return n, err
 		}
 		count--
 		if count <= 0 {
@@ -122,7 +122,7 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 		_n, err = w.Write([]byte{';'})
 		n += int64(_n)
 		if err != nil {
-			break
+			return n, err
 		}
 	}
 	_n, err = w.Write([]byte{'m'})
-- 
2.43.0

