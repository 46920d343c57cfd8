From 3d17572258b6c80456e6dabd2d0dde2b242f645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:59 +0000
Subject: [PATCH 01/34] fix: do not treat ZERO WIDTH NON-JOINER as ZERO WIDTH
 JOINER

U+200C was taken for a joiner and written back as U+200D.
---
 internal/moji/moji.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 8b5a5bd..9dd3bb3 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,7 +2,6 @@ package moji
 
 import (
 	"io"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -138,7 +137,7 @@ func (s _VariationSequence) PrintTo(w io.Writer) {
 const zeroWidthJoinRune = '\u200D'
 
 func isZeroWidthJoin(r rune) bool {
-	return ZeroWidthJoinSequenceOk && unicode.Is(unicode.Join_Control, r)
+	return ZeroWidthJoinSequenceOk && r == zeroWidthJoinRune
 }
 
 func AreZeroWidthJoin(s string) bool {
-- 
2.43.0


From 0485073f7e552e5884560ce5ac11ac1041dd4ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:22 +0000
Subject: [PATCH 02/34] fix: join characters only when there are two that can
 be joined

A ZERO WIDTH JOINER at the end of a string appended U+FFFD, and a control
character next to a joiner, a variation selector or a modifier was sent to the
terminal as it is.
---
 internal/moji/moji.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 9dd3bb3..fa000fd 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,6 +2,7 @@ package moji
 
 import (
 	"io"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -148,6 +149,22 @@ func AreZeroWidthJoin(s string) bool {
 	return isZeroWidthJoin(r)
 }
 
+// isJoinable returns false when a joiner, a variation selector or a modifier
+// must not follow m because it would send a control character to the terminal.
+func isJoinable(m Moji) bool {
+	if _, ok := m.(*Tab); ok {
+		return false
+	}
+	r, ok := MojiToRune(m)
+	return !ok || !unicode.IsControl(r)
+}
+
+// canFollowZeroWidthJoin returns true when s has the next character of ZWJ.
+func canFollowZeroWidthJoin(s string) bool {
+	r, size := utf8.DecodeRuneInString(s)
+	return size > 0 && !unicode.IsControl(r)
+}
+
 func StringToMoji(s string) []Moji {
 	mojis := make([]Moji, 0, len(s))
 	var last Moji
@@ -156,8 +173,8 @@ func StringToMoji(s string) []Moji {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) {
+		if last != nil && isJoinable(last) {
+			if isZeroWidthJoin(r) && canFollowZeroWidthJoin(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
@@ -190,8 +207,8 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
-			if isZeroWidthJoin(r) {
+		if last != nil && isJoinable(last) {
+			if isZeroWidthJoin(r) && canFollowZeroWidthJoin(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
-- 
2.43.0


From 949959cdddb560fcecc3dd06ea3b00d3b9e8d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:22 +0000
Subject: [PATCH 03/34] fix: take joined characters into account for the
 position of tabs

StringToMoji placed a tab behind a joined sequence as if the sequence were as
wide as its first character, unlike GetStringWidth.
---
 internal/moji/moji.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index fa000fd..52d168f 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -178,17 +178,23 @@ func StringToMoji(s string) []Moji {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
+				pos -= int(last.Width())
 				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
 			if isVariationSelectorLike(r) {
+				pos -= int(last.Width())
 				last = _VariationSequence([...]Moji{last, _RawCodePoint(r)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
 			if isEmojiModifier(r) {
+				pos -= int(last.Width())
 				last = _ModifierSequence([...]Moji{last, _RawCodePoint(r)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
-- 
2.43.0


From 6b7f441c022da15e818d31fda91f84e337844db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:22 +0000
Subject: [PATCH 04/34] fix: do not panic on a tab behind 32767 columns

The column of a tab was kept in an int16.
---
 buffer.go                  | 2 +-
 internal/moji/codepoint.go | 6 +++---
 repaints.go                | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/buffer.go b/buffer.go
index 00418e4..3420c4d 100644
--- a/buffer.go
+++ b/buffer.go
@@ -19,7 +19,7 @@ type _Undo struct {
 type Cell struct {
 	Moji     Moji
 	color    ColorSequence
-	position int16
+	position int
 }
 
 func (C Cell) String() string {
diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index cbb3c04..aa691cf 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -8,7 +8,7 @@ import (
 )
 
 type Tab struct {
-	pos int16
+	pos int
 }
 
 func (t *Tab) Width() WidthT {
@@ -24,7 +24,7 @@ func (t *Tab) WriteTo(w io.Writer) (int64, error) {
 	return int64(n), err
 }
 
-func (t *Tab) SetPosition(pos int16) {
+func (t *Tab) SetPosition(pos int) {
 	t.pos = pos
 }
 
@@ -127,7 +127,7 @@ const (
 
 func rune2moji(ch rune, pos int) Moji {
 	if ch == '\t' {
-		return &Tab{pos: int16(pos)}
+		return &Tab{pos: pos}
 	} else if ch < ' ' {
 		return _CtrlCodePoint(ch)
 	} else if boxDrawingBegin <= ch && ch <= boxDrawingEnd && AmbiguousIsWide {
diff --git a/repaints.go b/repaints.go
index 36151a8..1e099f1 100644
--- a/repaints.go
+++ b/repaints.go
@@ -14,7 +14,7 @@ const (
 
 func (B *Buffer) refreshColor() ColorSequence {
 	defaultColor := B.Coloring.Init()
-	position := int16(0)
+	position := 0
 	var tmpbuf strings.Builder
 	for i, cell := range B.Buffer {
 		if i == B.Cursor {
@@ -35,7 +35,7 @@ func (B *Buffer) refreshColor() ColorSequence {
 			B.Buffer[i].color = cs
 			tmpbuf.Reset()
 		}
-		position += int16(cell.Moji.Width())
+		position += int(cell.Moji.Width())
 	}
 	if len(B.Buffer) == B.Cursor {
 		B.Coloring.Next(CursorPositionDummyRune)
-- 
2.43.0


From 1141618c4c1b8e4e1523e34537ab400ed71dfd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:23 +0000
Subject: [PATCH 05/34] fix: treat tabs as blanks between words

Word motion and word deletion did not stop at a tab.
---
 internal/moji/codepoint.go | 2 ++
 internal/moji/moji.go      | 3 ---
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index aa691cf..b93e6fb 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -157,6 +157,8 @@ func MojiToRune(m Moji) (rune, bool) {
 		return rune(r), true
 	case _WavingWhiteFlagCodePoint:
 		return rune(r), true
+	case *Tab:
+		return '\t', true
 	default:
 		return 0, false
 	}
diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 52d168f..0af2a53 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -152,9 +152,6 @@ func AreZeroWidthJoin(s string) bool {
 // isJoinable returns false when a joiner, a variation selector or a modifier
 // must not follow m because it would send a control character to the terminal.
 func isJoinable(m Moji) bool {
-	if _, ok := m.(*Tab); ok {
-		return false
-	}
 	r, ok := MojiToRune(m)
 	return !ok || !unicode.IsControl(r)
 }
-- 
2.43.0


From 779f3de93ae3f3253a96f10f5ea48d69adc7a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:23 +0000
Subject: [PATCH 06/34] fix: let a word start with a joined character

The word before the cursor began behind its leading emoji sequences, and
UNIX_WORD_RUBOUT did nothing on a word made of them only.
---
 buffer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 3420c4d..2f10041 100644
--- a/buffer.go
+++ b/buffer.go
@@ -188,7 +188,12 @@ func (B *Buffer) CurrentWordTop() (wordTop int) {
 	wordTop = -1
 	quotedchar := '\000'
 	for i, m := range B.Buffer[:B.Cursor] {
-		if ch, ok := moji.MojiToRune(m.Moji); ok {
+		if ch, ok := moji.MojiToRune(m.Moji); !ok {
+			// joined characters are never blanks nor quotation marks
+			if wordTop < 0 {
+				wordTop = i
+			}
+		} else {
 			if quotedchar == '\000' {
 				if strings.ContainsRune(Delimiters, ch) {
 					quotedchar = ch
-- 
2.43.0


From 940a8b4e8e715d353116119e36dc0c0dc54a3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:37 +0000
Subject: [PATCH 07/34] fix: make SWAPCHAR at the end of the line undoable

The undo record pointed behind the swapped characters and undoing it panicked.
---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index 165599a..7845c47 100644
--- a/gommand.go
+++ b/gommand.go
@@ -362,7 +362,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 			return CONTINUE
 		}
 		u := &_Undo{
-			pos:  this.Cursor,
+			pos:  this.Cursor - 2,
 			del:  2,
 			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
-- 
2.43.0


From 254e9241c522b726be6ca2c0fa5dabd14f572ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:38 +0000
Subject: [PATCH 08/34] fix: restore the same characters on undo

Undo divided the restored text into characters again.  When it came out with
fewer characters than had been deleted, a later undo panicked or removed the
wrong ones.
---
 buffer.go  | 12 ++++++++----
 gommand.go | 15 +++++++--------
 isearch.go |  2 +-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/buffer.go b/buffer.go
index 2f10041..815249d 100644
--- a/buffer.go
+++ b/buffer.go
@@ -13,7 +13,7 @@ const forbiddenWidth WidthT = 3 // = lastcolumn(1) and FULLWIDTHCHAR-SIZE(2)
 type _Undo struct {
 	pos  int
 	del  int
-	text string
+	text []Cell // not string because joined characters must be restored as they were
 }
 
 type Cell struct {
@@ -138,7 +138,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 	}
 	u := &_Undo{
 		pos:  pos,
-		text: cell2string(B.Buffer[pos : pos+n]),
+		text: cloneCells(B.Buffer[pos : pos+n]),
 	}
 	B.undoes = append(B.undoes, u)
 
@@ -229,13 +229,13 @@ func (B *Buffer) joinUndo() {
 	if u1.pos != u2.pos {
 		return
 	}
-	if u1.text != "" && u2.text != "" {
+	if len(u1.text) > 0 && len(u2.text) > 0 {
 		return
 	}
 	if u1.del != 0 && u2.del != 0 {
 		return
 	}
-	if u1.text == "" {
+	if len(u1.text) <= 0 {
 		u1.text = u2.text
 	}
 	if u1.del == 0 {
@@ -279,6 +279,10 @@ func (s _Range) Width() (w WidthT) {
 	return
 }
 
+func cloneCells(cells []Cell) []Cell {
+	return append([]Cell(nil), cells...)
+}
+
 func cell2string(m []Cell) string {
 	var buffer strings.Builder
 	for _, m1 := range m {
diff --git a/gommand.go b/gommand.go
index 7845c47..063a955 100644
--- a/gommand.go
+++ b/gommand.go
@@ -237,7 +237,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	this.eraseline()
 	u := &_Undo{
 		pos:  this.Cursor,
-		text: cell2string(this.Buffer[this.Cursor:]),
+		text: cloneCells(this.Buffer[this.Cursor:]),
 	}
 	this.undoes = append(this.undoes, u)
 	this.Buffer = this.Buffer[:this.Cursor]
@@ -250,7 +250,7 @@ var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
 	u := &_Undo{
 		pos:  0,
-		text: cell2string(this.Buffer),
+		text: cloneCells(this.Buffer),
 	}
 	this.undoes = append(this.undoes, u)
 	this.GotoHead()
@@ -364,7 +364,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 2,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
+			text: cloneCells(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
@@ -378,7 +378,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 1,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-1 : this.Cursor+1]),
+			text: cloneCells(this.Buffer[this.Cursor-1 : this.Cursor+1]),
 		}
 		this.undoes = append(this.undoes, u)
 
@@ -451,10 +451,9 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	if u.del > 0 {
 		this.Buffer = sliceDelete(this.Buffer, u.pos, u.del)
 	}
-	if u.text != "" {
-		cells := mojis2cells(StringToMoji(u.text))
-		this.Buffer = sliceInsert(this.Buffer, u.pos, cells...)
-		this.Cursor = u.pos + len(cells)
+	if len(u.text) > 0 {
+		this.Buffer = sliceInsert(this.Buffer, u.pos, u.text...)
+		this.Cursor = u.pos + len(u.text)
 	} else {
 		this.Cursor = u.pos
 	}
diff --git a/isearch.go b/isearch.go
index e983554..3fb488f 100644
--- a/isearch.go
+++ b/isearch.go
@@ -74,7 +74,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.ViewStart = 0
 			u := &_Undo{
 				pos:  0,
-				text: cell2string(this.Buffer),
+				text: cloneCells(this.Buffer),
 			}
 			this.undoes = append(this.undoes, u)
 			this.Buffer = this.Buffer[:0]
-- 
2.43.0


From c610c86df6d773ad6b73f93f66644d8bcc57fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:04 +0000
Subject: [PATCH 09/34] fix: do not lose the character before a typed joiner

A typed ZERO WIDTH JOINER took the character before it out of the line until
the next character was typed.  Any other key (Enter, a cursor key) lost it or
inserted it elsewhere.  Also undo a joined character in one step.
---
 buffer.go  |  1 -
 gommand.go | 44 +++++++++++++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/buffer.go b/buffer.go
index 815249d..6b4c536 100644
--- a/buffer.go
+++ b/buffer.go
@@ -38,7 +38,6 @@ type Buffer struct {
 	topColumn       int // == width of Prompt
 	historyPointer  int
 	undoes          []*_Undo
-	pending         string
 	modifiedHistory map[int]string
 }
 
diff --git a/gommand.go b/gommand.go
index 063a955..a174bf5 100644
--- a/gommand.go
+++ b/gommand.go
@@ -182,11 +182,22 @@ func cmdDeleteOrAbort(ctx context.Context, this *Buffer) Result {
 	return ABORT
 }
 
-func mojiAndStringToString(m Moji, s string) string {
-	var buffer strings.Builder
-	m.WriteTo(&buffer)
-	buffer.WriteString(s)
-	return buffer.String()
+// countJoined returns the number of the characters before the cursor
+// which become one character with keys.
+func (B *Buffer) countJoined(keys string) int {
+	n := 1
+	if B.Cursor > 1 {
+		r, ok := moji.MojiToRune(B.Buffer[B.Cursor-1].Moji)
+		if ok && moji.AreZeroWidthJoin(string(r)) {
+			n = 2
+		}
+	}
+	for ; n > 0; n-- {
+		if n <= B.Cursor && MojiCountInString(B.SubString(B.Cursor-n, B.Cursor)+keys) < n+MojiCountInString(keys) {
+			break
+		}
+	}
+	return n
 }
 
 type SelfInserter string
@@ -200,21 +211,20 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 	if len(keys) == 2 && keys[0] == '\x1B' { // for AltGr-shift
 		keys = keys[1:]
 	}
-	if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
-		this.pending = mojiAndStringToString(
-			this.Buffer[this.Cursor-1].Moji,
-			keys)
-		return CmdBackwardDeleteChar.Func(ctx, this)
-	} else if (moji.AreVariationSelectorLike(keys) || moji.AreEmojiModifier(keys)) && this.Cursor > 0 {
-		baseMoji := this.Buffer[this.Cursor-1].Moji
-		CmdBackwardDeleteChar.Func(ctx, this)
-		keys = mojiAndStringToString(baseMoji, keys)
-	} else if len(this.pending) > 0 {
-		keys = this.pending + keys
-		this.pending = ""
+	joined := this.countJoined(keys)
+	if joined > 0 {
+		keys = this.SubString(this.Cursor-joined, this.Cursor) + keys
+		this.Cursor -= joined
+		this.Delete(this.Cursor, joined)
+		if this.Cursor < this.ViewStart {
+			this.ViewStart = this.Cursor
+		}
 	}
 
 	mojis := this.insertString(this.Cursor, keys)
+	if joined > 0 {
+		this.joinUndo() // merge delete and insert
+	}
 	lenMoji := len(mojis)
 
 	w := this.GetWidthBetween(this.ViewStart, this.Cursor)
-- 
2.43.0


From a9b4378bde459d1dfd3ecabd2bbb2b70a9f72d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:49 +0000
Subject: [PATCH 10/34] fix: undo one change at a time

- Recalling a history entry took two steps, with an empty line in between.
- Yanking where text had been deleted before was undone together with the
  deletion.
- Commands which changed nothing took a step, as did the empty initial text.
---
 buffer.go   |  3 +++
 gommand.go  | 14 ++------------
 history.go  | 16 ++--------------
 isearch.go  | 10 +---------
 repaints.go | 16 +++++++++++++---
 5 files changed, 21 insertions(+), 38 deletions(-)

diff --git a/buffer.go b/buffer.go
index 6b4c536..3d568c0 100644
--- a/buffer.go
+++ b/buffer.go
@@ -99,6 +99,9 @@ func (B *Buffer) getView2() (all _Range, before _Range, w WidthT) {
 }
 
 func (B *Buffer) insert(csrPos int, insStr []Cell) {
+	if len(insStr) <= 0 {
+		return
+	}
 	B.Buffer = sliceInsert(B.Buffer, csrPos, insStr...)
 
 	u := &_Undo{
diff --git a/gommand.go b/gommand.go
index a174bf5..a91fb19 100644
--- a/gommand.go
+++ b/gommand.go
@@ -245,12 +245,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	clipboard.WriteAll(this.SubString(this.Cursor, len(this.Buffer)))
 
 	this.eraseline()
-	u := &_Undo{
-		pos:  this.Cursor,
-		text: cloneCells(this.Buffer[this.Cursor:]),
-	}
-	this.undoes = append(this.undoes, u)
-	this.Buffer = this.Buffer[:this.Cursor]
+	this.Delete(this.Cursor, len(this.Buffer)-this.Cursor)
 	return CONTINUE
 }
 
@@ -258,14 +253,9 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
-	u := &_Undo{
-		pos:  0,
-		text: cloneCells(this.Buffer),
-	}
-	this.undoes = append(this.undoes, u)
 	this.GotoHead()
 	this.eraseline()
-	this.Buffer = this.Buffer[:0]
+	this.Delete(0, len(this.Buffer))
 	this.Cursor = 0
 	this.ViewStart = 0
 	return CONTINUE
diff --git a/history.go b/history.go
index fda3c69..e228ae6 100644
--- a/history.go
+++ b/history.go
@@ -56,13 +56,7 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 	}
 	this.saveModifiedHistory()
 	this.historyPointer--
-	CmdKillWholeLine.Func(ctx, this)
-	if s := this.getHistory(); s != "" {
-		this.InsertString(0, s)
-		this.ViewStart = 0
-		this.Cursor = 0
-		CmdEndOfLine.Func(ctx, this)
-	}
+	this.replaceLine(this.getHistory())
 	return CONTINUE
 }
 
@@ -78,12 +72,6 @@ func cmdNextHistory(ctx context.Context, this *Buffer) Result {
 	}
 	this.saveModifiedHistory()
 	this.historyPointer++
-	CmdKillWholeLine.Func(ctx, this)
-	if s := this.getHistory(); s != "" {
-		this.InsertString(0, s)
-		this.ViewStart = 0
-		this.Cursor = 0
-		CmdEndOfLine.Func(ctx, this)
-	}
+	this.replaceLine(this.getHistory())
 	return CONTINUE
 }
diff --git a/isearch.go b/isearch.go
index 3fb488f..5c4b862 100644
--- a/isearch.go
+++ b/isearch.go
@@ -71,15 +71,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			searchStr = searchBuf.String()
 			update()
 		case "\r":
-			this.ViewStart = 0
-			u := &_Undo{
-				pos:  0,
-				text: cloneCells(this.Buffer),
-			}
-			this.undoes = append(this.undoes, u)
-			this.Buffer = this.Buffer[:0]
-			this.Cursor = 0
-			this.ReplaceAndRepaint(0, foundStr)
+			this.replaceLine(foundStr)
 			return CONTINUE
 		case "\x03", "\x07", "\x1B":
 			all, left, _ := this.getView2()
diff --git a/repaints.go b/repaints.go
index 1e099f1..c5106f9 100644
--- a/repaints.go
+++ b/repaints.go
@@ -88,15 +88,25 @@ func (B *Buffer) DrawFromHead() {
 // ReplaceAndRepaint replaces the string between `pos` and cursor's position to `str`
 func (B *Buffer) ReplaceAndRepaint(pos int, str string) {
 	// Replace Buffer
-	B.Delete(pos, B.Cursor-pos)
+	deleted := B.Cursor - pos
+	B.Delete(pos, deleted)
 
 	// Define ViewStart , Cursor
-	B.Cursor = pos + B.InsertString(pos, str)
-	B.joinUndo() // merge delete and insert
+	inserted := B.InsertString(pos, str)
+	B.Cursor = pos + inserted
+	if deleted > 0 && inserted > 0 {
+		B.joinUndo() // merge delete and insert
+	}
 	B.ResetViewStart()
 	B.repaint()
 }
 
+// replaceLine replaces the whole line to `str` as one step of undo
+func (B *Buffer) replaceLine(str string) {
+	B.Cursor = len(B.Buffer)
+	B.ReplaceAndRepaint(0, str)
+}
+
 // RepaintAfterPrompt repaints the all characters in the editline except for prompt.
 func (B *Buffer) RepaintAfterPrompt() {
 	B.ResetViewStart()
-- 
2.43.0


From d85bda26d1299f16657a54c6cac2a6c5ceb5d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:49 +0000
Subject: [PATCH 11/34] fix: keep edited history entries as they were left

An edit of the oldest entry was lost on going round to the new line, and an
entry edited back to its stored text came up with the earlier edit.
---
 history.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index e228ae6..b95670a 100644
--- a/history.go
+++ b/history.go
@@ -25,6 +25,7 @@ var CmdPreviousHistory = NewGoCommand("PREVIOUS_HISTORY", cmdPreviousHistory)
 func (B *Buffer) saveModifiedHistory() {
 	s := B.String()
 	if B.historyPointer < B.History.Len() && B.History.At(B.historyPointer) == s {
+		delete(B.modifiedHistory, B.historyPointer)
 		return
 	}
 	if B.modifiedHistory == nil {
@@ -52,9 +53,11 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 		if !this.HistoryCycling {
 			return CONTINUE
 		}
-		this.historyPointer = this.History.Len() + 1
 	}
 	this.saveModifiedHistory()
+	if this.historyPointer <= 0 {
+		this.historyPointer = this.History.Len() + 1
+	}
 	this.historyPointer--
 	this.replaceLine(this.getHistory())
 	return CONTINUE
-- 
2.43.0


From 3046f8dbdce2a4f98a8012df82651a7a133831d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:32 +0000
Subject: [PATCH 12/34] fix: use the current widths of tabs to find out what
 fits the screen

The visible part was chosen with the widths the tabs had before the change.
---
 buffer.go  | 13 +++++++++++++
 gommand.go |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/buffer.go b/buffer.go
index 3d568c0..89e938f 100644
--- a/buffer.go
+++ b/buffer.go
@@ -103,6 +103,7 @@ func (B *Buffer) insert(csrPos int, insStr []Cell) {
 		return
 	}
 	B.Buffer = sliceInsert(B.Buffer, csrPos, insStr...)
+	B.locateTabs()
 
 	u := &_Undo{
 		pos: csrPos,
@@ -146,9 +147,21 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 
 	delw := B.GetWidthBetween(pos, pos+n)
 	B.Buffer = sliceDelete(B.Buffer, pos, n)
+	B.locateTabs()
 	return delw
 }
 
+// locateTabs updates the positions of tabs, on which their widths depend.
+func (B *Buffer) locateTabs() {
+	position := 0
+	for _, cell := range B.Buffer {
+		if tab, ok := cell.Moji.(*moji.Tab); ok {
+			tab.SetPosition(position)
+		}
+		position += int(cell.Moji.Width())
+	}
+}
+
 // ResetViewStart set ViewStart the new value which should be.
 // It does not update screen.
 func (B *Buffer) ResetViewStart() {
diff --git a/gommand.go b/gommand.go
index a91fb19..a0df876 100644
--- a/gommand.go
+++ b/gommand.go
@@ -368,6 +368,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
+		this.locateTabs()
 
 		this.GotoHead()
 		this.puts(this.Buffer[this.ViewStart:this.Cursor])
@@ -384,6 +385,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 
 		w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
 		this.Buffer[this.Cursor-1], this.Buffer[this.Cursor] = this.Buffer[this.Cursor], this.Buffer[this.Cursor-1]
+		this.locateTabs()
 		this.GotoHead()
 		if w >= this.ViewWidth() {
 			this.ViewStart++
@@ -457,6 +459,7 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	} else {
 		this.Cursor = u.pos
 	}
+	this.locateTabs()
 	this.ResetViewStart()
 	this.repaint()
 	return CONTINUE
-- 
2.43.0


From 293a650dd263d246c68a94cdc24d062f54567ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:13 +0000
Subject: [PATCH 13/34] fix: repaint the line after every command that moves
 the cursor or deletes

The commands that drew only a part of the line left characters behind, drew
over the right margin when scrolling past wide characters, kept an outdated
prediction on the screen, or panicked when the terminal is too narrow to show
anything.
---
 buffer.go  | 16 +++++++----
 gommand.go | 81 ++++++++++--------------------------------------------
 isearch.go |  6 +---
 3 files changed, 26 insertions(+), 77 deletions(-)

diff --git a/buffer.go b/buffer.go
index 89e938f..f2f7c43 100644
--- a/buffer.go
+++ b/buffer.go
@@ -169,17 +169,23 @@ func (B *Buffer) ResetViewStart() {
 	w := WidthT(0)
 	for i := 0; i <= B.Cursor && i < len(B.Buffer); i++ {
 		w += B.Buffer[i].Moji.Width()
-		for w >= B.ViewWidth() {
-			if B.ViewStart >= len(B.Buffer) {
-				// When standard output is redirected.
-				return
-			}
+		// Even if nothing fits (e.g. when standard output is redirected),
+		// ViewStart must not get ahead of the cursor.
+		for B.ViewStart < i && w >= B.ViewWidth() {
 			w -= B.Buffer[B.ViewStart].Moji.Width()
 			B.ViewStart++
 		}
 	}
 }
 
+// scrollToCursor changes ViewStart if the cursor is out of the view.
+// It does not update screen.
+func (B *Buffer) scrollToCursor() {
+	if B.GetWidthBetween(B.ViewStart, B.Cursor) >= B.ViewWidth() {
+		B.ResetViewStart()
+	}
+}
+
 // GetWidthBetween returns the width between start and end
 func (B *Buffer) GetWidthBetween(from int, to int) WidthT {
 	return _Range(B.Buffer[from:to]).Width()
diff --git a/gommand.go b/gommand.go
index a0df876..5d0218d 100644
--- a/gommand.go
+++ b/gommand.go
@@ -90,29 +90,9 @@ func cmdBackwardChar(ctx context.Context, this *Buffer) Result {
 var CmdEndOfLine = NewGoCommand("END_OF_LINE", cmdEndOfLine)
 
 func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
-	allength := this.GetWidthBetween(this.ViewStart, len(this.Buffer))
-	if allength < this.ViewWidth() {
-		this.puts(this.Buffer[this.Cursor:])
-		this.Cursor = len(this.Buffer)
-	} else {
-		this.GotoHead()
-		this.ViewStart = len(this.Buffer) - 1
-		w := this.Buffer[this.ViewStart].Moji.Width()
-		for {
-			if this.ViewStart <= 0 {
-				break
-			}
-			_w := w + this.Buffer[this.ViewStart-1].Moji.Width()
-			if _w >= this.ViewWidth() {
-				break
-			}
-			w = _w
-			this.ViewStart--
-		}
-		this.puts(this.Buffer[this.ViewStart:])
-		this.Cursor = len(this.Buffer)
-	}
-	this.eraseline()
+	this.Cursor = len(this.Buffer)
+	this.scrollToCursor()
+	this.repaint()
 	return CONTINUE
 }
 
@@ -130,21 +110,9 @@ func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 		}
 		return CONTINUE
 	}
-	w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
-	if w < this.ViewWidth() {
-		// No Scroll
-		this.puts(this.Buffer[this.Cursor : this.Cursor+1])
-	} else {
-		// Right Scroll
-		this.GotoHead()
-		if this.Buffer[this.Cursor].Moji.Width() > this.Buffer[this.ViewStart].Moji.Width() {
-			this.ViewStart++
-		}
-		this.ViewStart++
-		this.puts(this.Buffer[this.ViewStart : this.Cursor+1])
-		this.eraseline()
-	}
 	this.Cursor++
+	this.scrollToCursor()
+	this.repaint()
 	return CONTINUE
 }
 
@@ -225,15 +193,8 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 	if joined > 0 {
 		this.joinUndo() // merge delete and insert
 	}
-	lenMoji := len(mojis)
-
-	w := this.GetWidthBetween(this.ViewStart, this.Cursor)
-	w1 := mojis.Width()
-	this.Cursor += lenMoji
-	if w+w1 >= this.ViewWidth() {
-		// scroll left
-		this.ResetViewStart()
-	}
+	this.Cursor += len(mojis)
+	this.scrollToCursor()
 	this.repaint()
 	return CONTINUE
 }
@@ -244,8 +205,8 @@ var CmdKillLine = NewGoCommand("KILL_LINE", cmdKillLine)
 func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	clipboard.WriteAll(this.SubString(this.Cursor, len(this.Buffer)))
 
-	this.eraseline()
 	this.Delete(this.Cursor, len(this.Buffer)-this.Cursor)
+	this.repaint()
 	return CONTINUE
 }
 
@@ -253,11 +214,10 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
-	this.GotoHead()
-	this.eraseline()
 	this.Delete(0, len(this.Buffer))
 	this.Cursor = 0
 	this.ViewStart = 0
+	this.repaint()
 	return CONTINUE
 }
 
@@ -369,9 +329,6 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
 		this.locateTabs()
-
-		this.GotoHead()
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	} else {
 		if this.Cursor < 1 {
 			return CONTINUE
@@ -383,16 +340,12 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 
-		w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
 		this.Buffer[this.Cursor-1], this.Buffer[this.Cursor] = this.Buffer[this.Cursor], this.Buffer[this.Cursor-1]
 		this.locateTabs()
-		this.GotoHead()
-		if w >= this.ViewWidth() {
-			this.ViewStart++
-		}
 		this.Cursor++
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	}
+	this.scrollToCursor()
+	this.repaint()
 	return CONTINUE
 }
 
@@ -426,15 +379,9 @@ func cmdForwardWord(ctx context.Context, this *Buffer) Result {
 	for newPos < len(this.Buffer) && moji.IsSpaceMoji(this.Buffer[newPos].Moji) {
 		newPos++
 	}
-	w := this.GetWidthBetween(this.ViewStart, newPos)
-	if w < this.ViewWidth() {
-		this.puts(this.Buffer[this.Cursor:newPos])
-		this.Cursor = newPos
-	} else {
-		this.Cursor = newPos
-		this.ResetViewStart()
-		this.repaint()
-	}
+	this.Cursor = newPos
+	this.scrollToCursor()
+	this.repaint()
 	return CONTINUE
 }
 
diff --git a/isearch.go b/isearch.go
index 5c4b862..be594dc 100644
--- a/isearch.go
+++ b/isearch.go
@@ -74,11 +74,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.replaceLine(foundStr)
 			return CONTINUE
 		case "\x03", "\x07", "\x1B":
-			all, left, _ := this.getView2()
-			this.puts(all)
-			this.eraseline()
-			this.GotoHead()
-			this.puts(left)
+			this.repaint()
 			return CONTINUE
 		case "\x12":
 			for i := lastFoundPos - 1; ; i-- {
-- 
2.43.0


From a3a1d8513a3b545ec83930ff715eff4f16b650e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:26 +0000
Subject: [PATCH 14/34] fix: show unprintable characters next to a joiner in
 their visible form

They were sent to the terminal as they are when a variation selector, a joiner
or a modifier was next to them.
---
 internal/moji/moji.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 0af2a53..f624c74 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,7 +2,6 @@ package moji
 
 import (
 	"io"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -88,7 +87,8 @@ func (s _ModifierSequence) WriteTo(w io.Writer) (int64, error) {
 }
 
 func (s _ModifierSequence) PrintTo(w io.Writer) {
-	s.WriteTo(w)
+	s[0].PrintTo(w)
+	s[1].PrintTo(w)
 }
 
 type _VariationSequence [2]Moji
@@ -150,16 +150,20 @@ func AreZeroWidthJoin(s string) bool {
 }
 
 // isJoinable returns false when a joiner, a variation selector or a modifier
-// must not follow m because it would send a control character to the terminal.
+// must not follow m because m is not sent to the terminal as it is.
 func isJoinable(m Moji) bool {
-	r, ok := MojiToRune(m)
-	return !ok || !unicode.IsControl(r)
+	switch m.(type) {
+	case *Tab, _CtrlCodePoint, _EscCodePoint:
+		return false
+	default:
+		return true
+	}
 }
 
 // canFollowZeroWidthJoin returns true when s has the next character of ZWJ.
 func canFollowZeroWidthJoin(s string) bool {
 	r, size := utf8.DecodeRuneInString(s)
-	return size > 0 && !unicode.IsControl(r)
+	return size > 0 && r >= ' ' && !isToBeEscaped(r)
 }
 
 func StringToMoji(s string) []Moji {
-- 
2.43.0


From 337661f6355b4f6ff8f7b1ee94a7b16e7b749056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:47 +0000
Subject: [PATCH 15/34] fix: do not panic when Editor.Cursor is negative

---
 main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.go b/main.go
index 93af8e4..83f332f 100644
--- a/main.go
+++ b/main.go
@@ -204,6 +204,8 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	buffer.InsertString(0, editor.Default)
 	if buffer.Cursor > len(buffer.Buffer) {
 		buffer.Cursor = len(buffer.Buffer)
+	} else if buffer.Cursor < 0 {
+		buffer.Cursor = 0
 	}
 	buffer.RepaintAfterPrompt()
 
-- 
2.43.0


From 471fe5780130b5e74effe4b770002e16337a9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:17 +0000
Subject: [PATCH 16/34] fix: do not touch the line and the screen from two
 goroutines at the same time

Resizing was handled while the prompt was printed and while the output was
flushed, it was blocked while a command waited for a key, its output was not
flushed, and it drew even after the line was finished.
---
 buffer.go |  5 +++++
 main.go   | 18 ++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/buffer.go b/buffer.go
index f2f7c43..41bde21 100644
--- a/buffer.go
+++ b/buffer.go
@@ -39,6 +39,7 @@ type Buffer struct {
 	historyPointer  int
 	undoes          []*_Undo
 	modifiedHistory map[int]string
+	locked          bool // true while ReadLine owns Editor.mutex
 }
 
 func (B *Buffer) Suffix() []Moji {
@@ -268,6 +269,10 @@ func (B *Buffer) joinUndo() {
 // GetKey reads one-key from Tty.
 func (B *Buffer) GetKey() (string, error) {
 	B.Out.Flush()
+	if B.locked {
+		B.mutex.Unlock()
+		defer B.mutex.Lock()
+	}
 	return B.Tty.GetKey()
 }
 
diff --git a/main.go b/main.go
index 83f332f..f4fe22a 100644
--- a/main.go
+++ b/main.go
@@ -174,10 +174,15 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 
 	onResize := func(w int) {
 		editor.mutex.Lock()
+		defer editor.mutex.Unlock()
+		if !buffer.locked {
+			// The screen does not belong to the line not started or already ended.
+			return
+		}
 		buffer.termWidth = w
 		buffer.ResetViewStart()
 		buffer.RepaintLastLine()
-		editor.mutex.Unlock()
+		buffer.Out.Flush()
 	}
 
 	if err := editor.Tty.Open(onResize); err != nil {
@@ -185,6 +190,14 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	}
 	defer editor.Tty.Close()
 
+	// onResize has to wait except while GetKey is waiting for a key.
+	editor.mutex.Lock()
+	buffer.locked = true
+	defer func() {
+		buffer.locked = false
+		editor.mutex.Unlock()
+	}()
+
 	var err error
 	buffer.termWidth, _, err = editor.Tty.Size()
 	if err != nil {
@@ -215,7 +228,6 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		editor.mutex.Lock()
 
 		f := editor.LookupCommand(key)
 
@@ -238,7 +250,6 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 			buffer.Out.Flush()
 
 			result := buffer.String()
-			editor.mutex.Unlock()
 			if rc == ENTER {
 				return result, nil
 			} else if rc == INTR {
@@ -247,6 +258,5 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 				return result, io.EOF
 			}
 		}
-		editor.mutex.Unlock()
 	}
 }
-- 
2.43.0


From 6dca5e1fd0441c967a581958ee49858adda44584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:58 +0000
Subject: [PATCH 17/34] fix: start the line at the right column after the
 prompt is redrawn

Redrawing (Ctrl-L, resizing) ignored that a prompt too wide for the terminal is
followed by a new row, and resizing printed all lines of the prompt over each
other so that long ones were wrapped.
---
 main.go     | 19 ++++++++++++++-----
 repaints.go | 29 +++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/main.go b/main.go
index f4fe22a..a8febfe 100644
--- a/main.go
+++ b/main.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"regexp"
 	"strings"
 	"sync"
 	"unicode/utf8"
@@ -113,6 +114,16 @@ func cutEscapeSequenceAndOldLine(s string) string {
 	return string(buffer)
 }
 
+var rxColorSequence = regexp.MustCompile("\x1B\\[[0-9;]*m")
+
+// cutOldLine removes all lines of the prompt but the last one.
+// Colors set in the removed lines are left because they are still effective.
+func cutOldLine(prompt string) string {
+	top := strings.LastIndexByte(prompt, '\n') + 1
+	colors := rxColorSequence.FindAllString(prompt[:top], -1)
+	return strings.Join(colors, "") + prompt[top:]
+}
+
 func (editor *Editor) callPromptWriter() (int, error) {
 	if editor.PromptWriter == nil {
 		_, err := editor.Out.WriteString("\n> ")
@@ -180,7 +191,7 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 			return
 		}
 		buffer.termWidth = w
-		buffer.ResetViewStart()
+		buffer.ViewStart = 0
 		buffer.RepaintLastLine()
 		buffer.Out.Flush()
 	}
@@ -209,10 +220,8 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		// unable to get prompt-string.
 		fmt.Fprintf(buffer.Out, "%s\n$ ", err.Error())
 		buffer.topColumn = 2
-	} else if buffer.topColumn >= buffer.termWidth-3 {
-		// ViewWidth is too narrow to edit.
-		io.WriteString(buffer.Out, "\n")
-		buffer.topColumn = 0
+	} else {
+		buffer.startLineAt(buffer.topColumn)
 	}
 	buffer.InsertString(0, editor.Default)
 	if buffer.Cursor > len(buffer.Buffer) {
diff --git a/repaints.go b/repaints.go
index c5106f9..4787334 100644
--- a/repaints.go
+++ b/repaints.go
@@ -43,6 +43,17 @@ func (B *Buffer) refreshColor() ColorSequence {
 	return defaultColor
 }
 
+// startLineAt sets the column where the editline starts to w, where the prompt
+// ends, or goes to the next row when there is no room to edit after the prompt.
+func (B *Buffer) startLineAt(w int) {
+	if w >= B.termWidth-int(forbiddenWidth) {
+		// ViewWidth is too narrow to edit.
+		io.WriteString(B.Out, "\n")
+		w = 0
+	}
+	B.topColumn = w
+}
+
 // InsertAndRepaint inserts str and repaint the editline.
 func (B *Buffer) InsertAndRepaint(str string) {
 	B.ReplaceAndRepaint(B.Cursor, str)
@@ -116,7 +127,9 @@ func (B *Buffer) RepaintAfterPrompt() {
 // RepaintAll repaints the all characters in the editline including prompt.
 func (B *Buffer) RepaintAll() {
 	B.Out.Flush()
-	B.topColumn, _ = B.callPromptWriter()
+	w, _ := B.callPromptWriter()
+	B.startLineAt(w)
+	B.scrollToCursor()
 	B.repaint()
 }
 
@@ -124,16 +137,16 @@ func (B *Buffer) RepaintAll() {
 // IMPORTANT: This method requires setting valid Editor.PromptWriter
 func (B *Buffer) RepaintLastLine() {
 	B.Out.Flush()
-	var prompt string
-	if B.PromptWriter == nil {
-		prompt = "\r> "
-	} else {
+	prompt := "> "
+	if B.PromptWriter != nil {
 		var buffer strings.Builder
-		buffer.WriteByte('\r')
 		B.PromptWriter(&buffer)
-		prompt = buffer.String()
-		prompt = strings.ReplaceAll(prompt, "\n", "\r")
+		prompt = cutOldLine(buffer.String())
 	}
+	B.Out.WriteByte('\r')
 	B.Out.WriteString(prompt)
+	w, _ := moji.MojiWidthAndCountInString(cutEscapeSequenceAndOldLine(prompt))
+	B.startLineAt(int(w))
+	B.scrollToCursor()
 	B.repaint()
 }
-- 
2.43.0


From 2758f90fcfdace8224d29f079fc126ac3c8768b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:26 +0000
Subject: [PATCH 18/34] fix: find the end of prompts with ESC\ terminated
 titles and backspaces over wide characters

---
 main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index a8febfe..4b9205d 100644
--- a/main.go
+++ b/main.go
@@ -2,6 +2,7 @@ package readline
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -82,7 +83,7 @@ func (editor *Editor) LookupCommand(key string) Command {
 func cutEscapeSequenceAndOldLine(s string) string {
 	buffer := make([]byte, 0, len(s)*2)
 	esc := false           // for ESC[...
-	titleSequence := false // for ESC]...\x07
+	titleSequence := false // for ESC]...\x07 or ESC]...ESC\
 	for i, end := 0, len(s); i < end; i++ {
 		r := s[i]
 		switch r {
@@ -92,7 +93,7 @@ func cutEscapeSequenceAndOldLine(s string) string {
 			esc = true
 		default:
 			if titleSequence {
-				if r == '\007' {
+				if r == '\007' || (r == '\\' && s[i-1] == '\x1B') {
 					titleSequence = false
 					esc = false
 				}
@@ -103,8 +104,13 @@ func cutEscapeSequenceAndOldLine(s string) string {
 					esc = false
 				}
 			} else if r == '\b' {
-				if lastRune, siz := utf8.DecodeLastRune(buffer); lastRune != utf8.RuneError {
+				// move one column to the left even on a wide character
+				if w, _ := moji.MojiWidthAndCountInString(string(buffer)); w > 0 {
+					_, siz := utf8.DecodeLastRune(buffer)
 					buffer = buffer[:len(buffer)-siz]
+					if v, _ := moji.MojiWidthAndCountInString(string(buffer)); v != w-1 {
+						buffer = bytes.Repeat([]byte{' '}, int(w-1))
+					}
 				}
 			} else {
 				buffer = append(buffer, r)
-- 
2.43.0


From 914ffdde9bfeffd9ce3991e64be6eaff5bb7ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:39 +0000
Subject: [PATCH 19/34] fix: never print control characters raw even if
 SetCharWidth is called for them

---
 internal/moji/width.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/moji/width.go b/internal/moji/width.go
index 834581b..117984a 100644
--- a/internal/moji/width.go
+++ b/internal/moji/width.go
@@ -55,7 +55,8 @@ func AreVariationSelectorLike(s string) bool {
 }
 
 func isToBeEscaped(ch rune) bool {
-	return isVariationSelectorLike(ch) ||
+	return unicode.IsControl(ch) ||
+		isVariationSelectorLike(ch) ||
 		(ch >= 0x10000 && !SurrogatePairOk) ||
 		getWidth(ch) == 0
 }
-- 
2.43.0


From f3c11a3d63c5217c9897d85365560f411d4da007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:30 +0000
Subject: [PATCH 20/34] fix: bind keys to the function named, not to one named
 like the key

nameutils.BindKeySymbol looked up the function by the name of the key,
so it failed for every pair of names.
---
 nameutils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nameutils/main.go b/nameutils/main.go
index cf31273..2699bb2 100644
--- a/nameutils/main.go
+++ b/nameutils/main.go
@@ -25,7 +25,7 @@ func GetFunc(name string) (readline.Command, error) {
 }
 
 func BindKeySymbol(km *readline.KeyMap, key, funcName string) error {
-	f, err := GetFunc(key)
+	f, err := GetFunc(funcName)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 480ab6ccf145eb31d049b79a2cbbc8724899c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:30 +0000
Subject: [PATCH 21/34] fix: let the key names CTRL_DOWN and M_BACKSPACE mean
 the keys with modifiers

They meant the plain Down and Backspace keys.
---
 keys/naming.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys/naming.go b/keys/naming.go
index f01d15d..d177246 100644
--- a/keys/naming.go
+++ b/keys/naming.go
@@ -9,7 +9,7 @@ var NameToCode = map[string]Code{
 	"CLEAR":       Clear,
 	"CTRL":        Ctrl,
 	"CTRL_BREAK":  CtrlBreak,
-	"CTRL_DOWN":   Down,
+	"CTRL_DOWN":   CtrlDown,
 	"C_A":         CtrlA,
 	"C_B":         CtrlB,
 	"C_C":         CtrlC,
@@ -77,7 +77,7 @@ var NameToCode = map[string]Code{
 	"LEFT":        Left,
 	"M_A":         AltA,
 	"M_B":         AltB,
-	"M_BACKSPACE": Backspace,
+	"M_BACKSPACE": ALTBackspace,
 	"M_C":         AltC,
 	"M_D":         AltD,
 	"M_E":         AltE,
-- 
2.43.0


From a829bb66da3692516016baff4ff11d9da4300924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:43 +0000
Subject: [PATCH 22/34] fix: report the bytes and errors of writing a color

ColorSequence.WriteTo did not count the first two bytes and lost the errors
of all writes but the last.
---
 color.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/color.go b/color.go
index 642dd0f..e708a9f 100644
--- a/color.go
+++ b/color.go
@@ -1,6 +1,7 @@
 package readline
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 )
@@ -102,27 +103,18 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 	if c <= 0 {
 		return 0, nil
 	}
-	n := int64(0)
-	io.WriteString(w, "\x1B[")
+	var buffer bytes.Buffer
+	buffer.WriteString("\x1B[")
 	count := c & colorCodeMask
 	for {
 		c >>= colorCodeBitSize
-		_n, err := fmt.Fprintf(w, "%d", c&colorCodeMask)
-		n += int64(_n)
-		if err != nil {
-			break
-		}
+		fmt.Fprintf(&buffer, "%d", c&colorCodeMask)
 		count--
 		if count <= 0 {
 			break
 		}
-		_n, err = w.Write([]byte{';'})
-		n += int64(_n)
-		if err != nil {
-			break
-		}
+		buffer.WriteByte(';')
 	}
-	_n, err := w.Write([]byte{'m'})
-	n += int64(_n)
-	return n, err
+	buffer.WriteByte('m')
+	return buffer.WriteTo(w)
 }
-- 
2.43.0


From cddc916fd6d9d653b9cf8096f120060468dd863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:43 +0000
Subject: [PATCH 23/34] fix: do not panic when deleting at a negative position

---
 buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 41bde21..02623e4 100644
--- a/buffer.go
+++ b/buffer.go
@@ -137,7 +137,7 @@ func (B *Buffer) InsertString(pos int, s string) int {
 // It returns the width to clear the end of line.
 // It does not update screen.
 func (B *Buffer) Delete(pos int, n int) WidthT {
-	if n <= 0 || len(B.Buffer) < pos+n {
+	if n <= 0 || pos < 0 || n > len(B.Buffer)-pos {
 		return 0
 	}
 	u := &_Undo{
-- 
2.43.0


From dd23ff790b74b54bb32c238a9c9b542fcc555492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:21 +0000
Subject: [PATCH 24/34] fix: give the code points of joined characters to
 Coloring, not their escape sequences

For characters made of several code points, Coloring.Next received what is
sent to the terminal to draw them (cursor movements, spaces, hexadecimal
numbers) instead of the code points in the line.
---
 repaints.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repaints.go b/repaints.go
index 4787334..085c539 100644
--- a/repaints.go
+++ b/repaints.go
@@ -27,7 +27,7 @@ func (B *Buffer) refreshColor() ColorSequence {
 		} else if codepoint, ok := moji.MojiToRune(cell.Moji); ok {
 			B.Buffer[i].color = ColorSequence(B.Coloring.Next(codepoint))
 		} else {
-			cell.Moji.PrintTo(&tmpbuf)
+			cell.Moji.WriteTo(&tmpbuf)
 			var cs ColorSequence
 			for _, c := range tmpbuf.String() {
 				cs = ColorSequence(B.Coloring.Next(c))
-- 
2.43.0


From afe08b68cdac427949c673b31d78969acedf11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:36 +0000
Subject: [PATCH 25/34] fix: do not panic when completing an empty file name

For example, after an opening quotation mark.
---
 completion/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index e5e0ff9..6991d22 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -29,7 +29,10 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 	}
 	target := field[len(field)-1]
 	var dir, base string
-	if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
+	if target == "" {
+		base = ""
+		dir = ""
+	} else if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
 		base = ""
 		dir = target
 	} else {
-- 
2.43.0


From e0f0ada125126bd001f2e12de296565cde3a588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:36 +0000
Subject: [PATCH 26/34] fix: do not loop forever when the only candidate is an
 empty directory

---
 completion/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/completion/file.go b/completion/file.go
index 6991d22..c807ba8 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -47,7 +47,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 		sep = string(os.PathSeparator)
 	}
 
-	for {
+	for descended := false; ; descended = true {
 		dirEntries, err := os.ReadDir(zeroToOneDot(dir))
 		if err != nil {
 			return
@@ -82,7 +82,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			fullnames = append(fullnames, full)
 			basenames = append(basenames, name)
 		}
-		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) {
+		if descended || len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) {
 			return
 		}
 		base = ""
-- 
2.43.0


From 7db36ba64d0b70bb32d9de864b46e6bf51e7b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:36 +0000
Subject: [PATCH 27/34] fix: append a separator to symbolic links to
 directories only

---
 completion/file.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index c807ba8..4979c77 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -75,7 +75,13 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			}
 			// Do not use filepath.Join because it removes "./"
 			full := dir + name
-			if (d.Type() & (os.ModeDir | os.ModeSymlink)) != 0 {
+			isDir := d.IsDir()
+			if (d.Type() & os.ModeSymlink) != 0 {
+				if stat, err := os.Stat(full); err == nil {
+					isDir = stat.IsDir()
+				}
+			}
+			if isDir {
 				name += sep
 				full += sep
 			}
-- 
2.43.0


From f5f086e6e926a57a6d2d98e6e674ebc03885401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:54 +0000
Subject: [PATCH 28/34] fix: complete words whose upper and lower case differ
 in the number of bytes

The prefix of a candidate was cut by the number of bytes of another spelling,
which missed candidates, cut characters in two, or panicked.
---
 completion/file.go |  5 +----
 completion/main.go | 25 +++++++++++++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/completion/file.go b/completion/file.go
index 4979c77..a52d6f8 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -67,10 +67,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			if name == "." || name == ".." {
 				continue
 			}
-			if len(name) < len(base) {
-				continue
-			}
-			if !strings.EqualFold(base, name[:len(base)]) {
+			if !hasPrefixFold(name, base) {
 				continue
 			}
 			// Do not use filepath.Join because it removes "./"
diff --git a/completion/main.go b/completion/main.go
index 541ccaf..7f1919e 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -3,7 +3,7 @@ package completion
 import (
 	"context"
 	"strings"
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
 	rl "github.com/nyaosorg/go-readline-ny"
@@ -43,7 +43,7 @@ func commonPrefix(list []string) string {
 				break
 			}
 			fh, _, err := fr.ReadRune()
-			if err != nil || unicode.ToUpper(ch) != unicode.ToUpper(fh) {
+			if err != nil || !strings.EqualFold(string(ch), string(fh)) {
 				break
 			}
 			buffer.WriteRune(ch)
@@ -55,7 +55,24 @@ func commonPrefix(list []string) string {
 			minimumIndex = index + 1
 		}
 	}
-	return list[minimumIndex][:len(common)]
+	// The same characters can have another length in the shortest candidate.
+	return firstRunes(list[minimumIndex], utf8.RuneCountInString(common))
+}
+
+// firstRunes returns the first n runes of s.
+func firstRunes(s string, n int) string {
+	for i := range s {
+		if n <= 0 {
+			return s[:i]
+		}
+		n--
+	}
+	return s
+}
+
+// hasPrefixFold reports whether s begins with prefix without regard to case.
+func hasPrefixFold(s, prefix string) bool {
+	return strings.EqualFold(firstRunes(s, utf8.RuneCountInString(prefix)), prefix)
 }
 
 func removeQuotes(s, q string) string {
@@ -126,7 +143,7 @@ func hasToInsertQuotation(list []string, spaceAndSoOn string) bool {
 
 func removeUnmatches(full, base []string, source string) (newFull, newBase []string) {
 	for i, name := range full {
-		if len(name) >= len(source) && strings.EqualFold(source, name[:len(source)]) {
+		if hasPrefixFold(name, source) {
 			newFull = append(newFull, name)
 			newBase = append(newBase, base[i])
 		}
-- 
2.43.0


From 89cc3e7e8bcc31544f45ea0a9a12d4325ab199e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:06 +0000
Subject: [PATCH 29/34] fix: do not complete the word before when the cursor is
 behind a blank or a delimiter

The last word and the blank were replaced, as if the cursor were at its end.
---
 completion/main.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/completion/main.go b/completion/main.go
index 7f1919e..96153df 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -98,7 +98,7 @@ func split(quotes, del string, B *rl.Buffer) (fields []string, lastWordStart int
 			}
 			i++
 			if i >= B.Cursor {
-				return
+				return newWord(fields, i)
 			}
 		}
 		start := i
@@ -129,7 +129,16 @@ func split(quotes, del string, B *rl.Buffer) (fields []string, lastWordStart int
 			}
 		}
 	}
-	return
+	return newWord(fields, i)
+}
+
+// newWord appends the empty word at pos, where the cursor is behind a blank or
+// a delimiter, so that the word before it is not completed instead.
+func newWord(fields []string, pos int) ([]string, int) {
+	if len(fields) > 0 {
+		fields = append(fields, "")
+	}
+	return fields, pos
 }
 
 func hasToInsertQuotation(list []string, spaceAndSoOn string) bool {
-- 
2.43.0


From 6ef7d135a77ef28994977d08a78c4e0d6c762c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:06 +0000
Subject: [PATCH 30/34] fix: quote a single candidate with blanks even if there
 are no delimiters

Several candidates were already treated like this.
---
 completion/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index 96153df..552a92b 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -180,7 +180,7 @@ func complete(quotes, del string, B *rl.Buffer, C Completion, postfix string) []
 		if strings.EqualFold(fields[len(fields)-1], str) {
 			B.Out.WriteByte('\a')
 		} else {
-			if len(quotes) > 0 && len(del) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
+			if len(quotes) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
 				str = string(quotes[0]) + str + string(quotes[0])
 			}
 			B.ReplaceAndRepaint(lastWordStart, str+postfix)
-- 
2.43.0


From f30594129d1e77bce91504d440df55722da17720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:07 +0000
Subject: [PATCH 31/34] fix: do not cut a character at the end of a read into
 pieces

---
 tty10/main.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tty10/main.go b/tty10/main.go
index 9b46d6d..0aa1acd 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -52,13 +52,30 @@ func (M *Tty) getKey() ([]byte, error) {
 	defer term.Restore(stdin, oldState)
 
 	var buffer [1024]byte
-	n, err := os.Stdin.Read(buffer[:])
+	n, err := os.Stdin.Read(buffer[:len(buffer)-utf8.UTFMax])
 	if err != nil {
 		return nil, err
 	}
+	for endsInRune(buffer[:n]) {
+		m, err := os.Stdin.Read(buffer[n : n+1])
+		if err != nil {
+			return nil, err
+		}
+		n += m
+	}
 	return buffer[:n], nil
 }
 
+// endsInRune reports whether the last character of b is not complete yet.
+func endsInRune(b []byte) bool {
+	for i := len(b) - 1; i >= 0 && i > len(b)-utf8.UTFMax; i-- {
+		if utf8.RuneStart(b[i]) {
+			return !utf8.FullRune(b[i:])
+		}
+	}
+	return false
+}
+
 func (M *Tty) GetKey() (string, error) {
 	if len(M.buf) <= 0 {
 		var err error
-- 
2.43.0


From 31d956ec13bc0f55adac34ca1ea39a8dd2237397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:35 +0000
Subject: [PATCH 32/34] fix: count the columns of prompts as the terminal does

Combining characters, bells and other characters without width in a prompt
were counted as the substitute forms used in the edited line, and tabs as
four columns, so that the line was drawn too far to the right.
---
 internal/moji/moji.go | 22 ++++++++++++++++++++++
 main.go               |  6 +++---
 repaints.go           |  2 +-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index f624c74..039cd31 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,6 +2,7 @@ package moji
 
 import (
 	"io"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -247,3 +248,24 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 	}
 	return
 }
+
+// WidthOnTerminal returns the number of the columns which the cursor moves
+// when s is sent to the terminal as it is.
+func WidthOnTerminal(s string) (width WidthT) {
+	const tabStop = 8
+	for _, m := range StringToMoji(s) {
+		switch c := m.(type) {
+		case *Tab:
+			width += tabStop - width%tabStop
+		case _CtrlCodePoint:
+			// not shown
+		case _EscCodePoint:
+			if !unicode.IsControl(rune(c)) {
+				width += getWidth(rune(c))
+			}
+		default:
+			width += m.Width()
+		}
+	}
+	return
+}
diff --git a/main.go b/main.go
index 4b9205d..cc85839 100644
--- a/main.go
+++ b/main.go
@@ -105,10 +105,10 @@ func cutEscapeSequenceAndOldLine(s string) string {
 				}
 			} else if r == '\b' {
 				// move one column to the left even on a wide character
-				if w, _ := moji.MojiWidthAndCountInString(string(buffer)); w > 0 {
+				if w := moji.WidthOnTerminal(string(buffer)); w > 0 {
 					_, siz := utf8.DecodeLastRune(buffer)
 					buffer = buffer[:len(buffer)-siz]
-					if v, _ := moji.MojiWidthAndCountInString(string(buffer)); v != w-1 {
+					if moji.WidthOnTerminal(string(buffer)) != w-1 {
 						buffer = bytes.Repeat([]byte{' '}, int(w-1))
 					}
 				}
@@ -139,7 +139,7 @@ func (editor *Editor) callPromptWriter() (int, error) {
 	editor.PromptWriter(&buffer)
 	prompt := buffer.String()
 	_, err := editor.Out.WriteString(prompt)
-	w, _ := moji.MojiWidthAndCountInString(cutEscapeSequenceAndOldLine(prompt))
+	w := moji.WidthOnTerminal(cutEscapeSequenceAndOldLine(prompt))
 	return int(w), err
 }
 
diff --git a/repaints.go b/repaints.go
index 085c539..2c3c3b3 100644
--- a/repaints.go
+++ b/repaints.go
@@ -145,7 +145,7 @@ func (B *Buffer) RepaintLastLine() {
 	}
 	B.Out.WriteByte('\r')
 	B.Out.WriteString(prompt)
-	w, _ := moji.MojiWidthAndCountInString(cutEscapeSequenceAndOldLine(prompt))
+	w := moji.WidthOnTerminal(cutEscapeSequenceAndOldLine(prompt))
 	B.startLineAt(int(w))
 	B.scrollToCursor()
 	B.repaint()
-- 
2.43.0


From 08f7892a7b7e694d4aca9e6bbf827a1ea8842e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:30 +0000
Subject: [PATCH 33/34] fix: show the line again when a read fails during a
 search

When reading a key failed in the middle of an incremental search, the
error was printed to the standard error output and the session went on
with the search display instead of the line on the screen.
---
 isearch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isearch.go b/isearch.go
index be594dc..462d803 100644
--- a/isearch.go
+++ b/isearch.go
@@ -52,7 +52,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 		io.WriteString(this.Out, ansiCursorOn)
 		key, err := this.GetKey()
 		if err != nil {
-			println(err.Error())
+			this.repaint()
 			return CONTINUE
 		}
 		io.WriteString(this.Out, ansiCursorOff)
-- 
2.43.0


From fd53c97499d4bb9c6d40053b63172c6d31895c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:30 +0000
Subject: [PATCH 34/34] fix: erase the prediction when a session ends by a read
 error

The predicted text was removed from the screen when a line was entered
or given up, but stayed there when reading a key failed.
---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index cc85839..a09e906 100644
--- a/main.go
+++ b/main.go
@@ -241,6 +241,10 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 	for {
 		key, err := buffer.GetKey()
 		if err != nil {
+			if buffer.suffix != nil {
+				buffer.suffix = nil
+				buffer.repaintWithoutUpdateSuffix()
+			}
 			return "", err
 		}
 
-- 
2.43.0

