From 1d0409d47fc84f8687e6a2c905279585cf4f6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 01/10] fix: keep point and mark inside the buffer

SetPoint and SetMark stored any position they were given, and the mark
could be left behind the end of a buffer that had shrunk, so negative or
large arguments (backward-char -5, set-mark-command 99 followed by
exchange-point-and-mark) produced positions outside the text.
---
 edlisp/eval.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..71f342a 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -53,19 +53,31 @@ func (b *Buffer) Point() int {
 	return b.point
 }
 
-// Mark returns the current mark position.
+// Mark returns the current mark position. If the buffer has shrunk since
+// the mark was set, this is the end of the buffer.
 func (b *Buffer) Mark() int {
-	return b.mark
+	return b.clamp(b.mark)
 }
 
-// SetPoint sets the cursor position.
+// SetPoint sets the cursor position, limited to the buffer bounds.
 func (b *Buffer) SetPoint(pos int) {
-	b.point = pos
+	b.point = b.clamp(pos)
 }
 
-// SetMark sets the mark position.
+// SetMark sets the mark position, limited to the buffer bounds.
 func (b *Buffer) SetMark(pos int) {
-	b.mark = pos
+	b.mark = b.clamp(pos)
+}
+
+// clamp limits pos to the range from 1 to the end of the buffer.
+func (b *Buffer) clamp(pos int) int {
+	if pos < 1 {
+		return 1
+	}
+	if end := b.content.Len() + 1; pos > end {
+		return end
+	}
+	return pos
 }
 
 // Insert inserts text at the current point.
-- 
2.43.0


From edcd539053c98406892cf6c21cc07b2646eb6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 02/10] fix: do not overflow on very large counts and positions

Converting a number argument that does not fit in an int, or adding a
huge count to a position, wrapped around: forward-char 1e300 went to the
beginning of the buffer and delete-char with a huge count panicked.
---
 edlisp/builtin_backward_char.go        |  2 +-
 edlisp/builtin_backward_kill_word.go   |  2 +-
 edlisp/builtin_backward_word.go        |  2 +-
 edlisp/builtin_buffer_substring.go     |  4 ++--
 edlisp/builtin_delete_backward_char.go |  2 +-
 edlisp/builtin_delete_char.go          |  2 +-
 edlisp/builtin_delete_line.go          |  2 +-
 edlisp/builtin_forward_char.go         |  2 +-
 edlisp/builtin_forward_word.go         |  2 +-
 edlisp/builtin_goto_char.go            |  3 +--
 edlisp/builtin_goto_line.go            |  3 +--
 edlisp/builtin_kill_line.go            |  2 +-
 edlisp/builtin_kill_word.go            |  2 +-
 edlisp/builtin_mark_line.go            |  2 +-
 edlisp/builtin_set_mark_command.go     |  2 +-
 edlisp/builtin_substring.go            |  4 ++--
 edlisp/helpers.go                      | 17 +++++++++++++++++
 17 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/edlisp/builtin_backward_char.go b/edlisp/builtin_backward_char.go
index 6ba738d..6ac45ad 100644
--- a/edlisp/builtin_backward_char.go
+++ b/edlisp/builtin_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	newPos := buffer.Point() - count
diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 405cf84..8edfbeb 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_backward_word.go b/edlisp/builtin_backward_word.go
index d00997f..46bdbbf 100644
--- a/edlisp/builtin_backward_word.go
+++ b/edlisp/builtin_backward_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_buffer_substring.go b/edlisp/builtin_buffer_substring.go
index 377eb1a..f797a0e 100644
--- a/edlisp/builtin_buffer_substring.go
+++ b/edlisp/builtin_buffer_substring.go
@@ -47,8 +47,8 @@ func BuiltinBufferSubstring(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("buffer-substring expects number arguments")
 	}
 
-	start := int(args[0].(*Number).Value)
-	end := int(args[1].(*Number).Value)
+	start := intArg(args[0])
+	end := intArg(args[1])
 
 	content := buffer.String()
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index cbb7946..138b50d 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..daf1dfd 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..93bba47 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -19,7 +19,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_char.go b/edlisp/builtin_forward_char.go
index 4a7af6e..e905089 100644
--- a/edlisp/builtin_forward_char.go
+++ b/edlisp/builtin_forward_char.go
@@ -18,7 +18,7 @@ func BuiltinForwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_word.go b/edlisp/builtin_forward_word.go
index c0a2f3b..1b38b69 100644
--- a/edlisp/builtin_forward_word.go
+++ b/edlisp/builtin_forward_word.go
@@ -20,7 +20,7 @@ func BuiltinForwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_goto_char.go b/edlisp/builtin_goto_char.go
index ff56923..37cc7b4 100644
--- a/edlisp/builtin_goto_char.go
+++ b/edlisp/builtin_goto_char.go
@@ -18,8 +18,7 @@ func BuiltinGotoChar(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("goto-char expects a number argument")
 	}
 
-	num := args[0].(*Number)
-	pos := int(num.Value)
+	pos := intArg(args[0])
 
 	content := buffer.String()
 	if pos < 1 {
diff --git a/edlisp/builtin_goto_line.go b/edlisp/builtin_goto_line.go
index 9cee18c..e93fdcb 100644
--- a/edlisp/builtin_goto_line.go
+++ b/edlisp/builtin_goto_line.go
@@ -18,8 +18,7 @@ func BuiltinGotoLine(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("goto-line expects a number argument")
 	}
 
-	num := args[0].(*Number)
-	lineNum := int(num.Value)
+	lineNum := intArg(args[0])
 
 	content := buffer.String()
 	lines := strings.Split(content, "\n")
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..059bd23 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -19,7 +19,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index f91fa8b..5c25f02 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..75a7a4a 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -20,7 +20,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("mark-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = intArg(args[0])
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_set_mark_command.go b/edlisp/builtin_set_mark_command.go
index 74aeb93..9dd40d5 100644
--- a/edlisp/builtin_set_mark_command.go
+++ b/edlisp/builtin_set_mark_command.go
@@ -19,7 +19,7 @@ func BuiltinSetMarkCommand(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("set-mark-command expects a number argument")
 		}
-		pos = int(args[0].(*Number).Value)
+		pos = intArg(args[0])
 	} else {
 		pos = buffer.Point()
 	}
diff --git a/edlisp/builtin_substring.go b/edlisp/builtin_substring.go
index 5181a6a..75299f5 100644
--- a/edlisp/builtin_substring.go
+++ b/edlisp/builtin_substring.go
@@ -50,14 +50,14 @@ func BuiltinSubstring(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	str := args[0].(*String)
-	start := int(args[1].(*Number).Value)
+	start := intArg(args[1])
 	end := len(str.Value)
 
 	if len(args) == 3 {
 		if !IsA(args[2], TheNumberKind) {
 			return nil, fmt.Errorf("substring expects a number as third argument")
 		}
-		end = int(args[2].(*Number).Value)
+		end = intArg(args[2])
 	}
 
 	// Convert from 1-based to 0-based indexing
diff --git a/edlisp/helpers.go b/edlisp/helpers.go
index 7f4e464..cf88649 100644
--- a/edlisp/helpers.go
+++ b/edlisp/helpers.go
@@ -4,3 +4,20 @@ package edlisp
 func isLetter(ch byte) bool {
 	return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9')
 }
+
+// intArg returns the integer part of a number argument, limited to a range in
+// which adding it to a buffer position cannot overflow.
+func intArg(arg Value) int {
+	const limit = 1 << 52
+
+	switch value := arg.(*Number).Value; {
+	case value != value: // not a number
+		return 0
+	case value >= limit:
+		return limit
+	case value <= -limit:
+		return -limit
+	default:
+		return int(value)
+	}
+}
-- 
2.43.0


From 7dd6eb7e5dbc0eaa488df52ae94a307859beb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 03/10] fix: delete nothing when delete-char gets a negative
 count

A negative count duplicated text before the point, or panicked.
---
 edlisp/builtin_delete_char.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index daf1dfd..bae9f08 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -34,6 +34,9 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 	if endPos > len(content) {
 		endPos = len(content)
 	}
+	if endPos <= startPos {
+		return NewString(""), nil
+	}
 
 	// Delete characters starting at current position
 	newContent := content[:startPos] + content[endPos:]
-- 
2.43.0


From 36ede4808624902b5222857e1c455b313bf8dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 04/10] fix: stay on the last line in beginning-of-line at the
 end of the buffer

After a trailing newline the point went to the start of the line before.
---
 edlisp/builtin_beginning_of_line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_beginning_of_line.go b/edlisp/builtin_beginning_of_line.go
index 4c7dae4..ab7171b 100644
--- a/edlisp/builtin_beginning_of_line.go
+++ b/edlisp/builtin_beginning_of_line.go
@@ -19,8 +19,8 @@ func BuiltinBeginningOfLine(args []Value, buffer *Buffer) (Value, error) {
 		buffer.SetPoint(1)
 		return NewString(""), nil
 	}
-	if pos >= len(content) {
-		pos = len(content) - 1
+	if pos > len(content) {
+		pos = len(content)
 	}
 
 	// Move backward to find beginning of line
-- 
2.43.0


From 7b41f0ed18d72d552be7d328db8043bd4785bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 05/10] fix: stop counting lines at the end of the buffer

kill-line, delete-line and mark-line went on counting lines at the end of
the buffer, which with a huge count never ended.
---
 edlisp/builtin_delete_line.go | 2 +-
 edlisp/builtin_kill_line.go   | 2 +-
 edlisp/builtin_mark_line.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index 93bba47..4974e7e 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -33,7 +33,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 059bd23..0edf453 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -43,7 +43,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		// For multi-line kill, kill entire lines starting from cursor
 		startPos = pos
 		lineEnd = startPos
-		for i := 0; i < count; i++ {
+		for i := 0; i < count && lineEnd < len(content); i++ {
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 75a7a4a..ae4f0ef 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -34,7 +34,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
-- 
2.43.0


From f246ed66daba1f0594f599bf6f5c08631ab22484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 06/10] fix: find matches that end at point in looking-back

Only the leftmost match was considered, so looking-back "[0-9]" failed
after "1 2".
---
 edlisp/builtin_looking_back.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index 85526f4..0e8b505 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -41,6 +41,12 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 		return NewSymbol("nil"), nil
 	}
 
+	// Anchor the pattern at the end, so that earlier or shorter matches do not
+	// hide the one that ends at point
+	if anchored, err := regexp.Compile(`(?:` + pattern.Value + `)\z`); err == nil {
+		re = anchored
+	}
+
 	// Use regular expression matching on text before point
 	beforeText := content[:pos]
 	match := re.FindStringIndex(beforeText)
-- 
2.43.0


From 06c2ac8ad98074225a7fca3c87a47feb1ad543e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 07/10] fix: do not break a multi-byte first character in
 capitalize

---
 edlisp/builtin_capitalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_capitalize.go b/edlisp/builtin_capitalize.go
index d11f9c2..d601966 100644
--- a/edlisp/builtin_capitalize.go
+++ b/edlisp/builtin_capitalize.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 // BuiltinCapitalize capitalizes the first character of a string.
@@ -43,7 +44,8 @@ func BuiltinCapitalize(args []Value, buffer *Buffer) (Value, error) {
 		return NewString(""), nil
 	}
 
-	result := strings.ToUpper(string(str.Value[0])) + strings.ToLower(str.Value[1:])
+	_, size := utf8.DecodeRuneInString(str.Value)
+	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
 	return NewString(result), nil
 }
 
-- 
2.43.0


From 0b21854c183fb99ca20b3638428285f1530cee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 08/10] fix: refuse replace-match when the match is no longer
 there

After an edit that moved or changed the matched text, replace-match
replaced whatever text had taken its place.
---
 edlisp/builtin_replace_match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/builtin_replace_match.go b/edlisp/builtin_replace_match.go
index 51ed5f7..811db06 100644
--- a/edlisp/builtin_replace_match.go
+++ b/edlisp/builtin_replace_match.go
@@ -33,6 +33,9 @@ func BuiltinReplaceMatch(args []Value, buffer *Buffer) (Value, error) {
 	if start < 0 || end > len(content) || start >= end {
 		return nil, fmt.Errorf("invalid search match positions")
 	}
+	if content[start:end] != buffer.lastSearchMatch {
+		return nil, fmt.Errorf("buffer changed since last search")
+	}
 
 	newContent := content[:start] + str.Value + content[end:]
 	buffer.content.Reset()
-- 
2.43.0


From f439c198fabcf98c081a0db6c32ef975599f68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 09/10] fix: reject text after a complete parenthesised
 expression

Everything after the first expression on a line, such as a second command,
was silently dropped.
---
 edlisp/parser/linebased.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..36c6d20 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -114,8 +114,14 @@ func parseSExpression(line string) (edlisp.Value, error) {
 		return nil, err
 	}
 
-	expr, _, err := parseTokens(tokens, 0)
-	return expr, err
+	expr, end, err := parseTokens(tokens, 0)
+	if err != nil {
+		return nil, err
+	}
+	if end < len(tokens) {
+		return nil, fmt.Errorf("unexpected %q after expression", tokens[end])
+	}
+	return expr, nil
 }
 
 // parseShellLike parses a shell-like command line into a list.
-- 
2.43.0


From b0bf1bdac19b7e8865141874bfbbe2265f89e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 10/10] fix: pass each -e expression on unchanged

The flag was parsed as a comma-separated list, so an expression containing
a comma or a double quote was split or rejected.
---
 commands/edit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..fb5153b 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -160,7 +160,7 @@ Script formats:
 	// Script Input Options
 	cmd.Flags().StringP("script", "s", "", "The texted script to execute")
 	cmd.Flags().StringVarP(&scriptFile, "file", "f", "", "Read script from file")
-	cmd.Flags().StringSliceP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
+	cmd.Flags().StringArrayP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
 
 	// Input/Output Options
 	cmd.Flags().BoolVarP(&inPlace, "in-place", "i", false, "Edit files in place (modify original files)")
@@ -210,7 +210,7 @@ func runEdit(args *runEditArgs) error {
 	}
 
 	// Handle expressions
-	expressions, err := args.cmd.Flags().GetStringSlice("expression")
+	expressions, err := args.cmd.Flags().GetStringArray("expression")
 	if err != nil {
 		return fmt.Errorf("getting expression flag: %w", err)
 	}
-- 
2.43.0

