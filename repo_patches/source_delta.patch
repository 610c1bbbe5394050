From b57285ec20c52a2b9497f380a494c1eccca9be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 01/44] fix: prefix every line of a code block inside a
 blockquote

---
 plugin/commonmark/render_blockquote.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 588e89e..8c3657f 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -22,6 +23,14 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 
+	// The newlines inside of a code block are represented by a marker,
+	// but those lines also need the prefix.
+	content = bytes.ReplaceAll(
+		content,
+		marker.BytesMarkerCodeBlockNewline,
+		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
+	)
+
 	w.WriteRune('\n')
 	w.WriteRune('\n')
 	w.Write(content)
-- 
2.43.0


From 99aba85be75ffbf205a81252bf4819a27674fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 02/44] fix: escape markdown characters at the start of a line
 inside a blockquote

---
 plugin/commonmark/render_blockquote.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 8c3657f..9b56b27 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -21,6 +21,11 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
+
+	// The escaping needs to be decided before the prefix is added. Afterwards the
+	// content would not be recognized as being at the beginning of the line anymore.
+	content = ctx.UnEscapeContent(content)
+
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 
 	// The newlines inside of a code block are represented by a marker,
-- 
2.43.0


From a5d9f0e5261bbb41e1e9af6e308b0bc150df76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 03/44] fix: only count the same character when looking for
 fenced code to escape

---
 internal/escape/elem_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index 65adaaa..377bd1d 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -22,7 +22,7 @@ func IsFencedCode(chars []byte, index int) int {
 		if chars[i] == placeholderByte {
 			continue
 		}
-		if chars[i] == '`' || chars[i] == '~' {
+		if chars[i] == chars[index] {
 			count++
 			continue
 		}
-- 
2.43.0


From 816ad15a1f785febf21a9b0019fe19dbf6935efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 04/44] fix: escape list item text that together with the
 prefix is a divider

---
 plugin/commonmark/render_list.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d99109c..4cf1789 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/escape"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
@@ -42,6 +43,24 @@ func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) strin
 	}
 }
 
+// The text "--" on its own has no special meaning. But together with
+// the prefix of the list item ("- --") it would be recognized as a divider.
+func escapeDividerWithPrefix(prefix string, item []byte) []byte {
+	if item[0] != marker.BytesMarkerEscaping[0] {
+		// It does not start with a character that could be escaped.
+		return item
+	}
+
+	line := append([]byte(prefix), item...)
+	if escape.IsDivider(line, 0) == -1 {
+		return item
+	}
+
+	// We manually force the escaping by overriding the placeholder.
+	item[0] = '\\'
+	return item
+}
+
 func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int) {
 	lines := bytes.Split(content, []byte("\n"))
 	indent := bytes.Repeat([]byte(" "), indentCount)
@@ -95,6 +114,7 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
+		item = escapeDividerWithPrefix(getPrefix(i), item)
 		item = ctx.UnEscapeContent(item)
 
 		// An item might have different lines that each
-- 
2.43.0


From 9dea6c4a4525cee07b2c8a960d8a9dc5e06c1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 05/44] fix: keep the character in front of the number sign at
 the end of a heading

---
 plugin/commonmark/render_heading.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..5b2bf21 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -87,6 +87,11 @@ func escapePoundSignAtEnd(s []byte) []byte {
 		// so there is no work to do...
 		return s
 	}
+	if len(s) < 2 || s[len(s)-2] != marker.BytesMarkerEscaping[0] {
+		// There is no placeholder that could be overridden,
+		// for example because the escaping is disabled.
+		return s
+	}
 	if len(s) >= 3 && s[len(s)-3] == '\\' {
 		// It is already escaped,
 		// so there is no work to do...
-- 
2.43.0


From 5a42bebad03ce14c016009a8136161e8ee08f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 06/44] fix: do not sort the shared tag types while other
 conversions read them

---
 converter/register.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter/register.go b/converter/register.go
index d200ded..4d79fe8 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -215,8 +215,11 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
-	types.Sort()
-	firstType := types[0].Value
+	// The slice is shared, and there can be other readers at the same time.
+	// So we need to sort a copy.
+	sorted := make(prioritizedSlice[tagType], len(types))
+	copy(sorted, types)
+	sorted.Sort()
 
-	return firstType, true
+	return sorted[0].Value, true
 }
-- 
2.43.0


From 22f61ddf2b22ec8604b361774d14a6343b2ab5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 07/44] fix: hold the lock while checking the registered
 plugins

---
 converter/convert.go  | 5 ++---
 converter/register.go | 8 ++++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..9f7b076 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"errors"
 	"io"
-	"slices"
 	"strings"
 
 	"golang.org/x/net/html"
@@ -76,8 +75,8 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
-	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
-	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	containsCommonmark := conv.isPluginRegistered("commonmark")
+	containsBase := conv.isPluginRegistered("base")
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
diff --git a/converter/register.go b/converter/register.go
index 4d79fe8..cae80cc 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"errors"
 	"fmt"
+	"slices"
 
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
@@ -30,6 +31,13 @@ func (r *register) Plugin(plugin Plugin) {
 	}
 }
 
+func (conv *Converter) isPluginRegistered(pluginName string) bool {
+	conv.m.RLock()
+	defer conv.m.RUnlock()
+
+	return slices.Contains(conv.registeredPlugins, pluginName)
+}
+
 // - - - - - - - - - - - - - Pre-Render - - - - - - - - - - - - - //
 
 type HandlePreRenderFunc func(ctx Context, doc *html.Node)
-- 
2.43.0


From b30680c1a72ab034d1021b156dfdf2dfe6c49dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 08/44] fix: match the exclude selector against the unmodified
 document

---
 cli/html2markdown/cmd/cmd_convert.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 699ea41..823627b 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -52,21 +52,11 @@ func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
 		return nil
 	}
 
-	var finder func(node *html.Node)
-	finder = func(node *html.Node) {
-		if cli.config.excludeSelector.Match(node) {
-			dom.RemoveNode(node)
-			return
-		}
-
-		for child := node.FirstChild; child != nil; child = child.NextSibling {
-			// Because we are sometimes removing a node, this causes problems
-			// with the for loop. Using `defer` is a cool trick!
-			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
-			defer finder(child)
-		}
+	// First find all the nodes and only then remove them. Otherwise removing
+	// a node would influence whether its siblings match (e.g. ":last-child").
+	for _, node := range cascadia.QueryAll(doc, cli.config.excludeSelector) {
+		dom.RemoveNode(node)
 	}
-	finder(doc)
 
 	return nil
 }
-- 
2.43.0


From 35d846e671ed572a3123bfd256e1c10010b898be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 09/44] fix: do not use the same output filename for two
 different inputs

---
 cli/html2markdown/cmd/io_output.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..6db5f9c 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -85,16 +85,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 		filepath.ToSlash(filepath.Clean(inputFilepath)),
 	)
 
-	allBasenames := make(map[string]int)
+	usedOutputPaths := make(map[string]bool)
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
 
-		val := allBasenames[basename]
-		if val == 0 {
-			// -> The standard filename
-			input.outputFullFilepath = basename + ".md"
-		} else {
+		// -> The standard filename
+		outputPath := basename + ".md"
+
+		if usedOutputPaths[outputPath] {
 			relativePath, err := filepath.Rel(globBase, input.inputFullFilepath)
 			if err != nil {
 				return err
@@ -103,13 +102,20 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 			// We hash the relative path (based from the globBase)
 			// since the globBase is *the same* for all files.
 			// Bonus: It makes testing easier as the temporary folder does not matter.
-			hash := hashFilepath(relativePath)
+			hash := relativePath
+
+			// There could be a file whose name is the same as the filename
+			// with the hash, so we need to make sure that it is really unused.
+			for usedOutputPaths[outputPath] {
+				hash = hashFilepath(hash)
 
-			// -> The filename for duplicates
-			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
+				// -> The filename for duplicates
+				outputPath = basename + "." + hash[:10] + ".md"
+			}
 		}
 
-		allBasenames[basename]++
+		input.outputFullFilepath = outputPath
+		usedOutputPaths[outputPath] = true
 	}
 
 	return nil
-- 
2.43.0


From e732cf0935ea324e12120579feeeeed405aa041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 10/44] fix: escape delimiter characters inside an emphasis
 that are followed by whitespace

---
 internal/escape/elem_italic_bold.go     | 38 +++++++++++++++++++++++++
 plugin/commonmark/render_bold_italic.go |  3 +-
 plugin/strikethrough/strikethrough.go   |  2 +-
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/internal/escape/elem_italic_bold.go b/internal/escape/elem_italic_bold.go
index 84381af..7dad33c 100644
--- a/internal/escape/elem_italic_bold.go
+++ b/internal/escape/elem_italic_bold.go
@@ -1,6 +1,7 @@
 package escape
 
 import (
+	"bytes"
 	"unicode"
 )
 
@@ -19,3 +20,40 @@ func IsItalicOrBold(chars []byte, index int) int {
 
 	return 1
 }
+
+// EscapeDelimiters is for the content of an emphasis. There, the "*", "_" and "~"
+// characters can be a problem even when they are followed by whitespace:
+//
+//	<strong>a* b</strong>   ->   **a\* b**   (the character could be the end of the emphasis)
+//	<strong>* b</strong>    ->   **\* b**    (the character would be part of the delimiter)
+func EscapeDelimiters(chars []byte) []byte {
+	newChars := make([]byte, 0, len(chars))
+
+	for index, char := range chars {
+		if char == placeholderByte && isMistakenForDelimiter(chars, index+1) {
+			newChars = append(newChars, '\\')
+			continue
+		}
+		newChars = append(newChars, char)
+	}
+
+	return newChars
+}
+
+func isMistakenForDelimiter(chars []byte, index int) bool {
+	if index >= len(chars) {
+		return false
+	}
+	if chars[index] != '*' && chars[index] != '_' && chars[index] != '~' {
+		return false
+	}
+
+	prev := getPrevAsRune(chars, index)
+	if prev != 0 && !unicode.IsSpace(prev) {
+		return true
+	}
+
+	lineStart := bytes.LastIndexByte(chars[:index], '\n') + 1
+	before := bytes.Trim(chars[lineStart:index], string(placeholderByte))
+	return len(bytes.TrimSpace(before)) == 0
+}
diff --git a/plugin/commonmark/render_bold_italic.go b/plugin/commonmark/render_bold_italic.go
index 50586fc..f78b445 100644
--- a/plugin/commonmark/render_bold_italic.go
+++ b/plugin/commonmark/render_bold_italic.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/escape"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
 	"golang.org/x/net/html"
 )
@@ -26,7 +27,7 @@ func (c commonmark) renderBoldItalic(ctx converter.Context, w converter.Writer,
 	// Depending on the options & whether it is bold or italic there
 	// is going to be a different delimiter.
 	delimiter := c.getDelimiter(n)
-	content := buf.Bytes()
+	content := escape.EscapeDelimiters(buf.Bytes())
 
 	// If there is a newline character between the start and end delimiter
 	// the delimiters won't be recognized. Either we remove all newline characters
diff --git a/plugin/strikethrough/strikethrough.go b/plugin/strikethrough/strikethrough.go
index 961212f..edb10dc 100644
--- a/plugin/strikethrough/strikethrough.go
+++ b/plugin/strikethrough/strikethrough.go
@@ -93,7 +93,7 @@ func (s strikethroughPlugin) renderStrikethrough(ctx converter.Context, w conver
 	var buf bytes.Buffer
 	ctx.RenderChildNodes(ctx, &buf, n)
 
-	content := buf.Bytes()
+	content := escape.EscapeDelimiters(buf.Bytes())
 
 	// If there is a newline character between the start and end delimiter
 	// the delimiters won't be recognized. Either we remove all newline characters
-- 
2.43.0


From 056d3d12d02f8d95a4ed861f954eb1b5e6e97d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 11/44] fix: escape brackets of a link that is divided by a
 hard line break

---
 internal/escape/elem_image.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_image.go b/internal/escape/elem_image.go
index e1d9b5d..9dc632f 100644
--- a/internal/escape/elem_image.go
+++ b/internal/escape/elem_image.go
@@ -23,7 +23,9 @@ func isImageOrLinkStartExclamation(chars []byte, index int) int {
 
 func isImageOrLinkStartBracket(chars []byte, index int) int {
 	for i := index + 1; i < len(chars); i++ {
-		if chars[i] == '\n' {
+		if chars[i] == '\n' && !isHardLineBreak(chars, i) {
+			// A link can be divided on multiple lines (through a hard line break)
+			// but it ends with the block.
 			return -1
 		}
 
@@ -34,3 +36,7 @@ func isImageOrLinkStartBracket(chars []byte, index int) int {
 
 	return -1
 }
+
+func isHardLineBreak(chars []byte, index int) bool {
+	return index >= 2 && chars[index-1] == ' ' && chars[index-2] == ' '
+}
-- 
2.43.0


From e90113e27a2f623d78874aee0ee3cbfe8c40d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 12/44] fix: escape backslashes inside the title of links and
 images

---
 internal/textutils/quote.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/textutils/quote.go b/internal/textutils/quote.go
index 0e8c7eb..ec6a33c 100644
--- a/internal/textutils/quote.go
+++ b/internal/textutils/quote.go
@@ -17,6 +17,8 @@ func SurroundByQuotes(content []byte) []byte {
 		return nil
 	}
 
+	content = escapeBackslashes(content)
+
 	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
 	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
 
@@ -37,3 +39,26 @@ func SurroundByQuotes(content []byte) []byte {
 	// so we can safely surround it by double quotes.
 	return SurroundBy(content, []byte(`"`))
 }
+
+// escapeBackslashes escapes a backslash that would otherwise be recognized as an escape,
+// since it is in front of a punctuation character (or in front of the closing quote).
+func escapeBackslashes(content []byte) []byte {
+	if !bytes.ContainsRune(content, '\\') {
+		return content
+	}
+
+	escaped := make([]byte, 0, len(content)+1)
+	for i, char := range content {
+		escaped = append(escaped, char)
+
+		isLast := i == len(content)-1
+		if char == '\\' && (isLast || isPunctuation(content[i+1])) {
+			escaped = append(escaped, '\\')
+		}
+	}
+	return escaped
+}
+
+func isPunctuation(char byte) bool {
+	return bytes.IndexByte([]byte("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"), char) != -1
+}
-- 
2.43.0


From 9e97fa7427e05628dd9e6d58fda925cb75b8e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 13/44] fix: encode backslash and carriage return inside urls

---
 converter/url.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index 7de62f8..4d582de 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -13,6 +13,11 @@ var percentEncodingReplacer = strings.NewReplacer(
 	")", "%29",
 	"<", "%3C",
 	">", "%3E",
+
+	// A backslash could escape the closing parenthesis of the link
+	"\\", "%5C",
+	// A carriage return is also a line ending
+	"\r", "%0D",
 )
 
 func parseBaseDomain(rawDomain string) *url.URL {
-- 
2.43.0


From f643b36b9881e7163388ea228d4c01aaf80cab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 14/44] fix: escape the alt text of images like other text

---
 plugin/commonmark/render_image.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 81f761e..9884885 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -7,14 +7,29 @@ import (
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
-func escapeAlt(altString string) string {
-	alt := []byte(altString)
+var altReplacer = strings.NewReplacer(
+	"<", "&lt;",
+	">", "&gt;",
+)
+
+func escapeAlt(ctx converter.Context, altString string) string {
+	// The alt description is recognized as inline content,
+	// so we need to escape the same characters as for normal text.
+	alt := ctx.EscapeContent([]byte(altReplacer.Replace(altString)))
 
 	var buf bytes.Buffer
 	for i := range alt {
+		isBracket := i+1 < len(alt) && (alt[i+1] == '[' || alt[i+1] == ']')
+		if alt[i] == marker.BytesMarkerEscaping[0] && isBracket {
+			// The brackets are always escaped (see below)
+			// so there is no need for the placeholder.
+			continue
+		}
+
 		if alt[i] == '[' || alt[i] == ']' {
 			prevIndex := i - 1
 			if prevIndex < 0 || alt[prevIndex] != '\\' {
@@ -44,7 +59,7 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
-	alt = escapeAlt(alt)
+	alt = escapeAlt(ctx, alt)
 
 	w.WriteRune('!')
 	w.WriteRune('[')
-- 
2.43.0


From 8eca66a394183bbe151f6a377a36cec051c231bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 15/44] fix: escape the remaining pipe characters inside a
 table cell

---
 plugin/table/2_collect.go |  1 +
 plugin/table/utils.go     | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index cfe615b..c3846c4 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -180,6 +180,7 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
 		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
 		content = ctx.UnEscapeContent(content)
+		content = escapePipes(content)
 
 		cellContents = append(cellContents, content)
 
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index dc1eacb..7569bf3 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -185,3 +185,23 @@ func removeFirstRowIfEmpty(rows [][][]byte) [][][]byte {
 
 	return rows
 }
+
+// escapePipes escapes every remaining "|" character, for example the ones inside
+// of inline code. They would be recognized as the end of the cell otherwise.
+func escapePipes(content []byte) []byte {
+	if !slices.Contains(content, '|') {
+		return content
+	}
+
+	escaped := make([]byte, 0, len(content)+1)
+	isEscaped := false
+	for _, char := range content {
+		if char == '|' && !isEscaped {
+			escaped = append(escaped, '\\')
+		}
+		escaped = append(escaped, char)
+
+		isEscaped = char == '\\' && !isEscaped
+	}
+	return escaped
+}
-- 
2.43.0


From a0f1034f1e22225ed45b41ef167992744475f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 16/44] fix: replace the newlines of a code block inside a
 table cell

---
 plugin/table/2_collect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index c3846c4..c3cff00 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -104,7 +104,10 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 			if containsNewline(cell) {
 				if p.newlineBehavior == NewlineBehaviorPreserve {
 					// Replace newlines with <br /> tags
-					rows[i][j] = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
+					cell = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
+					// The newlines inside of a code block are represented by a marker
+					cell = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
+					rows[i][j] = cell
 					continue
 				}
 				// We're configured to skip tables with newlines, return nil
-- 
2.43.0


From 01e52a96558d1fc3a504a5eda181f8f778bd9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 17/44] fix: apply the alignment to all columns that a cell
 spans over

---
 plugin/table/2_collect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index c3cff00..9e29460 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -159,7 +159,11 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 	for _, cellNode := range cellNodes {
 		align := dom.GetAttributeOr(cellNode, "align", "")
 
-		alignments = append(alignments, align)
+		// If the cell spans over multiple columns, the alignment applies to all of them.
+		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
+		for range colSpan {
+			alignments = append(alignments, align)
+		}
 	}
 
 	return alignments
-- 
2.43.0


From 2038746e82355763c65b95731e9dfed54512d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 18/44] fix: do not render a table inside of a heading

---
 plugin/table/2_collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 9e29460..e93495f 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -59,6 +59,9 @@ func hasProblematicParentNode(node *html.Node) bool {
 		if name == "del" || name == "s" || name == "strike" {
 			return true
 		}
+		if dom.NameIsHeading(name) {
+			return true
+		}
 
 		p = p.Parent
 	}
-- 
2.43.0


From 5a89032af136e6753484ebd1a163ccdd94838016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 19/44] fix: limit how many columns and rows a table cell can
 span over

---
 plugin/table/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 7569bf3..8542e2c 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -44,6 +44,10 @@ func fillUpRows(rows [][][]byte, maxColumnCount int) [][][]byte {
 	return rows
 }
 
+// The browsers also have an upper limit for the "colspan" & "rowspan" attributes.
+// Otherwise a single cell could use up all the memory.
+const maxSpan = 1000
+
 func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 	val, ok := dom.GetAttribute(node, key)
 	if !ok {
@@ -57,7 +61,7 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 		return fallback
 	}
 
-	return num
+	return min(num, maxSpan)
 }
 
 type modification struct {
-- 
2.43.0


From e50afb71864854cca8b465652694e501ad2725f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 20/44] fix: escape text that would be recognized as the
 delimiter row of a table

---
 plugin/table/table.go    |  3 ++-
 plugin/table/unescape.go | 42 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)
 create mode 100644 plugin/table/unescape.go

diff --git a/plugin/table/table.go b/plugin/table/table.go
index 9d79617..09fb81b 100644
--- a/plugin/table/table.go
+++ b/plugin/table/table.go
@@ -186,7 +186,8 @@ func (s *tablePlugin) Init(conv *converter.Converter) error {
 		return err
 	}
 
-	conv.Register.EscapedChar('|')
+	conv.Register.EscapedChar('|', '-')
+	conv.Register.UnEscaper(isDelimiterRow, converter.PriorityStandard)
 
 	conv.Register.Renderer(s.handleRender, converter.PriorityStandard)
 
diff --git a/plugin/table/unescape.go b/plugin/table/unescape.go
new file mode 100644
index 0000000..7983ad8
--- /dev/null
+++ b/plugin/table/unescape.go
@@ -0,0 +1,42 @@
+package table
+
+import (
+	"bytes"
+	"strings"
+
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
+)
+
+// A line of normal text (e.g. "a<br>|-|") could be mistaken for the line
+// that separates the header from the body of a table.
+func isDelimiterRow(chars []byte, index int) int {
+	if chars[index] != '|' && chars[index] != '-' {
+		return -1
+	}
+
+	lineStart := bytes.LastIndexByte(chars[:index], '\n') + 1
+	if lineStart == 0 {
+		// There is no line before that could be the header
+		return -1
+	}
+	prevLineStart := bytes.LastIndexByte(chars[:lineStart-1], '\n') + 1
+	if len(bytes.TrimSpace(chars[prevLineStart:lineStart])) == 0 {
+		return -1
+	}
+
+	line := chars[lineStart:]
+	if lineEnd := bytes.IndexByte(line, '\n'); lineEnd != -1 {
+		line = line[:lineEnd]
+	}
+
+	if !bytes.ContainsRune(line, '-') {
+		return -1
+	}
+	for _, char := range line {
+		if strings.IndexByte("|-: \t", char) == -1 && char != marker.BytesMarkerEscaping[0] {
+			return -1
+		}
+	}
+
+	return 1
+}
-- 
2.43.0


From a326c6470a8cfaed425cddafeab36d08edacabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 21/44] fix: reject delimiters and dividers that are not valid
 markdown

---
 plugin/commonmark/validation.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index bf22ce9..e84ead1 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -38,15 +38,25 @@ func (e *ValidateConfigError) Error() string {
 	return fmt.Sprintf("invalid value for %s must be %s", e.KeyWithValue, e.patternDescription)
 }
 
+// isThematicBreak checks that there are at least 3 of the *same* characters.
+// Between the characters there can be spaces.
+func isThematicBreak(rule string) bool {
+	chars := strings.ReplaceAll(rule, " ", "")
+
+	return len(chars) >= 3 &&
+		strings.Contains("*_-", chars[:1]) &&
+		strings.Count(chars, chars[:1]) == len(chars)
+}
+
 func validateConfig(cfg *config) error {
-	if strings.Count(cfg.EmDelimiter, "_") != 1 && strings.Count(cfg.EmDelimiter, "*") != 1 {
+	if !contains([]string{"*", "_"}, cfg.EmDelimiter) {
 		return &ValidateConfigError{
 			Key:                "EmDelimiter",
 			Value:              cfg.EmDelimiter,
 			patternDescription: `exactly 1 character of "*" or "_"`,
 		}
 	}
-	if strings.Count(cfg.StrongDelimiter, "_") != 2 && strings.Count(cfg.StrongDelimiter, "*") != 2 {
+	if !contains([]string{"**", "__"}, cfg.StrongDelimiter) {
 		return &ValidateConfigError{
 			Key:                "StrongDelimiter",
 			Value:              cfg.StrongDelimiter,
@@ -54,9 +64,7 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
-	if strings.Count(cfg.HorizontalRule, "*") < 3 &&
-		strings.Count(cfg.HorizontalRule, "_") < 3 &&
-		strings.Count(cfg.HorizontalRule, "-") < 3 {
+	if !isThematicBreak(cfg.HorizontalRule) {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
-- 
2.43.0


From 7466122966612640ee65f4853f97cdc7384f741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 22/44] fix: do not use list numbers that are not valid
 markdown

---
 plugin/commonmark/render_list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 4cf1789..695306b 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -14,6 +14,8 @@ import (
 	"golang.org/x/net/html"
 )
 
+const maxListNumber = 999999999
+
 func getStartAt(node *html.Node) int {
 	startVal := dom.GetAttributeOr(node, "start", "1")
 	startAt, err := strconv.Atoi(startVal)
@@ -26,6 +28,10 @@ func getStartAt(node *html.Node) int {
 
 func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) string {
 	startAt := getStartAt(n)
+	if startAt < 0 || startAt > maxListNumber-sliceLength {
+		// In markdown the number cannot be negative and can have at most 9 digits.
+		startAt = 1
+	}
 
 	return func(sliceIndex int) string {
 		if n.Data == "ul" {
-- 
2.43.0


From d9598167f496d2315a8ee62f58c2c43078b6ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 23/44] fix: keep the language of an empty code block

---
 internal/domutils/empty_code.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/empty_code.go b/internal/domutils/empty_code.go
index d6d81d1..06fc35c 100644
--- a/internal/domutils/empty_code.go
+++ b/internal/domutils/empty_code.go
@@ -25,10 +25,15 @@ func hasTextChildNodes(startNode *html.Node) bool {
 	return found
 }
 
+func isInsidePre(node *html.Node) bool {
+	return node.Parent != nil && dom.NodeName(node.Parent) == "pre"
+}
+
 func RemoveEmptyCode(ctx context.Context, doc *html.Node) {
 	node := doc
 	for node != nil {
-		if dom.NodeName(node) == "code" && !hasTextChildNodes(node) {
+		// Note: An empty "code" inside a "pre" does no harm, but it can contain the language.
+		if dom.NodeName(node) == "code" && !hasTextChildNodes(node) && !isInsidePre(node) {
 			next := dom.GetNextNeighborNodeExcludingOwnChild(node)
 
 			dom.RemoveNode(node)
-- 
2.43.0


From e533e1e2ad86ac519c0ab533aade617f1e1d2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 24/44] fix: place table cells that span over columns and rows
 at the right column

---
 plugin/table/2_collect.go | 36 ++++++++++++++++++++++++++----------
 plugin/table/utils.go     | 22 +++++++++++++---------
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index e93495f..70ca8d1 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -171,7 +171,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	return alignments
 }
-func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node) ([][]byte, []modification) {
+func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, occupied map[position]bool) ([][]byte, []modification) {
 	cellNodes := dom.FindAllNodes(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
@@ -180,7 +180,13 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 	cellContents := make([][]byte, 0, len(cellNodes))
 	modifications := make([]modification, 0)
 
-	for index, cellNode := range cellNodes {
+	colIndex := 0
+	for _, cellNode := range cellNodes {
+		// The cells from the previous rows can already span into this row.
+		for occupied[position{y: rowIndex, x: colIndex}] {
+			colIndex++
+		}
+
 		var buf bytes.Buffer
 		ctx.RenderNodes(ctx, &buf, cellNode)
 
@@ -198,23 +204,33 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)
 		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
 
-		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
+		mods := calculateModifications(rowIndex, colIndex, rowSpan, colSpan, p.getContentForMergedCell(content))
 
-		modifications = append(modifications, mods...)
+		for _, mod := range mods {
+			pos := position{y: mod.y, x: mod.x}
+			if occupied[pos] {
+				// The cells overlap, so the first one wins.
+				continue
+			}
+			occupied[pos] = true
+			modifications = append(modifications, mod)
+		}
+		colIndex += colSpan
 	}
 
 	return cellContents, modifications
 }
 func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Node, rowNodes []*html.Node) [][][]byte {
 	rowContents := make([][][]byte, 0, len(rowNodes)+1)
-	groupedModifications := make([][]modification, 0)
+	modifications := make([]modification, 0)
+	occupied := make(map[position]bool)
 
 	// - - 1. the header row - - //
 	if headerRowNode != nil {
-		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode)
+		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, occupied)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	} else {
 		// There needs to be *header* row so that the table is recognized.
 		// So it is better to have an empty header row...
@@ -223,16 +239,16 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 2. the normal rows - - //
 	for index, rowNode := range rowNodes {
-		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode)
+		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, occupied)
 
 		rowContents = append(rowContents, cells)
-		groupedModifications = append(groupedModifications, mods)
+		modifications = append(modifications, mods...)
 	}
 
 	// Sometimes a cell wants to *span* over multiple columns or/and rows.
 	// We collected these modifications and are now applying it,
 	// by shifting the cells around.
-	rowContents = applyGroupedModifications(rowContents, groupedModifications)
+	rowContents = applySortedModifications(rowContents, modifications)
 
 	if p.skipEmptyRows {
 		rowContents = removeEmptyRows(rowContents)
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 8542e2c..45a274c 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -1,6 +1,7 @@
 package table
 
 import (
+	"cmp"
 	"slices"
 	"strconv"
 	"unicode/utf8"
@@ -64,6 +65,11 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 	return min(num, maxSpan)
 }
 
+type position struct {
+	y int
+	x int
+}
+
 type modification struct {
 	y    int
 	x    int
@@ -105,16 +111,14 @@ func calculateModifications(currentRowIndex, currentColIndex, rowSpan, colSpan i
 	return mods
 }
 
-func applyGroupedModifications(contents [][][]byte, groupedMods [][]modification) [][][]byte {
-	// By applying the modifications in reverse we correctly
-	// handle overlapping modifications.
-	slices.Reverse(groupedMods)
-
-	for _, mods := range groupedMods {
-		contents = applyModifications(contents, mods)
-	}
+func applySortedModifications(contents [][][]byte, mods []modification) [][][]byte {
+	// Every modification shifts the cells to the right of it.
+	// By going from left to right the other modifications are not affected.
+	slices.SortStableFunc(mods, func(a, b modification) int {
+		return cmp.Or(cmp.Compare(a.y, b.y), cmp.Compare(a.x, b.x))
+	})
 
-	return contents
+	return applyModifications(contents, mods)
 }
 
 func applyModifications(contents [][][]byte, mods []modification) [][][]byte {
-- 
2.43.0


From 406f95a2593b7415eb589f4c52b98af95858f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 25/44] fix: merge the spaces of two text nodes behind an image

---
 collapse/collapse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collapse/collapse.go b/collapse/collapse.go
index 6a2c015..a6c365f 100644
--- a/collapse/collapse.go
+++ b/collapse/collapse.go
@@ -135,6 +135,8 @@ func Collapse(element *html.Node, domFuncs *DomFuncs) {
 			node.Data = text
 
 			prevText = node
+			// The protection is only for the first text after the element.
+			keepLeadingWs = false
 		} else if node.Type == html.ElementNode { // Node.ELEMENT_NODE
 			if domFuncs.IsBlockNode(node) || dom.NodeName(node) == "br" {
 				if prevText != nil {
-- 
2.43.0


From baa7d4c17b990df1eb67ffe4cdf2350bc4713716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 26/44] fix: validate the behaviors for links without href or
 content

---
 plugin/commonmark/validation.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index e84ead1..8c1195d 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -105,5 +105,21 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
+	possibleLinkBehaviors := []string{string(LinkBehaviorRender), string(LinkBehaviorSkip)}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyHrefBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyHrefBehavior",
+			Value:              string(cfg.LinkEmptyHrefBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyContentBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyContentBehavior",
+			Value:              string(cfg.LinkEmptyContentBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From 9603255a4f82897f5a88bfcc2e070f7636fa0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 27/44] fix: keep every caption of a table

---
 plugin/table/2_collect.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 70ca8d1..a6a3b90 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -261,18 +261,23 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 }
 
 func collectCaption(ctx converter.Context, node *html.Node) []byte {
-	captionNode := dom.FindFirstNode(node, func(node *html.Node) bool {
+	// There should only be one caption, but the parser keeps all of them.
+	captionNodes := dom.FindAllNodes(node, func(node *html.Node) bool {
 		return node.DataAtom == atom.Caption
 	})
-	if captionNode == nil {
-		return nil
-	}
 
-	var buf bytes.Buffer
-	ctx.RenderNodes(ctx, &buf, captionNode)
+	var captions [][]byte
+	for _, captionNode := range captionNodes {
+		var buf bytes.Buffer
+		ctx.RenderNodes(ctx, &buf, captionNode)
 
-	content := buf.Bytes()
-	content = bytes.TrimSpace(content)
+		if content := bytes.TrimSpace(buf.Bytes()); len(content) != 0 {
+			captions = append(captions, content)
+		}
+	}
 
-	return content
+	if len(captions) == 0 {
+		return nil
+	}
+	return bytes.Join(captions, []byte("\n\n"))
 }
-- 
2.43.0


From b53eec16bf9c6554af0487c1ca840c7ac8d6814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 28/44] fix: a heading inside of bold text became a second pair
 of delimiters

---
 plugin/commonmark/handle_pre_render.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/commonmark/handle_pre_render.go b/plugin/commonmark/handle_pre_render.go
index 47eebb5..7db8edc 100644
--- a/plugin/commonmark/handle_pre_render.go
+++ b/plugin/commonmark/handle_pre_render.go
@@ -88,6 +88,8 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 	// - - - Heading - - - //
 	domutils.SwapTags(ctx, doc, nameIsLink, nameIsHeading)
 	domutils.LeafBlockAlternatives(ctx, doc)
+	// A heading that became bold could be inside of bold
+	domutils.RemoveRedundant(doc, nameIsBothBoldOrItalic)
 
 	// - - - List - - - //
 	domutils.MoveListItems(ctx, doc)
-- 
2.43.0


From 32bf553c27a5db794c2f32b92fc4c9bc45ea11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 29/44] fix: the content of blocks inside of inline elements
 became one word with its neighbours

---
 internal/domutils/alternatives.go | 59 +++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index a3da350..69dedf0 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -2,6 +2,7 @@ package domutils
 
 import (
 	"context"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
@@ -37,6 +38,58 @@ func getMarkdownStructure(name string) string {
 	}
 }
 
+func getPrevSibling(node *html.Node) *html.Node { return node.PrevSibling }
+func getNextSibling(node *html.Node) *html.Node { return node.NextSibling }
+
+// isSeparated reports whether there is already something (e.g. whitespace)
+// that separates the content of the node from its neighbour.
+func isSeparated(node *html.Node, getSibling func(*html.Node) *html.Node) bool {
+	for getSibling(node) == nil && getMarkdownStructure(dom.NodeName(node.Parent)) == "inline" {
+		node = node.Parent
+	}
+
+	sibling := getSibling(node)
+	if sibling == nil {
+		return true
+	}
+	switch dom.NodeName(sibling) {
+	case "br", "h1", "h2", "h3", "h4", "h5", "h6":
+		return true
+	}
+	return sibling.Type == html.TextNode && strings.TrimSpace(sibling.Data) == ""
+}
+
+func isInsideCode(node *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if name := dom.NodeName(p); name == "pre" || name == "code" {
+			return true
+		}
+	}
+	return false
+}
+
+func newSpace() *html.Node {
+	return &html.Node{Type: html.TextNode, Data: " "}
+}
+
+// separate places spaces around the node, so that its content does not
+// become one word with the content of its neighbours.
+func separate(node *html.Node) {
+	if isInsideCode(node) {
+		// Inside of code every space would be visible
+		return
+	}
+
+	needsBefore := !isSeparated(node, getPrevSibling)
+	needsAfter := !isSeparated(node, getNextSibling)
+	if needsBefore {
+		node.Parent.InsertBefore(newSpace(), node)
+	}
+	if needsAfter {
+		node.Parent.InsertBefore(newSpace(), node.NextSibling)
+	}
+}
+
 func headingAlternative(ctx context.Context, node *html.Node) {
 	node.Data = "strong"
 
@@ -45,6 +98,7 @@ func headingAlternative(ctx context.Context, node *html.Node) {
 		Data: "br",
 	}
 	node.Parent.InsertBefore(newChild, node.NextSibling)
+	separate(node)
 }
 func blockquoteAlternative(ctx context.Context, node *html.Node) {
 	newBefore := &html.Node{Type: html.TextNode, Data: ` "`}
@@ -56,9 +110,13 @@ func blockquoteAlternative(ctx context.Context, node *html.Node) {
 	node.Parent.InsertBefore(newAfter, node.NextSibling)
 }
 func preAlternative(ctx context.Context, node *html.Node) {
+	separate(node)
 	node.Data = "code"
 }
 func hrAlternative(ctx context.Context, node *html.Node) {
+	if !isInsideCode(node) && !isSeparated(node, getPrevSibling) && !isSeparated(node, getNextSibling) {
+		node.Parent.InsertBefore(newSpace(), node)
+	}
 	dom.RemoveNode(node)
 }
 
@@ -93,6 +151,7 @@ func LeafBlockAlternatives(ctx context.Context, doc *html.Node) {
 			if ok {
 				fn(ctx, node)
 			} else {
+				separate(node)
 				node.Data = "span"
 			}
 		}
-- 
2.43.0


From 539e2f0c56b27bba541a616c2d93a421cb11f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:34 +0000
Subject: [PATCH 30/44] fix: an empty heading, quote or list between two texts
 joined them

---
 plugin/commonmark/render_blockquote.go | 2 ++
 plugin/commonmark/render_heading.go    | 2 ++
 plugin/commonmark/render_list.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 9b56b27..fd7f6a3 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -16,6 +16,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
 	if content == nil {
+		// Still separate the content before and after
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 5b2bf21..b42744c 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -116,6 +116,8 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	content := buf.Bytes()
 
 	if len(bytes.TrimSpace(content)) == 0 {
+		// Still separate the content before and after
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 695306b..aaba412 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -108,6 +108,8 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 	}
 
 	if len(items) == 0 {
+		// Still separate the content before and after
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
-- 
2.43.0


From 082cebb7892b043701d26f366e565b17fadf073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 31/44] fix: an empty kbd, samp, var or tt element gave two
 backticks

---
 internal/domutils/empty_code.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/empty_code.go b/internal/domutils/empty_code.go
index 06fc35c..284124d 100644
--- a/internal/domutils/empty_code.go
+++ b/internal/domutils/empty_code.go
@@ -25,6 +25,14 @@ func hasTextChildNodes(startNode *html.Node) bool {
 	return found
 }
 
+func isInlineCode(node *html.Node) bool {
+	switch dom.NodeName(node) {
+	case "code", "var", "samp", "kbd", "tt":
+		return true
+	}
+	return false
+}
+
 func isInsidePre(node *html.Node) bool {
 	return node.Parent != nil && dom.NodeName(node.Parent) == "pre"
 }
@@ -33,7 +41,7 @@ func RemoveEmptyCode(ctx context.Context, doc *html.Node) {
 	node := doc
 	for node != nil {
 		// Note: An empty "code" inside a "pre" does no harm, but it can contain the language.
-		if dom.NodeName(node) == "code" && !hasTextChildNodes(node) && !isInsidePre(node) {
+		if isInlineCode(node) && !hasTextChildNodes(node) && !isInsidePre(node) {
 			next := dom.GetNextNeighborNodeExcludingOwnChild(node)
 
 			dom.RemoveNode(node)
-- 
2.43.0


From a1df51dc9fc62a5608fd8b59282ecfc936fa8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 32/44] fix: separate blocks inside of nested inline elements
 from their neighbours too

---
 internal/domutils/alternatives.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index 69dedf0..048dd03 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -38,13 +38,18 @@ func getMarkdownStructure(name string) string {
 	}
 }
 
+func isInlineContent(node *html.Node) bool {
+	name := dom.NodeName(node)
+	return node.Type == html.ElementNode && name != "body" && name != "html" && !dom.NameIsBlockNode(name)
+}
+
 func getPrevSibling(node *html.Node) *html.Node { return node.PrevSibling }
 func getNextSibling(node *html.Node) *html.Node { return node.NextSibling }
 
 // isSeparated reports whether there is already something (e.g. whitespace)
 // that separates the content of the node from its neighbour.
 func isSeparated(node *html.Node, getSibling func(*html.Node) *html.Node) bool {
-	for getSibling(node) == nil && getMarkdownStructure(dom.NodeName(node.Parent)) == "inline" {
+	for getSibling(node) == nil && isInlineContent(node.Parent) {
 		node = node.Parent
 	}
 
-- 
2.43.0


From 7d1aa64f4c27f4c562d0d1a99c450fa5121d5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:39 +0000
Subject: [PATCH 33/44] fix: keep encoded delimiters of urls that also contain
 invalid characters

---
 converter/url.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/converter/url.go b/converter/url.go
index 4d582de..e218d0c 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -1,8 +1,10 @@
 package converter
 
 import (
+	"fmt"
 	"net/url"
 	"strings"
+	"unicode/utf8"
 )
 
 var percentEncodingReplacer = strings.NewReplacer(
@@ -25,6 +27,8 @@ func parseBaseDomain(rawDomain string) *url.URL {
 		return nil
 	}
 
+	rawDomain = encodeInvalidBytes(rawDomain)
+
 	u1, err := url.Parse(rawDomain)
 	if err == nil && u1.Host != "" {
 		// Yes, we got valid domain (probably with a http/https scheme)
@@ -39,6 +43,24 @@ func parseBaseDomain(rawDomain string) *url.URL {
 
 	return nil
 }
+
+// encodeInvalidBytes percent-encodes the bytes that are not allowed inside an url.
+//
+// If there is one of them inside the path, then url.URL would decode the path and
+// encode it again. With that a delimiter (e.g. "%2F") would lose its encoding.
+func encodeInvalidBytes(rawURL string) string {
+	var b strings.Builder
+	for i := 0; i < len(rawURL); i++ {
+		if rawURL[i] >= utf8.RuneSelf || strings.IndexByte(" \"<>\\^`{|}", rawURL[i]) != -1 {
+			fmt.Fprintf(&b, "%%%02X", rawURL[i])
+		} else {
+			b.WriteByte(rawURL[i])
+		}
+	}
+
+	return b.String()
+}
+
 func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) string {
 	rawURL = strings.TrimSpace(rawURL)
 
@@ -52,7 +74,7 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 	rawURL = strings.ReplaceAll(rawURL, "\n", "%0A")
 	rawURL = strings.ReplaceAll(rawURL, "\t", "%09")
 
-	u, err := url.Parse(rawURL)
+	u, err := url.Parse(encodeInvalidBytes(rawURL))
 	if err != nil {
 		// We can't do anything with this url because it is invalid
 		return percentEncodingReplacer.Replace(rawURL)
-- 
2.43.0


From 96d40fa1d42a66875fd11a6ece915be679fff73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:41 +0000
Subject: [PATCH 34/44] fix: keep the brackets of an IPv6 address inside urls

---
 converter/url.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/converter/url.go b/converter/url.go
index e218d0c..c783bae 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -100,7 +100,16 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 		u = base.ResolveReference(u)
 	}
 
-	return percentEncodingReplacer.Replace(u.String())
+	result := u.String()
+	if strings.HasPrefix(u.Host, "[") {
+		// The brackets are part of the IPv6 address. With encoded brackets
+		// it would not be an address anymore.
+		start, end := strings.IndexByte(result, '['), strings.IndexByte(result, ']')+1
+
+		return percentEncodingReplacer.Replace(result[:start]) + result[start:end] + percentEncodingReplacer.Replace(result[end:])
+	}
+
+	return percentEncodingReplacer.Replace(result)
 }
 
 // - - - - //
-- 
2.43.0


From e47f1e48dd600dab4229f46430991d80cd70cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:40 +0000
Subject: [PATCH 35/44] fix: find the nodes for both selectors in the
 unmodified document

---
 cli/html2markdown/cmd/cmd_convert.go | 55 ++++++++++++++--------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 823627b..f96f69b 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -33,32 +33,41 @@ func overrideValidationError(e *commonmark.ValidateConfigError) error {
 	return e
 }
 
-func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
-	if len(cli.config.includeSelector) == 0 {
-		return doc, nil
+// isPartOfDoc checks that the node was not removed from the document —
+// either directly or as a descendant of another node.
+func isPartOfDoc(doc *html.Node, node *html.Node) bool {
+	for node.Parent != nil {
+		node = node.Parent
 	}
-	nodes := cascadia.QueryAll(doc, cli.config.includeSelector)
+	return node == doc
+}
 
-	root := &html.Node{}
-	for _, n := range nodes {
-		dom.RemoveNode(n)
-		root.AppendChild(n)
+func (cli *CLI) selectNodesFromDoc(doc *html.Node) *html.Node {
+	// First find all the nodes and only then move or remove them. Otherwise that
+	// would influence which other nodes match (e.g. ":last-child" or "body .ad").
+	includeNodes := cascadia.QueryAll(doc, cli.config.includeSelector)
+	excludeNodes := cascadia.QueryAll(doc, cli.config.excludeSelector)
+
+	for _, node := range excludeNodes {
+		dom.RemoveNode(node)
 	}
 
-	return root, nil
-}
-func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
-	if len(cli.config.excludeSelector) == 0 {
-		return nil
+	if len(cli.config.includeSelector) == 0 {
+		return doc
 	}
 
-	// First find all the nodes and only then remove them. Otherwise removing
-	// a node would influence whether its siblings match (e.g. ":last-child").
-	for _, node := range cascadia.QueryAll(doc, cli.config.excludeSelector) {
+	root := &html.Node{}
+	for _, node := range includeNodes {
+		if !isPartOfDoc(doc, node) {
+			// It is inside of an excluded node, or inside of
+			// another node that was already included.
+			continue
+		}
 		dom.RemoveNode(node)
+		root.AppendChild(node)
 	}
 
-	return nil
+	return root
 }
 func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 	r := bytes.NewReader(input)
@@ -68,17 +77,7 @@ func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 		return nil, fmt.Errorf("error while parsing html: %w", err)
 	}
 
-	doc, err = cli.includeNodesFromDoc(doc)
-	if err != nil {
-		return nil, err
-	}
-
-	err = cli.excludeNodesFromDoc(doc)
-	if err != nil {
-		return nil, err
-	}
-
-	return doc, nil
+	return cli.selectNodesFromDoc(doc), nil
 }
 
 func (cli *CLI) convert(input []byte) ([]byte, error) {
-- 
2.43.0


From 39956d571b682aa696dd6d5cf208394266286e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:42 +0000
Subject: [PATCH 36/44] fix: read all inputs before an output could replace one
 of them

---
 cli/html2markdown/cmd/exec.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/html2markdown/cmd/exec.go b/cli/html2markdown/cmd/exec.go
index 785207a..9a7c5df 100644
--- a/cli/html2markdown/cmd/exec.go
+++ b/cli/html2markdown/cmd/exec.go
@@ -169,13 +169,17 @@ func (cli *CLI) run() ([]error, error) {
 		return nil, err
 	}
 
+	// First read all the inputs and only then write the outputs. Otherwise an output
+	// could replace an input (e.g. with --output-overwrite) that was not read yet.
 	for _, input := range inputs {
-		data, err := cli.readInput(input)
+		input.data, err = cli.readInput(input)
 		if err != nil {
 			return nil, err
 		}
+	}
 
-		markdown, err := cli.convert(data)
+	for _, input := range inputs {
+		markdown, err := cli.convert(input.data)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 778e1c8049b6f779f6d72c98dd823d21ad0b869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:43 +0000
Subject: [PATCH 37/44] fix: report an error if the output could not be written
 to stdout

---
 cli/html2markdown/cmd/io_output.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 6db5f9c..ad897bc 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -176,7 +176,10 @@ func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []b
 		}
 	default:
 		{
-			fmt.Fprintln(cli.Stdout, string(markdown))
+			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
+			if err != nil {
+				return fmt.Errorf("error while writing to stdout: %w", err)
+			}
 
 			return nil
 		}
-- 
2.43.0


From 3c5eccaf5d15f33fff6da404498acaac14439499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:29 +0000
Subject: [PATCH 38/44] fix: split the classes of a code block at every
 whitespace

---
 plugin/commonmark/render_code.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e939384..3d78ff0 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -93,7 +93,8 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 func getCodeLanguage(n *html.Node) string {
 	class := dom.GetAttributeOr(n, "class", "")
 
-	parts := strings.Split(class, " ")
+	// The classes can also be separated by tabs or newlines
+	parts := strings.Fields(class)
 	for _, part := range parts {
 		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
 			continue
-- 
2.43.0


From 06acb7b11b72f3b7806fd704f68abaaf02422f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:31 +0000
Subject: [PATCH 39/44] fix: keep code blocks intact if the language contains a
 backtick

---
 plugin/commonmark/render_code.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 3d78ff0..c996f52 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -73,6 +73,10 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 
 	fenceChar, _ := utf8.DecodeRuneInString(c.CodeBlockFence)
 	fence := textutils.CalculateCodeFence(fenceChar, string(code))
+	if fenceChar == '`' {
+		// The code block would not be recognized if there are backticks in the info string.
+		infoString = strings.ReplaceAll(infoString, "`", "")
+	}
 
 	// We want to keep the original content inside the code block untouched.
 	// Because multiple newlines would be trimmed, we temporarily replace it with another character.
-- 
2.43.0


From 6744acc5f0e3a4b1fbb767c505fb399d131f52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:39 +0000
Subject: [PATCH 40/44] fix: treat carriage returns inside of code, titles and
 alt descriptions as newlines

---
 internal/textutils/collapse_code.go | 1 +
 plugin/commonmark/render_code.go    | 4 ++++
 plugin/commonmark/render_image.go   | 4 ++--
 plugin/commonmark/render_link.go    | 5 ++++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/textutils/collapse_code.go b/internal/textutils/collapse_code.go
index 47772e2..712e7d2 100644
--- a/internal/textutils/collapse_code.go
+++ b/internal/textutils/collapse_code.go
@@ -7,6 +7,7 @@ import (
 func CollapseInlineCodeContent(content []byte) []byte {
 	// TODO: what about other characters like the reset char? Maybe unicode.IsSpace?
 	content = bytes.ReplaceAll(content, []byte{'\n'}, []byte{' '})
+	content = bytes.ReplaceAll(content, []byte{'\r'}, []byte{' '})
 	content = bytes.ReplaceAll(content, []byte{'\t'}, []byte{' '})
 
 	content = bytes.TrimSpace(content)
diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index c996f52..2fea8f0 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -67,6 +67,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	code, infoString := getCodeWithoutTags(n)
 
+	// A carriage return is also recognized as the end of a line.
+	code = bytes.ReplaceAll(code, []byte("\r\n"), []byte("\n"))
+	code = bytes.ReplaceAll(code, []byte("\r"), []byte("\n"))
+
 	if bytes.HasSuffix(code, []byte("\n")) {
 		code = code[:len(code)-1]
 	}
diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 9884885..eb8f8f1 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -52,10 +52,10 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = newlineReplacer.Replace(title)
 
 	alt := dom.GetAttributeOr(n, "alt", "")
-	alt = strings.ReplaceAll(alt, "\n", " ")
+	alt = newlineReplacer.Replace(alt)
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 9919b18..a10764b 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -25,6 +25,9 @@ type link struct {
 	title string
 }
 
+// A carriage return is also recognized as the end of a line.
+var newlineReplacer = strings.NewReplacer("\n", " ", "\r", " ")
+
 func (c *commonmark) renderLinkInlined(w converter.Writer, l *link) converter.RenderStatus {
 
 	w.Write(l.before)
@@ -59,7 +62,7 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 	}
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = newlineReplacer.Replace(title)
 
 	l := &link{
 		Node:  n,
-- 
2.43.0


From ea85161181ea8f71424e54084e80db9c81ddca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 41/44] fix: only merge adjacent elements of the same parent

---
 internal/domutils/adjacent.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 49faccb..e4c7b80 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -5,11 +5,32 @@ import (
 	"golang.org/x/net/html"
 )
 
+// A span has no special meaning. So the nodes inside and outside of
+// a span are neighbours, but only up to the end of the actual parent.
+func getParentExcludingSpan(node *html.Node) *html.Node {
+	parent := node.Parent
+	for parent != nil && dom.NodeName(parent) == "span" {
+		parent = parent.Parent
+	}
+	return parent
+}
+
+func isInside(node *html.Node, parent *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if p == parent {
+			return true
+		}
+	}
+	return false
+}
+
 func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
-	node = node.NextSibling
-	for node != nil {
+	parent := getParentExcludingSpan(node)
+
+	node = dom.GetNextNeighborNodeExcludingOwnChild(node)
+	for node != nil && isInside(node, parent) {
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-- 
2.43.0


From 2ac2af8309ed36ccd559acc2df3026696356d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:37 +0000
Subject: [PATCH 42/44] fix: do not add spaces around bold text inside of code

---
 internal/domutils/add_space.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index f26c0d7..9b5b678 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -43,7 +43,8 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 func AddSpace(ctx context.Context, doc *html.Node, isOuterNode, isInnerNode func(*html.Node) bool) {
 	node := doc
 	for node != nil {
-		if isOuterNode(node) {
+		// Inside of code every space would be visible
+		if isOuterNode(node) && !isInsideCode(node) {
 			firstChild := getFirstChildNode(node, isInnerNode)
 			if firstChild != nil {
 				prev := getPrevTextNode(node)
-- 
2.43.0


From ef97a102153b3e5f07d108d683695fc52c852db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:33 +0000
Subject: [PATCH 43/44] fix: keep the whitespace behind var, samp, kbd and tt

---
 collapse/is_node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/collapse/is_node.go b/collapse/is_node.go
index f0d524d..da4897c 100644
--- a/collapse/is_node.go
+++ b/collapse/is_node.go
@@ -37,7 +37,10 @@ var defaultIsVoidNode = func(node *html.Node) bool {
 var defaultIsPreformattedNode = func(node *html.Node) bool {
 	// Note: Originally in the javascript version, this just checked for "pre".
 	// I changed it, to also return true for "code"
-	name := dom.NodeName(node)
-
-	return name == "pre" || name == "code"
+	// The same goes for the other elements that are rendered as inline code.
+	switch dom.NodeName(node) {
+	case "pre", "code", "var", "samp", "kbd", "tt":
+		return true
+	}
+	return false
 }
-- 
2.43.0


From 2d8db4485945c2f2d3440bee2799b8ae45768cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:33 +0000
Subject: [PATCH 44/44] fix: keep non-breaking spaces at the edges of inline
 code

---
 internal/textutils/collapse_code.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/textutils/collapse_code.go b/internal/textutils/collapse_code.go
index 712e7d2..4e0a0b2 100644
--- a/internal/textutils/collapse_code.go
+++ b/internal/textutils/collapse_code.go
@@ -10,7 +10,8 @@ func CollapseInlineCodeContent(content []byte) []byte {
 	content = bytes.ReplaceAll(content, []byte{'\r'}, []byte{' '})
 	content = bytes.ReplaceAll(content, []byte{'\t'}, []byte{' '})
 
-	content = bytes.TrimSpace(content)
+	// Other spaces (e.g. a non-breaking space) are part of the content
+	content = bytes.Trim(content, " \f")
 
 	newChars := make([]byte, 0, len(content))
 
-- 
2.43.0

