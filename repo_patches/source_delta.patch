From aa85ab4bb5d5dd3c6db528a927ddd2ecdac0a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 01/15] fix: print every plugin section with its own comment

---
 ast/ast.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 30ac8cb..e53dcf8 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -146,9 +146,7 @@ func pluginSectionString(pluginType string, ps []PluginSection) string {
 
 	var s bytes.Buffer
 	for i, p := range ps {
-		if len(ps) > 0 {
-			s.WriteString(ps[0].CommentBlock.String())
-		}
+		s.WriteString(p.CommentBlock.String())
 		s.WriteString(fmt.Sprint(pluginType + " {"))
 		s.WriteString(prefix(p.String(), false))
 		s.WriteString(prefix(p.FooterComment.String(), false))
-- 
2.43.0


From 81f7e0c6ce35bbf5f3306fc977b423d2355fabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 02/15] fix: do not panic in check and lint if a file does not
 exist

---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From 790ad591bd3989fc07cc3dc8faa017cfe0a1485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 03/15] fix: keep the value of very small and very large
 numbers when printing

---
 ast/ast.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index e53dcf8..fe9fa79 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -479,9 +480,15 @@ func (na NumberAttribute) ValueString() string {
 	value := fmt.Sprintf("%g", na.Value())
 	if strings.Contains(value, "e") {
 		if float64(int64(na.Value())+0) == na.Value() {
-			return fmt.Sprintf("%d", int64(na.Value()))
+			value = fmt.Sprintf("%d", int64(na.Value()))
+		} else {
+			value = strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		}
+		// Fall back to the exact representation, if the value does not survive
+		// in the shortened form.
+		if v, err := strconv.ParseFloat(value, 64); err != nil || v != na.Value() {
+			value = strconv.FormatFloat(na.Value(), 'f', -1, 64)
 		}
-		return strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
 	}
 	return value
 }
-- 
2.43.0


From 69398d454e47d8fda1134fc260860ac57c964a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 04/15] fix: accept plugins as array elements and hash values

---
 logstash_config_helper.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..23b6663 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -236,12 +236,24 @@ func (c *current) attributeComment(attribute1, comment1 interface{}, spaceBefore
 	case ast.PluginAttribute:
 		attr.Comment = c.commentBlock(comment1, spaceBefore, false)
 		attribute = attr
+	case ast.Plugin:
+		pa := pluginValue(attr)
+		pa.Comment = c.commentBlock(comment1, spaceBefore, false)
+		attribute = pa
 	default:
 		return nil, fmt.Errorf("Unsupported attribute type %#v", attribute1)
 	}
 	return attribute, nil
 }
 
+// pluginValue wraps a plugin, which is used as value of an array element or a
+// hash entry, into a (nameless) attribute.
+func pluginValue(plugin ast.Plugin) ast.PluginAttribute {
+	pa := ast.NewPluginAttribute("", plugin)
+	pa.Start = plugin.Pos()
+	return pa
+}
+
 func (c *current) attribute(name, value interface{}) (ast.Attribute, error) {
 	var key ast.StringAttribute
 
@@ -361,6 +373,10 @@ func (c *current) hashentries(attribute, attributes1 interface{}) ([]ast.HashEnt
 func (c *current) hashentry(name, value, comment interface{}) (ast.HashEntry, error) {
 	key := name.(ast.HashEntryKey)
 
+	if plugin, ok := value.(ast.Plugin); ok {
+		value = pluginValue(plugin)
+	}
+
 	he := ast.NewHashEntry(key, value.(ast.Attribute))
 	he.Start = c.astPos()
 	he.Comment = c.commentBlock(comment, true, false)
-- 
2.43.0


From d0e11c1910c41d1e136368a9aa4fb06560749715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 05/15] fix: detect and escape quotes at the start of a value
 and at its second character

---
 ast/astutil/quote.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 206482d..3bfc6a6 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -19,12 +19,17 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		var hasQuote bool
 		quote := quoteType.String()[0]
 		for i := 0; i < len(value); i++ {
-			if value[i] == quote && i > 1 && value[i-1] != '\\' {
+			if value[i] == quote && (i == 0 || value[i-1] != '\\') {
 				hasQuote = true
 				break
 			}
 		}
 
+		// A trailing backslash would escape the closing quote.
+		if len(value) > 0 && value[len(value)-1] == '\\' {
+			hasQuote = true
+		}
+
 		if hasQuote {
 			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
 		}
@@ -67,7 +72,7 @@ func escapeQuotes(value string, quote byte) string {
 	b := []byte(value)
 
 	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || i > 1 && b[i-1] != '\\') {
+		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
 			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
 		}
 	}
-- 
2.43.0


From e063bc0f898d034ae0b41bfc62327b284b9b5f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 06/15] fix: add unique and valid ids with lint --auto-fix-id

---
 internal/app/lint/lint.go | 50 ++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..04bbc54 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -55,16 +55,19 @@ func (l Lint) Run(args []string) error {
 		v := validator{
 			autoFixID: l.autoFixID,
 			allIDs:    map[string]struct{}{},
+			usedIDs:   map[string]struct{}{},
 		}
 
-		for i := range conf.Input {
-			astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, v.walk)
-		}
-		for i := range conf.Filter {
-			astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, v.walk)
-		}
-		for i := range conf.Output {
-			astutil.ApplyPlugins(conf.Output[i].BranchOrPlugins, v.walk)
+		for _, walk := range []astutil.ApplyPluginsFunc{v.collect, v.walk} {
+			for i := range conf.Input {
+				astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, walk)
+			}
+			for i := range conf.Filter {
+				astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, walk)
+			}
+			for i := range conf.Output {
+				astutil.ApplyPlugins(conf.Output[i].BranchOrPlugins, walk)
+			}
 		}
 
 		if len(v.noIDs) > 0 {
@@ -117,6 +120,14 @@ type validator struct {
 	changed      bool
 	duplicateIDs []string
 	allIDs       map[string]struct{}
+	usedIDs      map[string]struct{} // all IDs of the file, inclusive of the ones added by autoFixID
+}
+
+// collect collects all the IDs, that are present in the file.
+func (v *validator) collect(c *astutil.Cursor) {
+	if id, err := c.Plugin().ID(); err == nil {
+		v.usedIDs[id] = struct{}{}
+	}
 }
 
 func (v *validator) walk(c *astutil.Cursor) {
@@ -124,11 +135,11 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
-			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin := *c.Plugin()
+			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(plugin.Name()), ast.DoubleQuoted))
 
 			c.Replace(plugin)
 		} else {
@@ -144,3 +155,20 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	v.allIDs[id] = struct{}{}
 }
+
+// newID returns an ID for the current plugin, which is not yet used in the file.
+func (v *validator) newID(name string) string {
+	if len(name) > 0 && (name[0] == '"' || name[0] == '\'') {
+		// The name of the plugin is a quoted string.
+		name = astutil.QuoteWithEscape(name[1:len(name)-1], ast.DoubleQuoted)
+		name = name[1 : len(name)-1]
+	}
+
+	for n := v.count; ; n++ {
+		id := fmt.Sprintf("%s-%d", name, n)
+		if _, ok := v.usedIDs[id]; !ok {
+			v.usedIDs[id] = struct{}{}
+			return id
+		}
+	}
+}
-- 
2.43.0


From 92935862f1c8965888a36dafce91a5c8466eadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 07/15] fix: keep the cursor at the current plugin after
 InsertBefore

---
 ast/astutil/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24c9e57..1d749b9 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -123,7 +123,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 		panic("InsertBefore plugin not contained in slice")
 	}
 	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
-	c.iter.step++
+	c.iter.index++ // keep the cursor at the current Plugin
 }
 
 // InsertAfter inserts p after the current Plugin in its containing slice.
-- 
2.43.0


From 23df744cd28db069fe729bdc6e616e937bad358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 08/15] fix: set the position of numbers, arrays and hashes
 used as values

---
 logstash_config_helper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 23b6663..bac8f0e 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -319,7 +319,9 @@ func (c *current) number() (ast.NumberAttribute, error) {
 		// TODO: is this possible to happen? are all values, which are valid floats in Logstash/Ruby also valid floats in Go?
 		return ast.NumberAttribute{}, err
 	}
-	return ast.NewNumberAttribute("", f), nil
+	na := ast.NewNumberAttribute("", f)
+	na.Start = c.astPos()
+	return na, nil
 }
 
 func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttribute, error) {
@@ -329,6 +331,7 @@ func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttri
 	}
 
 	a := ast.NewArrayAttribute("", attributes...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
@@ -342,6 +345,7 @@ func (c *current) hash(attributes1, footerComment1 interface{}) (ast.HashAttribu
 	}
 
 	a := ast.NewHashAttribute("", hashentries...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
-- 
2.43.0


From fdf0e5edc0c7f9945c1aae6ac5fb09cb119c5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 09/15] fix: do not change the content of strings, regexps and
 selectors when indenting

---
 ast/ast_helper.go | 89 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 10 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..b3dfdc7 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -3,17 +3,9 @@ package ast
 import (
 	"bytes"
 	"fmt"
-	"regexp"
 	"strings"
 )
 
-// This regular expression splits the config into indentable chunks that are:
-// * empty line
-// * line of comment
-// * line without any quotes
-// * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
-
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
 		if emptyNewline {
@@ -24,8 +16,8 @@ func prefix(in string, emptyNewline bool) string {
 
 	var s bytes.Buffer
 	s.WriteString("\n")
-	lines := linesRe.FindAllString(strings.TrimRight(in, "\n")+"\n", -1)
-	for _, l := range lines {
+	lines := lineScanner{in: strings.TrimRight(in, "\n") + "\n"}
+	for l := lines.next(); len(l) > 0; l = lines.next() {
 		if len(strings.TrimLeft(l, " \n")) == 0 {
 			s.WriteString("\n")
 			continue
@@ -34,3 +26,80 @@ func prefix(in string, emptyNewline bool) string {
 	}
 	return s.String()
 }
+
+// A lineScanner splits the config into indentable chunks, which are lines,
+// where newlines inside of strings, regexps and selectors do not end a line.
+// The content of comments has no special meaning.
+type lineScanner struct {
+	in        string
+	condition bool // inside of a condition
+	depth     int  // nesting level of arrays inside of a condition
+}
+
+// next returns the next line inclusive of its newline or the empty string, if
+// there are no more lines.
+func (ls *lineScanner) next() string {
+	if ls.depth == 0 {
+		ls.condition = startsCondition(ls.in)
+	}
+
+	end := len(ls.in)
+	for i := 0; i < end; i++ {
+		switch ls.in[i] {
+		case '\n':
+			end = i + 1
+		case '#':
+			if newline := strings.IndexByte(ls.in[i:], '\n'); newline >= 0 {
+				i += newline - 1
+			}
+		case '"', '\'':
+			i = ls.closing(i)
+		case '/':
+			if ls.condition {
+				i = ls.closing(i)
+			}
+		case '[':
+			if !ls.condition {
+				continue
+			}
+			if n := strings.IndexAny(ls.in[i+1:], "[],"); ls.depth == 0 && n > 0 && ls.in[i+1+n] == ']' {
+				i += n + 1 // selector element
+				continue
+			}
+			ls.depth++
+		case ']':
+			if ls.depth > 0 {
+				ls.depth--
+			}
+		case '{':
+			if ls.depth == 0 {
+				ls.condition = false
+			}
+		}
+	}
+
+	line := ls.in[:end]
+	ls.in = ls.in[end:]
+	return line
+}
+
+// startsCondition returns true, if the line starts with the condition of an
+// if- or an else-if-block.
+func startsCondition(line string) bool {
+	line = strings.TrimLeft(line, " ")
+	line = strings.TrimPrefix(line, "} ")
+	line = strings.TrimPrefix(line, "else ")
+	// Plugins and attributes may have the name "if" as well.
+	return strings.HasPrefix(line, "if ") && !strings.HasPrefix(line, "if {") && !strings.HasPrefix(line, "if =>")
+}
+
+// closing returns the index of the delimiter, which closes the string or the
+// regexp, that starts at index i.
+func (ls *lineScanner) closing(i int) int {
+	for j := i + 1; j < len(ls.in); j++ {
+		if ls.in[j] == ls.in[i] && ls.in[j-1] != '\\' {
+			return j
+		}
+	}
+	return len(ls.in)
+}
-- 
2.43.0


From 5523792ad113ce11df38356d0f85fc125300b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 10/15] fix: recognise the id of a plugin if the attribute name
 is quoted

---
 ast/ast.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index fe9fa79..e981f65 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -301,7 +301,7 @@ func (p Plugin) String() string {
 // the NotFounder interface.
 func (p Plugin) ID() (string, error) {
 	for _, attr := range p.Attributes {
-		if attr != nil && attr.Name() == "id" {
+		if attr != nil && isID(attr.Name()) {
 			switch stringAttr := attr.(type) {
 			case StringAttribute:
 				return stringAttr.value, nil
@@ -313,6 +313,12 @@ func (p Plugin) ID() (string, error) {
 	return "", NotFoundErrorf("plugin %s does not contain an id attribute", p.name)
 }
 
+// isID returns true, if name is the name of the id attribute. The name of an
+// attribute may be written with quotes.
+func isID(name string) bool {
+	return name == "id" || name == `"id"` || name == `'id'`
+}
+
 // Attribute interface combines Logstash plugin attribute types.
 type Attribute interface {
 	Name() string
-- 
2.43.0


From f8baec819a5b9050b26a2309bbb820e8e0d016cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 11/15] fix: do not report the parse failure of an other file
 for unreadable files

---
 internal/app/check/check.go   | 3 ++-
 internal/app/format/format.go | 3 ++-
 internal/app/lint/lint.go     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..9ead445 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -32,7 +32,8 @@ func (f Check) Run(args []string) error {
 
 		_, err = config.ParseFile(filename, config.IgnoreComments(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			_, isReadErr := err.(*os.PathError)
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !isReadErr {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..8cb8024 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -36,7 +36,8 @@ func (f Format) Run(args []string) error {
 
 		c, err := config.ParseFile(filename)
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			_, isReadErr := err.(*os.PathError)
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !isReadErr {
 				if !strings.Contains(err.Error(), errMsg) {
 					return errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 04bbc54..f51f4e0 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -39,7 +39,8 @@ func (l Lint) Run(args []string) error {
 
 		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			_, isReadErr := err.(*os.PathError)
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !isReadErr {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
-- 
2.43.0


From 8c1e63557aca31e7a1c02cb1bc8092000939fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 12/15] fix: report a failing write to standard output in
 format

---
 internal/app/format/format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 8cb8024..a0d5184 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -67,7 +67,9 @@ func (f Format) Run(args []string) error {
 			continue
 		}
 
-		fmt.Fprint(f.out, c)
+		if _, err := fmt.Fprint(f.out, c); err != nil {
+			return errors.Wrap(err, "failed to write formatted configuration")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 50634b6f7fd6a98b77167bbc33bd8c3327916604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 13/15] fix: guard the farthest failure against concurrent
 parses

---
 logstash_config_helper.go |  3 +++
 parse_error_helper.go     | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index bac8f0e..54a5db5 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -28,6 +28,9 @@ func (c *current) initState() error {
 }
 
 func (c *current) initParser() (bool, error) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	farthestFailure = []errPos{}
 	return true, nil
 }
diff --git a/parse_error_helper.go b/parse_error_helper.go
index ac32c01..ed8d3b2 100644
--- a/parse_error_helper.go
+++ b/parse_error_helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"sync"
 )
 
 type errPos struct {
@@ -12,11 +13,17 @@ type errPos struct {
 	pos int
 }
 
+// farthestFailureMu protects farthestFailure, which is shared by all parsers.
+var farthestFailureMu sync.Mutex
+
 var farthestFailure []errPos
 
 // GetFarthestFailure returns the farthest position where the parser had a parse error.
 // The farthest position is normally close to the real source for the error.
 func GetFarthestFailure() (string, bool) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	if len(farthestFailure) > 0 {
 		var bb bytes.Buffer
 		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c.pos, farthestFailure[0].pos, showNewline(string(farthestFailure[0].c.text))))
@@ -44,6 +51,10 @@ func pos(c *current) int {
 // The assumption is, that the longest successful parse tree is the most acurate.
 func (c *current) pushError(errorMsg string) (bool, error) {
 	pos := pos(c)
+
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	if len(farthestFailure) == 0 || pos > farthestFailure[0].pos {
 		farthestFailure = []errPos{{msg: errorMsg, c: *c, pos: pos}}
 	} else {
@@ -63,6 +74,7 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 // In most cases this is a missing closing character of a pair, which was opened before.
 // Example: a missing closing square bracket or a missing closing double quote.
 func (c *current) fatalError(errorMsg string) (bool, error) {
+	farthestFailureMu.Lock()
 	farthestFailure = []errPos{
 		{
 			msg: errorMsg,
@@ -70,6 +82,8 @@ func (c *current) fatalError(errorMsg string) (bool, error) {
 			pos: pos(c),
 		},
 	}
+	farthestFailureMu.Unlock()
+
 	var bb bytes.Buffer
 	bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", c.pos, pos(c), showNewline(string(c.text))))
 	bb.WriteString(fmt.Sprintf("-> %s\n", errorMsg))
-- 
2.43.0


From 0ba90c4c80b31bad01275cdc5c1a3252e604346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 14/15] fix: ignore leading empty lines in front of a comment,
 if they contain white space

---
 logstash_config_helper.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 54a5db5..1560b52 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -150,10 +150,11 @@ func (c *current) comment() ([]ast.Comment, error) {
 
 	var commentLines []ast.Comment
 	var space bool
-	for i, line := range lines {
+	for _, line := range lines {
 		idx := strings.Index(line, "#")
 		if idx == -1 {
-			if i > 0 {
+			// Empty lines are preserved between comments, but not in front of the first one.
+			if len(commentLines) > 0 {
 				space = true
 			}
 			continue
-- 
2.43.0


From 8874e0b7338e43c44eb2ee9bbd378d2b621170cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 15/15] fix: keep the blank line after the comments of all
 sections

The blank line after the comments of the first section was kept, the one of
later sections was dropped. Formatting sorts the sections by type, such that
the first section may become a later one: formatting the result again changed
it.
---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 1560b52..4843412 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -77,7 +77,7 @@ func (c *current) configSection(ps1, psComment1 interface{}) (ast.PluginSection,
 		return ast.PluginSection{}, fmt.Errorf("Value is not a PluginSection: %#v", ps1)
 	}
 
-	psComments := c.commentBlock(psComment1, false, false)
+	psComments := c.commentBlock(psComment1, false, true)
 
 	ps.CommentBlock = psComments
 
-- 
2.43.0

