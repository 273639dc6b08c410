From 7be107fa91440efadfb10b160aa1ede0462a8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 01/21] fix: end the node on the stack, not a stale copy, after
 its content grew the stack

---
 node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node.go b/node.go
index f26ee9e..3593643 100644
--- a/node.go
+++ b/node.go
@@ -156,6 +156,8 @@ func (n *node) end(w *Writer) error {
 		if err := w.nodes[w.current].opened(w); err != nil {
 			return err
 		}
+		// opened() may write content, which can reallocate the stack:
+		n = &w.nodes[w.current]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From ca106f6185702a7d0b79b93926d17f1dfbb910bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 02/21] fix: escape carriage returns in text so they survive
 line-end normalisation

---
 printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printer.go b/printer.go
index cca62d5..e659bc0 100644
--- a/printer.go
+++ b/printer.go
@@ -143,6 +143,9 @@ func (p printer) EscapeString(s string) error {
 			esc = escLt
 		case '>':
 			esc = escGt
+		case '\r':
+			// a literal CR would be lost to the reader's line-end handling
+			esc = escCr
 		default:
 			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
 				esc = escFffd
-- 
2.43.0


From 4fa303c40bf5686a37b2a6c37d32346fef4f5251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 03/21] fix: report the cached write error when writing text

---
 printer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printer.go b/printer.go
index e659bc0..7817e95 100644
--- a/printer.go
+++ b/printer.go
@@ -158,7 +158,7 @@ func (p printer) EscapeString(s string) error {
 		last = i
 	}
 	p.WriteString(s[last:])
-	return nil
+	return p.cachedWriteError()
 }
 
 func (p printer) writeExternalID(publicID string, systemID string, enforce bool) error {
-- 
2.43.0


From dc2004ab5f876162f6fd54a791d61160a7e5a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 04/21] fix: do not drop the error from opening the parent node

---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From d4ff2d3dffbb014d9e125725161f660a940203fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 05/21] fix: do not leave a node on the stack when starting it
 failed

---
 writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee6037e..4747911 100644
--- a/writer.go
+++ b/writer.go
@@ -458,7 +458,11 @@ func (w *Writer) pushBegin(kind NodeKind, parents nodeFlag) error {
 
 func (w *Writer) pushEnd() error {
 	w.current++
-	return w.nodes[w.current].open(w)
+	if err := w.nodes[w.current].open(w); err != nil {
+		w.current--
+		return err
+	}
+	return nil
 }
 
 func (w *Writer) checkParent(nodeFlags nodeFlag) error {
-- 
2.43.0


From cabbfea1b97e83fcad86ea740ea450aeade6f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 06/21] fix: make CheckChars exclude the discouraged characters
 when strict

---
 check.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/check.go b/check.go
index 8163d50..e4dc298 100644
--- a/check.go
+++ b/check.go
@@ -56,13 +56,11 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
-		if rn == 0x9 || rn == 0xA || rn == 0xD ||
+		valid := rn == 0x9 || rn == 0xA || rn == 0xD ||
 			(rn >= 0x20 && rn <= 0xD7FF) ||
 			(rn >= 0xE000 && rn <= 0xFFFD) ||
-			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
-		}
-		if strict {
+			(rn >= 0x10000 && rn <= 0x10FFFF)
+		if strict && valid {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
 			// characters defined in the following ranges are also discouraged.
@@ -76,10 +74,12 @@ func CheckChars(chars string, strict bool) error {
 				(rn >= 0xAFFFE && rn <= 0xAFFFF) || (rn >= 0xBFFFE && rn <= 0xBFFFF) || (rn >= 0xCFFFE && rn <= 0xCFFFF) ||
 				(rn >= 0xDFFFE && rn <= 0xDFFFF) || (rn >= 0xEFFFE && rn <= 0xEFFFF) || (rn >= 0xFFFFE && rn <= 0xFFFFF) ||
 				(rn >= 0x10FFFE && rn <= 0x10FFFF) {
-				continue
+				valid = false
 			}
 		}
-		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
+		if !valid {
+			return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 6c8566b791939ba3ed83d14cfeef2e0a9f31c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 07/21] fix: make CheckChars reject invalid UTF-8

---
 check.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/check.go b/check.go
index e4dc298..651fd17 100644
--- a/check.go
+++ b/check.go
@@ -2,6 +2,7 @@ package xmlwriter
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // CheckEncoding validates the characters in a Doc{} node's encoding="..."
@@ -77,6 +78,12 @@ func CheckChars(chars string, strict bool) error {
 				valid = false
 			}
 		}
+		if rn == utf8.RuneError {
+			// ranging over invalid UTF-8 yields RuneError with a width of 1
+			if _, width := utf8.DecodeRuneInString(chars[i:]); width == 1 {
+				valid = false
+			}
+		}
 		if !valid {
 			return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 		}
-- 
2.43.0


From 65251346cc33d835629af0479bfbc1e3a34abe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 08/21] fix: check the characters of PI content when enforcing

---
 nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes.go b/nodes.go
index 2dd7fd0..253ab94 100644
--- a/nodes.go
+++ b/nodes.go
@@ -371,6 +371,9 @@ func (p PI) write(w *Writer) error {
 		if strings.Index(p.Content, "?>") >= 0 {
 			return fmt.Errorf("xmlwriter: PI content may not contain '?>'")
 		}
+		if err := CheckChars(p.Content, w.StrictChars); err != nil {
+			return err
+		}
 	}
 
 	if err := w.writeBeginNext(PINode); err != nil {
-- 
2.43.0


From 38f088d229f70da9153114b0f3a49dee66a43785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 09/21] fix: check the characters of system IDs and entity
 values when enforcing

---
 printer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printer.go b/printer.go
index 7817e95..be87c9f 100644
--- a/printer.go
+++ b/printer.go
@@ -194,6 +194,9 @@ func (p printer) writeSystemID(systemID string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: DTD system ID must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(systemID, false); err != nil {
+			return err
+		}
 	}
 	var qc byte = '"'
 	if dq >= 0 {
@@ -220,6 +223,9 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 		if dq >= 0 && sq >= 0 {
 			return fmt.Errorf("xmlwriter: entity value must only contain double or single quotes, not both")
 		}
+		if err := CheckChars(value, false); err != nil {
+			return err
+		}
 	}
 
 	p.WriteByte(qc)
-- 
2.43.0


From 43cff05168085bf4f3f08c831a19448a8edce17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 10/21] fix: check the public ID of a notation which has no
 system ID

---
 printer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/printer.go b/printer.go
index be87c9f..6462824 100644
--- a/printer.go
+++ b/printer.go
@@ -175,9 +175,6 @@ func (p printer) writeExternalID(publicID string, systemID string, enforce bool)
 			if systemID == "" {
 				return fmt.Errorf("xmlwriter: DTD public ID provided but system ID missing")
 			}
-			if err := CheckPubID(publicID); err != nil {
-				return err
-			}
 		}
 		return p.writePublicID(publicID, systemID, enforce)
 	}
@@ -239,6 +236,9 @@ func (p printer) writePublicID(publicID string, systemID string, enforce bool) e
 		if len(publicID) < 0 {
 			return fmt.Errorf("xmlwriter: public ID must not be empty")
 		}
+		if err := CheckPubID(publicID); err != nil {
+			return err
+		}
 	}
 	p.WriteString("PUBLIC ")
 	p.WriteByte('"')
-- 
2.43.0


From f8f73f1db97ad17b47b3b2c9be149e9e99578e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 11/21] fix: reject attributes which have no name or come after
 the start tag has closed

---
 attr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..b061480 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,12 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attr written after the element was opened")
+		}
+		if a.Name == "" {
+			return fmt.Errorf("xmlwriter: attr name must not be empty")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 6f296d3950ab14d2c7957ff648dd773de9b2e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 12/21] fix: see comment and cdata delimiters which are split
 across writes

---
 node.go  | 15 +++++++++++++++
 nodes.go | 17 +++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/node.go b/node.go
index 3593643..2d96414 100644
--- a/node.go
+++ b/node.go
@@ -64,6 +64,10 @@ type node struct {
 	// of an element if the element only contains cdata or comments
 	hasIndenter bool
 
+	// the last few bytes of comment or cdata content written so far, so that a
+	// delimiter split across several writes is still seen.
+	tail string
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
@@ -75,6 +79,17 @@ type node struct {
 	elem       Elem
 }
 
+// contentTail returns the last max bytes of tail followed by s.
+func contentTail(tail, s string, max int) string {
+	if len(s) < max {
+		s = tail + s
+	}
+	if len(s) > max {
+		s = s[len(s)-max:]
+	}
+	return s
+}
+
 func (n *node) clear() {
 	*n = node{}
 }
diff --git a/nodes.go b/nodes.go
index 253ab94..b48e76c 100644
--- a/nodes.go
+++ b/nodes.go
@@ -78,6 +78,13 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		n := &w.nodes[w.current]
+		if w.Enforce && strings.HasSuffix(n.tail, "-") && strings.HasPrefix(s, "-") {
+			return fmt.Errorf("xmlwriter: comment may not contain '--'")
+		}
+		n.tail = contentTail(n.tail, s, 1)
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -133,6 +140,9 @@ func (c Comment) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (c Comment) end(n *node, w *Writer, prev NodeState) error {
+	if w.Enforce && strings.HasSuffix(n.tail, "-") {
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 	w.printer.WriteString("-->")
 	return w.printer.cachedWriteError()
 }
@@ -161,6 +171,13 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		n := &w.nodes[w.current]
+		if w.Enforce && strings.Contains(n.tail+s, "]]>") {
+			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+		}
+		n.tail = contentTail(n.tail, s, 2)
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
-- 
2.43.0


From 792e63bd952ad49d8c4fe81b52742c1e0821196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 13/21] fix: do not change how an element ends when EndElemFull
 is refused

---
 writer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index 4747911..8e676d7 100644
--- a/writer.go
+++ b/writer.go
@@ -324,10 +324,16 @@ func (w *Writer) EndElem(name ...string) error { return w.End(ElemNode, name...)
 // the current node is not an Elem. It will always be closed using the full
 // element close style even if it contains no children: "<tag></tag>".
 func (w *Writer) EndElemFull(name ...string) error {
-	if w.current >= 0 {
-		w.nodes[w.current].elem.Full = true
+	if w.current < 0 {
+		return w.End(ElemNode, name...)
+	}
+	cur, full := w.current, w.nodes[w.current].elem.Full
+	w.nodes[cur].elem.Full = true
+	err := w.End(ElemNode, name...)
+	if err != nil {
+		w.nodes[cur].elem.Full = full
 	}
-	return w.End(ElemNode, name...)
+	return err
 }
 
 // EndAny ends the current node, regardless of what kind of node it is.
-- 
2.43.0


From f2ce860e48109b88f759f20052938ba8aab586ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 14/21] fix: do not end nodes at or above the depth given to
 EndToDepth

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index 8e676d7..c61fc7e 100644
--- a/writer.go
+++ b/writer.go
@@ -422,6 +422,9 @@ func (w *Writer) EndAll() error {
 //	}
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
+	if w.current <= depth {
+		return fmt.Errorf("xmlwriter: could not pop node")
+	}
 	limit := depth + 1
 	for {
 		if w.current <= limit {
-- 
2.43.0


From 81d2751536490d2b3776da99dfa03ecdf3bb1f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 15/21] fix: retain the first error across several calls to
 ErrCollector.Do

---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From 171a70c5ec45254103b96a035576380a9c76dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 16/21] fix: give PINode its name and flag

---
 nodekind.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nodekind.go b/nodekind.go
index eda607c..a0cd843 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -70,6 +70,7 @@ var kindName = [nodeKindLength]string{
 	DocNode:            "document",
 	ElemNode:           "elem",
 	NotationNode:       "notation",
+	PINode:             "pi",
 	RawNode:            "raw",
 	TextNode:           "text",
 }
@@ -111,6 +112,7 @@ var kindFlag = [nodeKindLength]nodeFlag{
 	DocNode:            docNodeFlag,
 	ElemNode:           elemNodeFlag,
 	NotationNode:       notationNodeFlag,
+	PINode:             pINodeFlag,
 	RawNode:            rawNodeFlag,
 	TextNode:           textNodeFlag,
 }
-- 
2.43.0


From 79bf6adc1d988d4c183054e96a69d37aeee846a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 17/21] fix: reject attributes with a URI but no prefix

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index b061480..ddf7a8d 100644
--- a/attr.go
+++ b/attr.go
@@ -70,6 +70,9 @@ func (a Attr) write(w *Writer) error {
 		if a.Name == "" {
 			return fmt.Errorf("xmlwriter: attr name must not be empty")
 		}
+		if a.URI != "" && a.Prefix == "" {
+			return fmt.Errorf("xmlwriter: attr with a uri must have a prefix")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 97718497cd307b2f0c93e33070aee05a287ab8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 18/21] fix: ending a node again after a write error does not
 panic in the indenter

---
 indenter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indenter.go b/indenter.go
index af51eb4..ffca702 100644
--- a/indenter.go
+++ b/indenter.go
@@ -58,6 +58,12 @@ func (s *StandardIndenter) Wrap(content string) string {
 func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 	// fmt.Print(next.String())
 
+	// once the writer has failed, a node may be ended more than once, which
+	// would unbalance the stack
+	if err := w.printer.cachedWriteError(); err != nil {
+		return err
+	}
+
 	isIndenting := (next.Node == ElemNode || next.Node == DTDNode ||
 		next.Node == DTDAttListNode)
 
-- 
2.43.0


From bb0e6cf66a7a3c692ca57ffcd3ad534dbffbac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 19/21] fix: do not declare the namespace of a refused
 attribute

---
 attr.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/attr.go b/attr.go
index ddf7a8d..daa3b75 100644
--- a/attr.go
+++ b/attr.go
@@ -86,8 +86,9 @@ func (a Attr) write(w *Writer) error {
 		name = a.Prefix + ":" + name
 	}
 
+	ns := ns{prefix: a.Prefix, uri: a.URI}
+	declare := false
 	if a.URI != "" && w.current >= 0 {
-		ns := ns{prefix: a.Prefix, uri: a.URI}
 		found := false
 		fail := false
 		for _, existing := range w.nodes[w.current].elem.namespaces {
@@ -101,14 +102,16 @@ func (a Attr) write(w *Writer) error {
 		}
 		if fail {
 			return fmt.Errorf("uri already exists for ns prefix %s", a.Prefix)
-		} else if !found {
-			w.nodes[w.current].elem.namespaces = append(w.nodes[w.current].elem.namespaces, ns)
 		}
+		declare = !found
 	}
 
 	if err := w.printer.printAttr(name, a.Value, w.Enforce); err != nil {
 		return err
 	}
+	if declare {
+		w.nodes[w.current].elem.namespaces = append(w.nodes[w.current].elem.namespaces, ns)
+	}
 	if w.Indenter != nil {
 		w.last = Event{StateEnded, AttrNode, 0}
 	}
-- 
2.43.0


From 9278a6bb136d1508c7c7d237f6f77ee54b5468cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:41 +0000
Subject: [PATCH 20/21] fix: the indenter does not add white space after text
 given as Content

---
 node.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 2d96414..c71c8f7 100644
--- a/node.go
+++ b/node.go
@@ -138,6 +138,8 @@ func (n *node) opened(w *Writer) error {
 		if err := w.writeIndent(ev); err != nil {
 			return err
 		}
+		// opening the node may write its content, which has events of its own:
+		w.last = ev
 	}
 
 	switch n.kind {
@@ -157,9 +159,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-	if w.Indenter != nil {
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From aeb1e3e8df5aad2261ffb0e019cf78377c4f8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 21/21] fix: the name of a negative NodeKind is empty, and
 asking for it (or ending a node with it) does not panic

---
 nodekind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodekind.go b/nodekind.go
index a0cd843..646a0e4 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,7 +12,7 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
-	if int(n) < nodeKindLength {
+	if n >= 0 && int(n) < nodeKindLength {
 		return kindName[n]
 	}
 	return ""
-- 
2.43.0

