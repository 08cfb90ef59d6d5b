From e81d8834a81a98b67a987770527043ad7c239093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:24 +0000
Subject: [PATCH 01/34] fix: do not recurse forever on empty text nodes

Reading the text or markup of an empty text node (an empty CDATA section,
SetTextContent with an empty string) made the two lazy getters call each
other until the stack overflowed, which kills the whole process.
---
 domparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index b1e5d88..24c8ec6 100644
--- a/domparser.go
+++ b/domparser.go
@@ -627,7 +627,7 @@ func newText() *Node {
 }
 
 func (t *Node) getTextContentFromTextNode() string {
-	if t.textContent == "" {
+	if t.textContent == "" && t.innerHTML != "" {
 		decoded, err := decodeHTML(t.GetInnerHTML())
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
@@ -639,7 +639,7 @@ func (t *Node) getTextContentFromTextNode() string {
 }
 
 func (t *Node) getInnerHTMLFromTextNode() string {
-	if t.innerHTML == "" {
+	if t.innerHTML == "" && t.textContent != "" {
 		t.innerHTML = encodeTextContentHTML(t.GetTextContent())
 	}
 	return t.innerHTML
-- 
2.43.0


From 4213b78762decb92dbca9a06f359996c1ce3af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 02/34] fix: do not panic on a style declaration without a
 value

style="display" made getStyle index past the end of the split declaration.
---
 domparser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/domparser.go b/domparser.go
index 24c8ec6..1ea4c40 100644
--- a/domparser.go
+++ b/domparser.go
@@ -805,10 +805,10 @@ func (s *style) getStyle(jsName string) string {
 
 	var styles = strings.Split(attr, ";")
 	for i := 0; i < len(styles); i++ {
-		var style = strings.Split(styles[i], ":")
-		var name = strings.TrimSpace(style[0])
-		if name == cssName {
-			return strings.TrimSpace(style[1])
+		var name, value, _ = strings.Cut(styles[i], ":")
+		if strings.TrimSpace(name) == cssName {
+			value, _, _ = strings.Cut(value, ":")
+			return strings.TrimSpace(value)
 		}
 	}
 	return ""
-- 
2.43.0


From 485547331c5a606776e54cafbcfb99517515e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 03/34] fix: resolve links and media URIs with the standard
 resolver

Putting the resolved URI together by hand dropped the directory of relative
paths containing an escape ("foo%20bar" became "http://hostfoo%20bar"), lost
the user info, wrote "ftp:host/x" for "ftp://host/x", unescaped the escapes of
the base path, and panicked on a blank URI.
---
 readability.go | 58 +++++++-------------------------------------------
 regexps.go     | 13 ++++++-----
 2 files changed, 14 insertions(+), 57 deletions(-)

diff --git a/readability.go b/readability.go
index 1045860..dbee6d8 100644
--- a/readability.go
+++ b/readability.go
@@ -269,7 +269,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
 		// Leave hash links alone if the base URI matches the document URI:
-		if baseURI == documentURI && []rune(uri)[0] == '#' {
+		if baseURI == documentURI && strings.HasPrefix(uri, "#") {
 			return uri
 		}
 		base, err := url.Parse(baseURI)
@@ -283,60 +283,18 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			return uri
 		}
 		u := base.ResolveReference(ref)
-		var abs string
-		if u.Scheme != "" {
-			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") {
-				abs += "://"
-			} else {
-				abs += ":"
-			}
+		u.Host = strings.ToLower(u.Host)
+		if u.Host != "" && u.Path == "" {
+			u.Path = "/"
 		}
-		abs += strings.ToLower(u.Host)
-
-		var b, a string
-		if strings.Contains(uri, "?") {
-			before, _, _ := strings.Cut(uri, "?")
-			b = before
-		} else if strings.Contains(uri, "#") {
-			before, after, _ := strings.Cut(uri, "#")
-			b = before
-			a = after
-		} else {
-			b = uri
-		}
-
-		if u.Path != "" {
-			p := u.Path
-			if strings.Contains(uri, "%") {
-				if strings.HasPrefix(uri, "//") {
-					p = doubleForwardSlashes.ReplaceAllString(b, "")
-				} else {
-					p = strings.ReplaceAll(b, abs, "")
-				}
-			}
-			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
-		} else if u.Opaque != "" {
-			abs += u.Opaque
-		} else {
-			abs += "/"
-		}
-		if u.RawQuery != "" {
-			abs += "?" + u.RawQuery
-		}
-		if u.Fragment != "" {
-			if strings.Contains(a, "%") {
-				abs += "#" + a
-			} else {
-				abs += "#" + u.Fragment
-			}
+		if strings.Contains(u.Path, "/C|/") {
+			u.Path = strings.ReplaceAll(u.Path, "/C|/", "/C:/")
+			u.RawPath = ""
 		}
+		abs := u.String()
 		if strings.HasSuffix(uri, "#") && !strings.HasSuffix(abs, "#") {
 			abs += "#"
 		}
-		if strings.HasSuffix(uri, "?") && !strings.HasSuffix(abs, "?") {
-			abs += "?"
-		}
 		return abs
 	}
 
diff --git a/regexps.go b/regexps.go
index 34c0b95..b14be85 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,13 +36,12 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
-	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
-	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-	cdata                = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-	schemaUrl            = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
+	entityReferencesRgx = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
+	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	separators          = regexp.MustCompile(`[\|\-\\\/>»]+`)
+	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
+	cdata               = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
+	schemaUrl           = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
 	// property is a space-separated list of values
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
-- 
2.43.0


From c2eb8059dfabaeff70e848f699750f4f41123b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 04/34] fix: ignore JSON-LD values of an unexpected type

A @context or @type that is an array or an object, or a further author that
is not an object with a name, made Parse panic.
---
 readability.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/readability.go b/readability.go
index dbee6d8..6e70fb2 100644
--- a/readability.go
+++ b/readability.go
@@ -1286,8 +1286,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				continue
 			}
 
-			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			ctx, isStr := parsed["@context"].(string)
+			if !isStr || !schemaUrl.MatchString(ctx) {
 				continue
 			}
 
@@ -1312,7 +1312,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			articleType, isStr := parsed["@type"].(string)
+			if !isStr || !jsonLdArticleTypes.MatchString(articleType) {
 				continue
 			}
 
@@ -1360,8 +1361,10 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 								if _, isStr := authorName.(string); isStr {
 									var authorNames []string
 									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
-										authorNames = append(authorNames, strings.TrimSpace(n))
+										other, _ := a.(map[string]interface{})
+										if n, isStr := other["name"].(string); isStr {
+											authorNames = append(authorNames, strings.TrimSpace(n))
+										}
 									}
 									meta.byline = strings.Join(authorNames, ", ")
 								}
-- 
2.43.0


From a5c5579a2b2d2feb0e44f84103fd2142a7800598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:29 +0000
Subject: [PATCH 05/34] fix: do not panic when the root element was removed by
 an earlier attempt

A hidden <html> is detached by the first attempt; the next attempt tried to
remove it from its parent again.
---
 readability.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/readability.go b/readability.go
index 6e70fb2..a338dca 100644
--- a/readability.go
+++ b/readability.go
@@ -678,6 +678,9 @@ func (r *Readability) initializeNode(n *Node) {
 
 func (r *Readability) removeAndGetNext(n *Node) *Node {
 	var nextNode = r.getNextNode(n, true)
+	if n.ParentNode == nil {
+		return nextNode
+	}
 	if _, err := n.ParentNode.RemoveChild(n); err != nil {
 		slog.Error("cannot remove child", slog.String("err", err.Error()))
 	}
-- 
2.43.0


From 8a4cd1f0c57ffd3015459a2d08118d0b5f6c79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:30 +0000
Subject: [PATCH 06/34] fix: do not panic when the top candidate is outside of
 the body

The climbs from the top candidate only stopped at a BODY, so they ran past
the root for content placed before or after it.
---
 readability.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index a338dca..69961b8 100644
--- a/readability.go
+++ b/readability.go
@@ -1033,7 +1033,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var MINIMUM_TOPCANDIDATES = 3
 			if len(alternativeCandidateAncestors) >= MINIMUM_TOPCANDIDATES {
 				parentOfTopCandidate = topCandidate.ParentNode
-				for parentOfTopCandidate.TagName != "BODY" {
+				for parentOfTopCandidate != nil && parentOfTopCandidate.TagName != "BODY" {
 					var listsContainingThisAncestor = 0
 					for ancestorIndex := 0; ancestorIndex < len(alternativeCandidateAncestors) && listsContainingThisAncestor < MINIMUM_TOPCANDIDATES; ancestorIndex++ {
 						includes := slices.ContainsFunc(alternativeCandidateAncestors[ancestorIndex], func(n *Node) bool {
@@ -1065,7 +1065,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var lastScore = topCandidate.ReadabilityNode.ContentScore
 			// The scores shouldn't get too low.
 			var scoreThreshold = lastScore / 3
-			for parentOfTopCandidate.TagName != "BODY" {
+			for parentOfTopCandidate != nil && parentOfTopCandidate.TagName != "BODY" {
 				if parentOfTopCandidate.ReadabilityNode == nil {
 					parentOfTopCandidate = parentOfTopCandidate.ParentNode
 					continue
@@ -1087,7 +1087,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			// If the top candidate is the only child, use parent instead. This will help sibling
 			// joining logic when adjacent content is actually located in parent's sibling node.
 			parentOfTopCandidate = topCandidate.ParentNode
-			for parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
+			for parentOfTopCandidate.TagName != "BODY" && parentOfTopCandidate.TagName != "HTML" && len(parentOfTopCandidate.Children) == 1 {
 				topCandidate = parentOfTopCandidate
 				parentOfTopCandidate = topCandidate.ParentNode
 			}
-- 
2.43.0


From 53374c4ca2df627c15e3e48dd24d0d65675239d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:31 +0000
Subject: [PATCH 07/34] fix: do not panic on an upper-case base64 data URI

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index b14be85..9f87f55 100644
--- a/regexps.go
+++ b/regexps.go
@@ -47,7 +47,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 6fbfd369b65574e2cad02de91a7a3a5c1322960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:33 +0000
Subject: [PATCH 08/34] fix: look inside <object> for allowed videos

Tag names are upper case, so the markup of an object was never examined and
allowed videos embedded with <object> were dropped. A nil video regexp, which
the conditional cleaning already accepts, no longer panics here.
---
 readability.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 69961b8..a7df5af 100644
--- a/readability.go
+++ b/readability.go
@@ -1739,13 +1739,13 @@ func (r *Readability) clean(e *Node, tag string) {
 		if isEmbed {
 			// First, check the elements attributes to see if any of them contain youtube or vimeo
 			for i := 0; i < len(element.Attributes); i++ {
-				if r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
+				if r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
 					return false
 				}
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
@@ -2037,7 +2037,7 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 				}
 
 				// For embed with <object> tag, check inner HTML as well.
-				if embeds[i].TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
+				if embeds[i].TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
 					return false
 				}
 
-- 
2.43.0


From 7541c8e4fc58fc47fb2d15377288e0b1ea275616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 09/34] fix: drop the stale siblings of nodes replaced by new
 content

SetInnerHTML and SetTextContent left the former children linked to each
other; appending one of them elsewhere kept those links, so that walking the
siblings left the parent it had been appended to.
---
 domparser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 1ea4c40..33cc8d7 100644
--- a/domparser.go
+++ b/domparser.go
@@ -430,6 +430,8 @@ func (n *Node) AppendChild(child *Node) {
 		last.NextSibling = child
 	}
 	child.PreviousSibling = last
+	child.NextSibling = nil
+	child.PreviousElementSibling, child.NextElementSibling = nil, nil
 
 	if child.NodeType == elementNode {
 		if len(n.Children) != 0 {
@@ -445,6 +447,13 @@ func (n *Node) AppendChild(child *Node) {
 	child.ParentNode = n
 }
 
+// detach clears the relations of a node that is no longer in the tree.
+func (n *Node) detach() {
+	n.ParentNode = nil
+	n.PreviousSibling, n.NextSibling = nil, nil
+	n.PreviousElementSibling, n.NextElementSibling = nil, nil
+}
+
 func (n *Node) RemoveChild(child *Node) (*Node, error) {
 	childNodes := n.ChildNodes
 	childIndex := indexOf(child, childNodes)
@@ -943,7 +952,7 @@ func (n *Node) SetInnerHTML(html string) {
 		var parser = newDOMParser()
 		var node = parser.parse(html, "")
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
@@ -963,7 +972,7 @@ func (n *Node) SetTextContent(text string) {
 	} else if n.NodeType == elementNode {
 		// clear parentNodes for existing children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 
 		var t = newText()
-- 
2.43.0


From d311b4b19a5e232f36d494078e8b233bbc3cbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:31 +0000
Subject: [PATCH 10/34] fix: replace the right child when the new node is
 already a sibling

Removing the new node from the same parent shifts the children, but the
position computed before the removal was used, which overwrote another child
and left the old one in place. Replacing a node by itself lost the last child.
---
 domparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domparser.go b/domparser.go
index 33cc8d7..0d95880 100644
--- a/domparser.go
+++ b/domparser.go
@@ -495,12 +495,17 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	childIndex := indexOf(oldNode, childNodes)
 	if childIndex == -1 {
 		panic("removeChild: node not found")
+	} else if newNode == oldNode {
+		return oldNode
 	} else {
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
 			if _, err := newNode.ParentNode.RemoveChild(newNode); err != nil {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
+			// It may have been a child of this very node:
+			childNodes = n.ChildNodes
+			childIndex = indexOf(oldNode, childNodes)
 		}
 		childNodes[childIndex] = newNode
 
-- 
2.43.0


From da4ed29a26a5bed1a00f0cb3cb516171e6728c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:40 +0000
Subject: [PATCH 11/34] fix: decode entity references only once

The outcome of decoding a named or numeric reference was decoded again:
&amp;#60; became < and &#38;#65; could become A, so a text did not survive
being written as markup and read back.
---
 domparser.go | 40 +++++++++++++++++++---------------------
 regexps.go   |  1 +
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/domparser.go b/domparser.go
index 0d95880..7d5e041 100644
--- a/domparser.go
+++ b/domparser.go
@@ -73,28 +73,26 @@ func encodeHTML(text string) string {
 
 func decodeHTML(s string) (string, error) {
 
-	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
-		return string([]rune(entityReplacer.Replace(s))[1])
-	})
-
-	submatches := htmlCharCodesRgx.FindAllStringSubmatch(s, -1)
-	for _, submatch := range submatches {
-		if len(submatch) == 3 {
-			hex, dec := submatch[1], submatch[2]
-			if hex != "" {
-				codePoint, err := strconv.ParseInt(hex, 16, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			} else if dec != "" {
-				codePoint, err := strconv.ParseInt(dec, 10, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			}
+	var decodeErr error
+	// Decode all the references in a single pass: the outcome of a replacement
+	// must not be taken for (a part of) another reference.
+	s = referencesRgx.ReplaceAllStringFunc(s, func(s string) string {
+		submatch := htmlCharCodesRgx.FindStringSubmatch(s)
+		if submatch == nil {
+			return string([]rune(entityReplacer.Replace(s))[1])
+		}
+		digits, base := submatch[1], 16
+		if digits == "" {
+			digits, base = submatch[2], 10
 		}
+		codePoint, err := strconv.ParseInt(digits, base, 64)
+		if err != nil {
+			decodeErr = err
+		}
+		return string(rune(codePoint))
+	})
+	if decodeErr != nil {
+		return "", decodeErr
 	}
 	return s, nil
 }
diff --git a/regexps.go b/regexps.go
index 9f87f55..2035eb4 100644
--- a/regexps.go
+++ b/regexps.go
@@ -38,6 +38,7 @@ var (
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
 	entityReferencesRgx = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
 	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	referencesRgx       = regexp.MustCompile(entityReferencesRgx.String() + `|` + htmlCharCodesRgx.String())
 	separators          = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
 	cdata               = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-- 
2.43.0


From 88618fb635cda8bbcf06d20badf3acb8598f8cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:41 +0000
Subject: [PATCH 12/34] fix: do not let text turn into markup when it is
 serialized

The raw source of a text was written back unescaped, so a stray < next to a
removed element, or the raw text of an svg <title>, could yield tags in the
extracted content which were not elements of the page (scripts included).
---
 domparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 7d5e041..03dedf6 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1086,7 +1086,9 @@ loop:
 				txt := string(data)
 
 				if c != '<' {
-					textNode.SetInnerHTML(txt)
+					// Escape stray tag openers: they may end up next to other text,
+					// or in another element, and turn into tags when serialized.
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
 				} else if strings.HasPrefix(txt, "<![CDATA[") {
 					s := strings.Index(txt, "<![CDATA[")
-- 
2.43.0


From 7ad73f445a54f1349baa9b64c372a5e6660e40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:42 +0000
Subject: [PATCH 13/34] fix: remove javascript: links whatever their case and
 surrounding space

The resolved link is trimmed and its scheme lower-cased, so these became
working javascript: links in the extracted content.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index a7df5af..0f6342e 100644
--- a/readability.go
+++ b/readability.go
@@ -304,7 +304,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if href != "" {
 			// Remove links with javascript: URIs, since
 			// they won't work after scripts have been removed from the page.
-			if strings.HasPrefix(href, "javascript:") {
+			if strings.HasPrefix(strings.ToLower(strings.TrimSpace(href)), "javascript:") {
 				// if the link only contains simple text content, it can be converted to a text node
 				if len(link.ChildNodes) == 1 && link.ChildNodes[0].NodeType == textNode {
 					var text = r.doc.createTextNode(link.GetTextContent())
-- 
2.43.0


From 205e56af1e4547b34ad772678e8b2dd2db5b8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:43 +0000
Subject: [PATCH 14/34] fix: do not take texts without common words for similar

Splitting a text without ASCII word characters yields empty tokens, which
made every non-Latin heading a duplicate of the title and removed it.
---
 readability.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 0f6342e..634283b 100644
--- a/readability.go
+++ b/readability.go
@@ -718,14 +718,15 @@ func (r *Readability) getNextNode(n *Node, ignoreSelfAndKids bool) *Node {
 // Works the way that it splits both texts into words and then finds words that are unique in second text
 // the result is given by the lower length of unique parts.
 func (r *Readability) textSimilarity(textA, textB string) float64 {
-	var tokensA = tokenize.Split(strings.ToLower(textA), -1)
-	var tokensB = tokenize.Split(strings.ToLower(textB), -1)
+	var notEmpty = func(s string) bool { return s != "" }
+	var tokensA = filter(notEmpty, tokenize.Split(strings.ToLower(textA), -1)...)
+	var tokensB = filter(notEmpty, tokenize.Split(strings.ToLower(textB), -1)...)
 	if len(tokensA) == 0 || len(tokensB) == 0 {
 		return 0
 	}
 	var uniqTokensB []string
 	for _, t := range tokensB {
-		if !slices.Contains(tokensA, t) && t != "" {
+		if !slices.Contains(tokensA, t) {
 			uniqTokensB = append(uniqTokensB, t)
 		}
 	}
-- 
2.43.0


From 5ff61969a479df84991a34beecbf46f60806ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:44 +0000
Subject: [PATCH 15/34] fix: remove the first part of a title whose other part
 is too short

The replacement returned its match, so the title was left as it was.
---
 readability.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 634283b..a8f4c06 100644
--- a/readability.go
+++ b/readability.go
@@ -411,9 +411,7 @@ func (r *Readability) getArticleTitle() string {
 		// If the resulting title is too short (3 words or fewer), remove
 		// the first part instead:
 		if wordCount(curTitle) < 3 {
-			curTitle = titleFirstPart.ReplaceAllStringFunc(origTitle, func(s string) string {
-				return s
-			})
+			curTitle = titleFirstPart.ReplaceAllString(origTitle, "$1")
 		}
 	} else if strings.Contains(curTitle, ": ") {
 		// Check if we have an heading containing this exact string, so we
-- 
2.43.0


From cd8c60da97cb7a77a73c269bb80c9c4c816e6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:45 +0000
Subject: [PATCH 16/34] fix: compare content lengths in characters, not bytes

The character threshold of an article and the minimum content length of a
readerable node were compared with a number of bytes, up to three times as
large for non-Latin text.
---
 readability.go | 2 +-
 readerable.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index a8f4c06..bbc14f3 100644
--- a/readability.go
+++ b/readability.go
@@ -1192,7 +1192,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// grabArticle with different flags set. This gives us a higher likelihood of
 		// finding the content, and the sieve approach gives us a higher likelihood of
 		// finding the -right- content.
-		var textLength = len(r.getInnerText(articleContent, true))
+		var textLength = len([]rune(r.getInnerText(articleContent, true)))
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
diff --git a/readerable.go b/readerable.go
index 0b80443..57cef77 100644
--- a/readerable.go
+++ b/readerable.go
@@ -91,7 +91,7 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 			return false
 		}
 
-		var textContentLength = len(strings.TrimSpace(textContent(n)))
+		var textContentLength = len([]rune(strings.TrimSpace(textContent(n))))
 		if textContentLength < options.minContentLength {
 			return false
 		}
-- 
2.43.0


From 2f98ee3d536b6a775b07cd9ede5c48a49251a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:47 +0000
Subject: [PATCH 17/34] fix: keep the verdict on tables with a caption or
 nested tables

It was overwritten by the verdict based on the size of the table.
---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index bbc14f3..aeac71b 100644
--- a/readability.go
+++ b/readability.go
@@ -1843,6 +1843,7 @@ func (r *Readability) markDataTables(root *Node) {
 
 		if captions := table.getElementsByTagName("caption"); len(captions) > 0 && captions[0] != nil && len(captions[0].ChildNodes) > 0 {
 			table.ReadabilityDataTable = &readabilityDataTable{value: true}
+			continue
 		}
 
 		// If the table has a descendant with any of these tags, consider a data table:
@@ -1861,6 +1862,7 @@ func (r *Readability) markDataTables(root *Node) {
 		// Nested tables indicate a layout table:
 		if tables := table.getElementsByTagName("table"); len(tables) > 0 && tables[0] != nil {
 			table.ReadabilityDataTable = &readabilityDataTable{value: false}
+			continue
 		}
 
 		var rows, columns = r.getRowAndColumnCount(table)
-- 
2.43.0


From c29a03e1d856b5e0a6f64489fcdf3f1b7c4f26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:48 +0000
Subject: [PATCH 18/34] fix: do not count hidden nodes as readerable

The default visibility check split ";" by the style instead of the style by
";", and took a valueless hidden attribute for a missing one.
---
 readerable.go |  7 +++----
 util.go       | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/readerable.go b/readerable.go
index 57cef77..4cd97ac 100644
--- a/readerable.go
+++ b/readerable.go
@@ -32,10 +32,9 @@ import (
 
 func isNodeVisible(node *html.Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
-	style := attr(node, "style")
-	return (style == "" || !slices.Contains(strings.Split(";", style), "display=none")) &&
-		(style == "" || !slices.Contains(strings.Split(";", style), "visibility=hidden")) &&
-		attr(node, "hidden") == "" &&
+	return styleOf(node, "display") != "none" &&
+		styleOf(node, "visibility") != "hidden" &&
+		!hasAttr(node, "hidden") &&
 		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
 }
 
diff --git a/util.go b/util.go
index 4e0cbe5..b3cccb0 100644
--- a/util.go
+++ b/util.go
@@ -3,6 +3,7 @@ package readability
 import (
 	"bytes"
 	"slices"
+	"strings"
 
 	"github.com/andybalholm/cascadia"
 	"golang.org/x/net/html"
@@ -26,8 +27,8 @@ func insert(newNode *Node, idx int, nodes []*Node) []*Node {
 	return nodes
 }
 
-func anyOf(strings ...string) string {
-	for _, s := range strings {
+func anyOf(strs ...string) string {
+	for _, s := range strs {
 		if s != "" {
 			return s
 		}
@@ -60,6 +61,23 @@ func attr(n *html.Node, attrName string) string {
 	return ""
 }
 
+func hasAttr(n *html.Node, attrName string) bool {
+	return slices.ContainsFunc(n.Attr, func(a html.Attribute) bool {
+		return a.Key == attrName
+	})
+}
+
+// styleOf returns the value of a property in the style attribute of the node.
+func styleOf(n *html.Node, property string) string {
+	for _, decl := range strings.Split(attr(n, "style"), ";") {
+		name, value, _ := strings.Cut(decl, ":")
+		if strings.TrimSpace(name) == property {
+			return strings.TrimSpace(value)
+		}
+	}
+	return ""
+}
+
 func textContent(n *html.Node) string {
 	var buf bytes.Buffer
 
-- 
2.43.0


From 6730c50b178dd11ae20c999d64faff4a7d2f5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 19/34] fix: count each readerable node once and skip list item
 paragraphs

A div was counted once per <br> in it, and paragraphs in list items were not
skipped because the selector was matched against their descendants.
---
 readerable.go | 4 +++-
 util.go       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/readerable.go b/readerable.go
index 4cd97ac..ff54d25 100644
--- a/readerable.go
+++ b/readerable.go
@@ -67,7 +67,9 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 	if len(brNodes) != 0 {
 		var set []*html.Node
 		for _, n := range brNodes {
-			set = append(set, n.Parent)
+			if !slices.Contains(nodes, n.Parent) && !slices.Contains(set, n.Parent) {
+				set = append(set, n.Parent)
+			}
 		}
 		nodes = append(nodes, set...)
 	}
diff --git a/util.go b/util.go
index b3cccb0..5d7eade 100644
--- a/util.go
+++ b/util.go
@@ -49,7 +49,7 @@ func matches(n *html.Node, query string) bool {
 	if err != nil {
 		return false
 	}
-	return cascadia.Query(n, sel) != nil
+	return sel.Match(n)
 }
 
 func attr(n *html.Node, attrName string) string {
-- 
2.43.0


From 6d40663fb8f131628031ac6b5f5b1c6f3fb5ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:09 +0000
Subject: [PATCH 20/34] fix: examine the paragraph that takes the place of its
 block

A DIV holding a single P was replaced by the P, and the P itself was
never checked for being hidden, a byline or unlikely content.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index aeac71b..d550a82 100644
--- a/readability.go
+++ b/readability.go
@@ -897,7 +897,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
-					elementsToScore = append(elementsToScore, n)
+					continue
 				} else if !r.hasChildBlockElement(n) {
 					n = r.setNodeTag(n, "P")
 					elementsToScore = append(elementsToScore, n)
-- 
2.43.0


From 67feec08e085b55e7ce567c07d71b8369a062954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:21 +0000
Subject: [PATCH 21/34] fix: ignore blanks between all the line breaks of a run

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index d550a82..3a510a2 100644
--- a/readability.go
+++ b/readability.go
@@ -505,7 +505,7 @@ func (r *Readability) replaceBrs(n *Node) {
 		// If we find a <br> chain, remove the <br>s until we hit another node
 		// or non-whitespace. This leaves behind the first <br> in the chain
 		// (which will be replaced with a <p> later).
-		for next = r.nextNode(next); next != nil && next.TagName == "BR"; {
+		for next = r.nextNode(next); next != nil && next.TagName == "BR"; next = r.nextNode(next) {
 			replaced = true
 			var brSibling = next.NextSibling
 			if _, err := next.ParentNode.RemoveChild(next); err != nil {
-- 
2.43.0


From 3ac70cd10c96e8367283e964dca1d4b4dab2420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 22/34] fix: forget the score of the page when starting over

---
 readability.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/readability.go b/readability.go
index 3a510a2..c865bc7 100644
--- a/readability.go
+++ b/readability.go
@@ -1196,6 +1196,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
+			page.ReadabilityNode = nil
 
 			if r.flagIsActive(flagStripUnlikelys) {
 				r.removeFlag(flagStripUnlikelys)
-- 
2.43.0


From f5b1a63eacb6e35f49d7029cb40187ba028010ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 23/34] fix: do not take text that ends with a blank for no
 content

Such text next to a single block was lost when the block took the place
of its parent.
---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 2035eb4..5fe6bed 100644
--- a/regexps.go
+++ b/regexps.go
@@ -19,7 +19,7 @@ var (
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
 	tokenize   = regexp.MustCompile(`\W+`)
 	whitespace = regexp.MustCompile(`^\s*$`)
-	hasContent = regexp.MustCompile(`\S$`)
+	hasContent = regexp.MustCompile(`\S`)
 	hashUrl    = regexp.MustCompile(`^#.+`)
 	srcsetUrl  = regexp.MustCompile(`(\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))`)
 	b64DataUrl = regexp.MustCompile(`(?i)^data:\s*([^\s;,]+)\s*;\s*base64\s*,`)
-- 
2.43.0


From 530cc26e664d8b27a99085c9014940aad20e5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:13 +0000
Subject: [PATCH 24/34] fix: resolve references without the fragment of the
 base

---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index c865bc7..e0d991b 100644
--- a/readability.go
+++ b/readability.go
@@ -277,6 +277,8 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			// Something went wrong, just return the original:
 			return uri
 		}
+		// The fragment of the base has no part in the resolution.
+		base.Fragment, base.RawFragment = "", ""
 		ref, err := url.Parse(uri)
 		if err != nil {
 			// Something went wrong, just return the original:
-- 
2.43.0


From 9ab7b02232ea4b0902378e18160aaeb642c15d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:44 +0000
Subject: [PATCH 25/34] fix: close namespaced elements at their own end tags

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 03dedf6..e996e7b 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1136,7 +1136,7 @@ loop:
 			}
 
 		case html.EndTagToken:
-			if n.LocalName == p.z.Token().Data {
+			if n.matchingTag == p.z.Token().Data {
 				break loop
 			}
 		}
-- 
2.43.0


From f17cf72bdeefeab65040a918c4ae96d88693499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:50 +0000
Subject: [PATCH 26/34] fix: decode references to characters beyond the basic
 plane

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 5fe6bed..ff81428 100644
--- a/regexps.go
+++ b/regexps.go
@@ -37,7 +37,7 @@ var (
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
 	entityReferencesRgx = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,6})|([0-9]{1,7}));`)
 	referencesRgx       = regexp.MustCompile(entityReferencesRgx.String() + `|` + htmlCharCodesRgx.String())
 	separators          = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
-- 
2.43.0


From b19a9d03e015357baeb8619100b4a0f25e397a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 27/34] fix: keep a reduced hierarchical title that lost a
 single word

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index e0d991b..d9b215b 100644
--- a/readability.go
+++ b/readability.go
@@ -454,7 +454,7 @@ func (r *Readability) getArticleTitle() string {
 	// the original title.
 	var curTitleWordCount = wordCount(curTitle)
 	if curTitleWordCount <= 4 &&
-		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))) {
+		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))-1) {
 		curTitle = origTitle
 	}
 	return curTitle
-- 
2.43.0


From c1ee86b11c94b8b3ea1b9ffc95e0c11c83f781a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:41 +0000
Subject: [PATCH 28/34] fix: read scripts as raw text

A script that compares with < opened an element that took in the rest of
the page, since its end tag was never seen.
---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index e996e7b..718bfe5 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1113,7 +1113,7 @@ loop:
 				// If this isn't a void Element, read its child nodes
 				var localName = node.LocalName
 				if tt == html.StartTagToken {
-					if slices.Contains([]string{"script", "noscript"}, localName) {
+					if localName == "noscript" {
 						p.z.NextIsNotRawText()
 					}
 					p.readNode(node)
-- 
2.43.0


From 25faba8ab3bc332eb87204fc287e320f9ac66760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:33 +0000
Subject: [PATCH 29/34] fix: do not climb from the top candidate past a
 detached root

With nested <html> or <body> tags the root element can lose its parent
when the page is restored for another attempt; the climbs from the top
candidate then went on to the parent of that root.
---
 readability.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index d9b215b..dd01963 100644
--- a/readability.go
+++ b/readability.go
@@ -1034,7 +1034,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var MINIMUM_TOPCANDIDATES = 3
 			if len(alternativeCandidateAncestors) >= MINIMUM_TOPCANDIDATES {
 				parentOfTopCandidate = topCandidate.ParentNode
-				for parentOfTopCandidate != nil && parentOfTopCandidate.TagName != "BODY" {
+				for parentOfTopCandidate != nil && parentOfTopCandidate.ParentNode != nil && parentOfTopCandidate.TagName != "BODY" {
 					var listsContainingThisAncestor = 0
 					for ancestorIndex := 0; ancestorIndex < len(alternativeCandidateAncestors) && listsContainingThisAncestor < MINIMUM_TOPCANDIDATES; ancestorIndex++ {
 						includes := slices.ContainsFunc(alternativeCandidateAncestors[ancestorIndex], func(n *Node) bool {
@@ -1066,7 +1066,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var lastScore = topCandidate.ReadabilityNode.ContentScore
 			// The scores shouldn't get too low.
 			var scoreThreshold = lastScore / 3
-			for parentOfTopCandidate != nil && parentOfTopCandidate.TagName != "BODY" {
+			for parentOfTopCandidate != nil && parentOfTopCandidate.ParentNode != nil && parentOfTopCandidate.TagName != "BODY" {
 				if parentOfTopCandidate.ReadabilityNode == nil {
 					parentOfTopCandidate = parentOfTopCandidate.ParentNode
 					continue
@@ -1088,7 +1088,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			// If the top candidate is the only child, use parent instead. This will help sibling
 			// joining logic when adjacent content is actually located in parent's sibling node.
 			parentOfTopCandidate = topCandidate.ParentNode
-			for parentOfTopCandidate.TagName != "BODY" && parentOfTopCandidate.TagName != "HTML" && len(parentOfTopCandidate.Children) == 1 {
+			for parentOfTopCandidate.ParentNode != nil && parentOfTopCandidate.TagName != "BODY" && parentOfTopCandidate.TagName != "HTML" && len(parentOfTopCandidate.Children) == 1 {
 				topCandidate = parentOfTopCandidate
 				parentOfTopCandidate = topCandidate.ParentNode
 			}
-- 
2.43.0


From 3b83dd8631981686ffe3dd93b2553376775e7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:32 +0000
Subject: [PATCH 30/34] fix: do not replace a detached root by its only
 paragraph

The root of a page with nested <html> tags can have become a parentless
block in an earlier attempt.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index dd01963..a55439f 100644
--- a/readability.go
+++ b/readability.go
@@ -895,7 +895,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
+				if n.ParentNode != nil && r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
-- 
2.43.0


From 1a788f885ccb18de60ddca5ea40496cc1e12ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:06 +0000
Subject: [PATCH 31/34] fix: take the element that holds the body for the root
 of the page

Without an <html> tag nothing of the page was examined, so that hidden
content and bylines stayed in the article; with another <html> inside or
after the body, the body was cut off from the document and its scripts
and styles were not removed.
---
 domparser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 718bfe5..f7029c0 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1151,9 +1151,19 @@ func (p *domParser) parse(htmlSrc, url string) *Node {
 	p.z.AllowCDATA(true)
 	p.readNode(p.doc)
 
+	// The root element is the one that holds the body: there may be no <html>
+	// tag at all, or others elsewhere.
+	if p.doc.Body != nil {
+		var root = p.doc.Body
+		for root.ParentNode != p.doc {
+			root = root.ParentNode
+		}
+		p.doc.DocumentElement = root
+	}
+
 	// If this is an HTML document, remove root-level children except for the
 	// <html> node
-	if p.doc.DocumentElement != nil {
+	if p.doc.DocumentElement != nil && p.doc.DocumentElement.LocalName == "html" {
 		var i = len(p.doc.ChildNodes) - 1
 		for i >= 0 {
 			var child = p.doc.ChildNodes[i]
-- 
2.43.0


From 7b3140c36e83ec8b93ffb87966959644cb8ed94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:09 +0000
Subject: [PATCH 32/34] fix: trim the JSON-LD title when both name and headline
 are given

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index a55439f..be96e03 100644
--- a/readability.go
+++ b/readability.go
@@ -1336,9 +1336,9 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				var headlineMatchs = r.textSimilarity(headline.(string), title) > 0.75
 
 				if headlineMatchs && !nameMatches {
-					meta.title = headline.(string)
+					meta.title = strings.TrimSpace(headline.(string))
 				} else {
-					meta.title = name.(string)
+					meta.title = strings.TrimSpace(name.(string))
 				}
 			} else if _, ok := name.(string); ok {
 				meta.title = strings.TrimSpace(name.(string))
-- 
2.43.0


From c089fbaa6bf47d16192713f0aef5144393807022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:40 +0000
Subject: [PATCH 33/34] fix: match JSON-LD article types in full

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index ff81428..1a90119 100644
--- a/regexps.go
+++ b/regexps.go
@@ -27,7 +27,7 @@ var (
 	// see: https://en.wikipedia.org/wiki/Comma#Comma_variants
 	commas = regexp.MustCompile(`\x{002C}|\x{060C}|\x{FE50}|\x{FE10}|\x{FE11}|\x{2E41}|\x{2E34}|\x{2E32}|\x{FF0C}`)
 	// See: https://schema.org/Article
-	jsonLdArticleTypes   = regexp.MustCompile(`^Article|AdvertiserContentArticle|NewsArticle|AnalysisNewsArticle|AskPublicNewsArticle|BackgroundNewsArticle|OpinionNewsArticle|ReportageNewsArticle|ReviewNewsArticle|Report|SatiricalArticle|ScholarlyArticle|MedicalScholarlyArticle|SocialMediaPosting|BlogPosting|LiveBlogPosting|DiscussionForumPosting|TechArticle|APIReference$`)
+	jsonLdArticleTypes   = regexp.MustCompile(`^(?:Article|AdvertiserContentArticle|NewsArticle|AnalysisNewsArticle|AskPublicNewsArticle|BackgroundNewsArticle|OpinionNewsArticle|ReportageNewsArticle|ReviewNewsArticle|Report|SatiricalArticle|ScholarlyArticle|MedicalScholarlyArticle|SocialMediaPosting|BlogPosting|LiveBlogPosting|DiscussionForumPosting|TechArticle|APIReference)$`)
 	titleFinalPart       = regexp.MustCompile(` [\|\-\\\/>»] `)
 	titleSeparators      = regexp.MustCompile(` [\\\/>»] `)
 	otherTitleSeparators = regexp.MustCompile(`(?i)(.*)[\|\-\\\/>»] .*`)
-- 
2.43.0


From 3a914f60d0a280cb043114cdf21746b93466c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:27 +0000
Subject: [PATCH 34/34] fix: keep text that begins with a stray tag opener

---
 domparser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/domparser.go b/domparser.go
index f7029c0..449593e 100644
--- a/domparser.go
+++ b/domparser.go
@@ -34,7 +34,6 @@ import (
 	"slices"
 	"strconv"
 	"strings"
-	"unicode/utf8"
 
 	"golang.org/x/net/html"
 )
@@ -1081,11 +1080,9 @@ loop:
 			{
 				textNode := newText()
 
-				data := p.z.Raw()
-				c, _ := utf8.DecodeRune(data)
-				txt := string(data)
+				txt := string(p.z.Raw())
 
-				if c != '<' {
+				if !strings.HasPrefix(txt, "<!") && !strings.HasPrefix(txt, "<?") {
 					// Escape stray tag openers: they may end up next to other text,
 					// or in another element, and turn into tags when serialized.
 					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
-- 
2.43.0

