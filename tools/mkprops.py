#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=("New", "Parse", "Result")):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "observe_at": list(observe), "hook_needed": None}})
R, D = "readability.go", "domparser.go"
SAMPLE = "The suite replays about 130 recorded pages with one option set; "

prop("C01", "Any input yields a result or an error, never a crash or a hang",
 "For every HTML source, page URI and combination of valid options, constructing a reader, extracting the article and asking whether a page is readerable return normally: no panic, no stack exhaustion, no endless loop. Construction fails exactly when the source is empty or has no body element, and extraction returns either a result or an error, never both and never neither. Extraction reports an error exactly when the element limit is exceeded or no attempt found any text in the page.",
 ["inputs", "configurations"], "every source string (well formed or tag soup), URI and option value",
 SAMPLE + "all are well-formed articles that succeed, so no degenerate, malformed or hostile page is ever tried.",
 [R, D, "readerable.go"], [("outcome of construction", "New"), ("outcome of extraction", "Parse, grabArticle"), ("nil and bounds guards", "removeAndGetNext, getStyle, getJSONLD, fixLazyImages, toAbsoluteURI")],
 [("outcome", "built / rejected / extracted / failed", "New, Parse")])
prop("C02", "Tree links stay mutually consistent under every sequence of edits",
 "After any sequence of appending, removing and replacing nodes and of setting the markup or text of elements, the parent, child list, element list, and all four sibling links of every node describe one and the same ordered forest, and the edit had exactly the effect the DOM prescribes for it. A node that was taken out of the tree has no parent and no siblings, a node that was already elsewhere is moved and not duplicated, and a failed removal changes nothing.",
 ["histories"], "every finite history of edits over every set of element and text nodes that builds no cycle",
 "The tests replay one fixed sequence of edits on one small document; nodes moved within their own parent, re-used after being replaced, or alternating with text nodes are never combined.",
 [D, "util.go"], [("append", "Node.AppendChild"), ("remove", "Node.RemoveChild"), ("replace", "Node.ReplaceChild"), ("set markup/text", "Node.SetInnerHTML, Node.SetTextContent"), ("slice edits", "insert, delete")],
 [("forest", "ordered children of every node", "Node.ChildNodes/Children/ParentNode/...Sibling")], ("Node exported fields and methods",))
prop("C03", "Text and markup survive being written and read back",
 "Writing a tree as markup and parsing that markup again yields the same elements, attributes and text, whatever characters the text and attribute values contain. Text is read back with every predefined or numeric character reference decoded exactly once, and text, however it got into a node, is never written in a way that parses as markup. An end tag closes only the innermost open element, and only if it has its name; comments leave no trace, and the text of scripts and styles is taken as it stands. (Names are ordinary ones, a namespace prefix is dropped, and a reference is read within one text.)",
 ["inputs"], "every text, attribute value and sequence of tags, references, comments and CDATA sections",
 "Tests decode five sample references and round-trip one paragraph; the encoding is a function on all strings and nestings.",
 [D, "regexps.go"], [("escaping", "encodeHTML, encodeTextContentHTML"), ("decoding", "decodeHTML"), ("lazy text/markup caches", "getTextContentFromTextNode, getInnerHTMLFromTextNode"), ("serializer", "GetInnerHTML"), ("parser", "readNode")], (), ("Node.SetInnerHTML", "Node.GetInnerHTML", "Node.GetTextContent", "Node.SetTextContent"))
prop("C04", "No scripts, form controls, junk elements or styling in the content",
 "The HTML content of a result never contains a script, noscript, style, link, input, textarea, select, button, footer, aside or h1 element, nor, outside of inline SVG, a style or other presentational attribute, nor a width or height on a table, table cell, rule or preformatted block. This holds wherever such elements stand in the page, at any nesting, and whichever extraction attempt produced the content. Everything else about a kept element (its tag up to the h1 to h2 demotion, and its other attributes) is not affected by this cleaning.",
 ["inputs", "configurations"], "every page and every attempt of the extraction",
 SAMPLE + "whether junk survives depends on where it stands and on which attempt wins, which the fixed pages sample once.",
 [R], [("script removal", "removeScripts"), ("style removal", "prepDocument, cleanStyles"), ("element cleaning", "clean, prepArticle")])
prop("C05", "javascript: links never survive, their content always does",
 "No link in the HTML content has a javascript: target, in whatever letter case and with whatever blanks around it was written. Such a link is replaced in place by its content: plain text if it holds just one text, otherwise all of its children in their order; no text or image of it is lost, duplicated or moved, and other links are not unwrapped.",
 ["inputs"], "every link target and link content at every place of the article",
 "One recorded page contains such links, written one way.",
 [R], [("link neutralisation", "fixRelativeUris"), ("replacement", "Node.ReplaceChild, Node.AppendChild")])
prop("C06", "Link and media URLs come out absolute and correctly resolved",
 "Every link target and every media source, poster and srcset candidate in the HTML content is the original reference resolved as RFC 3986 prescribes against the page URI, or against the base element if there is one, with its escapes, query, fragment, user info and srcset descriptors intact. Fragment-only links stay as they are when the page has no other base, and empty attributes stay empty. The host is lower-cased and an empty path of a URL with a host becomes a slash.",
 ["inputs", "configurations"], "every reference, page URI and base element",
 "The recorded pages use one fake host and a few dozen shapes of references; resolution is a function of all (base, reference) pairs.",
 [R, D], [("resolution", "fixRelativeUris"), ("base", "Node.getBaseURI"), ("srcset", "srcsetUrl")])
prop("C07", "Only requested classes remain, unless all are kept",
 "With default options every class attribute in the HTML content lists exactly those classes of the element, in their order, that the library sets itself or the caller asked to preserve, and the attribute is absent if none remains. When the caller asks to keep classes, every class attribute is as in the page. Identifiers and other attributes are not affected by this.",
 ["inputs", "configurations"], "every class attribute and every set of preserved classes",
 "All tests preserve one class name, and keeping classes is never tested.",
 [R, "options.go"], [("class cleaning", "cleanClasses, preserve"), ("options", "ClassesToPreserve, KeepClasses")])
prop("C08", "Text is only ever selected from the page, in order and at most once",
 "The text of a result consists of text of the page (of its body, if all content is in it): no characters are invented or altered, no piece occurs twice, and pieces keep their order. The text content is the concatenation of the text in the HTML content, the length is its number of characters, and the content is wrapped in a single page container. Whether or not earlier attempts failed, nothing of their intermediate edits shows.",
 ["inputs"], "every page, every option set, every attempt",
 SAMPLE + "they compare against recorded output, which says nothing about loss or duplication on other structures.",
 [R, D], [("moving nodes", "grabArticle, replaceBrs, simplifyNestedElements"), ("restoring the page", "grabArticle: SetInnerHTML(pageCacheHtml)"), ("result", "Parse")])
prop("C09", "The article is the best-scored container plus its related siblings",
 "The extracted article consists of the container with the best content score (scored paragraphs credit their ancestors by length, commas and distance; tags, class names, ids and link density adjust it), replaced by a better common ancestor as documented, together with those siblings whose score, class or prose qualifies them. Blocks that only wrap text are treated as paragraphs. If nothing scores, all of the body is taken.",
 ["inputs", "configurations"], "every page structure and number of top candidates",
 SAMPLE + "the outcome is a function of all structures, lengths and names, with many thresholds the pages never sit on.",
 [R, "regexps.go"], [("scoring", "grabArticle, initializeNode, getClassWeight, getLinkDensity"), ("selection", "grabArticle: topCandidates, alternativeCandidateAncestors"), ("sibling join", "grabArticle: siblingScoreThreshold")])
prop("C10", "Failed attempts are retried with fewer filters and leave no trace",
 "If the article found is shorter than the character threshold, extraction is repeated on the unmodified body of the page first without dropping unlikely blocks, then also without class weights, then also without conditional cleaning; the first article that reaches the threshold is returned. If none does, the longest one found is returned, the earliest among equals, and it is an error only if all of them were empty. Lengths are in characters.",
 ["inputs", "configurations"], "every page and every threshold, hence every sequence of attempt outcomes",
 SAMPLE + "most pages succeed at once, and no test varies the threshold.",
 [R], [("attempt loop", "grabArticle: flagIsActive/removeFlag/attempts"), ("restore", "SetInnerHTML(pageCacheHtml)")],
 [("flags", "active filters", "Readability.flags"), ("attempts", "articles found so far", "Readability.attempts")])
prop("C11", "Content hidden from the reader never appears in the article",
 "Text inside an element of the body that is hidden (display:none or visibility:hidden in its style, a hidden attribute, aria-hidden=true unless it is a fallback image, a modal dialog, or a menu, navigation, complementary, alert or dialog role) is not in the result, in whichever attempt it was found. Elements that are not hidden in any of these ways are not removed for it.",
 ["inputs"], "every combination of hiding attributes at every place, and every attempt",
 SAMPLE + "a handful contain hidden content, in one form each.",
 [R, D], [("visibility", "isProbablyVisible, style.getStyle"), ("roles and dialogs", "grabArticle")])
prop("C12", "Metadata comes from the highest-ranked source that has it",
 "Title, author, excerpt, site name and publication time are each taken from the first source that provides them: schema.org JSON-LD of an article type (unless disabled), then the meta tags in their documented order (Dublin Core, Open Graph, Weibo, plain, Twitter), then the page itself; of several tags with the same name the last counts; values are trimmed and their character references decoded. JSON-LD of another context or type, or with values of unexpected types, is ignored without affecting the other sources.",
 ["inputs", "configurations"], "every combination of present, absent, empty and malformed sources",
 "Each recorded page has one combination out of tens of thousands.",
 [R, "regexps.go"], [("JSON-LD", "getJSONLD"), ("meta tags", "getArticleMetadata"), ("precedence", "anyOf")])
prop("C13", "The page title is reduced to the article title by the documented rules",
 "Without a title in the metadata, the title is derived from the title element: the site name behind the last separator is cut, or the part before the first separator if too little is left; a title with a colon is cut at the colon unless a heading repeats it in full; a very short or very long title gives way to the only main heading. A reduction that leaves four words or fewer is undone unless the separators marked a hierarchy and exactly one word was lost.",
 ["inputs"], "every title text, separator placement and set of headings",
 SAMPLE + "each title exercises one path of the rules.",
 [R, "regexps.go"], [("title rules", "getArticleTitle"), ("word similarity", "textSimilarity")])
prop("C14", "The byline is recognised once, reported, and taken out of the article",
 "The first visible element in document order that is marked as an author (rel, itemprop, or class/id) and whose text has fewer than 100 characters is reported as the byline, unless the metadata names one, and it is not in the content of the attempt that found it. At most one element is removed for this, and no element that does not qualify is.",
 ["inputs"], "every placement, marking and length of author elements",
 SAMPLE + "few have several author-like elements or boundary lengths.",
 [R, "regexps.go"], [("byline", "checkByline, isValidByline")])
prop("C15", "Language and direction are those of the page and of the article's place",
 "The language is the lang attribute of the root element, empty if there is none. The direction is the dir attribute of the article's container, parent or nearest ancestor that has one, with the parent of the container taking precedence over the container itself; it is empty if none has one. (Articles of an attempt that reached the threshold.)",
 ["inputs"], "every placement of lang and dir attributes",
 SAMPLE + "a handful carry a dir attribute, at one place.",
 [R], [("lang", "grabArticle"), ("dir", "grabArticle: ancestors of the top candidate")])
prop("C16", "Readerability is decided by visible long text blocks only",
 "A page is probably readerable exactly if the visible paragraphs, preformatted blocks, articles and blocks with line breaks that are not named like page furniture and not paragraphs in list items, each counted once, and each with at least the minimum content length in characters, add up the square roots of their excess lengths to more than the minimum score at one of them. The caller's minimum length, minimum score and visibility check replace the default ones.",
 ["inputs", "configurations"], "every page, minimum length, minimum score and visibility check",
 "Only recorded verdicts of whole pages under default options are compared.",
 ["readerable.go", "util.go", "regexps.go"], [("verdict", "IsProbablyReaderable"), ("visibility", "isNodeVisible")], (), ("IsProbablyReaderable",))
prop("C17", "The element limit is exact and nothing is extracted beyond it",
 "With a positive element limit, extraction fails exactly when the parsed page has more elements than the limit; otherwise, and without a limit, the result is the same as with no limit at all.",
 ["inputs", "configurations"], "every page and every limit",
 "The limit is never set by a test.",
 [R, "options.go"], [("limit", "Parse: maxElemsToParse")])
prop("C18", "Results depend only on the page, its URI and the options given",
 "Extracting a page yields the same result whatever pages were processed before or are being processed at the same time in the process, with whatever options, and in whatever order the steps of concurrent extractions interleave. Options given to one reader never affect another.",
 ["schedules", "histories"], "every interleaving and every history of readers in one process",
 "Tests process each page once, sequentially, with the same options.",
 [R, D, "options.go"], [("per-reader state", "New, defaultOpts"), ("shared defaults", "classesToPreserve and the other package variables")])
prop("C19", "Data tables are kept whole, one-cell tables are unwrapped",
 "A table that is a data table (by summary, caption, header or column elements, or size, unless marked as presentational or containing tables) and everything in it is exempt from conditional removal. A table that consists of a single cell is replaced by the cell's content, as a paragraph if it holds only inline content and as a block otherwise, without losing any of it.",
 ["inputs"], "every table structure and marking",
 SAMPLE + "few tables, none at the boundaries of the size rules.",
 [R], [("classification", "markDataTables, getRowAndColumnCount"), ("exemption", "cleanConditionally, hasAncestorTag"), ("unwrapping", "prepArticle")])
prop("C20", "Deferred images become loadable and real images are never lost to it",
 "An image whose real address stands in another attribute, or in a noscript element after a placeholder, gets that address as its source or source set in the content, keeping a differing former source as old data; a figure without an image gets one. Tiny inline placeholder sources are dropped only if another attribute of the element names an image file, and images that already have a usable source keep it.",
 ["inputs"], "every combination of image attributes, placeholders and noscript contents",
 SAMPLE + "each shows one lazy-loading scheme.",
 [R, "regexps.go"], [("noscript images", "unwrapNoscriptImages, isSingleImage"), ("lazy images", "fixLazyImages")])
prop("C21", "Custom serializer and text converter determine the content fields",
 "The HTML content is exactly what the caller's serializer returns for the article element, and the text content what the caller's converter returns for that HTML content; each is called exactly once per extraction. The length is the number of characters of the text content, whatever produced it, and the other fields are not affected.",
 ["inputs", "configurations"], "every page and every serializer and converter",
 "No test sets either.",
 [R, "options.go"], [("result assembly", "Parse"), ("options", "Serializer, Html2Text")])
prop("C22", "The command prints the article or fails with a message",
 "Given the address of a page, the command prints exactly the text content of the article, or its HTML content if asked for html, and exits successfully; logs appear only if asked for. Without an address, or if the page cannot be fetched or no article can be extracted, it prints a message and exits with status 1. (A page served with an error status is a page like others, and references are resolved against the address given.)",
 ["inputs", "configurations"], "every combination of flags, fetch outcomes and pages",
 "The command has no tests.",
 ["cmd/readability/readability.go"], [("command", "main")], (), ("exit status and standard output of the command",))
prop("C23", "Junk blocks go and prose stays by the documented density rules",
 "While conditional cleaning is active, a form, fieldset, table, list or block is removed from the article exactly if its class weight is negative, or it has fewer than ten commas and its images, list items, inputs, links, headings or embeds outweigh its text as documented, with lists of images, data tables and code exempt; share widgets with little text and badly weighted headings go as well. Embedded objects and frames stay exactly if one of their attributes, or the markup inside an object, names an allowed video.",
 ["inputs", "configurations"], "every block structure and every video pattern",
 SAMPLE + "each threshold is passed on one side only by most of them.",
 [R, "regexps.go"], [("conditional cleaning", "cleanConditionally"), ("embeds", "clean"), ("share widgets", "cleanMatchedNodes"), ("headings", "cleanHeaders")])
prop("C24", "Line-break runs become paragraphs and the layout is simplified losslessly",
 "Two or more successive line breaks (blanks between them ignored) become one paragraph that takes in the inline content that follows up to the next run or block, single breaks stay, and a paragraph holding such paragraphs becomes a block. Nested single blocks are merged into one that carries the attributes of both, empty blocks and paragraphs are dropped, breaks before a paragraph are dropped. No text or image is lost, duplicated or reordered by any of this.",
 ["inputs"], "every arrangement of breaks, inline content, blanks and nested blocks",
 SAMPLE + "adjacent runs, trailing blanks and nestings are not enumerated.",
 [R], [("break runs", "replaceBrs"), ("phrasing content", "isPhrasingContent"), ("nesting", "simplifyNestedElements"), ("empty paragraphs", "prepArticle")])
prop("C25", "Without a described excerpt, the first paragraph of the article is it",
 "If neither JSON-LD nor a meta tag describes the page, the excerpt is the trimmed text of the first paragraph in the extracted article, and it is empty if the article has no paragraph; otherwise it is that description, whatever the article contains.",
 ["inputs"], "every article and combination of descriptions",
 SAMPLE + "the excerpt is compared with recorded values only.",
 [R], [("excerpt", "Parse")])
prop("C26", "A node reads back what was last set, and look-ups find the first match",
 "The attributes of an element behave as an ordered map: setting one changes or adds only that one, removing one removes only that one, and every way of reading or writing them agrees. A text node whose text or markup is set, in any order and whatever was read in between, has the text that was set last or that the markup set last stands for. Looking an element up by its identifier finds the first one in document order that has exactly it, the element asked included, and nothing if there is none.",
 ["histories"], "every sequence of setting, removing and reading on a node, every tree and identifier",
 "The tests set a few attributes once on one document; histories that overwrite, remove and read in other orders, and identifiers that occur twice, are not tried.",
 [D, "util.go"], [("attributes", "Node.SetAttribute, Node.RemoveAttribute, Node.GetAttribute, Node.HasAttribute, delete"), ("lazy text/markup caches", "getTextContentFromTextNode, getInnerHTMLFromTextNode"), ("look-up", "Node.GetElementById")],
 [("attributes", "ordered list of name and value", "Node.Attributes"), ("text", "text or markup set last", "Node.textContent, Node.innerHTML")], ("Node exported methods",))
prop("C27", "A heading that repeats the title is left out, once",
 "In each attempt, the first heading of the first two levels in document order (hidden ones, bylines and dropped blocks apart) more than three quarters of whose words, by length and with letter case and punctuation ignored, are words of the article title is not in the content. No second heading is left out for this, no heading of another level and no other element, and none if the heading or the title has no words.",
 ["inputs"], "every title, from the page or its metadata, and every arrangement and wording of headings",
 SAMPLE + "headings either equal the title or have little in common with it.",
 [R, "regexps.go"], [("comparison", "textSimilarity, headerDuplicatesTitle"), ("removal", "grabArticle: shouldRemoveTitleHeader")])
prop("C28", "Blocks named like page furniture are dropped at first, and only those",
 "In the first attempt, an element whose class or id contains the name of page furniture (banner, comment, sidebar, footer and the other names of the documented list, in any letter case) and none of the names of possible content (article, body, column, content, main, shadow, and) is not in the article, with all it holds, unless it is the body, a link, or within a table or code at most four levels up. Nothing is dropped for its name otherwise, and later attempts drop nothing for this.",
 ["inputs"], "every name, element and place of an element",
 SAMPLE + "a few of the names occur, hardly any of the exceptions.",
 [R, "regexps.go"], [("names", "unlikelyCandidates, okMaybeItsACandidate"), ("removal", "grabArticle"), ("exceptions", "hasAncestorTag")])
prop("C29", "Embedded players stay exactly when their address is an allowed video",
 "An iframe, embed or object of the extracted container stays in the content exactly when a value of one of its attributes - for an object, also anything in its markup - matches the allowed videos: the documented players by default (after //, with or without www., in any letter case), the given pattern if AllowedVideoRegex is used, none if that is nil. Unless it is hidden, named like page furniture, or within something removed for another reason, this depends neither on where it stands nor on the other attributes or their order; a block that holds an allowed player is not removed by the density rules (but for its negative names), and a paragraph with nothing but a player is no empty paragraph.",
 ["inputs"], "every address in every attribute and every nesting of players and blocks",
 SAMPLE + "players stand alone with an address in src; hardly any other attribute, nesting or near miss of a player's name occurs.",
 [R, "regexps.go", "options.go"], [("allowed", "clean, videos, AllowedVideoRegex"), ("blocks", "cleanConditionally"), ("paragraphs", "prepArticle")])
prop("C30", "Share widgets and headings named like junk are left out, and nothing else",
 "Within the parts that make up the article, an element whose class or id has share or sharedaddy as a word (bounded by anything but letters and digits, in any letter case) is left out if its text, as it stands, has fewer than 500 characters, and is not left out for this name otherwise; the parts themselves are never left out for it. This holds in every attempt. In the first two attempts, in which names count, an h1 or h2 of negative class weight is left out at any length.",
 ["inputs"], "every name, element, nesting and length of text",
 SAMPLE + "widgets are named by one of few names and far from the limits.",
 [R, "regexps.go"], [("widgets", "prepArticle, cleanMatchedNodes, shareElements"), ("headings", "cleanHeaders")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
