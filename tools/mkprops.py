#!/usr/bin/env python3
# Writes properties.jsonl (the texts live here so that they can be reviewed in one place).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None,
                 **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {})}})

p("C01","Text content reads back unchanged",
  "Any string written as text (WriteText, Text nodes, element content) is written as well-formed character data from which an XML reader recovers exactly that string, including markup characters, quotes, ']]>' and carriage returns. Invalid UTF-8 and code points outside the XML character range read back as U+FFFD, one per offending byte or code point, and nothing else changes.",
  ["inputs"],"every byte string, however long, at every position of the writer's buffer",
  "The tests write a handful of fixed strings; escaping is per rune and depends on UTF-8 decoding, so it has to hold for every byte sequence.",
  ["printer.go","nodes.go"],[("escaping of character data","printer.go EscapeString"),("text node","nodes.go Text.write"),("character range","printer.go isInCharacterRange")],["bytes received by the io.Writer"])
p("C02","Attribute values read back unchanged",
  "Any string written as an attribute value (WriteAttr, Elem.Attrs, a DTD attribute default) is written between double quotes so that an XML reader, after attribute-value normalisation, recovers exactly that string: tabs, newlines, carriage returns, quotes and markup included. Invalid UTF-8 and code points outside the XML character range read back as U+FFFD, and no value can end its attribute or its tag.",
  ["inputs"],"every byte string used as a value, for elements, DTD attribute defaults and the document declaration",
  "Tests use a few ASCII values; the fast path and the slow path of the escaper split on the first unusual byte, wherever that is.",
  ["printer.go","attr.go","dtd.go","elem.go"],[("attribute escaping, fast path table and slow path","printer.go EscapeAttrString, attrStringEscaped"),("attribute syntax","printer.go printAttr"),("DTD default values","dtd.go DTDAttr.write")],["bytes received by the io.Writer"])
p("C03","Only XML names are accepted as names",
  "While enforcement is on, every name given to the writer (element, attribute, prefix, PI target, DTD, entity, notation, attribute-list and attribute-definition names, NDATA notation) is accepted only if the name as written is an XML 1.0 Name; any other name is refused with an error and never reaches the output. Names made of ASCII letters, digits, '_', '-', '.', ':' and of U+00C0-U+036F (without U+00D7 and U+00F7), U+00B7 and U+0370-U+037D are accepted wherever the Name production allows them.",
  ["inputs"],"every byte string used as any kind of name",
  "TestCheckName has ten names; the check is a 65536-entry table and a rune loop and must hold for each of a million code points at each position, at every place that takes a name.",
  ["check.go","tables_gen.go","elem.go","attr.go","dtd.go","nodes.go","printer.go"],[("CheckName and its table","check.go CheckName, tables_gen.go nameChar"),("callers which enforce it","elem.go open, printer.go printAttr, dtd.go, nodes.go PI.write")],["returned errors","bytes received by the io.Writer"])
p("C04","The character checkers accept exactly their productions",
  "CheckChars accepts exactly the strings of valid UTF-8 whose code points are XML 1.0 Chars, and in strict mode additionally excludes exactly the ranges the XML recommendation lists as discouraged; CheckPubID accepts exactly strings of PubidChar; CheckEncoding accepts exactly the empty string and the EncName production. The writer enforces them on comment, CDATA and PI content (strict or not following StrictChars), on public IDs and on encoding names.",
  ["inputs","configurations"],"every byte string, both strictness settings",
  "There is no test of CheckChars, CheckPubID or CheckEncoding at all; their contract is over all code points.",
  ["check.go","nodes.go","printer.go"],[("CheckChars","check.go"),("CheckPubID","check.go"),("CheckEncoding","check.go")],["returned errors"])
p("C05","Comments, CDATA and PIs cannot be broken out of",
  "While enforcement is on, whatever content is given to a comment, a CDATA section or a processing instruction, in one call or split over any number of calls, either some call returns an error or a reader finds exactly one comment, CDATA section or PI with exactly that content (a reader's line-end normalisation, and white space at the start of a PI's content, aside). In particular '--', a trailing '-', ']]>' and '?>' cannot get into the output as content, even when the pieces come from different calls; where no node is open, one call that writes such content refuses them too. Content without any of these, and without characters XML does not allow, is accepted, whatever other nodes contain.",
  ["inputs","histories"],"every content and every way of splitting it over calls, in every node that may hold it",
  "The tests try one offending string per node in one call; the property is about all contents and all splits.",
  ["nodes.go","node.go"],[("comment content","nodes.go CommentContent.write, Comment.end"),("CDATA content","nodes.go CDataContent.write"),("PI","nodes.go PI.write")],["returned errors","bytes received by the io.Writer"])
p("C06","DTD literals cannot be broken out of",
  "While enforcement is on, any system ID, public ID or entity value given to a DTD, entity or notation is either refused with an error or written in quotes such that a reader recovers exactly that literal; a value containing both kinds of quotes, characters that are not XML characters, or (for public IDs) characters that are not PubidChars, is refused, and no other is. A public ID without a system ID is accepted only for a notation.",
  ["inputs"],"every byte string used as a system ID, public ID or entity value, in every declaration that takes one, alone and combined",
  "The tests have a few fixed IDs with and without quotes; choice of quote and refusal depend on the whole content.",
  ["printer.go","dtd.go"],[("external IDs","printer.go writeExternalID, writeSystemID, writePublicID"),("entity values","printer.go writeEntityValue"),("declarations","dtd.go")],["returned errors","bytes received by the io.Writer"])
p("C07","The element tree written is the tree described",
  "For every sequence of accepted calls that writes elements, attributes, text, comments, CDATA and PIs, the flushed output is well-formed and a reader recovers exactly the nodes described, in order, with the nesting given by Start/End/Content and with every attribute on its own element. An element with no children is written in the short form unless ended with the full form or marked Full; depth of nesting, number of attributes and nesting of Content make no difference.",
  ["histories","inputs"],"every sequence of accepted calls, from every nesting depth",
  "Tests check about a hundred fixed call sequences with shallow nesting; interactions between node states, pending content and growth of the node stack need all sequences and depths.",
  ["writer.go","node.go","elem.go","attr.go","nodes.go"],[("node stack","writer.go pushBegin, pushEnd, pop, Next"),("state transitions","node.go open, opened, end"),("element syntax","elem.go")],["bytes received by the io.Writer"],[("nodes/current","stack of open nodes and its top","writer.go Writer")])
p("C08","Ending nodes: only the right node, and exactly it",
  "Depth is -1 when nothing is open, grows by one per started node and shrinks by one per ended node. End(kind), End(kind, name), End(kind, prefix, name) and the End<Kind> methods end the current node if and only if its kind and given names match; otherwise they return an error and change neither the output nor any later output. EndToDepth ends exactly the nodes started since that depth (and errors if there are none or the last one does not match), EndDoc and EndAll end everything, EndAny the current node, and ending with nothing open is an error.",
  ["histories"],"every history, every End variant with matching and mismatching kinds and names",
  "Tests exercise one successful sequence per End variant and few mismatches.",
  ["writer.go","node.go"],[("End family","writer.go End, EndAny, EndDoc, EndAll, EndToDepth, EndElemFull, pop")],["returned errors","Depth()","bytes received by the io.Writer"])
p("C09","Nodes are accepted exactly where the documentation allows",
  "While enforcement is on, a node is accepted if and only if it is written with no parent or directly inside a parent that the documented hierarchy allows (Raw anywhere; an attribute only until its element's start tag has been closed). A call refused for its place returns an error and leaves the depth, the open nodes and the output as they were.",
  ["histories","configurations"],"every node kind against every kind of parent, reached by every route and started or written by every API that can carry it",
  "Tests cover a few forbidden placements; the matrix is 16 kinds by 7 parents by node states.",
  ["writer.go","nodekind.go","node.go","nodes.go","dtd.go","attr.go","elem.go"],[("parent check","writer.go checkParent, pushBegin"),("flags","nodekind.go"),("allowed parents per node","start/write methods")],["returned errors","Depth()","bytes received by the io.Writer"])
p("C10","Write errors are reported and nothing after them is delivered",
  "If the underlying io.Writer fails (an error or a short write) at any point, then the call that triggered it or a later one, and in any case EndAllFlush/Flush and every following writing call that produces output, returns that error; the bytes delivered before the failure are exactly a prefix of what a fault-free run delivers. No call panics or loops because of the fault, and if no call returns an error then everything was delivered.",
  ["fault_sequences","histories"],"every fault point (after any number of bytes, error or short write), every history of calls, every buffer size",
  "No test makes the underlying writer fail.",
  ["printer.go","writer.go","nodes.go","node.go","indenter.go"],[("sticky error","printer.go cachedWriteError"),("error returns of every node","nodes.go, elem.go, dtd.go, attr.go")],["returned errors","bytes received by the io.Writer"])
p("C11","Output does not depend on buffering or flushing",
  "For the same sequence of calls the bytes delivered after the final flush are identical whatever InitialBufSize is and wherever Flush is called in between; after Flush returns nil everything produced by the preceding calls has been delivered. The results (errors) of the calls do not depend on them either.",
  ["configurations","histories","schedules"],"every buffer size, every placement of Flush calls, every history",
  "Tests use the default buffer and flush once at the end.",
  ["writer.go","printer.go"],[("buffer set-up","writer.go newWriter"),("Flush","writer.go Flush")],["bytes received by the io.Writer"])
p("C12","Indentation only adds white space where it cannot matter",
  "With a StandardIndenter the output differs from the output of the same calls without it only by inserted white space, each insertion being the newline string followed by a whole number of copies of the indent string, at places between markup: never inside a tag, declaration (but between the definitions of an attribute list), comment, CDATA section, PI or text, and inside an element never next to text or CDATA content. A reader recovers the same nodes except for white-space-only text, and the number of copies is the nesting depth (elements, DTD, attribute list) at that place. In an element that is given only elements each child and the end tag get a line of their own.",
  ["histories","configurations"],"every history of accepted calls, every indent and newline string",
  "The tests have about fifteen fixed documents; where white space is added depends on pairs of consecutive events and on the indenter's own stack.",
  ["indenter.go","node.go","writer.go"],[("StandardIndenter","indenter.go Indent"),("events","node.go open/opened/end, writer.go writeBeginCur")],["bytes received by the io.Writer"])
p("C13","Namespace declarations are consistent",
  "A prefixed element with a URI declares that prefix on itself exactly once, and so does each prefix given with a URI by an attribute of the element; several uses of one prefix with one URI on an element give one declaration, and a different URI for a prefix already bound on that element is refused with an error. Every prefix used with a URI resolves, for a reader, to exactly that URI, wherever the element is nested and however its attributes were given.",
  ["histories","inputs"],"every combination of prefixes and URIs on elements and attributes, at every depth",
  "The tests check four fixed combinations.",
  ["elem.go","attr.go"],[("namespace bookkeeping","elem.go open, opened; attr.go write")],["returned errors","bytes received by the io.Writer"])
p("C14","The API styles are interchangeable",
  "The same document written through different styles gives identical bytes: nodes passed to Write or Start or given to their Write<Kind>/Start<Kind> methods, one call with several nodes or several calls with one, Start+End or Write or Block, an element's Attrs and Content or separate calls, content given in the node or by content calls. What is refused in one style is refused in the other.",
  ["programs","histories","inputs"],"every document built from the supported nodes, every choice of style per node, at every depth",
  "The tests compare styles on a few documents.",
  ["writer.go","elem.go","nodes.go","dtd.go","attr.go"],[("method wrappers","writer.go"),("Block, Write, Start","writer.go"),("Content and Attrs","elem.go opened, open")],["bytes received by the io.Writer","returned errors"])
p("C15","Other encodings carry the same document",
  "A document written through OpenEncoding with an x/text encoder, decoded with the matching decoder, is the document Open would have written for the same calls, with the given encoding name in the declaration; characters of text and attribute values which the encoding cannot represent are written as character references and read back as those characters. This does not depend on where buffer flushes split the output.",
  ["inputs","configurations","histories"],"every text and attribute content, every buffer size and flush point, for the single-byte and UTF-16 encoders",
  "Tests write one fixed string per encoding, smaller than the buffer.",
  ["writer.go","nodes.go"],[("encoder set-up","writer.go OpenEncoding"),("declared name","nodes.go Doc.open")],["decoded bytes received by the io.Writer"])
p("C16","ErrCollector keeps the first error and where it came from",
  "After any sequence of Do calls the collector holds the first non-nil error passed, its 1-based position in its call and the file and line of that call, and later errors or successes change nothing. Set assigns the collector to the target if and only if an error was collected, Panic panics with the collector if and only if one was collected, Must panics with it at once, errors.Is sees the collected error, and a collector without errors does nothing.",
  ["histories"],"every sequence of Do/Must/Set/Panic calls with every pattern of nil and non-nil errors",
  "The tests use one Do call with a single error.",
  ["errs.go"],[("ErrCollector","errs.go")],["collector fields","Set target","panics"])
p("C17","Typed attribute values are written faithfully",
  "The Bool, Int*, Uint* and Float* setters of an attribute store a text that, parsed back as the same type, gives exactly the value passed, for every value of the type, and change nothing else of the attribute. Integers are in plain decimal without padding or plus sign.",
  ["inputs"],"every value of every supported type",
  "The tests use one or two small values per type; sign, width and extreme values matter.",
  ["attr.go"],[("setters","attr.go")],["Attr.Value","bytes received by the io.Writer"])
p("C18","Raw is verbatim, and Next separates tag from content",
  "A Raw string appears in the output byte for byte, exactly at the place in the sequence of calls where it was written, in every state of every node and whether or not enforcement is on. Written inside an element whose start tag is still open it goes inside the tag; after Next it goes after the '>' of the start tag. Next opens the current node (closes a pending start tag, opens the internal subset of a DTD, writes pending Content) exactly once, and otherwise writes nothing.",
  ["histories","inputs"],"every raw string, every node kind and state, every neighbouring call",
  "Tests write raw in three places.",
  ["nodes.go","writer.go"],[("Raw","nodes.go Raw.write"),("Next","writer.go Next, node.go opened")],["bytes received by the io.Writer"])
p("C19","The document declaration says what was asked",
  "Starting a Doc writes an XML declaration first, followed by the newline string, whose version, encoding and standalone pseudo-attributes are exactly those asked for by the writer (version, encoding) and the Doc (suppressed, forced, standalone), in that order and each at most once. An encoding name that is not an EncName is refused while enforcing; suppressing everything leaves an empty declaration.",
  ["configurations","inputs"],"every combination of Doc options, writer version and encoding, every value",
  "The tests check about eight of the combinations.",
  ["nodes.go"],[("Doc.open","nodes.go")],["returned errors","bytes received by the io.Writer"])
p("C20","DTD declarations read back as described",
  "Every accepted sequence of DTD, entity, element, attribute-list, attribute-definition and notation calls gives well-formed declarations from which a reader recovers exactly the names, kinds, external IDs, values, content specifications, types and defaults given (content specifications and types are written as they are, without a check), inside the DOCTYPE they were written in; an internal subset is bracketed if and only if it has content. Contradictory declarations (a value together with an external ID, NDATA without one or on a parameter entity, a value with #REQUIRED or #IMPLIED, an unknown default, a missing name, type, declaration or ID) are refused. The package's constants for content specifications, types and defaults stand for what the XML recommendation calls by these names.",
  ["histories","inputs","configurations"],"every combination of fields and every sequence of declarations",
  "The tests check around forty fixed declarations.",
  ["dtd.go","printer.go","node.go"],[("DTD nodes","dtd.go")],["returned errors","bytes received by the io.Writer"])
p("C21","Enforcement only refuses; it never changes accepted output",
  "For every sequence of calls that is accepted with enforcement on, the same calls with enforcement off are accepted too and give identical bytes. Likewise StrictChars only decides what is refused. With enforcement off nothing is refused for its place in the document or for the characters of its names and content.",
  ["histories","configurations","inputs"],"every history accepted with enforcement on, every content",
  "The tests turn enforcement off in two places and never compare.",
  ["writer.go","elem.go","nodes.go","dtd.go","attr.go","printer.go"],[("guards on Enforce","all node types")],["returned errors","bytes received by the io.Writer"])
p("C22","Writers are independent and leave the caller's nodes alone",
  "Interleaving calls on two writers (with or without separate indenters) gives each the output it would give alone. Writing a node never changes the node value, its Attrs, its Content or the strings and pointers the caller passed, so that the same value can be written again, to the same or another writer, with the same result.",
  ["histories","schedules","inputs"],"every interleaving of two histories, every reuse of node values",
  "The tests never use two writers at once or the same node twice.",
  ["writer.go","elem.go","attr.go","nodes.go","indenter.go","dtd.go"],[("value semantics of nodes","node.go, elem.go namespaces"),("per-writer state","writer.go")],["bytes received by the io.Writer","node values after the calls"])
p("C23","A custom Indenter is told every step, and what it does is what is written",
  "For every accepted sequence of calls, Indent is called exactly once before each node is opened (StateOpen), before the body of a started node begins (StateOpened) and before it ends (StateEnded), properly nested, with the kind of that node (and, of a node that ends, whether it had children), during the call that causes the step, and with the event before as 'last' (a node without a body leaves StateEnded). An Indenter that writes nothing leaves the output as it would be without one; what it writes through the Writer appears exactly at that place and changes nothing else. Wrap is called once for every text and comment content, and what it returns is written in its place, escaped and checked like any other. An error of Indent is returned by the call that caused it. An Indenter that passes everything on to a StandardIndenter gives what that gives. (The events of raw text which a PI may write as its content are left open.)",
  ["histories","inputs"],"every accepted sequence of calls, every Indenter",
  "The tests only use the StandardIndenter, in a handful of documents.",
  ["writer.go","node.go","nodes.go","attr.go","elem.go","dtd.go","indenter.go"],[("writeIndent, writeBegin, writeBeginCur, writeBeginNext","writer.go"),("open, opened, end","node.go"),("Wrap","nodes.go Text.write, CommentContent.write")],["calls to Indent and Wrap","returned errors","bytes received by the io.Writer"])
p("C24","Kinds, states and events are named, and nothing else is",
  "Name of a NodeKind is its stable name for each of the kinds the package defines ('none', 'attr', 'cdata', 'cdatacontent', 'comment', 'commentcontent', 'dtd', 'dtdattlist', 'dtdattr', 'dtdelem', 'dtdentity', 'document', 'elem', 'notation', 'pi', 'raw', 'text') and empty for every other value; String is that name ('<unknown>' for an empty one) followed by the value in parentheses. Name of a NodeState is 'open', 'opened', 'ended' and empty for every other value. String of an Event is the number of the state, the name of the kind and '+' with the number of children, separated by tabs. None of them panics for any value.",
  ["inputs"],"every value of NodeKind, NodeState and of the fields of Event",
  "The tests never look at a name; the documentation speaks of values that are no kind.",
  ["nodekind.go","node.go","misc.go"],[("names of kinds","nodekind.go Name, String, kindName"),("names of states","node.go NodeState.Name, stateName"),("events","misc.go Event.String")],["returned strings"])
p("C25","The writer streams: at most a buffer of output is held back",
  "After every call, whether it was accepted or refused, all of what the calls so far have produced has been delivered to the io.Writer, in order and each byte once, except for at most the last InitialBufSize bytes (2048 by default), however long the document, the history of calls or the content of one call. After Flush nothing is held back, a Flush with nothing held back does not call the io.Writer, and the io.Writer is never called with nothing to write.",
  ["histories","inputs","configurations"],"every history of calls, every content, every buffer size",
  "The tests look at the output only at the end, and almost all their documents are smaller than the buffer.",
  ["writer.go","printer.go","nodes.go","node.go","elem.go","dtd.go"],[("buffer","writer.go newWriter, Flush"),("writing without other copies","printer.go EscapeString, EscapeAttrString; nodes.go")],["calls of the io.Writer"])
d=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(d,"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
