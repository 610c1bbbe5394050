import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=[over],text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=state,meaning='the mutable state the property is about',where=files[0])]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p("C01","Text is never reinterpreted as Markdown (smart escaping)",
 "With the default escape mode, visible text that contains Markdown-significant characters reads back, under a CommonMark/GFM reader, as exactly the same characters and never as emphasis, code, link, heading, list, quote, divider, fence or table. This holds for every string over the escaped characters, at every line position, inside every supported element and next to any neighbouring text.",
 "inputs","all text strings (in paragraphs, headings, list items, quotes, emphasis, links, table cells, after hard breaks)",
 "Whether a character is significant depends on its position and everything around it; a test samples a few strings out of exponentially many combinations.",
 ["converter/escape.go","internal/escape","plugin/commonmark/commonmark.go","plugin/strikethrough/strikethrough.go","plugin/table/unescape.go","ESCAPING.md"],
 [("placeholder in front of every significant character","converter/escape.go escapeContent"),("un-escapers decide which placeholders become a backslash","internal/escape Is*; converter/escape.go unEscapeContent")],
 observe=["converter.Converter.ConvertString"])
p("C02","Disabled escaping leaves text untouched; escaping only ever adds backslashes",
 "With EscapeModeDisabled the visible text is emitted without a single inserted backslash; with the smart mode the output differs from the disabled output at most by backslashes directly in front of escapable characters, and none in text without Markdown-significant characters. No internal placeholder character ever reaches the output.",
 "inputs","all text strings and documents, both escape modes",
 "Over-escaping and leaking placeholders show up only for particular neighbouring characters; samples cannot cover the combinations.",
 ["converter/escape.go","converter/converter.go","marker/marker.go"],
 [("escape mode switch","converter/converter.go WithEscapeMode; converter/escape.go"),("placeholders are removed after rendering","converter/escape.go unEscapeContent")])
p("C03","Block structure survives the conversion",
 "Headings with their level, paragraphs, (nested) ordered and unordered lists with start numbers, blockquotes, code blocks, dividers and hard paragraph breaks are read back by a CommonMark reader as the same tree in the same order, for every nesting and adjacency of these elements.",
 "programs","all nestings and sequences of block elements",
 "Each container prefixes the lines of whatever is inside of it, so errors appear only for certain combinations of nesting, adjacency and content.",
 ["plugin/commonmark/render_list.go","plugin/commonmark/render_blockquote.go","plugin/commonmark/render_heading.go","plugin/base/renderers.go","internal/textutils","internal/domutils/list_items.go","internal/domutils/list_end_comment.go"],
 [("prefix and indentation of nested content","plugin/commonmark/render_list.go; render_blockquote.go"),("adjacent lists are separated by a comment","internal/domutils/list_end_comment.go")])
p("C04","Inline formatting covers exactly the same characters",
 "Bold, italic, strikethrough, inline code, links and images apply in the Markdown to exactly the characters they apply to in the HTML, for every nesting of these elements, redundant or swapped tags, and surrounding whitespace or line breaks.",
 "programs","all nestings of inline elements whose neighbours are separated by whitespace",
 "Delimiter runs interact with neighbouring text, whitespace and other delimiters, so a wrong rule is only visible for certain combinations.",
 ["plugin/commonmark/render_bold_italic.go","plugin/commonmark/handle_pre_render.go","plugin/strikethrough/strikethrough.go","internal/domutils","internal/textutils/delimiter.go","internal/textutils/surrounding_spaces.go"],
 [("delimiters per line without surrounding spaces","internal/textutils/delimiter.go"),("tree rewrites before rendering","plugin/commonmark/handle_pre_render.go; internal/domutils")])
p("C05","Code is reproduced verbatim",
 "The content of a code block is reproduced character for character, together with its language, whatever it contains (fences, indentation, blank lines, Markdown or HTML syntax) and wherever the block is nested; inline code keeps its characters apart from whitespace being collapsed.",
 "inputs","all code contents, languages, fences and nestings",
 "The fence must be longer than every fence-like run in the content, and placeholders protect the newlines through all later passes; failures need particular contents.",
 ["plugin/commonmark/render_code.go","internal/textutils/codefence.go","internal/textutils/collapse_code.go","internal/textutils/consecutive_newlines.go","marker/marker.go"],
 [("fence length","internal/textutils/codefence.go CalculateCodeFence"),("newline placeholders inside code","plugin/commonmark/render_code.go; commonmark.go handlePostRenderCodeBlockNewline")])
p("C06","Links and images keep destination, title and text",
 "Every link and image is read back as one link or image with the same destination (percent-decoded), the same title and the same text or alt description, whatever characters these contain.",
 "inputs","all combinations of href/src, title, alt and content",
 "Brackets, quotes, backslashes, newlines and parentheses each break the syntax at another place and only in combination.",
 ["plugin/commonmark/render_link.go","plugin/commonmark/render_image.go","internal/textutils/quote.go","internal/textutils/escape_multiline.go","converter/url.go"],
 [("title quoting","internal/textutils/quote.go SurroundByQuotes"),("multi line link content","internal/textutils/escape_multiline.go"),("destination encoding","converter/url.go")])
p("C07","Relative URLs resolve against the domain, query strings keep their order",
 "With a domain configured every reference in href or src is resolved per RFC 3986 against that domain (a domain without scheme counts as http), absolute, data and mailto URLs keep their target and a lone # stays; without a domain nothing is resolved. What is percent-encoded to write it down never changes what a path, host, fragment or query means, and query parameters keep their order, keys and values, also for duplicates and empty values. A reference that is no valid URL is kept as it is.",
 "inputs","all combinations of domain and reference",
 "Reference resolution is a case analysis over scheme, authority, path, dot segments, query and fragment; tests sample a handful of URLs.",
 ["converter/url.go","converter/ctx.go","converter/converter.go"],
 [("reference resolution","converter/url.go defaultAssembleAbsoluteURL"),("query encoding in order","converter/url.go parseAndEncodeQuery")])
p("C08","Whitespace collapses like in a browser",
 "Collapsing removes and merges whitespace exactly as a browser does when it lays out inline content: runs become one space, spaces at block edges and next to line breaks disappear, spaces are never lost between words across inline elements, preformatted and non-breaking whitespace is untouched, and collapsing twice changes nothing.",
 "inputs","all trees of block, inline, void and preformatted elements with any whitespace",
 "The decision about one space depends on text in other elements arbitrarily far away in the tree.",
 ["collapse/collapse.go","collapse/is_node.go","collapse/whitespace.go","plugin/base/base.go"],
 [("single pass with the previous text node and a keep flag","collapse/collapse.go Collapse")],
 observe=["collapse.Collapse"])
p("C09","Tables keep every cell in its row and column",
 "A data table becomes one GFM table in which every cell text is at the row and column the HTML grid model (colspan, rowspan, header row) assigns to it, with the column alignment and all rows of the same width; the options for spans, empty rows, header promotion, presentation tables and newlines act as documented. Content that a table cell cannot represent makes the table fall back rather than lose content.",
 "programs","all grids with spans, alignments, sections, options and cell contents",
 "The grid is computed from interacting spans and padded from all cells at once; only particular combinations misplace a cell.",
 ["plugin/table/1_select.go","plugin/table/2_collect.go","plugin/table/3_render.go","plugin/table/table.go","plugin/table/utils.go","plugin/table/unescape.go"],
 [("span expansion","plugin/table/2_collect.go; utils.go"),("padding and alignment row","plugin/table/3_render.go"),("table selection and fallback","plugin/table/1_select.go; table.go")])
p("C10","The output is in normal form",
 "The Markdown never starts or ends with whitespace or newlines, never contains two consecutive blank lines outside of code blocks, no control placeholders, no line of a paragraph with trailing whitespace other than a hard line break of exactly two spaces (and the single space in front of an element without output, which the golden files have), and no carriage returns introduced by the conversion.",
 "inputs","all HTML documents",
 "Newlines come from every renderer and are cleaned up globally; the result depends on how the pieces meet.",
 ["plugin/base/base.go","internal/textutils/consecutive_newlines.go","internal/textutils/surrounding_spaces.go"],
 [("final trimming","plugin/base/base.go postRenderTrimContent"),("consecutive newlines","internal/textutils/consecutive_newlines.go")])
p("C11","Handlers run in priority order with try-next fallback",
 "For every set of registered handlers, pre-renderers, renderers, text transformers, post-renderers and un-escapers run in ascending priority; a renderer is consulted only until one succeeds, each sees what its predecessors produced, and if none succeeds the node's default rendering by tag type applies. Handlers registered at any time before a conversion take part in it.",
 "histories","all histories of registrations and conversions",
 "The order comes from sorting at conversion time over an arbitrary history of registrations.",
 ["converter/register.go","converter/prioritized.go","converter/convert.go","converter/render.go","converter/ctx.go"],
 [("sorted handler lists","converter/prioritized.go; register.go get*Handlers"),("render loop with RenderTryNext","converter/render.go")],
 state="prioritized handler lists of a converter")
p("C12","The winning tag type decides how an element is rendered",
 "For every history of tag type and renderer registrations the tag type with the lowest priority value wins, unregistered names fall back to inline/block defaults, and the element is rendered, collapsed and separated accordingly (block, inline or removed); RendererFor applies only to its tag and the given strategy renderers keep or unwrap the HTML.",
 "histories","all histories of TagType/RendererFor registrations",
 "The outcome depends on the whole registration history and on a node's surroundings.",
 ["converter/register.go","converter/ctx.go","plugin/base/base.go","plugin/base/renderers.go"],
 [("tag type lookup","converter/register.go getTagType"),("RendererFor, base.RenderAsHTML, base.RenderAsPlaintextWrapper","converter/register.go; plugin/base/renderers.go")])
p("C13","One converter is safe for concurrent use",
 "Conversions and registrations that run concurrently on one converter (handlers that register or convert included) never race, never deadlock and never corrupt each other: there is one common order of the registrations such that every handler list a conversion uses is, complete and in priority order, what was registered at some moment while it was looked up; and a conversion whose handlers the registrations do not affect returns what it returns alone, with its own options and state.",
 "schedules","all interleavings of conversions and registrations",
 "Races need particular interleavings, and the unit tests run single threaded.",
 ["converter/register.go","converter/converter.go","converter/convert.go","converter/prioritized.go"],
 [("RWMutex around the handler lists","converter/converter.go; register.go"),("handlers are copied before they are sorted","converter/register.go; prioritized.go")],
 state="converter.m and handler lists")
p("C14","Conversions are isolated and deterministic",
 "The result of a conversion depends only on its input, its per-call options and the handlers registered before it: repeating it, interleaving other conversions, failing or cancelled ones included, never changes it. Per-conversion state and context values set by handlers are visible in that conversion only.",
 "histories","all histories of conversions on one converter and on several",
 "State leaking between conversions needs two particular conversions after each other.",
 ["converter/convert.go","converter/ctx.go","converter/converter.go","convert.go"],
 [("global state created per conversion","converter/convert.go; ctx.go"),("context values","converter/ctx.go WithValue/GetState/SetState/UpdateState")])
p("C15","Invalid plugins, options and inputs give errors, never bad output",
 "A converter with an unnamed or failing plugin, a failing converter option, the commonmark plugin without the base plugin, no renderer at all, or an invalid plugin option value reports an error (one of those that occurred) on every conversion, also after further registrations, and returns no output; every valid combination of options is accepted.",
 "configurations","all combinations of plugins and option values",
 "Validation depends on combinations and order of plugins and options.",
 ["converter/converter.go","converter/plugin.go","converter/register.go","converter/convert.go","plugin/commonmark/validation.go","plugin/table/table.go"],
 [("registration errors are kept","converter/converter.go setError; register.go Plugin"),("option validation","plugin/commonmark/validation.go; plugin/table/table.go")])
p("C16","Every output option is honoured everywhere",
 "The configured emphasis, strong and strikethrough delimiters, bullet marker, code fence, divider, heading style, list end comment and link behaviours are used at every occurrence in the document, and changing only such an option never changes what a reader of the Markdown sees.",
 "configurations","all option combinations and documents",
 "An option can be ignored at one of many emission sites or in combination with another option.",
 ["plugin/commonmark/options.go","plugin/commonmark/commonmark.go","plugin/commonmark/render_heading.go","plugin/commonmark/render_list.go","plugin/commonmark/render_divider.go","plugin/strikethrough/strikethrough.go"],
 [("config is read by each renderer","plugin/commonmark/render_*.go")])
p("C17","The CLI never overwrites or mixes up files",
 "For every set of inputs and every prior content of the file system the CLI reads exactly the files that the pattern names and writes exactly their conversions to the documented output paths: two inputs never share an output, an input is never replaced before it was read, an existing file is never changed without --output-overwrite, no other file is touched, and a run that cannot do all of this fails with a message.",
 "histories","all histories of CLI runs over any directory contents",
 "The outcome depends on the prior file system state and on the set of inputs together.",
 ["cli/html2markdown/cmd/io_input.go","cli/html2markdown/cmd/io_output.go","cli/html2markdown/cmd/cli_run.go"],
 [("output type and name calculation","cli/html2markdown/cmd/io_output.go"),("exclusive create","cli/html2markdown/cmd/io_output.go WriteFile")],
 state="file system")
p("C18","Selectors choose exactly the documented content",
 "With --include-selector exactly the content of the matching elements is converted, once and in document order (also when matches are nested or several selectors match the same element), and with --exclude-selector no content of a matching element is converted; both are matched against the document as it was given. The output is the one of a document that consists of only the remaining parts, for every document and every selector (tags, classes, ids, attributes, combinators, positions, :not, groups, repeated flags).",
 "inputs","all documents and selectors",
 "Matches nest, overlap and depend on ancestors and siblings.",
 ["cli/html2markdown/cmd/cmd_convert.go"],
 [("include and exclude","cli/html2markdown/cmd/cmd_convert.go")])
p("C19","CLI flags act like the library options and errors are reported",
 "Every valid combination of flags produces the output of the library with the same options and plugins, on stdout or in the file of --output; flags of a plugin require that plugin; every invalid flag, value, selector, positional argument or input, and an output that cannot be written, ends with a non-zero exit code and a message on stderr (that names the flag if it cannot be parsed) while stdout stays empty and no file changes; --help and --version answer on stdout with exit code 0.",
 "configurations","all combinations of flags and inputs",
 "Flags interact (plugin required, input source, output type); only combinations reveal a gap.",
 ["cli/html2markdown/cmd/flags.go","cli/html2markdown/cmd/flags_categorize.go","cli/html2markdown/cmd/exec.go","cli/html2markdown/cmd/cli_run.go","cli/html2markdown/cmd/cmd_convert.go","cli/html2markdown/main.go"],
 [("flag parsing and validation","cli/html2markdown/cmd/flags.go; flags_categorize.go"),("conversion","cli/html2markdown/cmd/cmd_convert.go")])
p("C20","No visible content is lost, duplicated or reordered",
 "For any HTML, however malformed or nested, the words of all visible text appear in the Markdown exactly once and in document order, and text of removed elements (head, script, style, ...) and comments does not appear.",
 "inputs","all HTML inputs, including malformed ones",
 "Tree rewrites move, merge, rename and drop nodes; losing one needs particular nesting.",
 ["converter/render.go","plugin/base/base.go","internal/domutils","plugin/commonmark/handle_pre_render.go"],
 [("pre-render rewrites","internal/domutils; plugin/commonmark/handle_pre_render.go"),("fallback rendering","converter/render.go; plugin/base/renderers.go")])
p("C21","All entry points give the same result",
 "ConvertString, ConvertReader, ConvertNode and the package-level functions return the same Markdown for the same HTML and options, however the reader delivers its bytes, and pass reader errors on.",
 "inputs","all documents, chunkings of the reader and options",
 "Differences show only for particular documents, chunk boundaries or failing readers.",
 ["convert.go","converter/convert.go"],
 [("wrappers","convert.go; converter/convert.go")])
p("C22","Every input gives a result: no panic, no endless loop",
 "For every byte sequence and every combination of options and plugins the conversion returns, without panic, with either Markdown or an error, and valid UTF-8 gives valid UTF-8. Inputs of tens of kilobytes take seconds at most (unless a table asks for a grid of millions of cells).",
 "inputs","all byte sequences up to the parser's nesting limit, all plugin combinations",
 "Index arithmetic in escaping, fences, spans and trimming fails only on boundary inputs.",
 ["internal/escape","internal/textutils","internal/domutils","collapse/collapse.go","plugin/table"],
 [("look-around index arithmetic","internal/escape"),("span arithmetic","plugin/table/2_collect.go; utils.go")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P),[ (d['id'],len(d['title'])) for d in P if len(d['title'])>80])
