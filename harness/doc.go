package main

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

type tok struct {
	K string   `json:"k"`
	E string   `json:"e"`
	S []string `json:"s"`
	A []string `json:"a"`
	B []string `json:"b"`
}

type docCfg struct {
	Em     string `json:"em"`
	Strong string `json:"strong"`
	Hr     string `json:"hr"`
	Bullet string `json:"bullet"`
	Fence  string `json:"fence"`
	Head   string `json:"head"`
	Lec    bool   `json:"lec"`
	Del    string `json:"del"`
	Esc    bool   `json:"esc"`
	Strike bool   `json:"strike"`
	Table  bool   `json:"table"`
	Ehref  string `json:"ehref"`
	Econt  string `json:"econt"`
}

var htmlEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\u00a0", "&nbsp;", "\r", "&#13;")
var attrEsc = strings.NewReplacer("&", "&amp;", "\"", "&quot;", "\u00a0", "&nbsp;", "\r", "&#13;")

// The notation does not matter for the meaning of a document. So depending on the id
// of the case, the elements have attributes that say nothing about the content (2)
// or the tags are written in capital letters, with other quotes (3).
// In code blocks there are line break elements (1) or spans (2).
var noiseAttrs = []string{"", ` class="hl x1"`, ` id="n1" data-k="a>b"`, ` style="color: red"`, "", ` title="n" lang=en`, ` dir="rtl" hidden`}

func renderToks(toks []tok, id int) string {
	var b strings.Builder
	noise := id % 4
	extra := func(i int, e string) string {
		a := noiseAttrs[(id/4+i)%len(noiseAttrs)]
		if noise != 2 || e == "a" && strings.Contains(a, "title") {
			return ""
		}
		return a
	}
	tag := func(s string) string {
		if noise == 3 {
			return strings.ToUpper(s)
		}
		return s
	}
	var st []string
	attr := func(name string, v []string) {
		if len(v) > 0 {
			if noise == 3 && !strings.Contains(str(v), "'") {
				b.WriteString("\n" + strings.ToUpper(name) + " = '" + attrEsc.Replace(str(v)) + "'")
				return
			}
			b.WriteString(" " + name + `="` + attrEsc.Replace(str(v)) + `"`)
		}
	}
	for i, t := range toks {
		switch t.K {
		case "o":
			b.WriteString("<" + tag(t.E))
			switch t.E {
			case "a":
				b.WriteString(` href="` + attrEsc.Replace(str(t.A)) + `"`)
				attr("title", t.B)
			case "ol":
				attr("start", t.A)
			}
			b.WriteString(extra(i, t.E) + ">")
			st = append(st, t.E)
		case "c":
			b.WriteString("</" + tag(st[len(st)-1]) + ">")
			st = st[:len(st)-1]
		case "t":
			b.WriteString(htmlEsc.Replace(str(t.S)))
		case "v":
			switch t.E {
			case "img":
				b.WriteString(`<img src="` + attrEsc.Replace(str(t.A)) + `"`)
				attr("title", t.B)
				attr("alt", t.S)
				b.WriteString(">")
			case "#comment":
				b.WriteString("<!-- hidden -->")
			case "script":
				b.WriteString("<script>var hidden = 1 < 2;</script>")
			case "style":
				b.WriteString("<style>p { hidden: 1 }</style>")
			case "meta":
				b.WriteString(`<meta name="hidden" content="hidden">`)
			case "input":
				b.WriteString(`<input type="checkbox" value="hidden">`)
			default:
				b.WriteString("<" + tag(t.E) + extra(i, t.E) + ">")
			}
		case "p":
			b.WriteString("<pre")
			attr("class", t.B)
			b.WriteString("><code")
			attr("class", t.A)
			code := htmlEsc.Replace(str(t.S))
			switch noise {
			case 1: // every second newline as an element
				parts := strings.Split(code, "\n")
				code = parts[0]
				for k, p := range parts[1:] {
					code += []string{"<br>", "\n"}[k%2] + p
				}
			case 2, 3: // highlighted
				open, end := `<span class="k">`, "</span>"
				if noise == 3 {
					open, end = "<b><kbd>", "</kbd></b>"
				}
				parts := strings.Split(code, " ")
				for k := range parts {
					if parts[k] != "" && k%2 == 1 {
						parts[k] = open + parts[k] + end
					}
				}
				code = strings.Join(parts, " ")
			}
			b.WriteString(">" + code + "</code></pre>")
		}
	}
	return b.String()
}

func newConv(c docCfg) *converter.Converter {
	var opts []commonmark.OptionFunc
	opts = append(opts,
		commonmark.WithEmDelimiter(c.Em), commonmark.WithStrongDelimiter(c.Strong), commonmark.WithHorizontalRule(c.Hr),
		commonmark.WithBulletListMarker(c.Bullet), commonmark.WithListEndComment(c.Lec), commonmark.WithCodeBlockFence(c.Fence))
	if c.Head == "setext" {
		opts = append(opts, commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext))
	}
	if c.Ehref == "skip" {
		opts = append(opts, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip))
	}
	if c.Econt == "skip" {
		opts = append(opts, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip))
	}
	plugins := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(opts...)}
	if c.Strike {
		plugins = append(plugins, strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(c.Del)))
	}
	if c.Table {
		plugins = append(plugins, table.NewTablePlugin())
	}
	if c.Esc {
		return converter.NewConverter(converter.WithPlugins(plugins...))
	}
	return converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled), converter.WithPlugins(plugins...))
}

func init() {
	// doc: a token stream and options -> the lines of the markdown
	modes["doc"] = docMode(false)
	// doc2: also without escaping
	modes["doc2"] = docMode(true)
}

func docMode(raw bool) func(dec *json.Decoder, enc *json.Encoder) error {
	return func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID   int             `json:"id"`
				Toks []tok           `json:"toks"`
				Cfg  docCfg          `json:"cfg"`
				Raw  json.RawMessage `json:"-"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			src := renderToks(c.Toks, c.ID)
			out, e := protect(func() (string, error) { return newConv(c.Cfg).ConvertString(src) })
			rec := map[string]any{"id": c.ID, "toks": c.Toks, "cfg": c.Cfg, "html": src, "out": lines(out), "cr": strings.Contains(out, "\r"), "err": e}
			if raw {
				cfg := c.Cfg
				cfg.Esc = false
				out2, e2 := protect(func() (string, error) { return newConv(cfg).ConvertString(src) })
				rec["raw"] = lines(out2)
				if e == "" {
					rec["err"] = e2
				}
			}
			if err := enc.Encode(rec); err != nil {
				return err
			}
		}
	}
}
