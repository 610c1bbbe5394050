package main

import (
	"encoding/hex"
	"encoding/json"
	"io"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

type robustOpt struct {
	Table   bool   `json:"table"`
	Strike  bool   `json:"strike"`
	Esc     bool   `json:"esc"`
	Dom     string `json:"dom"`
	Head    string `json:"head"`
	Lec     bool   `json:"lec"`
	Span    string `json:"span"`
	Nl      string `json:"nl"`
	Skip    bool   `json:"skip"`
	Promote bool   `json:"promote"`
	Pres    bool   `json:"pres"`
	Pad     string `json:"pad"`
	Ehref   string `json:"ehref"`
	Econt   string `json:"econt"`
}

func (o robustOpt) convert(src string) (string, error) {
	style := commonmark.HeadingStyleATX
	if o.Head == "setext" {
		style = commonmark.HeadingStyleSetext
	}
	p := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHeadingStyle(style), commonmark.WithListEndComment(o.Lec))}
	if o.Strike {
		p = append(p, strikethrough.NewStrikethroughPlugin())
	}
	if o.Table {
		p = append(p, table.NewTablePlugin(
			table.WithSpanCellBehavior(table.SpanCellBehavior(o.Span)), table.WithNewlineBehavior(table.NewlineBehavior(o.Nl)),
			table.WithSkipEmptyRows(o.Skip), table.WithHeaderPromotion(o.Promote), table.WithPresentationTables(o.Pres)))
	}
	opts := []func(c *converter.Converter) error{}
	if !o.Esc {
		opts = append(opts, converter.WithEscapeMode(converter.EscapeModeDisabled))
	}
	conv := converter.NewConverter(append(opts, converter.WithPlugins(p...))...)
	if o.Dom != "" {
		return conv.ConvertString(src, converter.WithDomain(o.Dom))
	}
	return conv.ConvertString(src)
}

var byteRe = regexp.MustCompile(`\{[0-9a-f]{2}\}`)

func init() {
	modes["robust"] = func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID   int       `json:"id"`
				HTML string    `json:"html"`
				Pre  string    `json:"pre"`
				Post string    `json:"post"`
				Rep  int       `json:"rep"`
				Opt  robustOpt `json:"opt"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			bytes := func(s string) string {
				return byteRe.ReplaceAllStringFunc(s, func(x string) string {
					b, _ := hex.DecodeString(x[1:3])
					return string(b)
				})
			}
			src := bytes(c.Pre) + strings.Repeat(bytes(c.HTML), c.Rep) + bytes(c.Post)
			_, perr := html.Parse(strings.NewReader(src))
			t0 := time.Now()
			out, e := protect(func() (string, error) { return c.Opt.convert(src) })
			ms := time.Since(t0).Milliseconds()
			if ms > 4000 && e == "" { // once more: the machine may have been busy
				t0 = time.Now()
				protect(func() (string, error) { return c.Opt.convert(src) })
				ms = min(ms, time.Since(t0).Milliseconds())
			}
			if err := enc.Encode(map[string]any{"id": c.ID, "html": c.HTML, "pre": c.Pre, "post": c.Post, "rep": c.Rep, "opt": c.Opt, "err": e, "perr": perr != nil,
				"crash": strings.HasPrefix(e, "PANIC") || strings.HasPrefix(e, "HANG"), "ms": ms, "len": len(src),
				"utf8": utf8.ValidString(out) || !utf8.ValidString(src)}); err != nil {
				return err
			}
		}
	}
}
