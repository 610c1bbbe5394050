package main

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// with applies an option whose type is not exported
func with[T ~string, O any](f func(T) O, v string) O { return f(T(v)) }

func cmOptions(v func(string) string) []commonmark.OptionFunc {
	return []commonmark.OptionFunc{
		with(commonmark.WithEmDelimiter, v("em")), with(commonmark.WithStrongDelimiter, v("strong")),
		with(commonmark.WithHorizontalRule, v("hr")), with(commonmark.WithBulletListMarker, v("bullet")),
		with(commonmark.WithCodeBlockFence, v("fence")), with(commonmark.WithHeadingStyle, v("head")),
		with(commonmark.WithLinkEmptyHrefBehavior, v("ehref")), with(commonmark.WithLinkEmptyContentBehavior, v("econt")),
	}
}

func init() {
	modes["options"] = func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID int                 `json:"id"`
				O  map[string][]string `json:"o"`
				F  map[string][]string `json:"f"` // is given first
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			v := func(n string) string { return str(c.O[n]) }
			f := func(n string) string { return str(c.F[n]) }
			pick := func(n string) string { // given twice or only once
				if len(c.F[n]) > 0 {
					return f(n)
				}
				return v(n)
			}
			var conv *converter.Converter
			errs := []string{}
			var out string
			_, e := protect(func() (string, error) {
				conv = converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(),
					commonmark.NewCommonmarkPlugin(append(cmOptions(pick), cmOptions(v)...)...),
					strikethrough.NewStrikethroughPlugin(),
					table.NewTablePlugin(with(table.WithSpanCellBehavior, pick("span")), with(table.WithNewlineBehavior, pick("nl")), with(table.WithCellPaddingBehavior, pick("pad")),
						with(table.WithSpanCellBehavior, v("span")), with(table.WithNewlineBehavior, v("nl")), with(table.WithCellPaddingBehavior, v("pad")))))
				return "", nil
			})
			if e != "" {
				errs = append(errs, "PANIC")
			}
			for k := 0; k < 3 && e == ""; k++ {
				o, e2 := protect(func() (string, error) { return conv.ConvertString("<p>a</p><hr><p>b</p>") })
				if strings.HasPrefix(e2, "PANIC") || strings.HasPrefix(e2, "HANG") {
					e2 = "PANIC"
				}
				errs = append(errs, e2)
				out += o
				if k < 2 && e2 == "" {
					out = ""
				}
				// registering something afterwards does not repair it
				conv.Register.TagType("x-a", converter.TagTypeInline, converter.PriorityStandard)
			}
			if err := enc.Encode(map[string]any{"id": c.ID, "o": c.O, "f": c.F, "errs": errs, "out": lines(out)}); err != nil {
				return err
			}
		}
	}
}
