package main

import (
	"encoding/json"
	"io"
	"strconv"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

type tblCell struct {
	Th bool   `json:"th"`
	Al string `json:"al"`
	Cs int    `json:"cs"`
	Rs int    `json:"rs"`
	Ct []tok  `json:"ct"`
}
type tblRow struct {
	Sec   string    `json:"sec"`
	Cells []tblCell `json:"cells"`
}
type tbl struct {
	Ctx  string   `json:"ctx"`
	Role string   `json:"role"`
	Cap  []tok    `json:"cap"`
	Rows []tblRow `json:"rows"`
	Opt  struct {
		Span    string `json:"span"`
		Nl      string `json:"nl"`
		Skip    bool   `json:"skip"`
		Promote bool   `json:"promote"`
		Pres    bool   `json:"pres"`
		Pad     string `json:"pad"`
	} `json:"opt"`
}

func renderTbl(t tbl, id int) string {
	var b strings.Builder
	b.WriteString("<table")
	if t.Role != "" {
		b.WriteString(` role="` + t.Role + `"`)
	}
	b.WriteString(">")
	if len(t.Cap) > 0 {
		b.WriteString("<caption>" + renderToks(t.Cap, id) + "</caption>")
	}
	// elements without any rows have no meaning for the grid
	hasHead := false
	for _, r := range t.Rows {
		hasHead = hasHead || r.Sec == "thead"
	}
	switch {
	case id%6 == 1 && !hasHead:
		b.WriteString("<thead></thead>")
	case id%6 == 2:
		b.WriteString("<colgroup><col><col span=2></colgroup>")
	case id%6 == 3 && !hasHead:
		b.WriteString("<thead>\n</thead><tbody> </tbody>")
	}
	open := "tr"
	for _, r := range t.Rows {
		if r.Sec != open {
			if open != "tr" {
				b.WriteString("</" + open + ">")
			}
			if r.Sec != "tr" {
				b.WriteString("<" + r.Sec + ">")
			}
			open = r.Sec
		}
		b.WriteString([]string{"<tr>", "<tr>", "<tr class=\"x\">", "<TR>"}[id%4])
		for _, c := range r.Cells {
			n := "td"
			if c.Th {
				n = "th"
			}
			b.WriteString("<" + n)
			if c.Al != "" {
				b.WriteString(` align="` + c.Al + `"`)
			}
			if c.Cs != 1 {
				b.WriteString(` colspan="` + strconv.Itoa(c.Cs) + `"`)
			}
			if c.Rs != 1 {
				b.WriteString(` rowspan="` + strconv.Itoa(c.Rs) + `"`)
			}
			b.WriteString(">" + renderToks(c.Ct, id) + "</" + n + ">")
		}
		b.WriteString("</tr>")
	}
	if open != "tr" {
		b.WriteString("</" + open + ">")
	}
	b.WriteString("</table>")
	s := b.String()
	switch t.Ctx {
	case "top":
	case "quote":
		s = "<blockquote>" + s + "</blockquote>"
	case "li":
		s = "<ul><li>" + s + "</li></ul>"
	default:
		s = "<" + t.Ctx + ">" + s + "</" + t.Ctx + ">"
	}
	return "<p>before</p>" + s + "<p>after</p>"
}

func init() {
	modes["table"] = func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID int `json:"id"`
				T  tbl `json:"t"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			src := renderTbl(c.T, c.ID)
			out, e := protect(func() (string, error) {
				conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(),
					strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin(
						table.WithSpanCellBehavior(table.SpanCellBehavior(c.T.Opt.Span)),
						table.WithNewlineBehavior(table.NewlineBehavior(c.T.Opt.Nl)),
						table.WithSkipEmptyRows(c.T.Opt.Skip),
						table.WithHeaderPromotion(c.T.Opt.Promote),
						table.WithPresentationTables(c.T.Opt.Pres),
						table.WithCellPaddingBehavior(table.CellPaddingBehavior(c.T.Opt.Pad)))))
				return conv.ConvertString(src)
			})
			if err := enc.Encode(map[string]any{"id": c.ID, "t": c.T, "html": src, "out": lines(out), "err": e}); err != nil {
				return err
			}
		}
	}
}
