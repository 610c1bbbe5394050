package main

import (
	"encoding/json"
	"io"
	"regexp"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

type soupOpt struct {
	Table  bool `json:"table"`
	Strike bool `json:"strike"`
	Esc    bool `json:"esc"`
}

func soupConv(o soupOpt) *converter.Converter {
	p := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()}
	if o.Strike {
		p = append(p, strikethrough.NewStrikethroughPlugin())
	}
	if o.Table {
		p = append(p, table.NewTablePlugin())
	}
	if o.Esc {
		return converter.NewConverter(converter.WithPlugins(p...))
	}
	return converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled), converter.WithPlugins(p...))
}

// leaf is a text node (or a comment) of the parsed document with the names
// of the elements around it
type leaf struct {
	K  string     `json:"k"`
	W  []string   `json:"w"`
	Up []string   `json:"up"`
	X  []string   `json:"x"` // the elements that begin or end between the words before and these
	P  [][]string `json:"p"` // the elements around each whitespace between the words before and these
	G  []bool     `json:"g"` // is there whitespace in front of each word?
}

var wordRe = regexp.MustCompile(`[wc]\d+[xc]`)

type leafWalk struct {
	out   []leaf
	cross []string
	space [][]string
}

func hasSpace(s string) bool { return strings.ContainsAny(s, " \t\r\n\f") }

func (lw *leafWalk) walk(n *html.Node, up []string) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		switch c.Type {
		case html.TextNode, html.CommentNode, html.DoctypeNode:
			k := "text"
			if c.Type != html.TextNode {
				k = "comment"
			}
			pos := wordRe.FindAllStringIndex(c.Data, -1)
			if pos == nil {
				if k == "text" && hasSpace(c.Data) {
					lw.space = append(lw.space, up)
				}
				continue
			}
			l := leaf{K: k, Up: up, X: lw.cross, P: lw.space}
			lw.cross, lw.space = []string{}, [][]string{}
			end := 0
			for _, p := range pos {
				l.W = append(l.W, c.Data[p[0]:p[1]])
				l.G = append(l.G, hasSpace(c.Data[end:p[0]]))
				end = p[1]
			}
			if k == "text" && hasSpace(c.Data[end:]) {
				lw.space = append(lw.space, up)
			}
			lw.out = append(lw.out, l)
		case html.ElementNode:
			lw.cross = append(lw.cross, c.Data)
			lw.walk(c, append(append([]string{}, up...), c.Data))
			lw.cross = append(lw.cross, c.Data)
		}
	}
}

func init() {
	modes["soup"] = func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID   int     `json:"id"`
				HTML string  `json:"html"`
				Opt  soupOpt `json:"opt"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			doc, err := html.Parse(strings.NewReader(c.HTML))
			if err != nil {
				return err
			}
			lw := &leafWalk{[]leaf{}, []string{}, [][]string{}}
			lw.walk(doc, []string{})
			out, e := protect(func() (string, error) { return soupConv(c.Opt).ConvertString(c.HTML) })
			if err := enc.Encode(map[string]any{"id": c.ID, "html": c.HTML, "opt": c.Opt, "leaves": lw.out, "out": lines(out), "err": e}); err != nil {
				return err
			}
		}
	}
}
