package main

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// The destination of a link and of an image, for a reference and a domain.
// All conversions share one converter.

func bytesOf(s string) []int {
	is := []int{}
	for i := 0; i < len(s); i++ {
		is = append(is, int(s[i]))
	}
	return is
}

func urlDoc(tag string, ref string) *html.Node {
	doc := &html.Node{Type: html.DocumentNode}
	n := &html.Node{Type: html.ElementNode, Data: tag, DataAtom: atom.Lookup([]byte(tag))}
	if tag == "a" {
		n.Attr = []html.Attribute{{Key: "href", Val: ref}}
		n.AppendChild(&html.Node{Type: html.TextNode, Data: "x"})
	} else {
		n.Attr = []html.Attribute{{Key: "alt", Val: "x"}, {Key: "src", Val: ref}}
	}
	doc.AppendChild(n)
	return doc
}

func init() {
	modes["url"] = func(dec *json.Decoder, enc *json.Encoder) error {
		conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
		for {
			var c struct {
				ID  int    `json:"id"`
				Ref string `json:"ref"`
				Dom string `json:"dom"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			outs := [][]int{}
			e := ""
			for _, tag := range []string{"a", "img"} {
				out, err := protect(func() (string, error) {
					var opts []converter.ConvertOptionFunc
					if c.Dom != "" {
						opts = append(opts, converter.WithDomain(c.Dom))
					}
					b, err := conv.ConvertNode(urlDoc(tag, c.Ref), opts...)
					return strings.Trim(string(b), "\n"), err
				})
				e += err
				outs = append(outs, bytesOf(out))
			}
			if err := enc.Encode(map[string]any{"id": c.ID, "ref": bytesOf(c.Ref), "dom": bytesOf(c.Dom), "outs": outs, "err": e}); err != nil {
				return err
			}
		}
	}
}
