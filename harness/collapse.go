package main

import (
	"encoding/json"
	"io"

	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"golang.org/x/net/html"
)

type wsTok struct {
	K string   `json:"k"`
	E string   `json:"e"`
	S []string `json:"s"`
}

// the tree is built directly, so that every nesting is possible
func wsTree(toks []wsTok) *html.Node {
	root := &html.Node{Type: html.DocumentNode}
	cur := root
	for _, t := range toks {
		switch t.K {
		case "o":
			n := &html.Node{Type: html.ElementNode, Data: t.E}
			cur.AppendChild(n)
			cur = n
		case "c":
			cur = cur.Parent
		case "v":
			cur.AppendChild(&html.Node{Type: html.ElementNode, Data: t.E})
		case "t":
			cur.AppendChild(&html.Node{Type: html.TextNode, Data: str(t.S)})
		case "m":
			cur.AppendChild(&html.Node{Type: html.CommentNode, Data: " hidden "})
		case "d":
			cur.AppendChild(&html.Node{Type: html.DoctypeNode, Data: "html"})
		}
	}
	return root
}
func wsToks(n *html.Node) []wsTok {
	o := []wsTok{}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		switch c.Type {
		case html.TextNode:
			o = append(o, wsTok{"t", "", chars(c.Data)})
		case html.CommentNode:
			o = append(o, wsTok{"m", "", []string{}})
		case html.DoctypeNode:
			o = append(o, wsTok{"d", "", []string{}})
		case html.ElementNode:
			if c.FirstChild == nil {
				o = append(o, wsTok{"v", c.Data, []string{}})
				continue
			}
			o = append(o, wsTok{"o", c.Data, []string{}})
			o = append(o, wsToks(c)...)
			o = append(o, wsTok{"c", "", []string{}})
		}
	}
	return o
}
func nameIn(names ...string) func(n *html.Node) bool {
	return func(n *html.Node) bool {
		for _, x := range names {
			if n.Data == x {
				return true
			}
		}
		return false
	}
}

func init() {
	modes["collapse"] = func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID    int     `json:"id"`
				Toks  []wsTok `json:"toks"`
				Kinds string  `json:"kinds"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			outs := [][]wsTok{}
			_, e := protect(func() (string, error) {
				var f *collapse.DomFuncs
				if c.Kinds == "swap" {
					f = &collapse.DomFuncs{IsBlockNode: nameIn("span", "x-y", "li"), IsVoidNode: nameIn("img"), IsPreformattedNode: nameIn("pre", "code")}
				}
				tree := wsTree(c.Toks)
				for k := 0; k < 2; k++ {
					collapse.Collapse(tree, f)
					outs = append(outs, wsToks(tree))
				}
				return "", nil
			})
			if err := enc.Encode(map[string]any{"id": c.ID, "toks": c.Toks, "kinds": c.Kinds, "outs": outs, "err": e}); err != nil {
				return err
			}
		}
	}
}
