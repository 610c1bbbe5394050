// Development tool: cross-validates the TLA+ Markdown reader against goldmark.
// Reads nothing; prints ndjson records {id, lines, exp} for random Markdown.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"html"
	"math/rand"
	"os"
	"strings"

	"github.com/yuin/goldmark"
	"github.com/yuin/goldmark/ast"
	"github.com/yuin/goldmark/extension"
	east "github.com/yuin/goldmark/extension/ast"
	"github.com/yuin/goldmark/text"
)

type M = map[string]any

var links []any
var nlink int

func name(r rune) string {
	switch r {
	case '\n':
		return "NL"
	case '\t':
		return "TAB"
	case '\u00a0':
		return "NBSP"
	}
	return string(r)
}
func chars(s string) []string {
	o := []string{}
	for _, r := range s {
		o = append(o, name(r))
	}
	return o
}
func unesc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && strings.ContainsRune("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", rune(s[i+1])) {
			i++
		} else if s[i] == '&' {
			if k := strings.IndexByte(s[i:], ';'); k > 0 {
				u := html.UnescapeString(s[i : i+k+1])
				if u != s[i:i+k+1] {
					b.WriteString(u)
					i += k
					continue
				}
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

type at struct {
	C string   `json:"c"`
	S []string `json:"s"`
	L int      `json:"l"`
}

func add(o *[]at, s string, st []string, l int) {
	for _, r := range s {
		*o = append(*o, at{name(r), append([]string{}, st...), l})
	}
}
func plain(n ast.Node, src []byte) string {
	s := ""
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		switch x := c.(type) {
		case *ast.Text:
			t := string(x.Segment.Value(src))
			if n.Kind() != ast.KindCodeSpan {
				t = unesc(t)
			} 
			s += t
			if x.SoftLineBreak() {
				s += " "
			}
		case *ast.RawHTML:
		case *ast.AutoLink:
		case *ast.String:
			s += string(x.Value)
		default:
			s += plain(c, src)
		}
	}
	return s
}
func inl(n ast.Node, src []byte, st []string, l int, o *[]at) {
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		switch x := c.(type) {
		case *ast.Text:
			t := string(x.Segment.Value(src))
			code := n.Kind() == ast.KindCodeSpan
			if !code {
				t = unesc(t)
			}
			add(o, t, st, l)
			if x.HardLineBreak() {
				*o = append(*o, at{"BR", []string{}, 0})
			} else if x.SoftLineBreak() {
				*o = append(*o, at{" ", []string{}, 0})
			}
		case *ast.String:
			add(o, string(x.Value), st, l)
		case *ast.CodeSpan:
			inl(x, src, append(append([]string{}, st...), "C"), l, o)
		case *ast.Emphasis:
			k := "I"
			if x.Level == 2 {
				k = "B"
			}
			inl(x, src, append(append([]string{}, st...), k), l, o)
		case *east.Strikethrough:
			inl(x, src, append(append([]string{}, st...), "S"), l, o)
		case *ast.Link:
			nlink++
			m := nlink
			links = append(links, M{"im": false, "dest": chars(unesc(string(x.Destination))), "title": chars(unesc(string(x.Title))), "alt": []string{}})
			inl(x, src, st, m, o)
		case *ast.Image:
			nlink++
			links = append(links, M{"im": true, "dest": chars(unesc(string(x.Destination))), "title": chars(unesc(string(x.Title))), "alt": chars(plain(x, src))})
			*o = append(*o, at{"IMG", append([]string{}, st...), nlink})
		case *ast.AutoLink:
			add(o, string(x.Label(src)), append(append([]string{}, st...), "AUTO"), l)
		case *ast.RawHTML:
			s := ""
			for i := 0; i < x.Segments.Len(); i++ {
				sg := x.Segments.At(i)
				s += string(sg.Value(src))
			}
			if strings.HasPrefix(s, "<!--") {
				continue
			}
			add(o, s, append(append([]string{}, st...), "HTML"), l)
		default:
			add(o, "?"+c.Kind().String(), st, l)
		}
	}
}
func inline(n ast.Node, src []byte) ([]at, []any) {
	links = []any{}
	nlink = 0
	o := []at{}
	inl(n, src, nil, 0, &o)
	return o, links
}

func blocks(n ast.Node, src []byte, out *[]any) {
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		switch x := c.(type) {
		case *ast.Paragraph, *ast.TextBlock:
			a, l := inline(c, src)
			*out = append(*out, M{"e": "para", "at": a, "lk": l})
		case *ast.Heading:
			a, l := inline(c, src)
			*out = append(*out, M{"e": "head", "n": x.Level, "at": a, "lk": l})
		case *ast.ThematicBreak:
			*out = append(*out, M{"e": "hr"})
		case *ast.FencedCodeBlock, *ast.CodeBlock:
			ls := []any{}
			for i := 0; i < c.Lines().Len(); i++ {
				sg := c.Lines().At(i)
				ls = append(ls, chars(strings.TrimSuffix(string(sg.Value(src)), "\n")))
			}
			info := ""
			if f, ok := c.(*ast.FencedCodeBlock); ok && f.Info != nil {
				info = unesc(string(f.Info.Segment.Value(src)))
			}
			*out = append(*out, M{"e": "code", "info": chars(info), "ls": ls})
		case *ast.HTMLBlock:
			s := ""
			for i := 0; i < x.Lines().Len(); i++ {
				sg := x.Lines().At(i)
				s += string(sg.Value(src))
			}
			if x.HasClosure() {
				s += string(x.ClosureLine.Value(src))
			}
			*out = append(*out, M{"e": "html", "s": chars(strings.TrimSuffix(s, "\n"))})
		case *ast.Blockquote:
			*out = append(*out, M{"e": "open", "k": "q"})
			blocks(c, src, out)
			*out = append(*out, M{"e": "close", "k": "q"})
		case *ast.List:
			st := 0
			if x.IsOrdered() {
				st = x.Start
			}
			*out = append(*out, M{"e": "open", "k": "l", "o": x.IsOrdered(), "n": st})
			blocks(c, src, out)
			*out = append(*out, M{"e": "close", "k": "l"})
		case *ast.ListItem:
			*out = append(*out, M{"e": "open", "k": "i"})
			blocks(c, src, out)
			*out = append(*out, M{"e": "close", "k": "i"})
		case *east.Table:
			al := []string{}
			for _, a := range x.Alignments {
				al = append(al, a.String())
			}
			rows := []any{}
			for r := c.FirstChild(); r != nil; r = r.NextSibling() {
				row := []any{}
				for d := r.FirstChild(); d != nil; d = d.NextSibling() {
					a, l := inline(d, src)
					row = append(row, M{"at": a, "lk": l})
				}
				rows = append(rows, row)
			}
			*out = append(*out, M{"e": "table", "al": al, "rows": rows})
		default:
			*out = append(*out, M{"e": "?" + c.Kind().String()})
		}
	}
}

func main() {
	n := flag.Int("n", 1000, "")
	seed := flag.Int64("s", 1, "")
	l := flag.Int("l", 14, "")
	mode := flag.String("mode", "all", "")
	flag.Parse()
	r := rand.New(rand.NewSource(*seed))
	toks := map[string][]string{
		"all":    {"a", "b", " ", " ", "\n", "\n", "*", "**", "_", "`", "```", "~", "~~", "~~~", "[", "]", "(", ")", "[x](/u)", "![a](i \"t\")", "!", "\\", "\\\n", "  \n", "#", "## ", "- ", "+ ", "1. ", "2) ", "> ", ">", "---", "===", "\n\n", "    ", "  ", "|", "|-|-|", "<", "<b>", "<!--x-->", "&lt;", "\"", "'", ":", "-", "1", "=", ".", "* * *", "\t"},
		"inline": {"a", "b", " ", "*", "*", "**", "***", "_", "__", "`", "``", "~", "~~", "[", "](", ")", "](/u)", "![", "!", "\\", "\n", "\\\n", "(", "<b>", "<http://a.b>", "&lt;", ".", "\"", "'"},
		"block":  {"a", "b", "x y", "\n", "\n", "\n", "# ", "## ", "- ", "+ ", "1. ", "2) ", "> ", ">", "---", "===", "\n\n", "    ", "  ", "   ", " ", "```", "~~~", "<div>", "<!--x-->", "-", "*", "\t", "``` go", "\n  ", "\n    ", "\n> ", "\n- ", "\n\n  ", "\n\n    "},
		"table":  {"a", "b", " ", "\n", "|", "| ", "|-|-|", "|:-|-:|\n", "|a|b|\n", "\\|", "---|---\n", "a|b\n", "`", "- ", "*", "\n\n", ":-:"},
	}[*mode]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	md := goldmark.New(goldmark.WithExtensions(extension.Strikethrough, extension.Table))
	for i := 0; i < *n; i++ {
		s := ""
		for j := 0; j < 1+r.Intn(*l); j++ {
			s += toks[r.Intn(len(toks))]
		}
		if !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		doc := md.Parser().Parse(text.NewReader([]byte(s)))
		out := []any{}
		blocks(doc, []byte(s), &out)
		lines := [][]string{}
		for _, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
			lines = append(lines, chars(x))
		}
		enc.Encode(M{"id": fmt.Sprint(i), "src": s, "lines": lines, "exp": out})
	}
}
